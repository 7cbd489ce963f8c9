"""Independent reference implementation of spey's documented models (numpy/scipy only).

Nothing here imports spey except `build`, which turns a plain-data spec into the real model.
"""
import numpy as np
from scipy.optimize import brentq, minimize
from scipy.special import gammaln

LOG2PI = np.log(2.0 * np.pi)

DEFAULT_KINDS = ["ub", "cb", "tm", "es"]
SIMPLE_KINDS = ["poi", "poiabs", "gau", "mvn"]
NAMES = {
    "ub": "default.uncorrelated_background",
    "cb": "default.correlated_background",
    "tm": "default.third_moment_expansion",
    "es": "default.effective_sigma",
    "poi": "default.poisson",
    "poiabs": "default.poisson",
    "gau": "default.normal",
    "mvn": "default.multivariate_normal",
}


# ---------------------------------------------------------------- generation
def rand_corr(rng, n, strength=None):
    if n == 1:
        return np.ones((1, 1))
    strength = rng.uniform(0.0, 0.9) if strength is None else strength
    a = rng.normal(size=(n, n + 2))
    c = a @ a.T
    d = np.sqrt(np.diag(c))
    c = c / d[:, None] / d[None, :]
    c = strength * c + (1 - strength) * np.eye(n)
    return (c + c.T) / 2


def skew_max(var):
    return np.sqrt(8.0 * var**3)


def gen_spec(
    rng,
    kinds=None,
    nmax=4,
    nmin=1,
    modifiers=None,
    callable_sig=None,
    zero_signal=True,
    zero_data=True,
    scale=(2.0, 300.0),
    rel=(0.05, 0.4),
    sb=(0.05, 1.0),
    regime=None,
    int_data=True,
):
    """A random model specification as plain Python data."""
    kinds = kinds or (DEFAULT_KINDS + SIMPLE_KINDS)
    kind = kinds[rng.integers(len(kinds))]
    n = int(rng.integers(nmin, nmax + 1))
    b = np.exp(rng.uniform(np.log(scale[0]), np.log(scale[1]), n))
    s = b * np.exp(rng.uniform(np.log(sb[0]), np.log(sb[1]), n))
    if zero_signal and n > 1 and rng.random() < 0.3:
        s[rng.integers(n)] = 0.0
    relu = rng.uniform(rel[0], rel[1], n)
    regime = regime or ["background", "excess", "deficit", "signal", "zeros"][rng.integers(5)]
    sd = np.sqrt(b + (relu * b) ** 2)
    if regime == "background":
        d = rng.poisson(b)
    elif regime == "excess":
        d = rng.poisson(b + rng.uniform(1, 4) * sd)
    elif regime == "deficit":
        d = rng.poisson(np.clip(b - rng.uniform(0.5, 2.5) * sd, 0.2 * b, None))
    elif regime == "signal":
        d = rng.poisson(b + rng.uniform(0.3, 2.0) * s)
    else:
        d = rng.poisson(b)
        if zero_data:
            d[rng.integers(n)] = 0
    if not zero_data:
        d = np.maximum(d, 1)
    d = d.astype(float)
    if kind in ("gau", "mvn"):
        d = d + (0.0 if int_data and rng.random() < 0.5 else rng.normal(0, 0.3, n))
    spec = {
        "kind": kind,
        "n": n,
        "b": [float(round(x, 4)) for x in b],
        "s": [float(round(x, 4)) for x in s],
        "d": [float(round(x, 4)) for x in d],
        "regime": regime,
        "nsp": 0,
        "sigfn": None,
        "mods": None,
    }
    sig = np.round(relu * b, 4)
    sig = np.maximum(sig, 0.01)
    spec["unc"] = sig.tolist()
    if kind in ("cb", "tm", "mvn"):
        corr = rand_corr(rng, n)
        if kind == "mvn":
            sig = np.sqrt(b + sig**2)
        spec["cov"] = (corr * np.outer(sig, sig)).tolist()
        spec["cov"] = ((np.array(spec["cov"]) + np.array(spec["cov"]).T) / 2).tolist()
    if kind == "gau":
        spec["unc"] = np.round(np.sqrt(b + sig**2), 4).tolist()
    if kind == "tm":
        f = rng.uniform(-0.45, 0.45, n)
        if rng.random() < 0.3:
            f[rng.integers(n)] = 0.0
        spec["m3"] = (f * skew_max(np.diag(np.array(spec["cov"])))).tolist()
        # keep the correlation problem admissible: positive definite rho
        try:
            A, B, C, rho = ref_third_moment(spec["b"], spec["cov"], spec["m3"])
            if np.min(np.linalg.eigvalsh(rho)) < 1e-3 or np.any(A <= 0.0):
                raise ValueError
        except (ValueError, np.linalg.LinAlgError):
            spec["m3"] = (0.05 * np.sign(f) * skew_max(np.diag(np.array(spec["cov"])))).tolist()
    if kind == "es":
        spec["corr"] = rand_corr(rng, n).tolist()
        up = sig * rng.uniform(0.9, 1.05, n)
        dn = sig * rng.uniform(0.95, 1.1, n)
        if rng.random() < 0.4:
            dn = up
        spec["env"] = [[float(round(u, 4)), float(round(v, 4))] for u, v in zip(up, dn)]
    if modifiers is None:
        modifiers = kind in DEFAULT_KINDS and rng.random() < 0.3
    if callable_sig is None:
        callable_sig = (not modifiers) and kind not in ("poi", "poiabs") and rng.random() < 0.25
    if modifiers and kind in DEFAULT_KINDS:
        spec["mods"] = gen_mods(rng, s)
        if rng.random() < 0.2:
            spec["nsp"] = int(rng.integers(1, 3))  # inert extra parameters
            spec["spb"] = None
    elif callable_sig:
        fn = ["const", "lin", "quad"][rng.integers(3)]
        spec["nsp"] = 0 if fn == "const" else int(rng.integers(1, 3))
        spec["sigfn"] = fn
        spec["s1"] = (
            np.round(rng.uniform(-0.3, 0.3, (max(spec["nsp"], 1), n)) * s, 4).tolist()
        )
        if spec["nsp"]:
            spec["spb"] = [[-2.0, 2.0]] * spec["nsp"]
    return spec


def gen_mods(rng, s, nmods=None):
    s = np.asarray(s)
    mods = []
    for i in range(int(rng.integers(1, 3)) if nmods is None else nmods):
        typ = ["normalization", "shape"][rng.integers(2)]
        if rng.random() < 0.5:
            unc = (rng.uniform(0.02, 0.3, len(s)) * np.where(s > 0, s, 1.0)).round(4).tolist()
        else:
            unc = (
                (rng.uniform(0.02, 0.3, (len(s), 2)) * np.where(s > 0, s, 1.0)[:, None])
                .round(4)
                .tolist()
            )
        m = {"type": typ, "uncertainties": unc}
        if rng.random() < 0.7:
            m["name"] = f"m{i}{typ[0]}"
        mods.append(m)
    return mods


def make_signal_fn(spec, np_mod):
    """Callable signal of the extra parameters, usable with numpy or autograd.numpy."""
    s0 = np.array(spec["s"])
    s1 = np.array(spec["s1"])
    fn = spec["sigfn"]
    nsp = spec["nsp"]

    def f(p):
        if fn == "const":
            return s0 + 0.0
        out = s0
        for k in range(nsp):
            out = out + p[k] * s1[k]
            if fn == "quad":
                out = out + 0.15 * p[k] ** 2 * s0
        return out

    return f


# ---------------------------------------------------------------- real model
def build_kwargs(spec, conv=None):
    conv = conv or (lambda x: x)
    k = spec["kind"]
    kw = {}
    if spec["sigfn"]:
        from autograd import numpy as anp

        kw["signal_yields"] = make_signal_fn(spec, anp)
    else:
        kw["signal_yields"] = conv(spec["s"])
    kw["background_yields"] = conv(spec["b"])
    kw["data"] = conv(spec["d"])
    if spec["nsp"] and k not in ("poi", "poiabs"):
        kw["n_signal_parameters"] = spec["nsp"]
        if spec.get("spb"):
            kw["signal_parameter_bounds"] = [tuple(x) for x in spec["spb"]]
    if spec["mods"]:
        kw["modifiers"] = [dict(m) for m in spec["mods"]]
    if k in ("ub", "gau", "poiabs"):
        kw["absolute_uncertainties"] = conv(spec["unc"])
        if spec.get("uncfn"):
            from autograd import numpy as anp

            u = np.array(spec["unc"])
            kw["absolute_uncertainties"] = lambda p: u * anp.exp(0.05 * p[0])
    if k in ("cb", "tm", "mvn"):
        kw["covariance_matrix"] = np.array(spec["cov"])
        if spec.get("uncfn"):
            from autograd import numpy as anp

            c = np.array(spec["cov"])
            kw["covariance_matrix"] = lambda p: c * anp.exp(0.1 * p[0])
    if k == "tm":
        kw["third_moment"] = conv(spec["m3"])
    if k == "es":
        kw["correlation_matrix"] = np.array(spec["corr"])
        kw["absolute_uncertainty_envelops"] = [tuple(x) for x in spec["env"]]
    return kw


def build(spec, analysis="an", xsection=np.nan, ntoys=1000, conv=None):
    import spey

    conv = conv or (lambda x: np.array(x, dtype=float))
    return spey.get_backend(NAMES[spec["kind"]])(
        **build_kwargs(spec, conv), analysis=analysis, xsection=xsection, ntoys=ntoys
    )


# ---------------------------------------------------------------- reference
def ref_third_moment(mean, cov, m3):
    """Solve mean=A+C, var=B^2+2C^2, m3=6B^2C+8C^3, cov=rho B B + 2 rho^2 C C."""
    cov = np.asarray(cov, dtype=float)
    mean = np.asarray(mean, dtype=float)
    v = np.diag(cov)
    C = np.zeros(len(v))
    for i, (vi, mi) in enumerate(zip(v, m3)):
        if mi == 0.0 or abs(mi) > skew_max(vi):
            continue
        lim = np.sqrt(vi / 2.0)
        # normalised: c = lim*u, 6 v c - 4 c^3 = v*lim*(6u - 2u^3) = mi
        t = mi / (vi * lim)
        t = min(max(t, -4.0), 4.0)
        u = brentq(lambda u: 6.0 * u - 2.0 * u**3 - t, -1.0, 1.0, xtol=1e-15, rtol=1e-14)
        C[i] = lim * u
    B = np.sqrt(np.clip(v - 2 * C**2, 0.0, None))
    A = mean - C
    bb = np.outer(B, B)
    cc = np.outer(C, C)
    disc = bb**2 + 8 * cc * cov
    if np.any(disc < 0):
        raise ValueError("no real correlation")
    den = bb + np.sqrt(disc)
    rho = np.where(den > 0, 2 * cov / np.where(den > 0, den, 1.0), 0.0)
    return A, B, C, rho


class Ref:
    """Reference statistical model for a spec."""

    def __init__(self, spec):
        self.spec = spec
        self.k = spec["kind"]
        self.n = n = spec["n"]
        self.b = np.array(spec["b"])
        self.d = np.array(spec["d"])
        self.nsp = spec["nsp"]
        if spec["sigfn"]:
            self.sig = make_signal_fn(spec, np)
        else:
            s = np.array(spec["s"])
            self.sig = lambda p: s
        self.nbkg = n if self.k in ("ub", "cb", "tm", "es", "poiabs") else 0
        self.mods = []
        idx = 1 + self.nsp + n
        self.modnames = []
        for i, m in enumerate(spec["mods"] or []):
            u = np.array(m["uncertainties"], dtype=float)
            s = np.array(spec["s"])
            up, dn = (u, u) if u.ndim == 1 else (u[:, 0], u[:, 1])
            with np.errstate(all="ignore"):
                up = np.where(s != 0, 1 + up / s, 1.0)
                dn = np.where(s != 0, 1 + dn / s, 1.0)
            up = np.where(np.isfinite(up) & (up > 1), up, 1.0)
            dn = np.where(np.isfinite(dn) & (dn > 1), dn, 1.0)
            npar = 1 if m["type"] == "normalization" else n
            self.mods.append((m["type"], up, dn, slice(idx, idx + npar)))
            nm = m.get("name", f"mod{i}")
            self.modnames += (
                [f"theta_sig_{nm}"] if npar == 1 and m["type"] == "normalization" else [f"theta_sig_{nm}_{j}" for j in range(n)]
            )
            idx += npar
        self.nmod = idx - (1 + self.nsp + n) if self.mods else 0
        self.npar = 1 + self.nsp + self.nbkg + self.nmod
        self.tsl = slice(1 + self.nsp, 1 + self.nsp + self.nbkg)
        if self.k == "cb":
            cov = np.array(spec["cov"])
            self.A, self.B = self.b, np.sqrt(np.diag(cov))
            self.R = cov / np.outer(self.B, self.B)
        elif self.k == "tm":
            self.A, self.B, self.C, self.R = ref_third_moment(spec["b"], spec["cov"], spec["m3"])
        elif self.k == "es":
            self.R = np.array(spec["corr"])
            e = np.array(spec["env"])
            self.su, self.sd = np.abs(e[:, 0]), np.abs(e[:, 1])
        elif self.k in ("ub", "poiabs"):
            self.B = np.array(spec["unc"])
        if self.k in ("cb", "tm", "es"):
            self.Rinv = np.linalg.inv(self.R)
            self.Rld = np.linalg.slogdet(self.R)[1]
        s = np.array(spec["s"])
        if spec["sigfn"] or not np.any(s > 0):
            self.minimum_poi = -np.inf
        else:
            self.minimum_poi = -np.min(self.b[s > 0] / s[s > 0])

    # -- pieces
    def data(self, expected):
        return self.b if str(expected) == "apriori" else self.d

    def bkg(self, p):
        t = p[self.tsl]
        if self.k in ("ub", "poiabs"):
            return self.b + self.B * t
        if self.k == "cb":
            return self.A + self.B * t
        if self.k == "tm":
            return self.A + self.B * t + self.C * t * t
        if self.k == "es":
            se = np.sqrt(np.clip(self.su * self.sd + (self.su - self.sd) * (t - self.b), 1e-10, None))
            return self.b + se * t
        return self.b

    def modfac(self, p):
        f = 1.0
        for typ, up, dn, sl in self.mods:
            a = p[sl]
            f = f * np.where(a >= 0, up**a, dn**a)
        return f

    def rates(self, p):
        p = np.asarray(p, dtype=float)
        return p[0] * self.sig(p[1 : 1 + self.nsp]) * self.modfac(p) + self.bkg(p)

    def scale(self, p):
        u = np.array(self.spec["unc"])
        return u * np.exp(0.05 * p[0]) if self.spec.get("uncfn") else u

    def covm(self, p):
        c = np.array(self.spec["cov"])
        return c * np.exp(0.1 * p[0]) if self.spec.get("uncfn") else c

    def main_logpdf(self, p, data):
        lam = self.rates(p)
        data = np.asarray(data, dtype=float)[: self.n]
        if self.k == "gau":
            sc = self.scale(p)
            return float(np.sum(-0.5 * ((data - lam) / sc) ** 2 - np.log(sc) - 0.5 * LOG2PI))
        if self.k == "mvn":
            c = self.covm(p)
            r = data - lam
            return float(-0.5 * r @ np.linalg.solve(c, r) - 0.5 * (self.n * LOG2PI + np.linalg.slogdet(c)[1]))
        lam = np.clip(lam, 1e-20, None)
        return float(np.sum(data * np.log(lam) - lam - gammaln(data + 1)))

    def constraint_logpdf(self, p):
        t = p[self.tsl]
        out = 0.0
        if self.k == "ub":
            out += np.sum(-0.5 * t * t - 0.5 * LOG2PI)
        elif self.k in ("cb", "tm", "es"):
            out += -0.5 * t @ self.Rinv @ t - 0.5 * (self.n * LOG2PI + self.Rld)
        for _, _, _, sl in self.mods:
            a = p[sl]
            out += np.sum(-0.5 * a * a - 0.5 * LOG2PI)
        return float(out)

    def logpdf(self, p, data):
        p = np.asarray(p, dtype=float)
        return self.main_logpdf(p, data) + self.constraint_logpdf(p)

    def nll(self, p, data):
        return -self.logpdf(p, data)

    # -- exact derivatives (complex step on an independent implementation) -------
    def clogpdf(self, p, data):
        """Complex-safe log-density without parameter-independent constants."""
        data = np.asarray(data, dtype=float)[: self.n]
        sig = self.sig(p[1 : 1 + self.nsp])
        f = 1.0
        for _, up, dn, sl in self.mods:
            a = p[sl]
            f = f * np.where(np.real(a) >= 0, np.exp(a * np.log(up)), np.exp(a * np.log(dn)))
        t = p[self.tsl]
        if self.k in ("ub", "poiabs"):
            bk = self.b + self.B * t
        elif self.k == "cb":
            bk = self.A + self.B * t
        elif self.k == "tm":
            bk = self.A + self.B * t + self.C * t * t
        elif self.k == "es":
            bk = self.b + np.sqrt(self.su * self.sd + (self.su - self.sd) * (t - self.b)) * t
        else:
            bk = self.b
        lam = p[0] * sig * f + bk
        if self.k == "gau":
            sc = self.scale(p)
            out = np.sum(-0.5 * ((data - lam) / sc) ** 2 - np.log(sc + 0j))
        elif self.k == "mvn":
            c0 = np.array(self.spec["cov"])
            r = data - lam
            e = np.exp(0.1 * p[0]) if self.spec.get("uncfn") else 1.0
            out = -0.5 * (r @ np.linalg.solve(c0, r)) / e
            if self.spec.get("uncfn"):
                out = out - 0.5 * self.n * 0.1 * p[0]
        else:
            out = np.sum(data * np.log(lam + 0j) - lam)
        if self.k == "ub":
            out = out - 0.5 * np.sum(t * t)
        elif self.k in ("cb", "tm", "es"):
            out = out - 0.5 * (t @ self.Rinv @ t)
        for _, _, _, sl in self.mods:
            out = out - 0.5 * np.sum(p[sl] ** 2)
        return out

    def grad_nll(self, p, data):
        p = np.asarray(p, dtype=float)
        g = np.zeros(len(p))
        for i in range(len(p)):
            q = p.astype(complex)
            q[i] += 1e-30j
            g[i] = -np.imag(self.clogpdf(q, data)) / 1e-30
        return g

    def hess_nll(self, p, data, h=2e-4):
        """Fourth-order differences of the exact gradient."""
        p = np.asarray(p, dtype=float)
        n = len(p)
        H = np.zeros((n, n))
        for i in range(n):
            e = np.zeros(n)
            e[i] = h
            H[i] = (
                8 * (self.grad_nll(p + e, data) - self.grad_nll(p - e, data))
                - (self.grad_nll(p + 2 * e, data) - self.grad_nll(p - 2 * e, data))
            ) / (12 * h)
        return 0.5 * (H + H.T)

    def aux(self):
        out = []
        if self.k in ("ub", "cb", "tm", "es"):
            out += [0.0] * self.n
        out += [0.0] * self.nmod
        return np.array(out)

    def bounds(self, allow_negative=True, hi=10.0):
        b = [(self.minimum_poi if allow_negative else 0.0, hi)]
        b += [tuple(x) for x in (self.spec.get("spb") or [(None, None)] * self.nsp)]
        b += [(None, None)] * (self.nbkg + self.nmod)
        return b

    def names(self):
        if self.k in ("poi", "gau", "mvn"):
            return ["mu"] + [f"signal_par_{i}" for i in range(self.nsp)]
        if self.k == "poiabs" or (self.nsp == 0 and not self.mods):
            return None
        return (
            ["mu"]
            + [f"signal_par_{i}" for i in range(self.nsp)]
            + [f"theta_bkg_{i}" for i in range(self.n)]
            + self.modnames
        )

    def feasible(self, p, tol=1e-6):
        if self.nbkg:
            return bool(np.all(self.bkg(p) >= -tol * (1 + self.b)))
        return True

    # -- reference optimisation -------------------------------------------------
    def ub_profile(self, mu, data, s=None):
        """Closed-form conditional optimum of the independent-bin Poisson x Gaussian model."""
        data = np.asarray(data, dtype=float)[: self.n]
        s = np.array(self.spec["s"]) if s is None else s
        B = self.B
        c = mu * s + self.b
        q = np.sqrt((c - B * B) ** 2 + 4 * B * B * data)
        t = ((-(c + B * B)) + q) / (2 * B)
        lam = c + B * t
        kink = -c / B  # total rate hits zero
        t = np.where((data == 0) & (lam < 0), np.minimum(kink, 0.0), t)
        t = np.maximum(t, -self.b / B)
        return t

    def optimum(self, data, fixed=None, allow_negative=True, starts=(), hi=10.0, tries=3, rng=None, bounds=None):
        """Best feasible point found by an independent optimisation (a witness, not a proof)."""
        fixed = dict(fixed or {})
        bounds = bounds or self.bounds(allow_negative, hi)
        free = [i for i in range(self.npar) if i not in fixed]
        base = np.zeros(self.npar)
        base[0] = 0.5
        if self.nsp:
            base[1 : 1 + self.nsp] = 0.1
        for i, v in fixed.items():
            base[i] = v
        best = None
        cand = [np.array(s, dtype=float) for s in starts] + [base]
        if self.k == "ub" and not self.mods and not self.spec["sigfn"] and 0 in fixed and len(fixed) == 1:
            c = base.copy()
            c[self.tsl] = self.ub_profile(fixed[0], data)
            if self.nsp:
                c[1 : 1 + self.nsp] = 0.0
            cand = [c] + cand
        rng = rng or np.random.default_rng(0)
        for _ in range(tries - 1):
            c = base + 0.5 * rng.normal(size=self.npar)
            for i, v in fixed.items():
                c[i] = v
            cand.append(c)
        for c in cand:
            c = np.array(c, dtype=float)
            for i, v in fixed.items():
                c[i] = v
            for i in free:
                lo, up = bounds[i]
                lo = -np.inf if lo is None else lo
                up = np.inf if up is None else up
                c[i] = min(max(c[i], lo), up)
            if not self.feasible(c):
                c[self.tsl] = np.where(
                    np.isin(np.arange(self.npar)[self.tsl], free), 0.0, c[self.tsl]
                )
            pts = [c]
            if free:
                def f(x):
                    p = c.copy()
                    p[free] = x
                    return self.nll(p, data)

                cons = []
                if self.nbkg:
                    def g(x):
                        p = c.copy()
                        p[free] = x
                        return self.bkg(p) / (1 + self.b)

                    cons = [{"type": "ineq", "fun": g}]
                with np.errstate(all="ignore"):
                    import warnings

                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        try:
                            r = minimize(
                                f,
                                c[free],
                                method="SLSQP",
                                bounds=[bounds[i] for i in free],
                                constraints=cons,
                                options={"maxiter": 300, "ftol": 1e-11},
                            )
                            p = c.copy()
                            p[free] = r.x
                            pts.append(p)
                        except Exception:  # noqa: BLE001  a failed start is just no witness
                            pass
            for p in pts:
                if not np.all(np.isfinite(p)) or not self.feasible(p, 1e-9):
                    continue
                ok = True
                for i in free:
                    lo, up = bounds[i]
                    if (lo is not None and p[i] < lo - 1e-9) or (up is not None and p[i] > up + 1e-9):
                        ok = False
                v = self.nll(p, data)
                if ok and np.isfinite(v) and (best is None or v < best[0]):
                    best = (v, p)
        return best
