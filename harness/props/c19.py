"""C19: the optimiser layer (fit, scipy and minuit wrappers) on convex problems and injected failures."""
import os

import numpy as np

from props.common import LogTap
from props.queries import freeze

RULE = (
    "distinct (objective, bounds, fixed set, start, option set, minimiser) fits; every fit is judged against bounds, pins, constraints, the "
    "objective at the returned point and a feasible reference point; retry cases also record the bounds of every attempt"
)
PLAN = {
    "quick": {"convex": 1200, "pinned": 900, "constrained": 400, "retry": 500, "natural": 300, "options": 400, "limits": 80, "selection": 150, "values": 250, "agree": 250, "refuse": 150},
    "thorough": {"convex": 40000, "pinned": 25000, "constrained": 10000, "retry": 12000, "natural": 8000, "options": 8000, "limits": 1500, "selection": 3000, "values": 6000, "agree": 8000, "refuse": 2000},
}
MINIMA = {"mon:optimum": 1200, "mon:bounds": 2000, "mon:pinned": 1500, "mon:constraint": 150, "mon:value": 1500, "mon:untouched": 2000, "mon:option-warning": 100, "mon:limit": 30, "mon:tolerance": 40, "mon:selection-ran": 150, "mon:selection-env": 120}
ASSUMPTIONS = [
    "objectives are smooth and strictly convex with condition number below about 100",
    "bounds are demanded only of methods documented to support them; optimality only of SLSQP, trust-constr and migrad",
    "explicit bounds contain the fixed values",
]
BOUNDED = ["SLSQP", "L-BFGS-B", "TNC", "Nelder-Mead", "Powell", "trust-constr"]
ANY = BOUNDED + ["BFGS", "CG", "COBYLA"]


class Obj:
    """Smooth strictly convex function with analytic gradient; records what it was asked."""

    def __init__(self, rng, d):
        self.d = d
        self.kind = ["quad", "exp", "pois"][rng.integers(3)]
        q, _ = np.linalg.qr(rng.normal(size=(d, d)))
        self.H = q @ np.diag(10.0 ** rng.uniform(-0.5, 1.0, d)) @ q.T
        self.H = 0.5 * (self.H + self.H.T)
        self.c = rng.uniform(-2.5, 2.5, d)
        self.off = float(rng.uniform(-20, 20))
        k = int(rng.integers(1, 5))
        self.A = rng.uniform(-0.6, 0.6, (k, d))
        self.b = rng.uniform(-1, 1, k)
        self.n = rng.poisson(4, k).astype(float)
        self.seen = []

    def f(self, x):
        x = np.asarray(x, dtype=float)
        y = x - self.c
        v = 0.5 * y @ self.H @ y + self.off
        if self.kind != "quad":
            z = self.A @ x + self.b
            v += np.sum(np.exp(z))
            if self.kind == "pois":
                v -= np.sum(self.n * z)
        return float(v)

    def g(self, x):
        x = np.asarray(x, dtype=float)
        v = self.H @ (x - self.c)
        if self.kind != "quad":
            v = v + self.A.T @ np.exp(self.A @ x + self.b)
            if self.kind == "pois":
                v = v - self.A.T @ self.n
        return v

    def func(self, grad):
        def f(x):
            self.seen.append(np.array(x, dtype=float))
            return (self.f(x), self.g(x)) if grad else self.f(x)

        return f

    def ref(self, x0, bounds, fixed):
        """A feasible near-optimal point (used only as a witness that something lower exists)."""
        from scipy.optimize import minimize

        bb = []
        for i, (lo, hi) in enumerate(bounds):
            bb.append((fixed[i], fixed[i]) if i in fixed else (lo, hi))
        x0 = np.array([min(max(x0[i], -np.inf if b[0] is None else b[0]), np.inf if b[1] is None else b[1]) for i, b in enumerate(bb)])
        r = minimize(self.f, x0, jac=self.g, method="L-BFGS-B", bounds=bb, options={"ftol": 1e-15, "gtol": 1e-10, "maxiter": 2000})
        x = np.array(r.x)
        for i, v in fixed.items():
            x[i] = v
        return x, self.f(x)


def _bounds(rng, d, poi, minpoi):
    out = []
    for i in range(d):
        t = rng.integers(5)
        lo, hi = sorted(rng.uniform(-4, 4, 2))
        if hi - lo < 0.2:
            hi = lo + 0.5
        lo, hi = float(lo), float(hi)
        if i == poi:
            out.append((minpoi, None if t == 0 else float(rng.uniform(1, 8))))
        else:
            out.append([(lo, hi), (None, hi), (lo, None), (None, None), (lo, hi)][t])
    return out


def _inside(rng, bounds):
    x = []
    for lo, hi in bounds:
        a = lo if lo is not None else (hi - 3 if hi is not None else -2.0)
        b = hi if hi is not None else a + 3
        x.append(float(a + rng.uniform(0.02, 0.98) * (b - a)))
    return x


def _problem(rng, dmax=6, minpoi=None):
    from spey.base.model_config import ModelConfig

    d = int(rng.integers(1, dmax + 1))
    o = Obj(rng, d)
    poi = int(rng.integers(d)) if rng.random() < 0.3 else 0
    minpoi = float(-rng.uniform(0.3, 4)) if minpoi is None else minpoi
    b = _bounds(rng, d, poi, minpoi)
    init = _inside(rng, b)
    cfg = ModelConfig(
        poi, minpoi, list(init), list(b), parameter_names=[None, [f"p{i}" for i in range(d)]][rng.integers(2)]
    )
    return o, cfg, b, init


def _start(rng, init, bounds):
    t = rng.integers(5)
    if t == 0:
        return None
    if t == 1:
        return list(init)
    if t == 2:
        return tuple(init)
    if t == 3:
        return np.array(init)
    x = np.round(np.array(init)).astype(int)
    return x if _in(x, bounds, 0.0) else np.array(init)


def _fixed_value(rng, lo, hi, minpoi=None):
    """Inside, on or outside the bounds (never below the minimum signal strength for the POI)."""
    t = rng.integers(4)
    a, b = (-5.0 if lo is None else lo), (5.0 if hi is None else hi)
    if t == 0:
        v = float(rng.uniform(a, b))
    elif t == 1:
        v = float(b + rng.uniform(0.1, 5))
    elif t == 2:
        v = float(a - rng.uniform(0.1, 3))
    else:
        v = float(rng.choice([a, b, 0.0]))
    return max(v, minpoi) if minpoi is not None else v


def _in(x, bounds, tol=1e-7):
    return all((lo is None or x[i] >= lo - tol * (1 + abs(lo))) and (hi is None or x[i] <= hi + tol * (1 + abs(hi))) for i, (lo, hi) in enumerate(bounds))


def _at_limit(x, bounds, fixed):
    return any(
        i not in fixed and any(q is not None and abs(x[i] - q) <= 1e-3 * (1 + abs(q)) for q in b) for i, b in enumerate(bounds)
    )


def _widen(bounds, fixed, minpoi, poi):
    """Loosest box a fit may use: the fixed values' own bounds may be extended."""
    return [(None, None) if i in fixed else b for i, b in enumerate(bounds)]


def _judge(rec, o, fun, x, bounds, fixed, opt=True, box=True, x0=None, tol=2e-4, ptol=1e-6, **wit):
    barrier = "trust-constr" in (wit.get("method"), wit.get("opts", {}).get("method") if isinstance(wit.get("opts"), dict) else None)
    if barrier:  # interior-point method: documented accuracy of its barrier parameter
        tol, ptol = 3e-2, 1e-4
    x = np.asarray(x, dtype=float)
    if not rec.check(x.shape == (o.d,) and np.all(np.isfinite(x)), "shape", "fit returned no parameter vector", x=x, **wit):
        return
    for i, v in fixed.items():
        rec.check(abs(x[i] - v) <= ptol * (1 + abs(v)), "pinned", "a fixed parameter moved", index=i, fixed=v, x=x, **wit)
    if box:
        rec.check(_in(x, _widen(bounds, fixed, None, None), 1e-4 if barrier else 1e-7), "bounds", "returned point leaves the bounds", x=x, bounds=bounds, **wit)
    if np.isfinite(o.f(x)):
        rec.check(not np.isfinite(o.f(x)) or abs(fun - o.f(x)) <= 1e-8 * (1 + abs(o.f(x))), "value", "returned value is not the objective at the returned point", fun=fun, at_x=o.f(x), x=x, **wit)
    if opt and (wit.get("minimizer") == "minuit" or wit.get("method") == "migrad") and _at_limit(x, bounds, fixed):
        # the sine transform of MINUIT limits has no slope at a limit: it may stay there (upstream)
        rec.count("minuit-at-limit")
    elif opt:
        xr, fr = o.ref(x if x0 is None else x0, _widen(bounds, fixed, None, None), fixed)
        rec.check(abs(fr) > 1e3 or o.f(x) - fr <= tol * max(1.0, abs(fr - o.off)), "optimum", "a lower feasible point exists", x=x, fun=fun, better=xr, better_fun=fr, bounds=bounds, fixed=fixed, **wit)


def _fit(rec, *a, taps=None, **k):
    from spey.optimizer import fit

    with LogTap() as tap:
        out = fit(*a, **k)
    if taps is not None:
        taps.extend(tap.msgs)
    return out, tap


def _snap(cfg, **kw):
    return freeze([vars(cfg).copy(), kw])


def _sig(o, b, *extra):
    return [o.kind, o.d, [round(float(v), 6) for v in o.c], b, *[repr(e) for e in extra]]


def convex(rng, rec):
    o, cfg, b, init = _problem(rng)
    grad = bool(rng.integers(2))
    minim = ["scipy", "minuit"][rng.integers(2)]
    opts = {}
    if minim == "scipy":
        m = ["SLSQP", "SLSQP", "SLSQP", "trust-constr"][rng.integers(4)]
        if m != "SLSQP" or rng.random() < 0.3:
            opts["method"] = m
    elif rng.random() < 0.3:
        opts["method"] = "migrad"
    start = _start(rng, init, b)
    bounds = None
    box = b
    if rng.random() < 0.4:  # caller-given bounds
        box = _bounds(rng, o.d, cfg.poi_index, cfg.minimum_poi)
        init2 = _inside(rng, box)
        start = [list, tuple, np.array][rng.integers(3)](init2)
        bounds = [list(box), tuple(box), [list(q) for q in box]][rng.integers(3)]
    before = _snap(cfg, start=start, bounds=bounds)
    (fun, x), tap = _fit(rec, o.func(grad), cfg, do_grad=grad, initial_parameters=start, bounds=bounds, minimizer=minim, **opts)
    rec.check(_snap(cfg, start=start, bounds=bounds) == before, "untouched", "configuration, start values or bounds were modified", minimizer=minim)
    conv = not tap.unconverged()
    rec.count("converged" if conv else "reported-unconverged")
    _judge(rec, o, fun, x, box, {}, opt=conv, x0=init, minimizer=minim, opts=opts, grad=grad, kind=o.kind)
    rec.check(conv or o.kind != "quad", "convex-failure", "a box-constrained quadratic could not be minimised", minimizer=minim, msgs=tap.msgs[:3]) if minim == "scipy" and not opts else None
    rec.case(_sig(o, box, minim, opts, grad))


def pinned(rng, rec):
    o, cfg, b, init = _problem(rng)
    d, poi = o.d, cfg.poi_index
    start = _start(rng, init, b)
    base = init if start is None else [float(v) for v in start]
    fixed = {}
    sug = None
    if rng.random() < 0.35:
        sug = [bool(v) for v in rng.random(d) < 0.4]
        cfg.suggested_fixed = list(sug)
        for i in range(d):
            if sug[i]:
                lo, hi = b[i]
                if (lo is not None and base[i] < lo) or (hi is not None and base[i] > hi):
                    cfg.suggested_fixed[i] = sug[i] = False  # rounded start left the bounds: not a valid pin
                else:
                    fixed[i] = base[i]
    t = rng.integers(4)
    fpv = None
    if t == 0:
        fpv = _fixed_value(rng, *b[poi], minpoi=cfg.minimum_poi)
        fixed[poi] = fpv
    elif t < 3:
        fpv = {}
        for i in rng.permutation(d)[: int(rng.integers(1, d + 1))]:
            i = int(i)
            fpv[i] = _fixed_value(rng, *b[i], minpoi=cfg.minimum_poi if i == poi else None)
        fixed.update(fpv)
    if rng.random() < 0.1 and fpv is not None and not isinstance(fpv, dict):
        fpv = [np.float64(fpv), 2 if cfg.minimum_poi <= 2 else fpv][rng.integers(2)]
        fixed[poi] = float(fpv)
    minim = ["scipy", "scipy", "minuit"][rng.integers(3)]
    grad = bool(rng.integers(2))
    opts = {}
    if minim == "scipy" and rng.random() < 0.75:
        opts["method"] = ANY[rng.integers(len(ANY))]
        if rng.random() < 0.15:
            opts["method"] = opts["method"].lower()
    elif minim == "minuit" and rng.random() < 0.3:
        opts["method"] = "simplex"
    meth = opts.get("method", "SLSQP" if minim == "scipy" else "migrad")
    if meth.lower() in ("nelder-mead", "powell", "cobyla") and grad:
        grad = False
    if meth == "simplex":
        grad = False
    if meth.lower() in ("nelder-mead", "powell", "cobyla"):
        opts["maxiter"] = 400
    before = _snap(cfg, start=start, fpv=fpv, opts=opts)
    (fun, x), tap = _fit(rec, o.func(grad), cfg, do_grad=grad, initial_parameters=start, fixed_poi_value=fpv, minimizer=minim, **opts)
    rec.check(_snap(cfg, start=start, fpv=fpv, opts=opts) == before, "untouched", "configuration, start values, fixed values or options were modified", method=meth)
    can_opt = meth.lower() in ("slsqp", "trust-constr", "migrad") and not tap.unconverged()
    known = {m.lower() for m in BOUNDED} | {"migrad", "simplex"}
    if meth.lower() == "cobyla":
        rec.count("cobyla")
        x_ = np.asarray(x, dtype=float)
        for i, v in fixed.items():
            rec.check(abs(x_[i] - v) <= 1e-3 * (1 + abs(v)), "pinned", "a fixed parameter moved", index=i, fixed=v, x=x_, method=meth)
    else:
        if tap.unconverged():
            rec.count("reported-unconverged")
            if meth.lower() in ("slsqp", "trust-constr"):
                rec.case(_sig(o, b, minim, meth, fpv), nontrivial=False)
                return
        _judge(rec, o, fun, x, b, fixed, opt=can_opt, box=meth.lower() in known, x0=base, method=meth, start=start, fpv=fpv, sug=sug)
    rec.count("method:" + meth.lower())
    rec.case(_sig(o, b, minim, meth, fpv, sug))


def constrained(rng, rec):
    """Linear equality / inequality constraints next to pins, compared with a closed-form point."""
    from spey.base.model_config import ModelConfig

    d = int(rng.integers(2, 6))
    o = Obj(rng, d)
    o.kind = "quad"
    a = rng.uniform(-1, 1, d)
    a[int(rng.integers(d))] += 1.5
    fixed = {}
    fpv = None
    if rng.random() < 0.5:
        fpv = float(rng.uniform(-1, 3))
        fixed[0] = fpv
        if rng.random() < 0.5:
            fpv = {0: fpv}
    free = [i for i in range(d) if i not in fixed]
    if np.linalg.norm(a[free]) < 0.3:
        a[free[0]] += 1.0
    x0 = rng.uniform(-1, 1, d)
    r = float(a @ np.where(np.isin(np.arange(d), list(fixed)), fpv if not isinstance(fpv, dict) else fpv[0], x0) if fixed else a @ x0)
    typ = ["eq", "ineq"][rng.integers(2)]
    cons = {"type": typ, "fun": (lambda v, a=a, r=r: float(a @ np.asarray(v) - r))}
    if rng.random() < 0.4:
        cons["jac"] = lambda v, a=a: a.copy()
    if rng.random() < 0.3:
        cons = {"type": typ, "fun": (lambda v, k, a=a: float(a @ np.asarray(v) - k)), "args": (r,)}
    box = [(-30.0, 30.0)] * d if rng.random() < 0.5 else [(None, None)] * d
    cfg = ModelConfig(0, -30.0, x0.tolist(), list(box))
    meth = ["SLSQP", "SLSQP", "trust-constr"][rng.integers(3)]
    grad = bool(rng.integers(2))
    outer = [cons] if rng.random() < 0.7 else (cons,)
    ident = (type(outer), len(outer), sorted(cons))
    before = _snap(cfg, fpv=fpv)
    (fun, x), tap = _fit(rec, o.func(grad), cfg, do_grad=grad, fixed_poi_value=fpv, constraints=outer, method=meth, minimizer="scipy")
    rec.check((type(outer), len(outer), sorted(cons)) == ident and outer[0] is cons and _snap(cfg, fpv=fpv) == before, "untouched", "the caller's constraints or configuration were modified", n=len(outer))
    if tap.unconverged():
        rec.count("reported-unconverged")
        rec.case([typ, d], nontrivial=False)
        return
    x = np.asarray(x, dtype=float)
    val = float(a @ x - r)
    rec.check(abs(val) <= 1e-5 if typ == "eq" else val >= -1e-5, "constraint", "the supplied constraint is violated", value=val, ctype=typ, x=x, method=meth)
    # closed form on the free parameters
    H, c = o.H, o.c
    xf = np.array([fixed.get(i, 0.0) for i in range(d)])
    Hf = H[np.ix_(free, free)]
    fx = [i for i in range(d) if i in fixed]
    rhs = H[free] @ c - (H[np.ix_(free, fx)] @ xf[fx] if fx else 0.0)
    u = np.linalg.solve(Hf, rhs)
    best = xf.copy()
    best[free] = u
    if typ == "eq" or a @ best - r < 0:
        w = np.linalg.solve(Hf, a[free])
        lam = (r - (a[fx] @ xf[fx] if fx else 0.0) - a[free] @ u) / (a[free] @ w)
        best[free] = u + lam * w
    for i, v in fixed.items():
        rec.check(abs(x[i] - v) <= 1e-6 * (1 + abs(v)), "pinned", "a fixed parameter moved", index=i, fixed=v, x=x)
    rec.check(not np.isfinite(o.f(x)) or abs(fun - o.f(x)) <= 1e-8 * (1 + abs(o.f(x))), "value", "returned value is not the objective at the returned point", fun=fun, x=x)
    if np.max(np.abs(best)) < 25:
        rec.check(o.f(x) - o.f(best) <= (3e-2 if meth == "trust-constr" else 5e-4) * max(1.0, abs(o.f(best) - o.off)), "constrained-optimum", "a lower point satisfies the constraint", x=x, fun=fun, better=best, better_fun=o.f(best), method=meth, ctype=typ)
    rec.case([typ, d, a, r, meth, repr(fpv)])


class _Flaky:
    """Stand-in for scipy.optimize.minimize: fails k times, then (perhaps) works; records each call."""

    def __init__(self, rng, k, mode):
        import scipy.optimize

        self.real, self.k, self.mode, self.rng = scipy.optimize.minimize, k, mode, rng
        self.calls = []

    def __call__(self, fun, x0, *a, **kw):
        from scipy.optimize import OptimizeResult

        b = kw.get("bounds")
        self.calls.append({"bounds": None if b is None else [tuple(q) for q in b], "x0": np.array(x0, dtype=float), "ncons": len(kw.get("constraints") or [])})
        if len(self.calls) <= self.k:
            x = np.array(x0, dtype=float)
            if b is not None and self.mode == "edge" and len(self.calls) == 1:
                for i, (lo, hi) in enumerate(b):
                    if rng_pick(self.rng) and hi is not None:
                        x[i] = hi
            v = fun(x)
            return OptimizeResult(x=x, fun=v[0] if isinstance(v, tuple) else v, success=False, status=9, message="Iteration limit reached (injected)", nit=1)
        return self.real(fun, x0, *a, **kw)

    def __enter__(self):
        import scipy.optimize

        scipy.optimize.minimize = self
        return self

    def __exit__(self, *a):
        import scipy.optimize

        scipy.optimize.minimize = self.real


def rng_pick(rng):
    return rng.random() < 0.5


def retry(rng, rec):
    o, cfg, b, init = _problem(rng)
    poi = cfg.poi_index
    k = int(rng.integers(0, 6))
    ntrials = int(rng.choice([1, 2, 3, 5, 8]))
    given = rng.random() < 0.5
    bounds = [tuple(b), list(b), [list(q) for q in b]][rng.integers(3)] if given else None
    fpv = None
    fixed = {}
    if rng.random() < 0.4:
        lo, hi = b[poi]
        fpv = float(rng.uniform(lo, 1.0 if hi is None else hi))
        fixed[poi] = fpv
    grad = bool(rng.integers(2))
    cons = []
    before = _snap(cfg, bounds=bounds, cons=cons)
    fl = _Flaky(rng, k, ["stay", "edge"][rng.integers(2)])
    with fl:
        (fun, x), tap = _fit(rec, o.func(grad), cfg, do_grad=grad, bounds=bounds, fixed_poi_value=fpv, constraints=cons, ntrials=ntrials, minimizer="scipy")
    rec.check(_snap(cfg, bounds=bounds, cons=cons) == before, "untouched", "a retry modified caller-owned containers", k=k, ntrials=ntrials)
    if not fl.calls:
        rec.count("not-intercepted")
        rec.case([o.d, k], nontrivial=False)
        return
    want = min(k + 1, ntrials)
    rec.check(len(fl.calls) == want, "trials", "number of attempts", got_calls=len(fl.calls), expected=want, k=k, ntrials=ntrials)
    rec.check(all(c["ncons"] == len(fixed) for c in fl.calls), "trial-constraints", "the pins were not handed to every attempt", calls=[c["ncons"] for c in fl.calls])
    first = fl.calls[0]["bounds"]
    if first is not None:
        for q, (l0, h0) in zip(b, first):
            if q not in [b[i] for i in fixed]:
                rec.check(tuple(q) == (l0, h0), "first-bounds", "first attempt does not use the given bounds", given=q, used=(l0, h0))
        for prev, cur in zip(fl.calls, fl.calls[1:]):
            for i, ((l0, h0), (l1, h1)) in enumerate(zip(prev["bounds"], cur["bounds"])):
                ok = (l1 is None or (l0 is not None and l1 <= l0)) and (h1 is None or (h0 is not None and h1 >= h0))
                rec.check(ok, "retry-bounds", "a retry tightened a bound", index=i, before=(l0, h0), after=(l1, h1))
                if i == poi:
                    rec.check(l1 == l0, "retry-poi-lower", "a retry moved the lower bound of the signal strength", before=(l0, h0), after=(l1, h1))
    if k >= ntrials:
        rec.check(tap.unconverged() or len(tap.msgs) > 0, "retry-warning", "a failed fit was not reported", k=k, ntrials=ntrials)
        x = np.asarray(x, dtype=float)
    else:
        if k:
            rec.check(len(tap.msgs) > 0, "retry-warning", "failed attempts were not reported", k=k)
        x = np.asarray(x, dtype=float)
        if "(injected)" in " ".join(m for _, m in tap.msgs[-1:]) and k == 0:
            return
        xr, fr = o.ref(init, _widen(b, fixed, None, None), fixed)
        last_failed = k == 0 and tap.unconverged()
        if not last_failed:
            rec.check(not o.f(x) - fr > 2e-4 * max(1.0, abs(fr - o.off)), "retry-optimum", "after retries a lower point inside the original bounds exists", x=x, better=xr, f_x=o.f(x), f_better=fr, bounds=b, k=k)
    for i, v in fixed.items() if k < ntrials else ():
        rec.check(abs(x[i] - v) <= 1e-6 * (1 + abs(v)), "pinned", "a fixed parameter moved across retries", index=i, fixed=v, x=x)
    lo = b[poi][0]
    rec.check(lo is None or x[poi] >= lo - 1e-7 * (1 + abs(lo)), "retry-poi", "a retry left the signal strength's lower bound", lower=lo, x=x)
    rec.check(not np.isfinite(o.f(x)) or abs(fun - o.f(x)) <= 1e-8 * (1 + abs(o.f(x))), "value", "returned value is not the objective at the returned point", fun=fun, x=x)
    rec.count(f"fails:{k}")
    rec.case(_sig(o, b, k, ntrials, fpv))


def natural(rng, rec):
    """Failures the real minimisers produce: iteration limits, with and without retries."""
    o, cfg, b, init = _problem(rng)
    poi = cfg.poi_index
    minim = ["scipy", "scipy", "minuit"][rng.integers(3)]
    opts = {"maxiter": int(rng.integers(1, 4))}
    if minim == "scipy":
        opts["ntrials"] = int(rng.choice([0, 1, 2, 4, 12]))
        if rng.random() < 0.3:
            opts["method"] = BOUNDED[rng.integers(len(BOUNDED))]
    fixed, fpv = {}, None
    if rng.random() < 0.5:
        lo, hi = b[poi]
        fpv = float(rng.uniform(lo, 1.0 if hi is None else hi))
        fixed[poi] = fpv
    grad = bool(rng.integers(2)) and opts.get("method") not in ("Nelder-Mead", "Powell")
    o.seen = []
    before = _snap(cfg, opts=opts)
    (fun, x), tap = _fit(rec, o.func(grad), cfg, do_grad=grad, fixed_poi_value=fpv, minimizer=minim, **opts)
    rec.check(_snap(cfg, opts=opts) == before, "untouched", "configuration or options were modified", opts=opts)
    x = np.asarray(x, dtype=float)
    rec.check(x.shape == (o.d,) and np.all(np.isfinite(x)), "shape", "no parameter vector after a failed fit", x=x)
    rec.count("failed" if tap.unconverged() else "finished-early")
    lo = b[poi][0]
    rec.check(x[poi] >= lo - 1e-7 * (1 + abs(lo)), "retry-poi", "signal strength below its lower bound", x=x, lower=lo, opts=opts)
    if opts.get("ntrials", 1) <= 1 and not (opts.get("method") == "trust-constr"):
        rec.check(_in(x, _widen(b, fixed, None, None)), "bounds", "returned point leaves the bounds", x=x, bounds=b, opts=opts)
    if opts.get("method", "SLSQP") not in ("trust-constr",):
        for i, v in fixed.items():
            if minim == "minuit" or opts.get("method", "SLSQP") != "SLSQP" or not tap.unconverged():
                rec.check(abs(x[i] - v) <= 1e-6 * (1 + abs(v)), "pinned", "a fixed parameter moved", index=i, fixed=v, x=x, opts=opts)
    rec.check(not np.isfinite(o.f(x)) or abs(fun - o.f(x)) <= 1e-8 * (1 + abs(o.f(x))), "value", "returned value is not the objective at the returned point", fun=fun, x=x, opts=opts)
    rec.case(_sig(o, b, minim, opts, fpv))


def options(rng, rec):
    """Unknown options are dropped with a warning; the environment chooses the default optimiser."""
    o, cfg, b, init = _problem(rng, dmax=4)
    env = [None, "scipy", "minuit", "Minuit", "MINUIT", "Scipy", "nlopt"][rng.integers(7)]
    explicit = [None, "scipy", "minuit", "bogus"][rng.integers(4)]
    used = explicit if explicit is not None else (env.lower() if env is not None else "scipy")
    invalid = used not in ("scipy", "minuit")
    eff = "scipy" if invalid else used
    unknown = {n: v for n, v in [("foo", 1), ("learning_rate", 0.1), ("hess", None), ("Method", "x"), ("workers", 3)] if rng.random() < 0.4}
    legit = {}
    if rng.random() < 0.5:
        legit = {"scipy": [{"ntrials": 2}, {"tol": 1e-8}, {"maxiter": 5000}, {"disp": False}], "minuit": [{"strategy": 1}, {"tol": 1e-7}, {"maxiter": 5000}, {"errordef": 0.5}, {"disp": 0}]}[eff][rng.integers(4)]
    probe = {"scipy": "strategy", "minuit": "ntrials"}[eff]  # the other optimiser's own option
    if rng.random() < 0.5:
        unknown[probe] = 2
    opts = {**unknown, **legit}
    if explicit is not None:
        opts["minimizer"] = explicit
    snap = dict(opts)
    old = os.environ.pop("SPEY_OPTIMISER", None)
    try:
        if env is not None:
            os.environ["SPEY_OPTIMISER"] = env
        (fun, x), tap = _fit(rec, o.func(True), cfg, do_grad=True, **opts)
    finally:
        os.environ.pop("SPEY_OPTIMISER", None)
        if old is not None:
            os.environ["SPEY_OPTIMISER"] = old
    rec.check(opts == snap, "untouched", "the option dictionary was modified", opts=opts)
    for name in unknown:
        hits = [m for _, m in tap.msgs if name in m and "option" in m]
        rec.check(len(hits) == 1, "option-warning", "an unknown option is ignored with one warning", option=name, msgs=tap.msgs, optimiser=eff)
    hits = [m for _, m in tap.msgs if "valid option" in m]
    rec.check(len(hits) == len(unknown), "option-warning", "warnings about options which the caller did not pass", msgs=tap.msgs, unknown=sorted(unknown), optimiser=eff)
    for name in legit:
        rec.check(not any(name in m and "valid option" in m for _, m in tap.msgs), "option-known", "a documented option was refused", option=name, msgs=tap.msgs, optimiser=eff)
    bad = [m for _, m in tap.msgs if used in m and "nvalid" in m]
    rec.check(bool(bad) == invalid, "optimiser-warning", "an unknown optimiser is reported, a known one is not", used=used, msgs=tap.msgs)
    if not tap.unconverged():
        _judge(rec, o, fun, x, b, {}, x0=init, opts=snap, env=env, minimizer=eff)
    rec.case(_sig(o, b, env, sorted(opts), explicit))


def limits(rng, rec):
    """The caller's iteration limit and tolerance govern how long the optimisers search."""
    d = int(rng.integers(5, 9))
    x0 = rng.uniform(-2, -0.2, d).round(3).tolist()
    grad = bool(rng.integers(2))
    minim = ["scipy", "minuit"][rng.integers(2)]
    bounds = [(-10.0, 10.0)] * d

    def run(**opts):
        n = [0]

        def f(x):
            n[0] += 1
            a = x[1:] - x[:-1] ** 2
            v = float(np.sum(100 * a**2) + np.sum((1 - x[:-1]) ** 2))
            if not grad:
                return v
            g = np.zeros(d)
            g[:-1] = -400 * x[:-1] * a - 2 * (1 - x[:-1])
            g[1:] += 200 * a
            return v, g

        snap = dict(opts)
        from spey.base.model_config import ModelConfig

        (fun, _), tap = _fit(rec, f, ModelConfig(0, -10.0, list(x0), list(bounds)), do_grad=grad, minimizer=minim, **opts)
        rec.check(opts == snap, "untouched", "the option dictionary was modified", opts=opts)
        return n[0], float(fun), tap.unconverged()

    wit = dict(d=d, x0=x0, grad=grad, minimizer=minim)
    full = run()
    if minim == "scipy":
        k = int(rng.integers(2, 5))
        cap = 4 * (k + 2) * (3 if grad else d + 2)
        loose, tight = run(tol=1e-2), run(tol=1e-12)
    else:
        k = int(rng.integers(20, 40))
        cap = 2 * k + 10 * d + 20
        loose, tight = run(tol=1e4), run()
        # the careful strategy verifies its covariance, the quick one does not
        quick, careful = run(strategy=0), run(strategy=2)
        rec.check(quick[0] == full[0], "strategy", "the default strategy is not the quick one", quick=quick, default=full, **wit)
        if not grad:
            rec.check(careful[0] > quick[0], "strategy", "the requested strategy is not used", quick=quick, careful=careful, **wit)
    short = run(maxiter=k)
    if full[0] > 1.3 * cap:
        rec.check(short[0] <= cap, "limit", "the iteration limit was not respected", maxiter=k, evaluations=short[0], cap=cap, unlimited=full[0], **wit)
        rec.check(short[2], "limit-reported", "a fit stopped by its iteration limit was not reported", maxiter=k, result=short, **wit)
        rec.count("limit-effective")
    rec.check(loose[0] < tight[0] and tight[1] <= loose[1] + 1e-9, "tolerance", "a tighter tolerance does not search longer", loose=loose, tight=tight, **wit)
    rec.check(not full[2] and not tight[2], "limit-reported", "the default limits do not suffice for a small problem", full=full, tight=tight, **wit)
    rec.case([d, x0, grad, minim])


def values(rng, rec):
    """With a log-density supplied the returned value is that density at the returned point."""
    o, cfg, b, init = _problem(rng, dmax=4)
    calls = []

    def logpdf(x):
        calls.append(np.array(x, dtype=float))
        return -o.f(x) - 3.25

    fpv = None
    fixed = {}
    if rng.random() < 0.5:
        lo, hi = b[cfg.poi_index]
        fpv = float(rng.uniform(lo, 1.0 if hi is None else hi))
        fixed[cfg.poi_index] = fpv
    minim = ["scipy", "minuit"][rng.integers(2)]
    (fun, x), tap = _fit(rec, o.func(False), cfg, logpdf=logpdf, fixed_poi_value=fpv, minimizer=minim)
    x = np.asarray(x, dtype=float)
    rec.check(abs(float(fun) - (-o.f(x) - 3.25)) <= 1e-9 * (1 + abs(o.f(x))), "logpdf", "returned value is not the supplied log-density at the returned point", fun=fun, want_value=-o.f(x) - 3.25, x=x)
    if not tap.unconverged():
        _judge(rec, o, o.f(x), x, b, fixed, x0=init, minimizer=minim)
    rec.case(_sig(o, b, minim, fpv, "logpdf"))


def agree(rng, rec):
    o, cfg, b, init = _problem(rng)
    fpv = None
    if rng.random() < 0.5:
        lo, hi = b[cfg.poi_index]
        fpv = float(rng.uniform(lo, 1.0 if hi is None else hi))
    res = {}
    for tag, kw in {
        "scipy": dict(minimizer="scipy", do_grad=True),
        "scipy-nograd": dict(minimizer="scipy", do_grad=False),
        "minuit": dict(minimizer="minuit", do_grad=True),
        "minuit-nograd": dict(minimizer="minuit", do_grad=False),
    }.items():
        (fun, x), tap = _fit(rec, o.func(kw["do_grad"]), cfg, fixed_poi_value=fpv, **kw)
        stuck = kw["minimizer"] == "minuit" and _at_limit(x, b, {} if fpv is None else {cfg.poi_index: fpv})
        rec.count("minuit-at-limit", int(stuck))
        if not tap.unconverged() and not stuck:
            res[tag] = (float(fun), np.asarray(x, dtype=float))
    if len(res) < 2:
        rec.count("reported-unconverged")
    else:
        v = [r[0] for r in res.values()]
        rec.check(max(v) - min(v) <= 4e-4 * max(1.0, abs(v[0] - o.off)), "agree", "optimisers disagree on the minimum", res=res, bounds=b, fpv=fpv)
    rec.case(_sig(o, b, fpv, "agree"))


def refuse(rng, rec):
    from spey.optimizer import fit, minuit_tools, scipy_tools

    o, cfg, b, init = _problem(rng, dmax=3)
    t = rng.integers(2)
    if t == 0:
        try:
            scipy_tools.minimize(o.func(False), init, [False] * o.d, bounds=b, method="SLSQP")
            rec.check(False, "refuse-poi-index", "missing poi_index was accepted")
        except AssertionError:
            rec.check(True, "refuse-poi-index")
    else:
        m = ["scipy", "minuit"][rng.integers(2)]
        try:
            with LogTap():
                fit(o.func(False), cfg, minimizer=m, method="no-such-method")
            rec.check(False, "refuse-method", "an unknown method was accepted", minimizer=m)
        except ValueError:
            rec.check(True, "refuse-method")
    rec.case(_sig(o, b, int(t)))


class _Ran:
    """Which numerical library's code runs, seen from the profiler: independent of how spey calls it."""

    def __init__(self):
        self.seen = set()

    def _prof(self, frame, event, arg):
        if event == "call":
            f = frame.f_code.co_filename
            if "/iminuit/" in f:
                self.seen.add("minuit")
            elif "/scipy/optimize/" in f:
                self.seen.add("scipy")

    def __enter__(self):
        import sys

        self.old = sys.getprofile()
        sys.setprofile(self._prof)
        return self

    def __exit__(self, *a):
        import sys

        sys.setprofile(self.old)


def selection(rng, rec):
    """Histories of selecting an optimiser (call, environment, per-fit option): the one selected last is the one that runs."""
    import logging
    import sys
    import numpy as np
    import spey

    old = os.environ.pop("SPEY_OPTIMISER", None)
    import iminuit as keep
    o, cfg, b, init = _problem(rng, dmax=2)
    for m in ("scipy", "minuit"):
        _fit(rec, o.func(True), cfg, do_grad=True, minimizer=m)
    env, have, sig = None, True, []
    try:
        for _ in range(int(rng.integers(3, 9))):
            op = ["set", "set", "env", "fit", "fit", "model", "absent"][rng.integers(7)]
            if op == "absent":
                have = not have
                sys.modules["iminuit"] = keep if have else None
                sig.append(["absent", have])
            elif op == "set":
                name = ["scipy", "minuit", "iminuit", "bogus", "Minuit", ""][rng.integers(6)]
                with LogTap() as tap:
                    spey.set_optimiser(name)
                errs = [m for lv, m in tap.msgs if lv >= logging.ERROR]
                ok = name == "scipy" or (name in ("minuit", "iminuit") and have)
                if name == "Minuit":  # spelling: refusing with an error and accepting are both sound
                    ok = not errs
                if ok:
                    env = "scipy" if name == "scipy" else "minuit"
                rec.check(bool(errs) != ok, "selection-error", "an optimiser that cannot be selected is reported, one that can is not", name=name, msgs=tap.msgs, installed=have)
                rec.check((os.environ.get("SPEY_OPTIMISER") or "scipy").lower() == (env or "scipy").lower(), "selection-env", "the selection recorded in the environment is not the one requested", name=name, env=os.environ.get("SPEY_OPTIMISER"), expected=env, installed=have)
                sig.append(["set", name])
            elif op == "env":
                env = [None, "scipy", "minuit", "MINUIT", "nlopt"][rng.integers(5)]
                if env is None:
                    os.environ.pop("SPEY_OPTIMISER", None)
                else:
                    os.environ["SPEY_OPTIMISER"] = env
                sig.append(["env", env])
            else:
                explicit = [None, None, "scipy", "minuit"][rng.integers(4)]
                want = explicit or (env or "scipy").lower()
                if want not in ("scipy", "minuit") or not have:
                    want = "scipy"
                kw = {} if explicit is None else {"minimizer": explicit}
                with LogTap() as tap, _Ran() as ran:
                    if op == "fit":
                        from spey.optimizer import fit

                        fit(o.func(True), cfg, do_grad=True, **kw)
                    else:
                        sb = rng.uniform(1, 9, 4)
                        m = spey.get_backend("default.poisson")(signal_yields=sb[:2], background_yields=sb[2:] * 4, data=rng.poisson(sb[2:] * 4).tolist())
                        m.maximize_likelihood(**kw)
                rec.check(want in ran.seen and not (want == "scipy" and "minuit" in ran.seen), "selection-ran", "another optimiser ran than the one selected", want=want, ran=sorted(ran.seen), env=env, explicit=explicit, installed=have, through=op, history=sig)
                asked = explicit or (env or "scipy").lower()
                rec.check(bool(tap.msgs) or asked == want, "selection-warning", "the selected optimiser was replaced without a warning", asked=asked, used=want, installed=have)
                sig.append([op, explicit])
    finally:
        sys.modules["iminuit"] = keep
        os.environ.pop("SPEY_OPTIMISER", None)
        if old is not None:
            os.environ["SPEY_OPTIMISER"] = old
    rec.case([sig, o.d])


KINDS = {k: globals()[k] for k in PLAN["quick"]}
