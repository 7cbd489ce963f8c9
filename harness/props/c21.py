"""C21: confidence contours re-evaluated point by point on an independent likelihood."""
import json
import os
import subprocess
import sys
import warnings

import numpy as np
from scipy.optimize import minimize
from scipy.stats import chi2 as chi2dist

import refmodel as R
from props.common import LogTap, SkipCase
from props.queries import freeze
from vlib import SPEY_SRC

RULE = (
    "distinct (signal shape, Gaussian model, level, bounds, contour parameters, seed) contours; every returned point is re-evaluated with an "
    "independent Gaussian likelihood (profiled with an independent minimiser where parameters are profiled)"
)
PLAN = {
    "quick": {"full": 130, "one": 160, "basins": 70, "profiled": 36, "poisson": 24, "linear": 80, "workers": 6, "refuse": 30},
    "thorough": {"full": 9000, "one": 10000, "basins": 4000, "profiled": 1800, "poisson": 400, "linear": 4000, "workers": 150, "refuse": 200},
}
MINIMA = {"mon:surface": 5000, "mon:inside": 200, "mon:summary": 250, "mon:minimum": 80, "mon:component": 30, "mon:workers": 5, "mon:linear-complete": 20}
ASSUMPTIONS = [
    "profiled contours are judged to the accuracy of the nuisance fits (1e-3 in the log-likelihood)",
    "coverage of disjoint components is demanded for one contour parameter, where components can be enumerated, and for mirrored two-parameter models",
]


# ------------------------------------------------------------------ models
class Gauss:
    """Gaussian model with a parametric signal, its spey counterpart and an independent likelihood."""

    def __init__(self, rng, k=None, shape=None, n=None):
        self.k = int(rng.integers(1, 4)) if k is None else k
        self.shape = ["lin", "quad", "mirror", "exp", "sin"][rng.integers(5 if self.k == 1 else 4)] if shape is None else shape
        self.n = n = int(rng.integers(self.k, self.k + 4)) if n is None else n
        self.b = np.round(rng.uniform(20, 120, n), 3)
        self.s0 = np.round(self.b * rng.uniform(0.2, 1.2, n), 3)
        self.s1 = np.round(rng.uniform(-0.6, 0.6, (self.k, n)) * self.s0, 3)
        for j in range(self.k):  # every parameter acts
            self.s1[j, j % n] += 0.5 * self.s0[j % n]
        sd = np.round(np.sqrt(self.b) * rng.uniform(0.4, 1.5, n), 3)
        self.mvn = bool(rng.integers(2))
        if self.mvn:
            c = R.rand_corr(rng, n) * np.outer(sd, sd)
            self.cov = 0.5 * (c + c.T)
        else:
            self.sd, self.cov = sd, np.diag(sd**2)
        self.inv = np.linalg.inv(self.cov)
        self.const = 0.5 * (np.linalg.slogdet(self.cov)[1] + n * np.log(2 * np.pi))
        self.w = 2.0 if self.shape != "sin" else 3.0
        self.bounds = []
        for _ in range(self.k):
            t = rng.integers(5)
            self.bounds.append([(-self.w, self.w), (None, None), (-self.w, None), (None, self.w), (-0.7 * self.w, 1.3 * self.w)][t if self.shape in ("lin", "quad") else 0])
        self.truth = rng.uniform(-1.2, 1.2, self.k)
        self.d = np.round(self.b + self.signal(self.truth, np) + 0.6 * np.linalg.cholesky(self.cov) @ rng.normal(size=n), 3)

    def signal(self, p, xp):
        out = self.s0 + 0.0 * p[0]
        for j in range(self.k):
            x = p[j]
            g = {
                "lin": lambda: x,
                "quad": lambda: x + 0.3 * x * x,
                "mirror": lambda: x * x,
                "tilt": lambda: x * x,
                "sin": lambda: xp.sin(2.0 * x) + 0.1 * x,
                "exp": lambda: xp.exp(0.5 * x),
            }[self.shape]()
            out = out + g * self.s1[j]
            if self.shape == "tilt":  # two wells of different depth
                out = out + 0.05 * x * self.s1[j] * (np.arange(self.n) % 2)
        return out

    def nll(self, p):
        r = self.d - self.b - self.signal(np.asarray(p, dtype=float), np)
        return float(0.5 * r @ self.inv @ r + self.const)

    def spey(self):
        import autograd.numpy as anp
        import spey

        kw = dict(
            signal_yields=lambda p: self.signal(p, anp), background_yields=self.b, data=self.d,
            n_signal_parameters=self.k, signal_parameter_bounds=list(self.bounds),
        )
        if self.mvn:
            return spey.get_backend("default.multivariate_normal")(covariance_matrix=self.cov, **kw)
        return spey.get_backend("default.normal")(absolute_uncertainties=self.sd, **kw)

    def sig(self):
        return [self.shape, self.k, self.n, self.b.tolist(), self.d.tolist(), self.bounds, self.mvn]

    def boxes(self, bounds=None):
        return [tuple(q) for q in (self.bounds if bounds is None else bounds)]

    def best(self, bounds=None, starts=24, seed=0, fixed=None):
        """Independent global minimum inside the bounds (a feasible witness)."""
        rng = np.random.default_rng(seed)
        bb = self.boxes(bounds)
        free = [j for j in range(self.k) if not fixed or j not in fixed]
        full = np.zeros(self.k)
        for j, v in (fixed or {}).items():
            full[j] = v

        def f(x):
            full[free] = x
            return self.nll(full)

        bestv, bestx = np.inf, None
        if not free:
            return self.nll(full), full.copy()
        for i in range(starts):
            x0 = [rng.uniform(-2.5 if bb[j][0] is None else bb[j][0], 2.5 if bb[j][1] is None else bb[j][1]) if i else np.clip(self.truth[j], *[(-9 if q is None else q) if z == 0 else (9 if q is None else q) for z, q in enumerate(bb[j])]) for j in free]
            r = minimize(f, x0, method="L-BFGS-B", bounds=[bb[j] for j in free], options={"ftol": 1e-14, "gtol": 1e-9})
            if r.fun < bestv:
                full[free] = r.x
                bestv, bestx = float(r.fun), full.copy()
        return bestv, bestx


def _contour(rec, m, **kw):
    from spey.multiparameter.contour import find_contour

    args = dict(n_radial=25, n_hmc_chains=2, n_hmc_steps=25, n_gap_candidates=60, n_jobs=1, n_multistart=8, n_coverage_passes=1)
    args.update(kw)
    with warnings.catch_warnings(record=True) as w, LogTap() as tap:
        warnings.simplefilter("always")
        out = find_contour(m, **args)
    return out, [str(x.message) for x in w], tap.msgs


def _level(rng):
    return float([0.683, 0.95, 0.9, 0.5, 0.99, round(float(rng.uniform(0.05, 0.995)), 4)][rng.integers(6)])


def _summary(rec, c, dim, lev, nll_of, vtol=1e-8, **wit):
    pts = np.asarray(c.contour_points, dtype=float)
    rec.check(c.dof == dim and c.confidence_level == lev, "summary", "dimension and level of the contour", dof=c.dof, level=c.confidence_level, want_dof=dim, want_level=lev, **wit)
    want = chi2dist.ppf(lev, df=dim)
    rec.check(abs(c.delta - want) <= 1e-9 * (1 + want), "summary", "quantile is that of a chi-square with one degree per contour parameter", delta=c.delta, quantile=want, **wit)
    rec.check(abs(c.threshold - (c.nll_min + c.delta / 2)) <= 1e-10 * (1 + abs(c.threshold)), "summary", "threshold = minimum + quantile/2", threshold=c.threshold, nll_min=c.nll_min, delta=c.delta, **wit)
    rec.check(pts.ndim == 2 and pts.shape[1] == dim and np.all(np.isfinite(pts)), "summary", "shape of the point set", array=pts.shape, **wit)
    fr = np.asarray(c.from_radial)
    rec.check(fr.shape == (len(pts),) and (fr.dtype == bool or len(fr) == 0), "summary", "one origin flag per point", flags=fr.shape, npoints=pts.shape, **wit)
    rec.check(np.asarray(c.theta_mle).shape == (dim,), "summary", "one best-fit value per contour parameter", theta=c.theta_mle, **wit)
    v = nll_of(np.asarray(c.theta_mle, dtype=float))
    rec.check(abs(v - c.nll_min) <= vtol * (1 + abs(v)), "summary", "reported minimum is the likelihood at the reported best fit", at_theta=v, nll_min=c.nll_min, theta=c.theta_mle, **wit)
    return pts


def _inside(rec, pts, bounds, **wit):
    ok = np.ones(len(pts), dtype=bool)
    for j, (lo, hi) in enumerate(bounds):
        if lo is not None:
            ok &= pts[:, j] >= lo - 1e-9 * (1 + abs(lo))
        if hi is not None:
            ok &= pts[:, j] <= hi + 1e-9 * (1 + abs(hi))
    rec.check(np.all(ok), "inside", "contour points outside the parameter bounds", first_bad=pts[~ok][:3] if len(pts) else None, bounds=bounds, **wit)


def _surface(rec, c, pts, nll_of, tol=2e-6, **wit):
    for i, x in enumerate(pts):
        v = nll_of(x)
        if not rec.check(abs(v - c.threshold) <= tol, "surface", "a contour point is not on the documented likelihood surface", point=x, nll=v, threshold=c.threshold, radial=bool(c.from_radial[i]), index=i, **wit):
            break


def _kw(rng):
    return dict(random_seed=int(rng.integers(1, 10**6)), hmc_step_size=float([0.05, 0.02, 0.1, 0.2][rng.integers(4)]), n_hmc_steps=int([20, 40][rng.integers(2)]), n_coverage_passes=int(rng.integers(1, 3)))


def _std(rng, rec, g, kw, cl):
    m = g.spey()
    before = freeze(vars(m.backend.config()))
    bnds = None
    if rng.random() < 0.35:  # caller-given bounds around the best fit
        _, x = g.best(starts=6)
        bnds = [(float(max(-1e3 if q[0] is None else q[0], v - rng.uniform(0.1, 1.5))), float(min(1e3 if q[1] is None else q[1], v + rng.uniform(0.1, 1.5)))) for v, q in zip(x, g.bounds)]
        bnds = [q if rng.random() < 0.7 else [(None, q[1]), (q[0], None)][rng.integers(2)] for q in bnds]
        kw = dict(kw, bounds=bnds)
    keep = freeze(kw)
    c, warns, msgs = _contour(rec, m, confidence_level=cl, **kw)
    rec.check(freeze(kw) == keep and freeze(vars(m.backend.config())) == before, "untouched", "find_contour modified its arguments or the model", kw=kw)
    wit = dict(shape=g.shape, k=g.k, cl=cl, kw=kw)
    pts = _summary(rec, c, g.k, cl, g.nll, **wit)
    _inside(rec, pts, g.boxes(bnds) if bnds else g.boxes(), **wit)
    _surface(rec, c, pts, g.nll, **wit)
    if g.shape not in ("lin", "exp"):  # several basins: reached by the multi-start with luck only
        v, x = np.inf, np.zeros(g.k)
    else:
        v, x = g.best(bounds=None, starts=12)
    if bnds is None or c.nll_min > v + 1e-3:
        lim = g.boxes(bnds) if bnds is not None else None
        if lim is None or all((lo is None or lo <= xx) and (hi is None or xx <= hi) for xx, (lo, hi) in zip(x, lim)):
            rec.check(c.nll_min <= v + 1e-3, "minimum", "a lower point exists: the reported best fit is not the minimum", nll_min=c.nll_min, theta=c.theta_mle, better=v, at=x, **wit)
    rec.count("points", len(pts))
    rec.count("points-walk", int(np.sum(~np.asarray(c.from_radial, dtype=bool))))
    if not len(pts):
        rec.count("empty")
        rec.check(any("No contour points" in w for w in warns), "empty-warning", "an empty contour was not announced", warns=warns)
    return c, pts, m


def full(rng, rec):
    g = Gauss(rng, k=int(rng.integers(2, 4)))
    kw, cl = _kw(rng), _level(rng)
    _std(rng, rec, g, kw, cl)
    rec.case([g.sig(), cl, kw])


def _components(g, lo, hi, T, N=4001):
    xs = np.linspace(lo, hi, N)
    r = (g.d - g.b)[None, :] - np.array([g.signal(np.array([x]), np) for x in xs])
    v = 0.5 * np.einsum("ij,jk,ik->i", r, g.inv, r) + g.const
    below = v < T
    out, i = [], 0
    while i < N:
        if below[i]:
            j = i
            while j + 1 < N and below[j + 1]:
                j += 1
            out.append((i > 0, xs[i], xs[j], j < N - 1, j - i + 1, v[i : j + 1].min()))
            i = j + 1
        i += 1
    return out, xs[1] - xs[0]


def one(rng, rec):
    """One contour parameter: components of the region can be enumerated."""
    tilt = rng.random() < 0.35
    g = Gauss(rng, k=1, shape="tilt", n=int(rng.integers(2, 5))) if tilt else Gauss(rng, k=1)
    if tilt:
        g.d = np.round(g.b + g.signal(np.array([rng.choice([-1, 1]) * rng.uniform(0.7, 1.5)]), np), 3)
    g.bounds = [(-g.w, g.w)]
    kw, cl = _kw(rng), _level(rng)
    kw["n_multistart"] = 30
    kw["n_radial"] = 25
    m = g.spey()
    c, warns, _ = _contour(rec, m, confidence_level=cl, **kw)
    wit = dict(shape=g.shape, k=1, cl=cl, kw=kw)
    pts = _summary(rec, c, 1, cl, g.nll, **wit)
    _inside(rec, pts, g.boxes(), **wit)
    _surface(rec, c, pts, g.nll, **wit)
    v, x = g.best(starts=16)
    if g.shape != "sin":
        rec.check(c.nll_min <= v + 1e-3, "minimum", "a lower point exists: the reported best fit is not the minimum", nll_min=c.nll_min, theta=c.theta_mle, better=v, at=x, **wit)
    comps, h = _components(g, -g.w, g.w, c.threshold)
    for left, a, b, right, width, low in comps:
        if g.shape == "sin" or width < 60 or c.threshold - low < 0.05 or not (left and right):
            rec.count("component-skipped")
            continue
        near = [abs(p - q) <= 2 * h for p in pts[:, 0] for q, on in ((a, left), (b, right)) if on]
        rec.check(any(near), "component", "a disjoint component of the region has no contour point", component=(a, b), points=pts[:60, 0], threshold=c.threshold, ncomp=len(comps), **wit)
    rec.count(f"components:{len(comps)}")
    if tilt and len(comps) == 2:
        rec.count("tilted")
    rec.case([g.sig(), cl, kw])


def basins(rng, rec):
    """Mirrored models (x -> -x is a symmetry of every parameter): both sides are covered."""
    g = Gauss(rng, k=int(rng.integers(1, 3)), shape="mirror")
    g.truth = np.where(rng.random(g.k) < 0.5, -1, 1) * rng.uniform(1.0, 1.5, g.k)
    g.d = np.round(g.b + g.signal(g.truth, np), 3)
    kw, cl = _kw(rng), _level(rng)
    kw["n_multistart"] = 40
    c, pts, m = _std(rng, rec, g, dict(kw), cl) if rng.random() < 0.3 else (None, None, None)
    if c is None:
        m = g.spey()
        c, _, _ = _contour(rec, m, confidence_level=cl, **kw)
        pts = _summary(rec, c, g.k, cl, g.nll, shape="mirror", cl=cl, kw=kw)
        _surface(rec, c, pts, g.nll, cl=cl, kw=kw)
        _inside(rec, pts, g.boxes(), cl=cl, kw=kw)
        # separated in parameter j when the whole hyperplane x_j = 0 is above the threshold
        sep = []
        for j in range(g.k):
            v, _ = g.best(fixed={j: 0.0}, starts=8)
            sep.append(v > c.threshold + 0.05)
        if all(sep) and len(pts):
            want = 2  # the other corners of a two-parameter model are reached with luck only
            got = {tuple((p > 0).tolist()) for p in pts}
            rec.check(len(got) >= want, "component", "a mirrored component of the region has no contour point", sides=sorted(got), cl=cl, kw=kw, theta=c.theta_mle)
            rec.count("separated")
    rec.case([g.sig(), cl, kw])


def linear(rng, rec):
    """Linear signals: the contour is an ellipsoid, so every radial direction has exactly one crossing."""
    g = Gauss(rng, shape="lin", k=int(rng.integers(1, 4)))
    wide = rng.random() < 0.7
    if wide:
        g.bounds = [[(None, None), (-1e4, 1e4)][rng.integers(2)] for _ in range(g.k)]
    kw, cl = _kw(rng), _level(rng)
    J = g.s1.T
    G = J.T @ g.inv @ J
    x = np.linalg.solve(G, J.T @ g.inv @ (g.d - g.b - g.s0))
    if np.max(np.abs(x)) > 5 or np.linalg.cond(G) > 1e4:
        raise SkipCase("flat direction")
    m = g.spey()
    c, warns, _ = _contour(rec, m, confidence_level=cl, **kw)
    wit = dict(shape="lin", cl=cl, kw=kw, box=g.bounds)
    pts = _summary(rec, c, g.k, cl, g.nll, **wit)
    _inside(rec, pts, g.boxes(), **wit)
    _surface(rec, c, pts, g.nll, **wit)
    if wide:
        sd = np.sqrt(np.diag(np.linalg.inv(G)))
        rec.check(np.all(np.abs(np.asarray(c.theta_mle) - x) <= 0.05 * sd + 1e-6), "linear-fit", "best fit is the least-squares solution", theta=c.theta_mle, closed_form=x, sd=sd, **wit)
        fr = np.asarray(c.from_radial, dtype=bool)
        rec.check(int(fr.sum()) >= 25, "linear-complete", "radial directions without a crossing on an ellipsoid", radial=int(fr.sum()), warns=warns[:2], **wit)
        y = pts - x
        q = np.einsum("ij,jk,ik->i", y, G, y)
        rec.check(np.all(np.abs(q - c.delta) <= 1e-2), "ellipsoid", "points are not on the ellipsoid of the chi-square quantile", worst=float(np.max(np.abs(q - c.delta))) if len(q) else 0, **wit)
        if g.k > 1:
            # directions cover the sphere: in whitened coordinates no half-space is empty
            L = np.linalg.cholesky(G)
            u = (y[fr] @ L) / np.sqrt(c.delta)
            rec.check(np.linalg.norm(u.mean(0)) <= 0.75, "coverage", "radial directions cluster on one side", mean=u.mean(0), **wit)
    rec.case([g.sig(), cl, kw])


def profiled(rng, rec):
    """Contour of a subset of parameters: the others are profiled at every point."""
    g = Gauss(rng, k=int(rng.integers(2, 4)), shape=["lin", "lin", "exp"][rng.integers(3)])
    g.bounds = [(-g.w, g.w)] * g.k
    if rng.random() < 0.6:  # every parameter has its own range, some ranges bind in the profile
        _, x = g.best(starts=6)
        g.bounds = [(float(round(v - rng.uniform(0.05, 2.0), 3)), float(round(v + rng.uniform(0.05, 2.0), 3))) for v in x]
    cl = _level(rng)
    kw = dict(random_seed=int(rng.integers(1, 10**6)), n_radial=10, n_hmc_steps=5, n_hmc_chains=1, n_multistart=3)
    sub = sorted(int(i) for i in rng.permutation(g.k)[: int(rng.integers(1, g.k))])
    idx = [1 + i for i in sub]
    arg = list(rng.permutation(idx)) if rng.random() < 0.4 else list(idx)
    arg = [int(i) for i in arg]
    if rng.random() < 0.3:
        arg.insert(int(rng.integers(len(arg) + 1)), 0)  # the signal strength is dropped
    keep = list(arg)
    m = g.spey()
    c, warns, _ = _contour(rec, m, confidence_level=cl, poi_indices=arg, **kw)
    names = m.backend.config().parameter_names
    if names is not None:
        rec.count("named")
        rec.check(list(c.parameter_names) == [names[i] for i in idx], "summary", "names of the contour parameters", names=c.parameter_names, indices=idx)
    rec.check(arg == keep, "untouched", "poi_indices was modified", was=keep, now=arg)

    def nll_of(x):
        return g.best(fixed=dict(zip(sub, x)), starts=4)[0]

    wit = dict(shape=g.shape, k=g.k, sub=sub, cl=cl, kw=kw)
    pts = _summary(rec, c, len(sub), cl, nll_of, vtol=1e-5, **wit)
    _inside(rec, pts, [g.bounds[i] for i in sub], **wit)
    _surface(rec, c, pts, nll_of, 1e-3, **wit)
    v, x = g.best(starts=10)
    rec.check(c.nll_min <= v + 1e-3, "minimum", "a lower point exists: the reported best fit is not the minimum", nll_min=c.nll_min, better=v, at=x, **wit)
    rec.count("points", len(pts))
    rec.case([g.sig(), cl, sub, kw])


def poisson(rng, rec):
    """Counting models with constraint terms: nuisance parameters are profiled."""
    sp = R.gen_spec(rng, kinds=["ub", "cb"], nmin=2, nmax=3, callable_sig=True, modifiers=False, regime="signal", scale=(30, 100), sb=(0.5, 2.0), zero_signal=False)
    if sp["nsp"] != 1:
        raise SkipCase("profiles along a second signal parameter have several local minima")
    ref = R.Ref(sp)
    if sp.get("sigfn", "lin") != "lin":
        raise SkipCase("several basins")
    m = R.build(sp)
    cl = [0.683, 0.95][rng.integers(2)]
    c, warns, _ = _contour(rec, m, confidence_level=cl, poi_indices=[1], n_radial=6, n_multistart=2, random_seed=int(rng.integers(1, 1000)))
    bounds = m.backend.config().suggested_bounds

    def nll_of(x):
        best = np.inf
        free = list(range(2, ref.npar))
        p = np.zeros(ref.npar)
        p[0], p[1] = 1.0, float(x[0])

        def f(q):
            p[free] = q
            if np.any(ref.rates(p) <= 1e-8):
                return 1e9
            return ref.nll(p, ref.d)

        for st in range(2):
            r = minimize(f, np.zeros(len(free)) if st == 0 else np.full(len(free), 0.2), method="L-BFGS-B", bounds=[bounds[i] for i in free], options={"ftol": 1e-13, "gtol": 1e-8})
            best = min(best, r.fun)
        return best

    wit = dict(kind=sp["kind"], cl=cl)
    pts = _summary(rec, c, 1, cl, nll_of, vtol=1e-3, **wit)
    _inside(rec, pts, [bounds[1]], **wit)
    for x in pts[:6]:
        v = nll_of(x)
        rec.check(v <= c.threshold + 5e-3 and abs(v - c.threshold) <= 5e-3, "surface", "a contour point is not on the profiled likelihood surface", point=x, nll=v, threshold=c.threshold, spec=sp, **wit)
    rec.case([sp["kind"], sp["b"], sp["d"], cl])


_SCRIPT = """
import sys, json, warnings
sys.path[:0] = [{src!r}, {here!r}]
warnings.filterwarnings("ignore")
import numpy as np
import spey
assert spey.__file__.startswith({src!r})
spey.set_log_level(0)
from props.c21 import Gauss
from spey.multiparameter.contour import find_contour
g = Gauss(np.random.default_rng({seed}), k=2, shape={shape!r}, n=3)
m = g.spey()
out = []
for nj in {jobs}:
    c = find_contour(m, n_radial=8, n_hmc_chains=3, n_hmc_steps=12, n_gap_candidates=40, n_jobs=nj, n_multistart=4, n_coverage_passes={passes}, random_seed={rs})
    out.append([nj, c.contour_points.tolist(), c.from_radial.tolist(), c.theta_mle.tolist(), c.nll_min])
print("RESULT" + json.dumps(out))
"""


def workers(rng, rec):
    """A fixed random state gives the same contour for any number of worker processes."""
    seed, rs = int(rng.integers(10**6)), int(rng.integers(1, 10**6))
    shape = ["lin", "quad", "mirror"][rng.integers(3)]
    jobs = [1, int(rng.integers(2, 5)), [0, 1, -3][rng.integers(3)]]
    src = _SCRIPT.format(src=SPEY_SRC if SPEY_SRC.endswith("src") else SPEY_SRC, here=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), seed=seed, shape=shape, jobs=jobs, passes=int(rng.integers(1, 3)), rs=rs)
    r = subprocess.run([sys.executable, "-c", src], capture_output=True, text=True, timeout=100, env={**os.environ, "TQDM_DISABLE": "1"})
    if "RESULT" not in r.stdout:
        err = r.stderr[-1500:]
        if "spey/" in err:
            rec.violate("contour-crash", "find_contour failed", stderr=err)
            return
        raise OSError("worker script failed: " + err)
    out = json.loads(r.stdout.split("RESULT")[1])
    base = out[0]
    for o in out[1:]:
        rec.check(o[1:] == base[1:], "workers", "the contour depends on the number of workers", jobs=[base[0], o[0]], sizes=[len(base[1]), len(o[1])], seed=seed, shape=shape)
    rec.case([seed, rs, shape, jobs], nontrivial=sum(not f for f in base[2]) > 3)


def refuse(rng, rec):
    g = Gauss(rng, k=2, shape="lin")
    m = g.spey()
    from spey.multiparameter.contour import find_contour

    t = rng.integers(4)
    kw = [dict(confidence_level=float([0.0, 1.0, -0.1, 1.5][rng.integers(4)])), dict(bounds=[(-1, 1)] * int([1, 3][rng.integers(2)])), dict(poi_indices=[]), dict(poi_indices=[0])][t]
    try:
        find_contour(m, n_jobs=1, n_radial=2, n_multistart=1, **kw)
        rec.check(False, "refused", "an inadmissible request was accepted", kw=kw)
    except ValueError:
        rec.check(True, "refused")
    rec.case([g.sig(), kw])


KINDS = {k: globals()[k] for k in PLAN["quick"]}
