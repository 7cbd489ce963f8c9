"""C12: chi-square, pulls and likelihood intervals against the profile likelihood."""
import math

import numpy as np
from scipy.optimize import brentq
from scipy.stats import chi2 as chi2dist
from scipy.stats import norm

import refmodel as R
import spey
from props.common import EXPECTED, ET, SkipCase, moderate, nice_spec, spec_sig
from props.stats import Indep
from spey import UnCorrStatisticsCombiner
from spey.base.hypotest_base import HypothesisTestingBase

RULE = (
    "distinct (model or analytic profile, tested value(s), reference, expectation, level, side, profiled parameter) whose chi-square, pull or "
    "interval was recomputed from likelihood queries of a fresh model, from an independent optimiser or from the closed form"
)
PLAN = {
    "quick": {"forms": 170, "independent": 200, "pulls": 220, "curve": 900, "wells": 300, "poi": 90, "nuisance": 40, "signal_parameter": 50, "combination": 40, "refused": 120, "units": 120, "nocounts": 60},
    "thorough": {"forms": 5000, "independent": 5000, "pulls": 6000, "curve": 40000, "wells": 9000, "poi": 2200, "nuisance": 900, "signal_parameter": 1200, "combination": 900, "refused": 1500, "units": 4000, "nocounts": 1500},
}
MINIMA = {"mon:query-options": 200, "mon:same-input": 400, "mon:independent": 150, "mon:pull": 300, "mon:crossing": 1500, "mon:all-crossings": 150, "mon:nested": 200, "mon:threshold": 120, "mon:refused": 100}
ASSUMPTIONS = [
    "intervals of Poisson models are checked where the search window stays in the physical region of the model (elsewhere a fit has no "
    "feasible point and takes minutes); Gaussian models and analytic profiles are checked everywhere",
    "fits are accurate to 2e-3 in the log-likelihood in the regular domain (C03, C04)",
]
CASE_TIMEOUT = 150
LEVELS = [0.5, 0.683, 0.8, 0.9, 0.95, 0.99]


def thr(cl):
    """Chi-square quantile with one degree of freedom, from the normal quantile."""
    return float(norm.ppf(0.5 * (1 + cl)) ** 2)


# ---------------------------------------------------------------- chi-square
def forms(rng, rec):
    spec = nice_spec(rng)
    ref = R.Ref(spec)
    m = R.build(spec)
    exp = EXPECTED[rng.integers(3)]
    neg = bool(rng.integers(2))
    k = int(rng.integers(1, 4))
    mus = [float(round(rng.uniform(0, 2), 3)) for _ in range(k)]
    if rng.random() < 0.2:
        mus = [int(x) for x in mus]
    rec.case(spec_sig(spec, "forms", mus, str(exp), neg), True)
    wit = dict(spec=spec, mus=mus, expected=str(exp), negative=neg)
    den = None if rng.random() < 0.5 else float(round(rng.uniform(0, 1.5), 3))
    kw = dict(expected=exp, poi_test_denominator=den)
    if den is None:
        kw["allow_negative_signal"] = neg
    fresh = R.build(spec)
    base = fresh.maximize_likelihood(expected=exp, allow_negative_signal=neg)[1] if den is None else fresh.likelihood(den, expected=exp)
    want = [2.0 * (fresh.likelihood(x, expected=exp) - base) for x in mus]
    outs = {
        "scalar": [m.chi2(x, **kw) for x in mus],
        "list": m.chi2(list(mus), **kw),
        "tuple": m.chi2(tuple(mus), **kw),
        "array": m.chi2(np.array(mus), **kw),
        "generator": m.chi2((x for x in mus), **kw),
        "dict": [m.chi2({0: x}, **kw) for x in mus],
        "dict-scan": m.chi2({0: list(mus)}, **kw),
        "dict-scan-array": m.chi2({0: np.array(mus)}, **kw),
    }
    names = m.backend.config().parameter_names
    if names:
        outs["named-scan"] = m.chi2({names[0]: tuple(mus)}, **kw)
    for form, out in outs.items():
        ok = np.shape(out) == (len(mus),)
        rec.check(ok, "same-input", f"{form}: wrong shape", form=form, out=out, **wit)
        if ok:
            d = float(np.max(np.abs(np.asarray(out, dtype=float) - want)))
            rec.check(d <= 2e-8 + 1e-9 * float(np.max(np.abs(want))), "same-input", f"{form}: chi-square is not twice the likelihood difference", form=form, out=out, want=want, den=den, **wit)
            if isinstance(out, np.ndarray):
                rec.check(out.dtype == np.float64, "precision", f"{form}: not double precision", dtype=str(out.dtype), **wit)
    # ranges and data of a query reach both sides of the difference
    if ref.npar > 1:
        j = int(rng.integers(1, ref.npar))
        bounds = [(0.0, 10.0)] + [(-4.0, 4.0)] * (ref.npar - 1)
        bounds[j] = (0.3, 0.8) if rng.random() < 0.5 else (-0.6, -0.1)
        start = [1.0 if i == 0 else 0.5 * (lo + hi) if i == j else 0.0 for i, (lo, hi) in enumerate(bounds)]
        both = dict(par_bounds=list(bounds), init_pars=list(start))
        data = (np.array(ref.data(exp)) * rng.uniform(0.9, 1.1, len(spec["b"]))).round(2)
        dkw = {} if rng.random() < 0.5 else {"data": data}
        ref_kw = dict(expected=exp, **both, **dkw)
        base2 = fresh.maximize_likelihood(allow_negative_signal=neg, **ref_kw)[1] if den is None else fresh.likelihood(den, **ref_kw)
        want2 = [2.0 * (fresh.likelihood(x, **ref_kw) - base2) for x in mus]
        more = {"mle_kwargs": dict(dkw), "likelihood_kwargs": dict(dkw)} if dkw else {}
        outs2 = {"scalar": [m.chi2(x, **kw, **both, **more) for x in mus], "list": m.chi2(list(mus), **kw, **both, **more), "dict-scan": m.chi2({0: list(mus)}, **kw, **both, **more)}
        for form, out in outs2.items():
            ok = np.shape(out) == (len(mus),) and float(np.max(np.abs(np.asarray(out, dtype=float) - want2))) <= 2e-7 + 1e-8 * float(np.max(np.abs(want2)))
            rec.check(ok, "query-options", f"{form}: ranges, starting point or data of the query do not reach both fits", form=form, out=out, want=want2, den=den, bounds=bounds, data=bool(dkw), **wit)
    # constrained scans of several parameters
    if ref.npar > 1:
        i = int(rng.integers(1, ref.npar))
        v = float(round(rng.uniform(-0.7, 0.7), 3)) if rng.random() < 0.7 else [0.0, 0, 0.5][rng.integers(3)]
        want = [2.0 * (fresh.likelihood({0: float(x), i: v}, expected=exp) - base) for x in mus]
        key = names[i] if names and rng.random() < 0.5 else i
        arg = {key: v, 0: list(mus)} if rng.random() < 0.5 else {0: np.array(mus), key: v}
        keep = {a: (list(b) if np.ndim(b) else b) for a, b in arg.items()}
        out = m.chi2(arg, **kw)
        rec.check(np.shape(out) == (k,) and float(np.max(np.abs(np.asarray(out) - want))) <= 2e-8 + 1e-9 * np.max(np.abs(want)), "same-input", "scan with a second fixed parameter", out=out, want=want, arg=repr(arg), **wit)
        rec.check({a: (list(b) if np.ndim(b) else b) for a, b in arg.items()} == keep, "argument", "chi2 changed the caller's dict", arg=repr(arg), **wit)
        ths = [float(round(x, 3)) for x in rng.uniform(-0.8, 0.8, 2)]
        if rng.random() < 0.3:
            ths[0] = 0.0
        hold = [0.4, 0.0, 1.0, 0][rng.integers(4)]
        want = [2.0 * (fresh.likelihood({0: hold, i: x}, expected=exp) - base) for x in ths]
        out = m.chi2({0: hold, i: ths}, **kw)
        rec.check(np.shape(out) == (2,) and float(np.max(np.abs(np.asarray(out) - want))) <= 2e-8 + 1e-9 * np.max(np.abs(want)), "same-input", "nuisance scan at fixed signal", out=out, want=want, **wit)
        # optimiser options go to their own side only
        d2 = fresh.maximize_likelihood(expected=exp, allow_negative_signal=neg, fixed_poi_value={i: v})
        d2 = d2[1]
        out = m.chi2(mus[0], expected=exp, allow_negative_signal=neg, mle_kwargs={"fixed_poi_value": {i: v}})
        w = 2.0 * (fresh.likelihood(mus[0], expected=exp) - d2)
        rec.check(abs(out - w) <= 2e-8 + 1e-9 * abs(w), "denominator-options", "restricted reference fit", out=out, want=w, fixed={i: v}, **wit)
        try:
            m.chi2({0: list(mus), i: [0.1, 0.2]}, **kw)
            rec.check(False, "refused", "two scanned parameters must be refused", **wit)
        except NotImplementedError:
            rec.check(True, "refused", "")


def independent(rng, rec):
    spec = nice_spec(rng)
    ref = R.Ref(spec)
    exp = EXPECTED[rng.integers(3)]
    neg = bool(rng.integers(2))
    mu = float(round(rng.uniform(0.0, 2.0), 3))
    rec.case(spec_sig(spec, "ind", mu, str(exp), neg), True)
    ind = Indep(ref, exp, "q" if neg else "qtilde")
    if not ind.regular(mu):
        raise SkipCase("irregular")
    m = R.build(spec)
    out = m.chi2(mu, expected=exp, allow_negative_signal=neg)
    w = 2 * (ind.f(mu) - ind.nll)
    rec.check(abs(out - w) <= 8e-3, "independent", "chi-square differs from the independent profile likelihood", out=out, want=w, spec=spec, mu=mu, expected=str(exp), negative=neg)
    d = float(round(rng.uniform(0, 1), 3))
    out = m.chi2(mu, poi_test_denominator=d, expected=exp)
    w = 2 * (ind.f(mu) - ind.f(d))
    rec.check(abs(out - w) <= 8e-3, "independent", "chi-square with a reference hypothesis", out=out, want=w, spec=spec, mu=mu, den=d, expected=str(exp))


def pulls(rng, rec):
    spec = nice_spec(rng)
    exp = EXPECTED[rng.integers(3)]
    neg = bool(rng.random() < 0.7)
    m = R.build(spec)
    fresh = R.build(spec)
    muhat, nll = fresh.maximize_likelihood(expected=exp, allow_negative_signal=neg)
    muhat = float(muhat)
    tests = [float(round(rng.uniform(0.0, 2.0), 3)), float(round(max(0.0, muhat) * rng.uniform(0.2, 1.0), 4)), muhat + 0.05]
    if muhat > 0.5 * R.Ref(spec).minimum_poi:
        tests.append(muhat)
    if tests[2] < 0.5 * R.Ref(spec).minimum_poi:
        tests[2] = 0.1
    rec.case(spec_sig(spec, "pull", tests[0], str(exp), neg), True)
    for t in tests:
        got = m.pull(t, expected=exp, allow_negative_signal=neg)
        d = 2.0 * (fresh.likelihood(t, expected=exp) - nll)
        want = float(np.sign(muhat - t)) * math.sqrt(max(d, 0.0))
        wit = dict(spec=spec, mu=t, muhat=muhat, expected=str(exp), negative=neg, got=got, want=want)
        rec.check(math.isfinite(got), "finite-pull", "pull is not a number", **wit)
        rec.check(abs(got - want) <= 1e-3 + 1e-6 * abs(want) and abs(got * got - max(d, 0)) <= 1e-5 + 1e-8 * abs(d), "pull", "pull is not the signed root of the chi-square", **wit)
        if d > 1e-3:
            rec.check(got > 0 if t < muhat else got < 0, "pull-sign", "pull has the wrong sign", **wit)


# ----------------------------------------------------------- analytic curves
class Curve(HypothesisTestingBase):
    """A one-parameter statistical model given by an analytic likelihood."""

    def __init__(self, nll, best, trapped=None, sigma=None):
        super().__init__()
        self.fn, self.best, self.trapped, self.sg = nll, best, trapped, sigma
        self.calls = 0

    is_alive = property(lambda self: True)
    is_asymptotic_calculator_available = property(lambda self: True)
    is_toy_calculator_available = property(lambda self: False)
    is_chi_square_calculator_available = property(lambda self: True)

    def likelihood(self, poi_test=1.0, expected=ET.observed, return_nll=True, data=None, return_parameters=False, **kwargs):
        self.calls += 1
        return self.fn(float(poi_test)) * (1 if return_nll else -1)

    def maximize_likelihood(self, return_nll=True, expected=ET.observed, allow_negative_signal=True, data=None, poi_indices=None, **kwargs):
        x = self.best if self.trapped is None else self.trapped
        if not allow_negative_signal:
            x = max(x, 0.0)
        return x, self.fn(x)

    def asimov_likelihood(self, poi_test=1.0, expected=ET.observed, return_nll=True, test_statistics="qtilde", **kwargs):
        return 0.5 * (float(poi_test) / self.sg) ** 2

    def maximize_asimov_likelihood(self, return_nll=True, expected=ET.observed, test_statistics="qtilde", poi_indices=None, **kwargs):
        return 0.0, 0.0


def make_curve(rng):
    """(label, nll, best, left(q), right(q)) for a single-minimum curve."""
    sc = float(np.exp(rng.uniform(np.log(2e-3), np.log(300.0))))
    off = float(rng.uniform(-30, 30))
    m = float(sc * rng.normal(0, 2.5))
    if rng.random() < 0.15:
        m = 0.0
    kind = ["parabola", "asym", "cosh", "quartic", "log"][rng.integers(5)]
    if kind == "parabola":
        f = lambda x: off + 0.5 * ((x - m) / sc) ** 2
    elif kind == "asym":
        s2 = sc * float(rng.uniform(0.4, 2.5))
        f = lambda x: off + 0.5 * ((x - m) / (sc if x < m else s2)) ** 2
    elif kind == "cosh":
        f = lambda x: off + (math.cosh(min(abs(x - m) / sc, 300.0)) - 1)
    elif kind == "quartic":
        f = lambda x: off + 0.3 * ((x - m) / sc) ** 2 + 0.05 * ((x - m) / sc) ** 4
    else:
        n = float(rng.uniform(4, 60))  # counting experiment in units of the yield, shifted

        def f(x):
            lam = n + math.sqrt(n) * (x - m) / sc
            return off + (lam - n - n * math.log(lam / n) if lam > 1e-9 * n else n * (22 - lam / n))

    return kind, f, m, sc


def curve(rng, rec):
    kind, f, m, sc = make_curve(rng)
    side = ["two-sided", "left", "right"][rng.integers(3)]
    cls_ = sorted(rng.choice(LEVELS, 2, replace=False).tolist())
    neg = [None, True, False][rng.integers(3)]
    pos = side == "right" and not neg
    best = max(m, 0.0) if pos else m
    rec.case([kind, m, sc, side, neg, cls_], True)
    sols = []
    kw = {}
    if rng.random() < 0.3:
        kw["n_scan"] = int(rng.integers(3, 60))
    if rng.random() < 0.3:
        kw["n_multistart"] = int(rng.integers(2, 12))
    for cl in cls_:
        mod = Curve(f, m, sigma=sc)
        out = mod.chi2_test(expected=EXPECTED[rng.integers(3)], confidence_level=cl, limit_type=side, allow_negative_signal=neg, **kw)
        q = thr(cl)
        g = lambda x: 2 * (f(x) - f(best)) - q
        wit = dict(curve=kind, best=m, scale=sc, side=side, cl=cl, negative=neg, options=kw, out=out)
        want = []
        if side != "right":
            lo = best - sc
            while not g(lo) > 0:
                lo -= sc
            want.append(brentq(g, lo, best))
        if side != "left":
            hi = best + sc
            while not g(hi) > 0:
                hi += sc
            want.append(brentq(g, best, hi))
        ok = isinstance(out, list) and len(out) == len(want)
        rec.check(ok, "crossing", "wrong number of end points", want=want, **wit)
        if not ok:
            return
        for a, b in zip(out, want):
            rec.check(abs(a - b) <= 3e-4 * abs(b) + 1e-9 * sc, "crossing", "end point is not where the profile reaches the quantile", end=a, want=b, **wit)
        if side == "two-sided":
            rec.check(out[0] < m < out[1], "contains-best", "interval does not contain the best fit", **wit)
        sols.append(out)
    a, b = sols
    tol = 5e-4 * max(map(abs, a + b))
    wit = dict(curve=kind, best=m, scale=sc, side=side, levels=cls_, narrow=a, wide=b)
    if side == "two-sided":
        rec.check(b[0] <= a[0] + tol and a[1] <= b[1] + tol, "nested", "intervals are not nested", **wit)
    elif side == "left":
        rec.check(b[0] <= a[0] + tol, "nested", "intervals are not nested", **wit)
    else:
        rec.check(b[0] >= a[0] - tol, "nested", "intervals are not nested", **wit)


def wells(rng, rec):
    """Two minima: every crossing must be reported, and the deeper minimum is the reference."""
    w = float(rng.uniform(0.8, 2.2))
    c = float(rng.uniform(-1, 1)) if rng.random() < 0.6 else float(rng.uniform(20, 90) * rng.choice([-1, 1]))
    h = float(rng.uniform(1.0, 6.0))
    tilt = float(rng.uniform(-0.6, 0.6))
    f = lambda x: h * ((((x - c) / w) ** 2 - 1) ** 2) + tilt * (x - c) / w
    xs = np.linspace(c - 4 * w, c + 4 * w, 4001)
    ys = np.array([f(x) for x in xs])
    i = int(np.argmin(ys))
    best = float(xs[i])
    cl = float(rng.choice(LEVELS))
    q = thr(cl)
    other = float(c - (best - c))
    trap = bool(rng.integers(2))
    mod = Curve(f, best, trapped=other if trap else None, sigma=float(rng.uniform(0.3, 1.0)) * w)
    side = ["two-sided", "two-sided", "left", "right"][rng.integers(4)]
    rec.case([w, c, h, tilt, cl, trap, side], True)
    # the search window is at least three units either way and always covers both wells here
    start = other if trap else best
    if abs(start - c) + 1.9 * w > max(6 * mod.sg, 3.0) - 0.2:
        raise SkipCase("window")
    loc = min(f(x) for x in np.linspace(c - 1.5 * w, c, 400)), min(f(x) for x in np.linspace(c, c + 1.5 * w, 400))
    # the deeper minimum can only be recognised if a sample of the multi-start scan falls below the other one
    step = 2 * max(6 * mod.sg, 3.0) / 80
    if trap and abs(loc[0] - loc[1]) < 3 * h * (step / w) ** 2 + 2e-2:
        raise SkipCase("resolution")
    out = mod.chi2_test(confidence_level=cl, limit_type=side, allow_negative_signal=True, n_scan=161, n_multistart=81)
    ymin = float(np.min(ys))
    g = lambda x: 2 * (f(x) - ymin) - q
    want = [brentq(g, xs[j], xs[j + 1]) for j in range(len(xs) - 1) if g(xs[j]) * g(xs[j + 1]) < 0]
    # crossings closer than the scan step may be missed together; keep clear of tangencies
    if len(want) > 1 and min(np.diff(want)) < 0.25:
        raise SkipCase("tangent")
    # two nearly equal minima: which one is "best" is not determined
    if abs(loc[0] - loc[1]) < 1e-3 and side != "two-sided":
        raise SkipCase("degenerate")
    if side == "left":
        want = [x for x in want if x < best]
    elif side == "right":
        want = [x for x in want if x > best]
    ok = isinstance(out, list) and len(out) == len(want) and all(abs(a - b) <= 5e-4 * max(abs(b), 0.1) + 1e-3 for a, b in zip(out, want))
    rec.check(ok, "all-crossings", "not every crossing of the threshold is reported", out=out, want=want, w=w, c=c, h=h, tilt=tilt, cl=cl, trapped=trap, side=side, best=best)


# --------------------------------------------------------------- real models
def poi(rng, rec):
    kinds = ["gau", "mvn"] if rng.random() < 0.4 else ["ub", "cb", "tm", "poi"]
    big = kinds[0] == "ub"
    spec = nice_spec(rng, kinds=kinds, scale=(40.0, 400.0) if big else (4, 200.0), rel=(0.02, 0.06) if big else (0.05, 0.3), sb=(0.05, 0.3))
    ref = R.Ref(spec)
    exp = EXPECTED[rng.integers(3)]
    cls_ = sorted(rng.choice(LEVELS, 2, replace=False).tolist())
    m = R.build(spec)
    # a reference estimate of the uncertainty decides whether the window stays physical
    data = ref.data(exp)
    o = ref.optimum(data, tries=2)
    s, u = np.array(spec["s"]), np.array(spec["unc"])
    var = np.diag(np.array(spec["cov"])) if spec["kind"] == "mvn" else (u**2 if spec["kind"] == "gau" else np.array(spec["b"]) + (0 if spec["kind"] == "poi" else u**2))
    sg = 1 / math.sqrt(float(np.sum(s**2 / var)))
    sides = ["two-sided", "left", "right"]
    phys = o[1][0] - max(9 * sg, 3.2) > 0.9 * ref.minimum_poi
    side = sides[rng.integers(3)] if phys else "right"
    neg = None if side != "right" or not phys else [None, True][rng.integers(2)]
    nneg = side != "right" or bool(neg)
    o = ref.optimum(data, tries=2, allow_negative=nneg)
    if not moderate(ref, o[1], data) or abs(o[1][0]) > 8:
        raise SkipCase("irregular")
    rec.case(spec_sig(spec, "poi", side, cls_, str(exp), neg), True)
    sols = []
    for cl in cls_:
        out = m.chi2_test(expected=exp, confidence_level=cl, limit_type=side, allow_negative_signal=neg)
        wit = dict(spec=spec, side=side, cl=cl, expected=str(exp), negative=neg, out=out)
        ok = isinstance(out, list) and len(out) == (2 if side == "two-sided" else 1) and all(math.isfinite(x) for x in out)
        rec.check(ok, "crossing", "wrong number of end points", **wit)
        if not ok:
            return
        fresh = R.build(spec)
        mh, best = fresh.maximize_likelihood(expected=exp, allow_negative_signal=nneg)
        for x in out:
            q = 2 * (fresh.likelihood(float(x), expected=exp) - best)
            qs = [2 * (fresh.likelihood(float(x) * (1 + e), expected=exp) - best) for e in (-2e-4, 2e-4)]
            slack = 1e-3 + abs(qs[1] - qs[0])
            rec.check(abs(q - thr(cl)) <= slack, "threshold", "profile at the end point is not the quantile", end=x, q=q, want=thr(cl), **wit)
            r = ref.optimum(data, fixed={0: float(x)}, tries=1, starts=[o[1]])
            if r is not None and moderate(ref, r[1], data):
                rec.check(abs(2 * (r[0] - o[0]) - thr(cl)) <= slack + 8e-3, "independent", "independent profile at the end point is not the quantile", end=x, q=2 * (r[0] - o[0]), want=thr(cl), **wit)
        mh = float(mh)
        rec.check(all([side != "two-sided" or out[0] < mh < out[-1], side != "left" or out[0] < mh, side != "right" or out[0] > mh]), "contains-best", "end points on the wrong side of the best fit", muhat=mh, **wit)
        sols.append(out)
    a, b = sols
    tol = 1e-3 * max(map(abs, a + b))
    lo_ok = side == "right" or b[0] <= a[0] + tol
    hi_ok = side == "left" or b[-1] >= a[-1] - tol
    rec.check(lo_ok and hi_ok, "nested", "intervals are not nested", narrow=a, wide=b, spec=spec, side=side, levels=cls_)


def nuisance(rng, rec):
    spec = nice_spec(rng, kinds=["ub", "cb", "ub", "cb", "tm"], scale=(40.0, 400.0), rel=(0.02, 0.06), sb=(0.05, 0.3))
    if spec["kind"] == "tm":
        spec["m3"] = (np.array(spec["m3"]) * 0.1).tolist()
    ref = R.Ref(spec)
    m = R.build(spec)
    exp = EXPECTED[rng.integers(3)]
    i = int(rng.integers(1, ref.npar))
    names = m.backend.config().parameter_names
    par = names[i] if names and rng.random() < 0.5 else i
    pv = [None, 0.0, 1.0, 0.4][rng.integers(4)]
    cl = float(rng.choice(LEVELS))
    side = ["two-sided", "two-sided", "left", "right"][rng.integers(4)]
    data = ref.data(exp)
    fx = {} if pv is None else {0: pv}
    o = ref.optimum(data, fixed=fx or None, tries=2)
    if not moderate(ref, o[1], data) or abs(o[1][0]) > 8 or (pv is None and o[1][0] < 0.5 * ref.minimum_poi):
        raise SkipCase("irregular")
    rec.case(spec_sig(spec, "nuis", i, str(par), pv, cl, side, str(exp)), True)
    kw = {} if pv == 1.0 and rng.random() < 0.5 else {"poi_value": pv}
    out = m.chi2_test(expected=exp, confidence_level=cl, limit_type=side, parameter=par, **kw)
    wit = dict(spec=spec, side=side, cl=cl, expected=str(exp), parameter=par, poi_value=pv, out=out)
    ok = isinstance(out, list) and len(out) == (2 if side == "two-sided" else 1) and all(math.isfinite(x) for x in out)
    rec.check(ok, "crossing", "wrong number of end points", **wit)
    if not ok:
        return
    th = o[1][i]
    rec.check(all([side != "two-sided" or out[0] < th < out[-1], side != "left" or out[0] < th, side != "right" or out[0] > th]), "contains-best", "end points on the wrong side of the best fit", best=th, **wit)
    for x in out:
        r = ref.optimum(data, fixed={**fx, i: float(x)}, tries=1, starts=[o[1]])
        if r is None:
            continue
        q = 2 * (r[0] - o[0])
        qs = [2 * (ref.optimum(data, fixed={**fx, i: float(x) * (1 + e)}, tries=1, starts=[r[1]])[0] - o[0]) for e in (-2e-4, 2e-4)]
        slack = 1e-2 + abs(qs[1] - qs[0])
        rec.check(abs(q - thr(cl)) <= slack, "threshold", "independent profile at the end point is not the quantile", end=x, q=q, want=thr(cl), slack=slack, **wit)


def signal_parameter(rng, rec):
    """Signal-shape parameters: one crossing per side for linear, every crossing for quadratic signals."""
    kind = ["gau", "mvn"][rng.integers(2)]
    spec = nice_spec(rng, kinds=[kind], callable_sig=True, nmax=3)
    quad = bool(rng.integers(2))
    spec["sigfn"] = "quad" if quad else "lin"
    spec["nsp"] = 1
    spec["spb"] = [[-30.0, 30.0]]
    spec["s1"] = [(np.array(spec["s"]) * rng.uniform(0.1, 0.5) * rng.choice([-1, 1])).round(4).tolist()]
    exp = [ET.observed, ET.apriori][rng.integers(2)]
    pv = float(round(rng.uniform(0.3, 1.5), 2))
    cl = float(rng.choice([0.683, 0.9, 0.95]))
    if quad and rng.random() < 0.8:  # enough excess for two separate solutions
        exp = ET.observed
        t = float(rng.uniform(2.5, 6.0)) * float(rng.choice([-1, 1]))
        s0, s1 = np.array(spec["s"]), np.array(spec["s1"][0])
        spec["d"] = (np.array(spec["b"]) + pv * (s0 + t * s1 + 0.15 * t * t * s0)).round(3).tolist()
        f = float(rng.uniform(1.0, 4.0)) * float(np.mean(pv * s0)) / float(np.mean(spec["b"]))
        if kind == "gau":
            spec["unc"] = (np.array(spec["unc"]) * min(1.0, f)).round(4).tolist()
        else:
            spec["cov"] = (np.array(spec["cov"]) * min(1.0, f) ** 2).tolist()
    ref = R.Ref(spec)
    m = R.build(spec)
    data = ref.data(exp)
    f = lambda x: ref.nll(np.array([pv, x]), data)
    xs = np.linspace(-30, 30, 6001)
    ys = np.array([f(x) for x in xs])
    g = lambda x: 2 * (f(x) - ys.min()) - thr(cl)
    want = [brentq(g, xs[j], xs[j + 1]) for j in range(len(xs) - 1) if g(xs[j]) * g(xs[j + 1]) < 0]
    if not want or len(want) % 2 or abs(want[0]) > 9 or abs(want[-1]) > 9 or min(np.diff(want)) < 0.5:
        raise SkipCase("window or tangency")
    b = float(xs[int(np.argmin(ys))])
    loc = [j for j in range(1, len(xs) - 1) if ys[j] < ys[j - 1] and ys[j] <= ys[j + 1]]
    if len(loc) > 1 and abs(sorted(ys[loc])[1] - ys.min()) < 1e-2 and len(want) == 2:
        raise SkipCase("degenerate")
    names = m.backend.config().parameter_names
    par = names[1] if names and rng.random() < 0.5 else 1
    rec.case(spec_sig(spec, "sigpar", par, pv, cl, str(exp)), True)
    rec.count(f"signal-parameter:{len(want)}-crossings")
    out = m.chi2_test(expected=exp, confidence_level=cl, parameter=par, poi_value=pv, n_scan=161, n_multistart=81)
    ok = isinstance(out, list) and len(out) == len(want) and all(abs(x - y) <= 5e-4 * max(abs(y), 0.2) + 2e-3 for x, y in zip(out, want))
    rec.check(ok, "all-crossings", "interval end points differ from the exact profile's crossings", out=out, want=want, best=b, spec=spec, poi_value=pv, cl=cl, parameter=par, expected=str(exp))


def combination(rng, rec):
    specs = [nice_spec(rng, kinds=["gau", "mvn"]) for _ in range(int(rng.integers(1, 4)))]
    models = [R.build(sp, analysis=f"a{i}") for i, sp in enumerate(specs)]
    comb = UnCorrStatisticsCombiner(*models)
    exp = EXPECTED[rng.integers(3)]
    # Gaussian members: the sum of parabolas is a parabola
    A = B = C = 0.0
    for sp in specs:
        ref = R.Ref(sp)
        n = [ref.nll(np.array([x]), ref.data(exp)) for x in (0.0, 1.0, -1.0)]
        a = 0.5 * (n[1] + n[2]) - n[0]
        A, B, C = A + a, B + 0.5 * (n[1] - n[2]), C + n[0]
    muhat = -B / (2 * A)
    sig = 1 / math.sqrt(2 * A)
    if abs(muhat) > 5:
        raise SkipCase("range")
    cl = float(rng.choice(LEVELS))
    mu = float(round(muhat + sig * rng.uniform(-2, 3), 3))
    rec.case(["comb", [spec_sig(s) for s in specs], str(exp), cl, mu], True)
    wit = dict(specs=specs, expected=str(exp), muhat=muhat, sigma=sig)
    got = comb.chi2(mu, expected=exp, allow_negative_signal=True)
    want = ((mu - muhat) / sig) ** 2
    if muhat > -5:
        lst = comb.chi2([mu, mu + 0.1], expected=exp, allow_negative_signal=True)
        rec.check(np.shape(lst) == (2,) and abs(lst[0] - got) <= 1e-7 * max(1, abs(got)), "same-input", "list input differs for a combination", out=lst, scalar=got, **wit)
    # the combination's range starts at zero when no member has a lower limit
    lo_ok = comb.minimum_poi == -np.inf or comb.minimum_poi < muhat
    if muhat > 0.02:
        rec.check(abs(got - want) <= 4e-3 + 1e-4 * want, "independent", "combined chi-square differs from the closed form", got=got, want=want, mu=mu, **wit)
        out = comb.chi2_test(expected=exp, confidence_level=cl)
        ends = [muhat - sig * math.sqrt(thr(cl)), muhat + sig * math.sqrt(thr(cl))]
        ok = isinstance(out, list) and len(out) == 2 and all(abs(a - b) <= 5e-3 * sig + 2e-4 * abs(b) for a, b in zip(out, ends))
        rec.check(ok, "crossing", "combined interval differs from the closed form", out=out, want=ends, cl=cl, **wit)
        pull = comb.pull(mu, expected=exp)
        rec.check(abs(pull - (muhat - mu) / sig) <= 4e-3 + 1e-3 * abs(pull) or want < 1e-4, "pull", "combined pull", got=pull, want=(muhat - mu) / sig, mu=mu, **wit)
    del lo_ok


def units(rng, rec):
    """Intervals of Gaussian models have a closed form whatever the unit of the strength."""
    n = int(rng.integers(1, 4))
    u = rng.uniform(1.0, 20.0, n)
    sg = float(np.exp(rng.uniform(math.log(2e-3), math.log(4e3))))
    shape = rng.uniform(0.2, 1.0, n)
    s = shape / math.sqrt(float(np.sum((shape / u) ** 2))) / sg
    b = rng.uniform(50, 500, n)
    z = float(rng.uniform(-2.5, 2.5))
    z = min(z, 8 / sg)  # the fit keeps the documented upper bound of the strength
    d = b + s * z * sg + rng.normal(0, 0.3, n) * u
    spec = dict(nice_spec(rng, kinds=["gau"], nmax=1), s=s.tolist(), b=b.tolist(), unc=u.tolist(), d=d.tolist())
    muhat = float(np.sum(s * (d - b) / u**2) * sg**2)
    if muhat > 9.5:
        raise SkipCase("bound of the fit")
    side = ["two-sided", "left", "right"][rng.integers(3)]
    cl = float(LEVELS[rng.integers(len(LEVELS))])
    neg = True if side == "right" else None
    exp = [ET.observed, ET.apriori][rng.integers(2)]
    if exp == ET.apriori:
        muhat = 0.0
    out = R.build(spec).chi2_test(expected=exp, confidence_level=cl, limit_type=side, allow_negative_signal=neg)
    r = math.sqrt(thr(cl)) * sg
    want = {"two-sided": [muhat - r, muhat + r], "left": [muhat - r], "right": [muhat + r]}[side]
    wit = dict(spec=spec, side=side, cl=cl, expected=str(exp), out=out, expect=want, sigma=sg)
    ok = len(out) == len(want) and all(abs(x - y) <= 3e-3 * (sg + r + abs(y)) for x, y in zip(out, want))
    rec.check(ok, "units", "interval differs from the closed form", **wit)
    rec.case(spec_sig(spec, side, cl, str(exp)), True, wit)


def nocounts(rng, rec):
    """Poisson models that observed nothing have a linear likelihood (no curvature anywhere) and closed form limits."""
    neg = rng.random() < 0.3
    n = 1 if neg else int(rng.integers(1, 5))
    s = (rng.uniform(0.3, 3.0, n) * 10 ** rng.uniform(-0.7, 1.2)).round(4)
    b = rng.uniform(0.5, 10, n).round(4)
    cl = float(LEVELS[rng.integers(len(LEVELS))])
    spec = dict(nice_spec(rng, kinds=["poi"], nmax=1), n=n, s=s.tolist(), b=b.tolist(), d=[0.0] * n)
    step = thr(cl) / (2.0 * float(np.sum(s)))
    want = step - (float(b[0] / s[0]) if neg else 0.0)
    out = R.build(spec).chi2_test(confidence_level=cl, limit_type="right", allow_negative_signal=neg)
    wit = dict(spec=spec, cl=cl, negative=neg, out=out, expect=want)
    rec.check(len(out) == 1 and abs(out[0] - want) <= 3e-3 * (step + abs(want)), "nocounts", "limit differs from the closed form", **wit)
    rec.case(spec_sig(spec, "nocounts", cl, neg), True, wit)


def refused(rng, rec):
    spec = nice_spec(rng)
    m = R.build(spec)
    cfg = m.backend.config()
    kind = ["side", "level", "poi", "index", "negative", "name"][rng.integers(6)]
    rec.case(spec_sig(spec, "refused", kind), True)
    kw, err = {
        "side": (dict(limit_type=["both", "", "Right", None][rng.integers(4)]), AssertionError),
        "level": (dict(confidence_level=[1.2, -0.1, 95.0][rng.integers(3)]), AssertionError),
        "poi": (dict(parameter=0), ValueError),
        "index": (dict(parameter=cfg.npar + int(rng.integers(0, 4))), ValueError),
        "negative": (dict(parameter=-int(rng.integers(1, 4))), ValueError),
        "name": (dict(parameter="no such parameter"), ValueError),
    }[kind]
    try:
        out = m.chi2_test(**kw)
        rec.check(False, "refused", "malformed interval request accepted", out=out, args=repr(kw), spec=spec)
    except err:
        rec.check(True, "refused", "")


KINDS = {f.__name__: f for f in (forms, independent, pulls, curve, wells, poi, nuisance, signal_parameter, combination, refused, units, nocounts)}
