"""C11: upper limits are where the exclusion reaches the requested level."""
import math

import numpy as np
from scipy.special import ndtri

import refmodel as R
from props.common import EXPECTED, ET, LogTap, SkipCase, nice_spec, spec_sig
from props.stats import SIG, Indep, cdf, cls, cls_exp, interval
from spey.hypothesis_testing.upper_limits import find_poi_upper_limit, find_root_limits
from spey.system.exceptions import UnknownCrossSection

RULE = (
    "distinct (model or analytic curve, expectation, confidence level, bands, bracket) whose limits were checked by re-evaluating the "
    "exclusion level at the limit, against the closed form / independent optimiser, and against related queries"
)
PLAN = {
    "quick": {"synthetic": 2500, "roots": 1500, "limit": 200, "scaling": 70, "combination": 36, "dead": 120, "weak": 80, "xsec": 60},
    "thorough": {"synthetic": 60000, "roots": 40000, "limit": 4500, "scaling": 1600, "combination": 700, "dead": 1500, "weak": 900, "xsec": 900},
}
MINIMA = {"mon:closed-form": 2000, "mon:level-at-limit": 300, "mon:independent": 150, "mon:ordered": 100, "mon:infinite": 200, "mon:scaling": 60, "mon:bracket": 60}
ASSUMPTIONS = [
    "models are in the regular domain of C03/C04, the best-fit strength stays inside the configured signal range (below 10)",
    "confidence levels between 0.5 and 0.995",
]
CASE_TIMEOUT = 200


# ------------------------------------------------------------ analytic curves
def closed(muhat, sig, cl, name, neg=True):
    """Limit for parabolic likelihoods (observed curve at muhat, Asimov at zero)."""
    a = 1.0 - cl
    if neg or muhat >= 0:
        return muhat + sig * ndtri(1 - a * cdf(muhat / sig))
    return None


def synthetic(rng, rec):
    sig = float(np.exp(rng.uniform(np.log(1e-4), np.log(3e3))))
    neg = bool(rng.integers(2))
    muhat = float(sig * rng.normal(0, 1.3))
    expected = [ET.observed, ET.apriori, ET.aposteriori][rng.integers(3)]
    cl = float(round(rng.uniform(0.6, 0.99), 3))
    off, offa = float(rng.uniform(-50, 50)), float(rng.uniform(-50, 50))
    lo, hi = (float(np.exp(rng.uniform(-6, 5))) for _ in range(2))
    if rng.random() < 0.4:
        lo = hi = 1.0
    band = ["nominal", "1sigma", "2sigma"][rng.integers(3)]
    mh = muhat if neg else max(muhat, 0.0)
    calls = {"o": 0, "a": 0}

    def f(x):
        calls["o"] += 1
        return off - 0.5 * ((x - muhat) / sig) ** 2

    def fa(x):
        calls["a"] += 1
        return offa - 0.5 * (x / sig) ** 2

    got = find_poi_upper_limit(
        (mh, -f(mh)), f, (0.0, -offa), fa, expected, confidence_level=cl, allow_negative_signal=neg, low_init=lo, hig_init=hi, expected_pvalue=band
    )
    wit = dict(sigma=sig, muhat=muhat, negative=neg, expected=str(expected), cl=cl, band=band, init=[lo, hi])
    name = "q" if neg else "qtilde"
    if expected == ET.observed:
        rec.check(np.ndim(got) == 0, "shape", "observed limit must be one number", got=got, **wit)
        want = None
        if neg or muhat >= 0:
            want = closed(muhat, sig, cl, name)
        g = float(got)

        def at(x):
            q = 0.0 if mh > x else max(0.0, 2 * (f(mh) - f(x)))
            qa = (x / sig) ** 2
            return cls(q, qa, name)

        if want is not None and want > 0:
            rec.check(abs(g - want) <= 2e-4 * abs(want) + 1e-9, "closed-form", "limit differs from the closed form", got=g, want=want, **wit)
        rec.check(g > 0 and abs(at(g) - cl) < 1e-3, "level-at-limit", "exclusion at the limit is not the requested level", got=g, level=at(g), **wit)
    else:
        slots = {"nominal": [2], "1sigma": [1, 2, 3], "2sigma": [0, 1, 2, 3, 4]}[band]
        g = [float(x) for x in np.atleast_1d(got)]
        rec.check(len(g) == len(slots) and (band == "nominal") == (np.ndim(got) == 0), "shape", "wrong number of bands", got=got, **wit)
        for x, i in zip(g, slots):
            n = -SIG[i]
            want = sig * (ndtri(1 - (1 - cl) * cdf(n)) + n)
            rec.check(abs(x - want) <= 2e-4 * want + 1e-9, "closed-form", "expected band differs from the closed form", got=x, want=want, slot=i, **wit)
        rec.check(all(x < y for x, y in zip(g, g[1:])), "ordered", "limit bands are not increasing", got=g, **wit)
    rec.case([sig, muhat, neg, str(expected), cl, band, lo, hi], sample=wit)


def roots(rng, rec):
    """The bracketing helper returns points on both sides of the level, or its hard bounds."""
    x0 = float(np.exp(rng.uniform(np.log(1e-9), np.log(1e5))))
    k = float(np.exp(rng.uniform(-1, 1.5)))
    loc = float(rng.choice([0.0, 0.0, rng.uniform(-0.3, 0.3)]))
    lo, hi = (float(np.exp(rng.uniform(-8, 8))) for _ in range(2))
    low_bound, hig_bound = float(np.exp(rng.uniform(-25, -3))), float(np.exp(rng.uniform(2, 12)))

    def f(x):
        return loc + math.tanh(k * (math.log(max(x, 1e-300)) - math.log(x0)))

    args = dict(loc=loc, low_ini=lo, hig_ini=hi, low_bound=low_bound, hig_bound=hig_bound)
    if rng.random() < 0.25:  # the documented defaults
        defaults = dict(loc=0.0, low_ini=1.0, hig_ini=1.0, low_bound=1e-10, hig_bound=1e5)
        for name in list(args):
            if name != "loc" or loc == 0.0:
                if rng.random() < 0.6:
                    args.pop(name)
        full = {**defaults, **args}
        lo, hi, low_bound, hig_bound = (full[x] for x in ("low_ini", "hig_ini", "low_bound", "hig_bound"))
    low, hig = find_root_limits(f, **args)
    wit = dict(root=x0, loc=loc, init=[lo, hi], bounds=[low_bound, hig_bound])
    xl, xh = low.get_value(-1), hig.get_value(-1)
    rec.check(low[-1] == f(xl) and hig[-1] == f(xh), "roots", "recorded value is not the function value", got=[xl, xh], **wit)
    rec.check(f(xl) <= loc or xl <= low_bound, "roots", "low end neither below the level nor at its bound", got=xl, **wit)
    rec.check(f(xh) >= loc or xh >= hig_bound, "roots", "high end neither above the level nor at its bound", got=xh, **wit)
    rec.check(min(lo, low_bound) <= xl <= max(lo, low_bound) and min(hi, hig_bound) <= xh <= max(hi, hig_bound), "roots", "end points left the allowed range", got=[xl, xh], **wit)
    if lo >= low_bound and f(low_bound) <= loc:
        rec.check(f(xl) <= loc, "roots", "missed an existing lower end", got=xl, **wit)
    if hi <= hig_bound and f(hig_bound) >= loc:
        rec.check(f(xh) >= loc, "roots", "missed an existing upper end", got=xh, **wit)
    rec.case([x0, lo, hi, low_bound, hig_bound], sample=wit)


# ------------------------------------------------------------ real models
def level_at(m, mu, expected, slot):
    out = m.exclusion_confidence_level(float(mu), expected=expected)
    return float(out[0 if expected == ET.observed else slot])


def limit(rng, rec):
    spec = nice_spec(rng, nmax=2)
    ref = R.Ref(spec)
    expected = EXPECTED[rng.integers(3)]
    cl = float(rng.choice([0.95, 0.95, 0.9, 0.68, 0.99]))
    band = "nominal" if expected == ET.observed else ["nominal", "1sigma", "2sigma"][rng.integers(3)]
    wit = dict(spec=spec, expected=str(expected), cl=cl, band=band)
    m = R.build(spec)
    with LogTap() as tap:
        got = m.poi_upper_limit(expected=expected, confidence_level=cl, expected_pvalue=band)
    slots = {"nominal": [2], "1sigma": [1, 2, 3], "2sigma": [0, 1, 2, 3, 4]}[band]
    g = [float(x) for x in np.atleast_1d(got)]
    if not rec.check(len(g) == len(slots) and (band == "nominal") == (np.ndim(got) == 0), "shape", "wrong number of limits", got=got, **wit):
        return
    ind = Indep(ref, expected, "qtilde")
    if tap.unconverged() or not ind.regular(0.0):
        rec.count("irregular")
        raise SkipCase
    for x, i in zip(g, slots):
        if not rec.check(x > 0 and math.isfinite(x), "finite", "limit is not a finite positive strength although the level is reached", got=g, **wit):
            return
        if not ind.regular(x):
            rec.count("irregular")
            continue
        lv = level_at(R.build(spec), x, expected, i)
        rec.check(abs(lv - cl) < 3e-3, "level-at-limit", "exclusion at the limit is not the requested level", limit=x, slot=i, level=lv, **wit)
        q, qa = ind.stats(x)
        if expected == ET.observed:
            lo, hi = interval(lambda a, b: cls(a, b, "qtilde"), q, qa, 8e-3)
        else:
            lo, hi = interval(lambda a, b: cls_exp(b, SIG[i]), q, qa, 8e-3)
        rec.check(lo - 2e-3 <= cl <= hi + 2e-3, "independent", "independent exclusion at the limit excludes the requested level", limit=x, slot=i, interval=[lo, hi], **wit)
    rec.check(all(x <= y * (1 + 1e-4) for x, y in zip(g, g[1:])), "ordered", "limit bands are not increasing", got=g, **wit)
    mid = g[len(g) // 2]
    if not ind.regular(mid):
        raise SkipCase
    # related queries
    c = rng.integers(4)
    if c == 0 and band != "nominal":
        nom = float(m.poi_upper_limit(expected=expected, confidence_level=cl))
        rec.check(abs(nom - mid) < 2e-3 * mid, "bands-agree", "central band differs from the nominal limit", got=[nom, mid], **wit)
    elif c == 1:
        cl2 = float(min(cl + 0.5 * (1 - cl), 0.995))
        m2 = float(m.poi_upper_limit(expected=expected, confidence_level=cl2))
        if ind.regular(m2):
            rec.check(m2 >= mid * (1 - 1e-3), "grows-with-level", "limit shrinks with the confidence level", got=[mid, m2], levels=[cl, cl2], **wit)
    if rng.random() < 0.6:
        kw = [
            dict(low_init=None, hig_init=None),
            dict(low_init=float(np.exp(rng.uniform(-4, 3))), hig_init=float(np.exp(rng.uniform(-4, 4)))),
            dict(low_init=float(mid), hig_init=float(mid)),
        ][rng.integers(3)]
        m3 = R.build(spec).poi_upper_limit(expected=expected, confidence_level=cl, **kw)
        rec.check(abs(float(m3) - mid) < 3e-3 * mid, "bracket", "limit depends on the initial bracket", got=[mid, float(m3)], bracket=kw, **wit)
    rec.case(spec_sig(spec, str(expected), cl, band), sample={**wit, "limits": g})


def scaling(rng, rec):
    spec = nice_spec(rng, nmax=2)
    expected = EXPECTED[rng.integers(3)]
    k = float(np.exp(rng.uniform(-1.2, 2.3)))
    wit = dict(spec=spec, expected=str(expected), k=k)
    s2 = {**spec, "s": [x * k for x in spec["s"]]}
    with LogTap() as tap:
        m1, m2 = R.build(spec), R.build(s2)
        mh = float(m1.maximize_likelihood(expected=expected)[0])
        if abs(mh) > 8 or abs(mh) / k > 8:
            raise SkipCase
        u1, u2 = float(m1.poi_upper_limit(expected=expected)), float(m2.poi_upper_limit(expected=expected))
    ind = Indep(R.Ref(spec), expected, "qtilde")
    if tap.unconverged() or not ind.regular(u1):
        raise SkipCase
    rec.check(abs(u2 * k / u1 - 1) < 4e-3, "scaling", "limit does not scale inversely with the signal", got=[u1, u2], **wit)
    rec.case(spec_sig(spec, str(expected), k), sample=wit)


def combination(rng, rec):
    from spey.combiner import UnCorrStatisticsCombiner

    specs = [nice_spec(rng, nmax=2) for _ in range(int(rng.integers(2, 4)))]
    expected = EXPECTED[rng.integers(3)]
    wit = dict(specs=specs, expected=str(expected))

    def mk():
        return UnCorrStatisticsCombiner(*[R.build(s, analysis=f"an{i}") for i, s in enumerate(specs)])

    with LogTap() as tap:
        c = mk()
        band = "nominal" if expected == ET.observed else ["nominal", "1sigma"][rng.integers(2)]
        got = c.poi_upper_limit(expected=expected, expected_pvalue=band)
    g = [float(x) for x in np.atleast_1d(got)]
    inds = [Indep(R.Ref(s), expected, "qtilde") for s in specs]
    if tap.unconverged() or not all(i.regular(x) for i in inds for x in g if math.isfinite(x)):
        raise SkipCase
    for x, i in zip(g, [2] if len(g) == 1 else [1, 2, 3]):
        if not rec.check(x > 0 and math.isfinite(x), "finite", "combined limit is not finite", got=g, **wit):
            return
        lv = level_at(mk(), x, expected, i)
        rec.check(abs(lv - 0.95) < 3e-3, "level-at-limit", "exclusion at the combined limit is not the requested level", limit=x, level=lv, **wit)
    rec.check(all(x <= y * (1 + 1e-4) for x, y in zip(g, g[1:])), "ordered", "limit bands are not increasing", got=g, **wit)
    rec.case([spec_sig(s) for s in specs] + [str(expected)], sample={**wit, "limits": g})


def dead(rng, rec):
    spec = nice_spec(rng, nmax=3)
    spec["s"] = [0.0] * spec["n"]
    expected = EXPECTED[rng.integers(3)]
    band = ["nominal", "1sigma", "2sigma"][rng.integers(3)]
    cl = float(rng.uniform(0.5, 0.99))
    wit = dict(spec=spec, expected=str(expected), band=band, cl=cl)
    m = R.build(spec, xsection=0.3)
    if rng.random() < 0.3:
        from spey.combiner import UnCorrStatisticsCombiner

        m = UnCorrStatisticsCombiner(m)
    got = m.poi_upper_limit(expected=expected, expected_pvalue=band, confidence_level=cl)
    n = 1 if expected == ET.observed else {"nominal": 1, "1sigma": 3, "2sigma": 5}[band]
    rec.check(np.size(got) == n and (np.ndim(got) == 0) == (n == 1) and np.all(np.isinf(got)) and np.all(np.asarray(got) > 0), "infinite", "a model without signal must have infinite limits of the requested shape", got=got, **wit)
    if hasattr(m, "excluded_cross_section"):
        rec.check(m.excluded_cross_section(expected) == np.inf, "infinite", "excluded cross section without signal", **wit)
    rec.case(spec_sig(spec, str(expected), band, cl), sample=wit)


def weak(rng, rec):
    """Signals too weak for the search range (limit beyond 1e5), just inside it, or very strong ones."""
    spec = nice_spec(rng, kinds=["ub", "poi", "gau"], nmax=1, zero_signal=False)
    # one bin, data at background: the asymptotic limit is about 2 sigma / s
    b, s = spec["b"][0], spec["s"][0]
    spec["d"] = [float(round(b))] if spec["kind"] != "gau" else [b]
    ref = R.Ref(spec)
    u = float(R.build(spec).poi_upper_limit(expected=ET.apriori))
    if not math.isfinite(u) or not Indep(ref, ET.apriori, "qtilde").regular(u):
        raise SkipCase
    target = float(np.exp(rng.uniform(np.log(2.0), np.log(60.0))) * [1e5, 1e5, 30.0, 1e-4, 1e-7][rng.integers(5)])
    if target < 1 and spec["kind"] == "ub":
        raise SkipCase("strong signals with nuisance parameters: known finding of C04")
    k = u / target  # the limit of the scaled model
    if 6e4 < target < 1.6e5:
        raise SkipCase
    s2 = {**spec, "s": [s * k]}
    got = float(R.build(s2).poi_upper_limit(expected=ET.apriori))
    wit = dict(spec=s2, target=target)
    if target > 1e5:
        rec.check(got == np.inf, "infinite", "the level is not reached in the search range but a finite limit is returned", got=got, **wit)
    else:
        rec.check(math.isfinite(got), "infinite", "the level is reached but the limit is infinite", got=got, **wit)
        rec.check(abs(got / target - 1) < 2e-2, "scaling", "limit does not scale with a weak signal", got=got, **wit)
    rec.case(spec_sig(spec, target), sample=wit)


def xsec(rng, rec):
    spec = nice_spec(rng, nmax=1)
    xs = float(np.exp(rng.uniform(-14, 14)))
    expected = EXPECTED[rng.integers(3)]
    m = R.build(spec, xsection=xs)
    wit = dict(spec=spec, xsection=xs, expected=str(expected))
    u = float(R.build(spec).poi_upper_limit(expected=expected, confidence_level=0.95))
    rec.close(m.excluded_cross_section(expected), u * xs, "cross-section", 0, 1e-6, "excluded cross section is not the 95% limit times the cross section", **wit)
    rec.close([m.s95exp, m.s95obs], [m.excluded_cross_section(ET.apriori), m.excluded_cross_section(ET.observed)], "cross-section", 0, 1e-6, "s95exp/s95obs", **wit)
    if expected != ET.aposteriori:
        rec.close(m.s95exp if expected == ET.apriori else m.s95obs, u * xs, "cross-section", 0, 1e-6, "s95 value", **wit)
    m0 = R.build(spec)
    for fn in (lambda: m0.excluded_cross_section(expected), lambda: m0.s95exp, lambda: m0.s95obs):
        try:
            fn()
            bad = True
        except UnknownCrossSection:
            bad = False
        rec.check(not bad, "unknown-cross-section", "excluded cross section given although the cross section is unknown", **wit)
    rec.case(spec_sig(spec, xs, str(expected)), sample=wit)


KINDS = {"synthetic": synthetic, "roots": roots, "limit": limit, "scaling": scaling, "combination": combination, "dead": dead, "weak": weak, "xsec": xsec}
