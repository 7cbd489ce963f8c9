"""C10: exclusion confidence levels and significances against independent computations."""
import math
import random

import numpy as np

import refmodel as R
import spey
from props.common import EXPECTED, ET, LogTap, SkipCase, moderate, nice_spec, spec_sig
from props.stats import SIG, Indep, Own, cls, cls_exp, interval, tstat
from spey.system.exceptions import CalculatorNotAvailable

RULE = (
    "distinct (model or combination, tested strength, expectation, sign policy, calculator) whose returned confidence levels were "
    "recomputed twice: from the model's elementary likelihood queries on a fresh model and from an independent optimiser; "
    "trivial = signal excluded by nothing (statistic zero)"
)
PLAN = {
    "quick": {"asymptotic": 420, "chi_square": 220, "significance": 300, "toy": 90, "monotone": 90, "combination": 70, "refused": 60, "dead": 60},
    "thorough": {"asymptotic": 9000, "chi_square": 5000, "significance": 6000, "toy": 2200, "monotone": 2500, "combination": 1200, "refused": 500, "dead": 500},
}
MINIMA = {"mon:own": 1500, "mon:independent": 500, "mon:toy": 200, "mon:monotone": 300, "mon:refused": 100}
ASSUMPTIONS = [
    "the independent comparison is made in the regular domain of C03/C04 (there profile fits are accurate to 2e-3 in the log-likelihood); "
    "confidence levels are compared through the interval that uncertainty implies",
    "toy statistics within 1e-4 of a threshold may fall on either side",
]
CASE_TIMEOUT = 180
DQ_OWN = 2e-5
DQ_IND = 8e-3


def inside(rec, key, got, rng_, msg, slack=1e-6, **wit):
    lo, hi = rng_
    return rec.check(math.isfinite(got) and lo - slack <= got <= hi + slack, key, msg, got=got, interval=[lo, hi], **wit)


def shape(rec, out, expected, wit):
    n = 1 if expected == ET.observed else 5
    ok = isinstance(out, list) and len(out) == n
    rec.check(ok, "shape", f"expected {n} values", got=out, **wit)
    rec.check(ok and all(-1e-12 <= float(x) <= 1 + 1e-12 for x in out), "unit-interval", "confidence level outside [0,1]", got=out, **wit)
    if n == 5 and ok:
        rec.check(all(float(out[i]) >= float(out[i + 1]) - 1e-9 for i in range(4)), "ordered", "expected bands are not ordered", got=out, **wit)
    return ok


def pick_mu(rng, ref, spec):
    """A tested strength in the sensitive range of the model."""
    s, b = np.array(spec["s"]), np.array(spec["b"])
    sd = np.sqrt(b + np.array(spec["unc"]) ** 2)
    sig = 1.0 / math.sqrt(float(np.sum((s / sd) ** 2)) + 1e-12)
    return float(round(max(0.02, sig * rng.uniform(0.1, 3.5)), 4))


def asymptotic(rng, rec):
    spec = nice_spec(rng)
    ref = R.Ref(spec)
    expected = EXPECTED[rng.integers(3)]
    neg = bool(rng.integers(2))
    name = "q" if neg else "qtilde"
    mu = min(pick_mu(rng, ref, spec), 8.0)
    wit = dict(spec=spec, mu=mu, expected=str(expected), negative=neg)
    m = R.build(spec)
    with LogTap() as tap:
        out = m.exclusion_confidence_level(mu, expected=expected, allow_negative_signal=neg)
        both = m.exclusion_confidence_level(mu, expected="all", allow_negative_signal=neg) if rng.random() < 0.3 and expected != ET.apriori else None
        own = Own(R.build(spec), expected, name)
        q, qa = own.stats(mu)
    if not shape(rec, out, expected, wit):
        return
    if both is not None:
        if expected == ET.observed:
            rec.close(both[0], out, "all", 1e-7, 0, "'all' differs from the observed query", **wit)
        else:
            rec.close(both[1], out, "all", 1e-7, 0, "'all' differs from the expected query", **wit)
    compare(rec, out, expected, name, q, qa, DQ_OWN, "own", wit)
    if tap.unconverged():
        rec.count("unconverged")
        rec.case(spec_sig(spec, mu, str(expected), neg), nontrivial=q > 0)
        return
    ind = Indep(ref, expected, name)
    if ind.regular(mu):
        qi, qai = ind.stats(mu)
        compare(rec, out, expected, name, qi, qai, DQ_IND, "independent", wit)
    rec.case(spec_sig(spec, mu, str(expected), neg), nontrivial=q > 0 or expected != ET.observed, sample={**wit, "q": q, "qA": qa, "out": [float(x) for x in out]})


def compare(rec, out, expected, name, q, qa, dq, key, wit):
    if expected == ET.observed:
        inside(rec, key, float(out[0]), interval(lambda a, b: cls(a, b, name), q, qa, dq), "observed confidence level differs from the published formula", q=q, qA=qa, **wit)
    elif cls(q, qa, name) == 0.0 and qa == 0.0:
        return
    else:
        for i, s in enumerate(SIG):
            inside(rec, key, float(out[i]), interval(lambda a, b: cls_exp(b, s, name), q, qa, dq), f"expected band {s:+.0f} differs from the published formula", q=q, qA=qa, **wit)


def chi_square(rng, rec):
    """Chi-square calculator: the null hypothesis plays the role of the Asimov statistic."""
    spec = nice_spec(rng, nmax=2)
    expected = EXPECTED[rng.integers(3)]
    neg = bool(rng.integers(2))
    name = "q" if neg else "qtilde"
    mu = min(pick_mu(rng, None, spec), 8.0)
    wit = dict(spec=spec, mu=mu, expected=str(expected), negative=neg)
    out = R.build(spec).exclusion_confidence_level(mu, expected=expected, allow_negative_signal=neg, calculator="chi_square")
    if not shape(rec, out, expected, wit):
        return
    m2 = R.build(spec)
    muhat, nll = m2.maximize_likelihood(expected=expected, allow_negative_signal=neg)

    def f(x):
        return float(m2.likelihood(float(x), expected=expected))

    qsb = tstat(name, mu, float(muhat), float(nll), f)
    null = f(0.0)
    top = nll if (muhat >= 0 or name == "q") else null
    qb = max(0.0, 2 * (null - top))

    def obs(a, b):
        sa, sb = math.sqrt(max(a, 0.0)), math.sqrt(max(b, 0.0))
        if name == "q" or sa <= sb:
            d = sb - sa
        else:
            d = (b - a) / (2 * sa)
        from props.stats import cdf

        psb, pb = cdf(-sa - d), cdf(-d)
        return 1 - (psb / pb if pb > 0 else 0.0)

    if expected == ET.observed:
        inside(rec, "own", float(out[0]), interval(obs, qsb, qb, DQ_OWN), "chi-square confidence level", qsb=qsb, qb=qb, **wit)
    else:
        for i, s in enumerate(SIG):
            inside(rec, "own", float(out[i]), interval(lambda a, b: cls_exp(a, s), qsb, qb, DQ_OWN), "chi-square expected band", qsb=qsb, **wit)
    rec.case(spec_sig(spec, mu, str(expected), neg, "chi"), nontrivial=qsb > 0, sample={**wit, "qsb": qsb, "qb": qb})


def significance(rng, rec):
    spec = nice_spec(rng)
    ref = R.Ref(spec)
    expected = EXPECTED[rng.integers(3)]
    wit = dict(spec=spec, expected=str(expected))
    with LogTap() as tap:
        s0a, s0, pv, epv = R.build(spec).significance(expected=expected)
        own = Own(R.build(spec), expected, "q0")
        q, qa = own.stats(0.0)
    rec.check(len(pv) == 1 and len(epv) == 5, "shape", "significance returns one and five p-values", got=[pv, epv], **wit)
    rec.check(all(0 <= x <= 1 for x in list(pv) + list(epv)), "unit-interval", "p-value outside [0,1]", got=[pv, epv], **wit)
    rec.check(s0 >= 0 and s0a >= 0, "unit-interval", "negative significance", got=[s0, s0a], **wit)

    def comp(q, qa, dq, key):
        from props.stats import cdf

        inside(rec, key, float(s0), (math.sqrt(max(q - dq, 0)), math.sqrt(q + dq)), "observed discovery significance", q=q, **wit)
        inside(rec, key, float(s0a), (math.sqrt(max(qa - dq, 0)), math.sqrt(qa + dq)), "Asimov discovery significance", qA=qa, **wit)
        inside(rec, key, float(pv[0]), interval(lambda a, b: cdf(-math.sqrt(a)), q, qa, dq), "discovery p-value", q=q, **wit)
        for i, s in enumerate(SIG):
            inside(rec, key, float(epv[i]), interval(lambda a, b: cdf(-math.sqrt(b) - s), q, qa, dq), f"expected discovery p-value {s:+.0f}", qA=qa, **wit)

    comp(q, qa, DQ_OWN, "own")
    ind = Indep(ref, expected, "q0")
    if not tap.unconverged() and ind.regular(1.0):
        comp(*ind.stats(0.0), DQ_IND, "independent")
    rec.case(spec_sig(spec, str(expected), "q0"), nontrivial=q > 0 or qa > 0, sample={**wit, "q0": q, "q0A": qa})


def toy(rng, rec):
    """Toy calculator: the pseudo-experiments actually drawn are recorded and re-evaluated."""
    spec = nice_spec(rng, nmax=2, kinds=["ub", "cb", "poi", "gau", "mvn", "tm"])
    expected = EXPECTED[rng.integers(3)]
    neg = bool(rng.integers(2))
    name = "q" if neg else "qtilde"
    mu = min(pick_mu(rng, None, spec), 8.0)
    ntoys = int(rng.integers(5, 14))
    wit = dict(spec=spec, mu=mu, expected=str(expected), negative=neg, ntoys=ntoys)
    m = R.build(spec, ntoys=ntoys)
    seen = []
    cls_ = type(m)
    orig = cls_.fixed_poi_sampler

    def spy(self, poi_test, size=None, *a, **k):
        out = orig(self, poi_test, size, *a, **k)
        if callable(out):

            def draw(n):
                r = out(n)
                seen.append((float(poi_test), n, np.array(r, dtype=float), k))
                return r

            return draw
        seen.append((float(poi_test), size, np.array(out, dtype=float), k))
        return out

    thrown = []
    bcls = type(m.backend)
    borig = bcls.get_sampler

    def bspy(self, pars, *a, **k):
        thrown.append(np.array(pars, dtype=float))
        return borig(self, pars, *a, **k)

    had = "get_sampler" in vars(bcls)
    cls_.fixed_poi_sampler = spy
    bcls.get_sampler = bspy
    try:
        out = m.exclusion_confidence_level(mu, expected=expected, allow_negative_signal=neg, calculator="toy", verbose=False)
    finally:
        cls_.fixed_poi_sampler = orig
        if had:
            bcls.get_sampler = borig
        else:
            del bcls.get_sampler
    if not shape_toy(rec, out, expected, wit):
        return
    sb = np.concatenate([x[2].reshape(x[1], -1) for x in seen if x[0] == mu] or [np.zeros((0, 1))])
    bo = np.concatenate([x[2].reshape(x[1], -1) for x in seen if x[0] == 0.0] or [np.zeros((0, 1))])
    rec.check(len(sb) == ntoys and len(bo) == ntoys, "toy-count", "toys are not drawn from both hypotheses in the requested number", drawn=[[x[0], x[1]] for x in seen], **wit)
    if len(sb) != ntoys or len(bo) != ntoys:
        return
    m2 = R.build(spec)
    # both hypotheses are thrown at the conditional fit of the requested expectation
    ref = R.Ref(spec)
    hyp = set()
    for p in thrown:
        rec.check(p.shape == (ref.npar,) and min(abs(p[0] - mu), abs(p[0])) <= 1e-6 * (1 + mu), "toy-hypothesis", "toys thrown at a strength that is not under test", pars=p, **wit)
        h = mu if abs(p[0] - mu) <= abs(p[0]) else 0.0
        hyp.add(h)
        best = ref.optimum(ref.data(expected), fixed={0: h}, starts=[p])
        if best is not None and moderate(ref, best[1], None):
            gap = ref.nll(p, ref.data(expected)) - best[0]
            rec.check(gap <= 5e-3, "toy-hypothesis", "toys are not thrown at the conditional best fit of the requested expectation", gap=gap, pars=p, best=best[1], **wit)
    if thrown:
        rec.check(hyp == {mu, 0.0}, "toy-hypothesis", "toys are not thrown from both hypotheses", hypotheses=sorted(hyp), **wit)

    def ts(data):
        kw = {} if data is None else {"data": np.array(data)}
        mh, nll = m2.maximize_likelihood(expected=expected, allow_negative_signal=neg, **kw)
        return tstat(name, mu, float(mh), float(nll), lambda x: float(m2.likelihood(float(x), expected=expected, **kw)))

    with LogTap() as tap:
        tsb, tbo = np.array([ts(x) for x in sb]), np.array([ts(x) for x in bo])
        v = ts(None)
    if tap.unconverged():
        rec.count("unconverged")
    if not np.all(np.isfinite(np.concatenate([tsb, tbo]))):
        raise SkipCase
    D = 1e-4

    def frac(x, cut):
        if cut == 0.0:
            return 1.0, 1.0
        return float(np.mean(x >= cut + D)), float(np.mean(x >= max(cut - D, 0.0)))

    def rng_of(cut):
        (a0, a1), (b0, b1) = frac(tsb, cut), frac(tbo, cut)
        hi = 1.0 if b0 == 0 else min(a1 / b0, 1.0)
        lo = 0.0 if b1 == 0 else min(a0 / b1, 1.0)
        if b0 == 0:
            lo = 0.0
        if b1 == 0:
            hi = 0.0
        return 1 - hi, 1 - lo

    if expected == ET.observed:
        inside(rec, "toy", float(out[0]), rng_of(v), "toy confidence level differs from the recorded toys", v=v, tsb=tsb, tbo=tbo, **wit)
    else:
        from props.c09 import percentile
        from props.stats import cdf

        for i, s in enumerate(SIG):
            inside(rec, "toy", float(out[i]), rng_of(percentile(tbo, cdf(s))), f"toy band {s:+.0f}", tsb=tsb, tbo=tbo, **wit)
    rec.case(spec_sig(spec, mu, str(expected), neg, "toy"), nontrivial=bool(np.any(tsb > 0) or np.any(tbo > 0)), sample={**wit, "v": v})


def shape_toy(rec, out, expected, wit):
    n = 1 if expected == ET.observed else 5
    ok = isinstance(out, list) and len(out) == n
    rec.check(ok, "shape", f"expected {n} values", got=out, **wit)
    rec.check(ok and all(-1e-12 <= float(x) <= 1 + 1e-12 for x in out), "unit-interval", "confidence level outside [0,1]", got=out, **wit)
    return ok


def monotone(rng, rec):
    spec = nice_spec(rng, nmax=2)
    ref = R.Ref(spec)
    expected = EXPECTED[rng.integers(3)]
    neg = bool(rng.integers(2))
    m = R.build(spec)
    base = pick_mu(rng, None, spec)
    with LogTap() as tap:
        mh = float(m.maximize_likelihood(expected=expected, allow_negative_signal=neg)[0])
        mus = [max(mh, 0.0) + base * k for k in (0.15, 0.4, 0.8, 1.3, 2.0)]
        mus = [x for x in mus if x < 9]
        vals = [m.exclusion_confidence_level(x, expected=expected, allow_negative_signal=neg) for x in mus]
    if tap.unconverged() or len(mus) < 2:
        raise SkipCase
    ind = Indep(ref, expected, "q" if neg else "qtilde")
    if not all(ind.regular(x) for x in mus):
        raise SkipCase
    wit = dict(spec=spec, mus=mus, expected=str(expected), negative=neg)
    for i in range(len(mus) - 1):
        for j in range(len(vals[i])):
            lo, hi = float(vals[i][j]), float(vals[i + 1][j])
            # small statistics amplify rounding through the square root
            tol = 5e-3 if mus[i] < mh + 0.3 * base else 1e-3
            rec.check(hi >= lo - tol, "monotone", "exclusion decreases with the tested strength", slot=j, got=[float(v[j]) for v in vals], **wit)
    rec.case(spec_sig(spec, mus[0], str(expected), neg, "mono"), sample={**wit, "vals": [[float(x) for x in v] for v in vals]})


def combination(rng, rec):
    from spey.combiner import UnCorrStatisticsCombiner

    n = int(rng.integers(2, 4))
    specs = [nice_spec(rng, nmax=2) for _ in range(n)]
    expected = EXPECTED[rng.integers(3)]
    neg = bool(rng.integers(2))
    name = "q" if neg else "qtilde"
    mu = min(pick_mu(rng, None, specs[0]), 6.0)
    wit = dict(specs=specs, mu=mu, expected=str(expected), negative=neg)

    def mk():
        return UnCorrStatisticsCombiner(*[R.build(s, analysis=f"an{i}") for i, s in enumerate(specs)])

    with LogTap() as tap:
        out = mk().exclusion_confidence_level(mu, expected=expected, allow_negative_signal=neg)
        own = Own(mk(), expected, name)
        # Asimov maxima have their own entry point for combinations
        own.muhat_a, own.nll_a = mk().maximize_asimov_likelihood(expected=expected, test_statistics=name)
        q, qa = own.stats(mu)
    if not shape(rec, out, expected, wit):
        return
    compare(rec, out, expected, name, q, qa, DQ_OWN, "own", wit)
    # independent: sum over members on a grid-free bounded scalar search
    if not tap.unconverged():
        from scipy.optimize import minimize_scalar

        inds = [Indep(R.Ref(s), expected, name) for s in specs]
        if all(i.regular(mu) for i in inds):
            lo = max(i.ref.minimum_poi for i in inds) if neg else 0.0

            def best(fs):
                r = minimize_scalar(lambda x: sum(f(x) for f in fs), bounds=(lo * 0.95, 10.0), method="bounded", options={"xatol": 1e-5})
                v0 = sum(f(0.0) for f in fs)
                return (0.0, v0) if v0 < r.fun else (r.x, r.fun)

            mh, nll = best([i.f for i in inds])
            ma, nlla = best([i.fa for i in inds])
            qi = tstat(name, mu, mh, nll, lambda x: sum(i.f(x) for i in inds))
            qai = tstat(name, mu, ma, nlla, lambda x: sum(i.fa(x) for i in inds))
            if 0.6 * lo < mh < 9:
                compare(rec, out, expected, name, qi, qai, DQ_IND * n, "independent", wit)
    rec.case([spec_sig(s) for s in specs] + [mu, str(expected), neg], nontrivial=q > 0 or qa > 0, sample=wit)


def _mini(flags):
    """A minimal user-defined back end that offers only the requested capabilities."""
    from spey import BackendBase
    from spey.base import ModelConfig

    ns = {"name": "verif.mini", "version": "1.0", "author": "v", "spey_requires": ">=0.0.1"}

    def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
        return ModelConfig(0, -1.0, [0.0], [(-1.0 if allow_negative_signal else 0.0, poi_upper_bound)])

    def get_logpdf_func(self, expected=ET.observed, data=None):
        d = float(np.atleast_1d(0.4 if data is None else data)[0])
        return lambda p: float(-0.5 * (p[0] - d) ** 2 / 0.25)

    ns.update(config=config, get_logpdf_func=get_logpdf_func)
    if flags["data"]:
        ns["expected_data"] = lambda self, pars: [float(pars[0])]
    if flags["sampler"]:
        ns["get_sampler"] = lambda self, pars: (lambda size, **k: np.random.normal(pars[0], 0.5, (size, 1)))
    if flags["asimov"]:
        ns["asimov_negative_loglikelihood"] = lambda self, poi_test=1.0, **k: (0.5 * (poi_test - 0.0) ** 2 / 0.25, np.array([poi_test]))
        ns["minimize_asimov_negative_loglikelihood"] = lambda self, **k: (0.0, np.array([0.0]))
    return type("Mini", (BackendBase,), ns)()


def refused(rng, rec):
    flags = {k: bool(rng.integers(2)) for k in ("data", "sampler", "asimov")}
    m = spey.StatisticalModel(_mini(flags), "mini", ntoys=4)
    have = {"chi_square"}
    if flags["data"] or flags["asimov"]:
        have.add("asymptotic")
    if flags["sampler"]:
        have.add("toy")
    rec.check(set(m.available_calculators) == have, "refused", "available calculators are wrong", got=m.available_calculators, flags=flags)
    for c in ("asymptotic", "toy", "chi_square", "bayes", "TOY", ""):
        try:
            r = m.exclusion_confidence_level(1.0, calculator=c, verbose=False)
            ok = c in have and len(r) == 1
        except CalculatorNotAvailable:
            ok = c not in have
        rec.check(ok, "refused", f"calculator {c!r} wrongly accepted or refused", flags=flags)
    if "asymptotic" in have:
        got = m.exclusion_confidence_level(1.0)
        q, qa = 0.36 / 0.25, 1.0 / 0.25
        rec.close(got, [cls(q, qa, "qtilde")], "own", 1e-3, 0, "user-defined back end", flags=flags)
    from spey.combiner import UnCorrStatisticsCombiner

    spec = nice_spec(rng, nmax=1)
    c = UnCorrStatisticsCombiner(R.build(spec, analysis="a"), m)
    for calc in ("toy", "nope"):
        try:
            c.exclusion_confidence_level(1.0, calculator=calc)
            ok = False
        except CalculatorNotAvailable:
            ok = True
        rec.check(ok, "refused", f"combination accepted calculator {calc!r}", flags=flags)
    rec.check(c.is_asymptotic_calculator_available == ("asymptotic" in have), "refused", "combination's asymptotic availability", flags=flags)
    rec.case([flags, spec_sig(spec)], sample=flags)


def dead(rng, rec):
    """No signal anywhere: nothing can be excluded and nothing is significant."""
    spec = nice_spec(rng, kinds=["ub", "cb", "tm", "es"], nmax=2)
    spec["s"] = [0.0] * spec["n"]
    expected = EXPECTED[rng.integers(3)]
    neg = bool(rng.integers(2))
    mu = float(rng.uniform(0.1, 5))
    m = R.build(spec)
    out = m.exclusion_confidence_level(mu, expected=expected, allow_negative_signal=neg)
    wit = dict(spec=spec, mu=mu, expected=str(expected), negative=neg)
    if shape(rec, out, expected, wit):
        # q and qA vanish up to optimiser noise, the square root of which shows
        # CLs -> 1 - 2*Phi(-e)/1: with zero statistics the confidence level is zero
        rec.check(all(abs(float(x)) < 0.12 for x in out), "dead-model", "a model without signal excludes something", got=out, **wit)
    rec.case(spec_sig(spec, mu, str(expected), neg), sample=wit)


KINDS = {"asymptotic": asymptotic, "chi_square": chi_square, "significance": significance, "toy": toy, "monotone": monotone, "combination": combination, "refused": refused, "dead": dead}
