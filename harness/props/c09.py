"""C09: test statistics and p-values against independently written published formulas."""
import math

import numpy as np

from spey.hypothesis_testing import asymptotic_calculator as AC
from spey.hypothesis_testing import distributions as DI
from spey.hypothesis_testing import test_statistics as TS
from spey.hypothesis_testing import toy_calculator as TC
from spey.hypothesis_testing import utils as UT
from spey.system.exceptions import AsimovTestStatZero, UnknownTestStatistics

RULE = (
    "a case is one likelihood curve with a tested value (stat/triple), one set of asymptotic inputs (pvals), one pair of toy "
    "samples (toys) or one rejected name; distinct = distinct drawn numbers; trivial = statistic identically zero"
)
PLAN = {
    "quick": {"stat": 12000, "triple": 12000, "pvals": 4000, "toys": 2500, "dist": 1000, "unknown": 300, "model": 150},
    "thorough": {"stat": 150000, "triple": 100000, "pvals": 150000, "toys": 60000, "dist": 20000, "unknown": 3000, "model": 6000},
}
MINIMA = {"mon:statistic": 15000, "mon:triple": 2000, "mon:asymptotic": 20000, "mon:toy": 10000, "mon:rejected": 200, "ev:negative-muhat": 500, "ev:asimov-zero": 50, "ev:q-above-asimov": 60}
ASSUMPTIONS = [
    "toy samples are non-empty; the empirical ratio CLs is only required to equal the ratio of the two tail fractions "
    "(arbitrary samples can exceed one; the exclusion level that uses it is clipped and checked in C10)"
]
NAMES = ["q", "qmu", "qtilde", "qmutilde", "q0", "qmu_left"]
SIG = [2.0, 1.0, 0.0, -1.0, -2.0]


def cdf(x):
    return 0.5 * math.erfc(-x / math.sqrt(2.0))


def curve(rng):
    """A log-likelihood curve with its exact maximum: (logpdf, muhat, max, label)."""
    c = rng.integers(5)
    off = float(rng.uniform(-300, 300))
    m = float(rng.choice([0.0, rng.normal(0, 1.5), rng.normal(0, 10), -abs(rng.normal()), 1.0]))
    if c == 0:
        s = float(np.exp(rng.uniform(-3, 3)))
        return (lambda x: off - 0.5 * ((x - m) / s) ** 2), m, off, ["par", m, s]
    if c == 1:
        s1, s2 = np.exp(rng.uniform(-3, 3, 2)).tolist()
        return (lambda x: off - 0.5 * ((x - m) / (s1 if x < m else s2)) ** 2), m, off, ["bif", m, s1, s2]
    if c == 2:
        b, s = float(rng.uniform(1, 200)), float(rng.uniform(0.5, 50))
        n = float(rng.poisson(b + max(m, -0.9 * b / s) * s)) + 0.5
        mh = (n - b) / s

        def f(x):
            lam = b + x * s
            return n * math.log(lam) - lam if lam > 0 else -1e6 + lam

        return f, mh, f(mh), ["poi", b, s, n]
    if c == 3:
        w = float(np.exp(rng.uniform(-1, 2)))
        return (lambda x: off - math.sqrt(1 + ((x - m) / w) ** 2) + 1), m, off, ["pseudo-huber", m, w]
    k = float(np.exp(rng.uniform(-6, -1)))
    return (lambda x: off - k * (x - m) ** 4 - 0.3 * k * abs(x - m)), m, off, ["quartic", m, k]


def ref_stat(name, mu, muhat, mx, f):
    if name in ("q", "qmu"):
        return 0.0 if muhat > mu else max(0.0, 2.0 * (mx - f(mu)))
    if name in ("qtilde", "qmutilde"):
        if muhat > mu:
            return 0.0
        top = mx if muhat >= 0 else f(0.0)
        return max(0.0, 2.0 * (top - f(mu)))
    if name == "qmu_left":
        return 0.0 if muhat < mu else max(0.0, 2.0 * (mx - f(mu)))
    if name == "q0":
        return 0.0 if muhat < 0 else max(0.0, 2.0 * (mx - f(0.0)))
    raise KeyError(name)


def draw_mu(rng, muhat):
    return float([abs(rng.normal(0, 2)), 1.0, 0.0, muhat, muhat + rng.normal(0, 1), muhat + abs(rng.normal(0, 4)), -abs(rng.normal())][rng.integers(7)])


def stat(rng, rec):
    f, mh, mx, lab = curve(rng)
    nz = 0
    for _ in range(3):
        mu = draw_mu(rng, mh)
        # an optimiser's maximum may sit slightly below the curve: never negative
        mxx = mx - (abs(rng.normal(0, 1e-3)) if rng.random() < 0.2 else 0.0)
        for name in NAMES:
            if name in ("qtilde", "qmutilde") and mu < 0:
                continue
            seen = []

            def g(x):
                seen.append(float(x))
                return f(x)

            got = TS.get_test_statistic(name)(mu, mh, mxx, g)
            want = ref_stat(name, mu, mh, mxx, f)
            rec.close(got, want, "statistic", 1e-8, 1e-10, "test statistic differs from its definition", name=name, mu=mu, muhat=mh, curve=lab)
            rec.check(float(got) >= 0.0, "non-negative", "negative test statistic", name=name, mu=mu, muhat=mh, curve=lab, got=got)
            ok = {mu, 0.0} if name != "q0" else {0.0}
            rec.check(set(seen) <= ok, "evaluated-at", "likelihood evaluated away from the tested value and zero", seen=seen, mu=mu, name=name)
            nz += want > 0
    if mh < 0:
        rec.count("ev:negative-muhat")
    rec.case([lab, mu], nontrivial=nz > 0, sample={"curve": lab, "muhat": mh, "mu": mu})


def triple(rng, rec):
    f, mh, mx, lab = curve(rng)
    fa, mha, mxa, laba = curve(rng)
    c = rng.integers(4)
    name = NAMES[rng.integers(len(NAMES))]
    mu = draw_mu(rng, mh)
    if name in ("qtilde", "qmutilde", "qmu_left") and mu < 0:
        mu = -mu
    if c == 0:
        mha, fa, mxa, laba = 0.0, (lambda x: 3.0 - 0.5 * (x / 0.7) ** 2), 3.0, "asimov-par"
    elif c == 1:
        fa, mha, mxa, laba = (lambda x: 1.5), 0.0, 1.5, "flat"  # Asimov statistic is zero
    q = ref_stat(name, mu, mh, mx, f)
    qa = ref_stat(name, mu, mha, mxa, fa)
    sq, sqa = math.sqrt(q), math.sqrt(qa)
    try:
        got = TS.compute_teststatistics(mu, (mh, -mx), f, (mha, -mxa), fa, name)
    except AsimovTestStatZero:
        got = "zero"
        rec.count("ev:asimov-zero")
    if name in ("q", "qmu", "q0"):
        want = (sq, sqa, sq - sqa)
    elif sq <= sqa:
        want = (sq, sqa, sq - sqa)
    elif qa == 0:
        want = "zero"
    else:
        rec.count("ev:q-above-asimov")
        want = (sq, sqa, (q - qa) / (2 * sqa))
    if isinstance(got, str) or isinstance(want, str):
        rec.check(got == want, "triple", "zero Asimov statistic not handled as documented", got=got, want=want, name=name, mu=mu)
    else:
        # the square root amplifies rounding near zero
        for i, (g, w) in enumerate(zip(got, want)):
            tol = 1e-4 if min(q, qa) < 1e-6 else 1e-7
            big = abs(w) * (1e-6 if qa > 1e-6 else 1.0)
            rec.check(abs(float(g) - w) <= tol + big, "triple", "sqrt(q), sqrt(qA) or their difference is wrong", got=got, want=want, slot=i, name=name, mu=mu, muhat=mh, muhatA=mha)
    rec.case([lab, laba, mu, name], nontrivial=q > 0 or qa > 0, sample={"name": name, "mu": mu, "q": q, "qA": qa})


def pvals(rng, rec):
    sqa = float([rng.uniform(0, 4), 0.0, rng.uniform(4, 40), 1e-6, rng.exponential(1)][rng.integers(5)])
    d = float([rng.normal(0, 2), -sqa, rng.uniform(-sqa, 6), 0.0, rng.normal(0, 15), 40.0][rng.integers(6)])
    name = ["q", "qtilde", "q0", "qmutilde", "qmu"][rng.integers(5)]
    obs, exp = AC.compute_asymptotic_confidence_level(sqa, d, name)

    def three(v):
        a, b = cdf(-sqa - v), cdf(-v)
        return a, b, (a / b if b > 0 else 0.0)

    i = 0 if name == "q0" else 2
    w = three(d)
    rec.check(len(obs) == 1 and len(exp) == 5, "shape", "one observed and five expected values required", obs=obs, exp=exp)
    tiny = w[0] < 1e-290  # the ratio of two underflowing numbers is not judged
    if not (tiny and i == 2):
        rec.close(obs[0], w[i], "asymptotic", 1e-200, 1e-9, "observed p-value", name=name, sqrt_qA=sqa, delta=d)
    we = [three(s) for s in SIG]
    for j, s in enumerate(SIG):
        rec.close(exp[j], we[j][i], "asymptotic", 1e-200, 1e-9, "expected band", name=name, sqrt_qA=sqa, nsigma=s)
    vals = [float(obs[0])] + [float(x) for x in exp]
    rec.check(all(-1e-15 <= x <= 1 + 1e-12 for x in vals), "unit-interval", "p-value outside [0,1]", vals=vals, sqrt_qA=sqa, delta=d)
    rec.check(all(exp[k] <= exp[k + 1] + 1e-12 for k in range(4)), "ordered", "expected bands are not ordered", exp=exp, sqrt_qA=sqa)
    # the three underlying numbers
    sb, bo = DI.AsymptoticTestStatisticsDistribution(-sqa), DI.AsymptoticTestStatisticsDistribution(0.0)
    got = UT.pvalues(d, sb, bo)
    for g, x, nm in zip(got, w, ("CLsb", "CLb", "CLs")):
        if not (tiny and nm == "CLs"):
            rec.close(g, x, "asymptotic", 1e-200, 1e-9, nm, sqrt_qA=sqa, delta=d)
    got = UT.expected_pvalues(sb, bo)
    rec.check(len(got) == 3 and all(len(g) == 5 for g in got), "shape", "expected p-values shape", got=got)
    for k in range(3):
        rec.close(got[k], [x[k] for x in we], "asymptotic", 1e-200, 1e-9, "expected " + ("CLsb", "CLb", "CLs")[k], sqrt_qA=sqa)
    rec.case([sqa, d, name], sample={"sqrt_qA": sqa, "delta": d, "statistic": name})


def percentile(x, q):
    x = sorted(x)
    r = q * (len(x) - 1)
    i = min(int(math.floor(r)), len(x) - 2) if len(x) > 1 else 0
    if len(x) == 1:
        return x[0]
    t = r - i
    return x[i] + (x[i + 1] - x[i]) * t


def toys(rng, rec):
    ns, nb = int(rng.integers(1, 120)), int(rng.integers(1, 120))
    if rng.random() < 0.3:  # ties at zero, as in one-sided statistics
        s = np.maximum(rng.normal(0, 1, ns), 0.0)
        b = np.maximum(rng.normal(0.7, 1.5, nb), 0.0)
    elif rng.random() < 0.3:
        s, b = rng.integers(0, 5, ns).astype(float), rng.integers(0, 6, nb).astype(float)
    else:
        s, b = rng.chisquare(1, ns), rng.chisquare(1, nb) + rng.exponential(1)
    v = float([rng.choice(s), rng.choice(b), rng.exponential(2), 1e9, -1.0, 0.0][rng.integers(6)])
    name = ["q", "qtilde", "q0"][rng.integers(3)]
    obs, exp = TC.compute_toy_confidence_level(list(s), list(b), v, name)

    def three(x):
        a = sum(1 for t in s if t >= x) / ns
        c = sum(1 for t in b if t >= x) / nb
        return a, c, (a / c if c else 0.0)

    i = 0 if name == "q0" else 2
    rec.check(len(obs) == 1 and len(exp) == 5, "shape", "one observed and five expected values", obs=obs, exp=exp)
    rec.close(obs[0], three(v)[i], "toy", 1e-12, 1e-12, "observed toy p-value", name=name, value=v, ns=ns, nb=nb)
    sb, bo = DI.EmpricTestStatisticsDistribution(np.array(s)), DI.EmpricTestStatisticsDistribution(np.array(b))
    cuts = []
    for sg in SIG:
        c = percentile(b, cdf(sg))
        cuts.append(c)
        rec.close(bo.expected_value(sg), c, "toy", 1e-9, 1e-9, "expected quantile of the background toys", nsigma=sg)
    e = UT.expected_pvalues(sb, bo)
    for j, sg in enumerate(SIG):
        # quantiles that hit a sample exactly are ambiguous in the last bit
        near = min(abs(np.concatenate([s, b]) - cuts[j])) if True else 0
        cut = bo.expected_value(sg) if near < 1e-9 else cuts[j]
        w = three(cut)
        rec.close(exp[j], w[i], "toy", 1e-12, 1e-12, "expected toy band", nsigma=sg, name=name)
        for k in range(3):
            rec.close(e[k][j], w[k], "toy", 1e-12, 1e-12, "expected " + ("CLsb", "CLb", "CLs")[k], nsigma=sg)
    for k in (0, 1):
        rec.check(all(0.0 <= x <= 1.0 for x in e[k]), "unit-interval", "tail fraction outside [0,1]", got=e[k])
        rec.check(all(e[k][j] <= e[k][j + 1] + 1e-12 for j in range(4)), "ordered", "toy tail fractions are not ordered", got=e[k])
    rec.case([ns, nb, v, name, float(s.sum())], sample={"ns": ns, "nb": nb, "value": v})


def dist(rng, rec):
    sh = float(rng.normal(0, 3))
    v = float(rng.normal(0, 4))
    a = DI.AsymptoticTestStatisticsDistribution(sh)
    rec.close(a.pvalue(v), cdf(sh - v), "asymptotic", 1e-200, 1e-9, "p-value")
    rec.close(a.expected_value(v), sh + v, "asymptotic", 1e-12, 1e-12, "expected value")
    rec.close(math.exp(a.logcdf(v)), cdf(sh - v), "asymptotic", 1e-200, 1e-8, "log p-value")
    cut = float(rng.normal(0, 3))
    c = DI.AsymptoticTestStatisticsDistribution(sh, cut)
    rec.close(c.expected_value(v), max(sh + v, cut), "asymptotic", 1e-12, 1e-12, "cut-off expected value")
    p = cdf(sh - v)
    if abs(p - cut) > 1e-9:
        rec.close(c.pvalue(v), p if p >= cut else math.nan, "asymptotic", 1e-200, 1e-9, "cut-off p-value")
    rec.case([sh, v, cut], sample={"shift": sh, "value": v, "cutoff": cut})


def unknown(rng, rec):
    base = list(NAMES) + ["CLs", "chi2", "", "Q", "q_mu", "qmu_right", "q0 ", "tilde", "none"]
    name = base[rng.integers(len(base))]
    if rng.random() < 0.6:
        name = name + str(rng.integers(100)) if rng.random() < 0.5 else name.upper() + "x"
    if name in NAMES:
        fn = TS.get_test_statistic(name)
        rec.check(callable(fn), "rejected", "known name refused", name=name)
        rec.case([name, "known"], nontrivial=False)
        return
    for call in (
        lambda: TS.get_test_statistic(name),
        lambda: TS.compute_teststatistics(1.0, (0.0, 1.0), lambda x: -1.0, (0.0, 1.0), lambda x: -1.0, name),
    ):
        try:
            call()
            bad = "accepted"
        except UnknownTestStatistics:
            bad = None
        rec.check(bad is None, "rejected", f"unknown test statistic {name!r} was accepted")
    rec.case([name], sample={"name": name})


def model(rng, rec):
    """The same formulas on the likelihood curve of a real model, with the calls recorded."""
    import refmodel as R
    from props.common import EXPECTED, nice_spec, spec_sig

    sp = nice_spec(rng, nmax=2)
    m = R.build(sp)
    exp = EXPECTED[rng.integers(3)]
    ts = ["q", "qtilde", "q0", "qmu", "qmutilde"][rng.integers(5)]
    (mh, nll), f, (mha, nlla), fa = m._prepare_for_hypotest(expected=exp, test_statistics=ts)
    mu = 0.0 if ts == "q0" else float(round(abs(rng.normal(0, 1.5)), 3)) + 0.01
    q, qa = ref_stat(ts, mu, mh, -nll, f), ref_stat(ts, mu, mha, -nlla, fa)
    try:
        got = TS.compute_teststatistics(mu, (mh, nll), f, (mha, nlla), fa, ts)
    except AsimovTestStatZero:
        rec.check(ts in ("qtilde", "qmutilde") and qa == 0, "triple", "spurious zero Asimov statistic", q=q, qa=qa)
        rec.case([spec_sig(sp), mu], nontrivial=False)
        return
    rec.close(got[0] ** 2, q, "statistic", 1e-6, 1e-6, "observed statistic", name=ts, mu=mu)
    rec.close(got[1] ** 2, qa, "statistic", 1e-6, 1e-6, "Asimov statistic", name=ts, mu=mu)
    for direct, name in ((TS.qmu, "q"), (TS.qmu_tilde, "qtilde"), (TS.q0, "q0"), (TS.qmu_left, "qmu_left")):
        rec.close(direct(mu, mh, -nll, f), ref_stat(name, mu, mh, -nll, f), "statistic", 1e-6, 1e-6, "statistic on a model curve", name=name, mu=mu)
    rec.case([spec_sig(sp), mu, ts], sample={"kind": sp["kind"], "mu": mu, "statistic": ts, "q": q, "qA": qa})


KINDS = {"stat": stat, "triple": triple, "pvals": pvals, "toys": toys, "dist": dist, "unknown": unknown, "model": model}
