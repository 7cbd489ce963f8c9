"""C14: combining uncorrelated models adds their log-likelihoods, whatever the order."""
import math
import warnings

import numpy as np

import refmodel as R
import spey
from props.common import EXPECTED, ET, LogTap, SkipCase, nice_spec, spec_sig
from props.stats import Indep
from spey import StatisticalModel, UnCorrStatisticsCombiner
from spey.system.exceptions import AnalysisQueryError, NegativeExpectedYields

RULE = (
    "distinct (set of models, order, expectation, data overrides, options, membership history) whose combined likelihoods, maxima and member "
    "lists were recomputed from fresh single models, closed forms or a list-based reference"
)
PLAN = {
    "quick": {"likelihood": 260, "routing": 220, "bounded": 60, "single": 60, "maximum": 90, "gaussian": 160, "order": 70, "dead": 60, "asimov_maximum": 160, "extreme": 120, "membership": 500, "sensitive": 30, "negative": 80},
    "thorough": {"likelihood": 7000, "routing": 5000, "bounded": 1500, "single": 1300, "maximum": 2000, "gaussian": 5000, "order": 1500, "dead": 1500, "asimov_maximum": 1500, "extreme": 3000, "membership": 20000, "sensitive": 700, "negative": 1500},
}
MINIMA = {"mon:sum": 700, "mon:options": 400, "mon:single": 200, "mon:maximum": 250, "mon:closed-form": 120, "mon:order": 200, "mon:membership": 4000, "mon:sensitive": 25, "mon:operands": 400}
ASSUMPTIONS = [
    "combined maxima are compared within the documented range of the signal strength (from the largest member minimum, or zero, up to ten)",
    "fits are accurate to 2e-3 in the log-likelihood in the regular domain",
]
CASE_TIMEOUT = 150


def members(rng, lo=1, hi=4, kinds=None, rich=True):
    out = []
    for _ in range(int(rng.integers(lo, hi + 1))):
        if rich and rng.random() < 0.4:
            out.append(nice_spec(rng, kinds=kinds, modifiers=None, callable_sig=None))
        else:
            out.append(nice_spec(rng, kinds=kinds))
    return out


def models(specs, **kw):
    return [R.build(sp, analysis=f"a{i}", **kw) for i, sp in enumerate(specs)]


def sig(specs, *x):
    return [[spec_sig(s) for s in specs], *x]


def likelihood(rng, rec):
    specs = members(rng)
    exp = EXPECTED[rng.integers(3)]
    mu = float(round(rng.uniform(0, 2), 3))
    ms, fresh = models(specs), models(specs)
    comb = UnCorrStatisticsCombiner(*ms)
    rec.case(sig(specs, str(exp), mu), len(specs) > 1)
    wit = dict(specs=specs, expected=str(exp), mu=mu)
    parts = [f.likelihood(mu, expected=exp) for f in fresh]
    tol = lambda v: 1e-7 * len(specs) + 1e-9 * abs(v)
    got = comb.likelihood(mu, expected=exp)
    rec.check(abs(got - sum(parts)) <= tol(sum(parts)), "sum", "combined likelihood is not the sum", got=got, want=parts, **wit)
    lin = comb.likelihood(mu, expected=exp, return_nll=False)
    w = math.exp(-sum(parts))
    rec.check(abs(lin - w) <= 1e-5 * w + 1e-300, "sum", "linear combined likelihood is not the product", got=lin, want=w, **wit)
    # data for a subset of the analyses, given in any order, with foreign names present
    data = {}
    for i in rng.permutation(len(specs)):
        if rng.random() < 0.6:
            d = np.maximum(np.round(np.array(specs[i]["b"]) * rng.uniform(0.8, 1.3, specs[i]["n"])), 1.0)
            data[f"a{i}"] = [d.tolist(), d][rng.integers(2)]
    if rng.random() < 0.3:
        data["stranger"] = [1.0, 2.0]
    keep = {k: list(v) for k, v in data.items()}
    got = comb.likelihood(mu, expected=exp, data=data)
    parts = [f.likelihood(mu, expected=exp, data=data.get(f"a{i}")) for i, f in enumerate(fresh)]
    rec.check(abs(got - sum(parts)) <= tol(sum(parts)), "sum", "data overrides reached the wrong members", got=got, want=parts, data=keep, **wit)
    rec.check({k: list(v) for k, v in data.items()} == keep, "operands", "the caller's data were changed", **wit)
    again = comb.likelihood(mu, expected=exp)
    rec.check(abs(again - sum(f.likelihood(mu, expected=exp) for f in fresh)) <= tol(again), "sum", "data override leaked into later queries", got=again, **wit)
    ts = ["q", "qtilde", "q0", "qmu", "qmutilde"][rng.integers(5)]
    got = comb.asimov_likelihood(mu, expected=exp, test_statistics=ts)
    parts = [f.asimov_likelihood(mu, expected=exp, test_statistics=ts) for f in fresh]
    rec.check(abs(got - sum(parts)) <= tol(sum(parts)), "sum", "combined Asimov likelihood is not the sum", got=got, want=parts, statistic=ts, **wit)


class Spy(StatisticalModel):
    """Records the options each member is called with."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.seen = []

    def likelihood(self, **kw):
        self.seen.append(("likelihood", dict(kw)))
        return super().likelihood(**kw)

    def generate_asimov_data(self, **kw):
        self.seen.append(("asimov", dict(kw)))
        return super().generate_asimov_data(**kw)


def routing(rng, rec):
    specs = members(rng, 2, 3, rich=False)
    ms = [Spy(backend=R.build(sp).backend, analysis=f"a{i}") for i, sp in enumerate(specs)]
    comb = UnCorrStatisticsCombiner(*ms)
    exp = EXPECTED[rng.integers(3)]
    names = sorted({m.backend_type for m in ms})
    pool = [{"do_grad": False}, {"tol": 1e-7}, {"maxiter": 4321}, {"ntrials": 2}, {"tol": 1e-8, "maxiter": 5000}]
    opts = {nm: dict(pool[rng.integers(len(pool))]) for nm in names if rng.random() < 0.7}
    if rng.random() < 0.3:
        opts["default.never_used"] = {"tol": 1.0}
    keep = repr(opts)
    common = {"disp": False} if rng.random() < 0.4 else {}
    call = ["likelihood", "asimov", "asimov-data", "maximize", "maximize-asimov"][rng.integers(5)]
    data = {"a1": np.maximum(np.round(np.array(specs[1]["b"])), 1.0).tolist()} if call in ("likelihood", "maximize") and rng.random() < 0.5 else None
    rec.case(sig(specs, call, keep, bool(common)), True)
    kw = dict(expected=exp, statistical_model_options=opts, **common)
    if call == "likelihood":
        comb.likelihood(0.7, data=data, **kw)
    elif call == "asimov":
        comb.asimov_likelihood(0.7, **kw)
    elif call == "asimov-data":
        comb.generate_asimov_data(**kw)
    elif call == "maximize":
        comb.maximize_likelihood(data=data, initial_muhat_value=0.4, **kw)
    else:
        comb.maximize_asimov_likelihood(**kw)
    rec.check(repr(opts) == keep, "operands", "the caller's options were changed", before=keep, after=repr(opts))
    for i, m in enumerate(ms):
        want = {**common, **opts.get(m.backend_type, {})}
        kinds = {k for k, _ in m.seen}
        need = {"likelihood": {"likelihood"}, "asimov": {"asimov", "likelihood"}, "asimov-data": {"asimov"}, "maximize": {"likelihood"}, "maximize-asimov": {"asimov", "likelihood"}}[call]
        rec.check(need <= kinds, "options", "member was not evaluated", call=call, kinds=sorted(kinds), specs=specs)
        for k, kws in m.seen:
            got = {a: b for a, b in kws.items() if a in ("do_grad", "tol", "maxiter", "ntrials", "disp")}
            ok = got == want and kws.get("expected") == exp
            if k == "likelihood" and data is not None:
                d = kws.get("data")
                ok = ok and (d is None if f"a{i}" not in data else d is not None and list(d) == data[f"a{i}"])
            if not rec.check(ok, "options", "member received options or data that are not its own", call=call, member=i, backend=m.backend_type, got=repr(kws), want=repr(want), options=keep):
                break
            rec.count("member-calls")


def bounded(rng, rec):
    """Options that change the answer must change only the right backend's contribution."""
    a = nice_spec(rng, kinds=["ub"])
    b = nice_spec(rng, kinds=["cb", "poi", "es"])
    specs = [a, b] if rng.integers(2) else [b, a]
    ms, fresh = models(specs), models(specs)
    ia = specs.index(a)
    n = a["n"]
    box = float(round(rng.uniform(0.05, 0.4), 3))
    opts = {"default.uncorrelated_background": {"par_bounds": [(-1.0, 10.0)] + [(-box, box)] * n, "init_pars": [1.0] + [0.0] * n}}
    mu = float(round(rng.uniform(0.2, 2), 3))
    rec.case(sig(specs, "box", box, mu), True)
    parts = [f.likelihood(mu, **(opts["default.uncorrelated_background"] if i == ia else {})) for i, f in enumerate(fresh)]
    got = UnCorrStatisticsCombiner(*ms).likelihood(mu, statistical_model_options=opts)
    rec.check(abs(got - sum(parts)) <= 1e-6 + 1e-9 * abs(got), "sum", "options reached the wrong member", got=got, want=parts, specs=specs, box=box, mu=mu)
    if abs(parts[ia] - fresh[ia].likelihood(mu)) > 1e-3:
        rec.count("discriminating:bounded")


def single(rng, rec):
    spec = nice_spec(rng)
    exp = EXPECTED[rng.integers(3)]
    mu = float(round(rng.uniform(0.1, 2), 3))
    ref = R.Ref(spec)
    ind = Indep(ref, exp, "qtilde")
    if not ind.regular(mu):
        raise SkipCase("irregular")
    m, f = R.build(spec), R.build(spec)
    comb = UnCorrStatisticsCombiner(m)
    rec.case(spec_sig(spec, "single", str(exp), mu), True)
    wit = dict(spec=spec, expected=str(exp), mu=mu)
    for neg in (True, False):
        x, v = comb.maximize_likelihood(expected=exp, allow_negative_signal=neg)
        y, w = f.maximize_likelihood(expected=exp, allow_negative_signal=neg)
        rec.check(abs(v - w) <= 4e-3, "single", "maximum of a single-model combination", got=[x, v], want=[y, w], negative=neg, **wit)
        at = f.likelihood(float(x), expected=exp)
        rec.check(abs(at - v) <= 1e-5 + 1e-8 * abs(v), "single", "maximum is not the value at its point", got=v, want=at, muhat=x, negative=neg, **wit)
    c1 = comb.exclusion_confidence_level(mu, expected=exp)
    c2 = f.exclusion_confidence_level(mu, expected=exp)
    # confidence levels move by at most 0.15 for 8e-3 in the statistic near zero; use a square-root bound
    rec.check(len(c1) == len(c2) and all(abs(a - b) <= 0.06 for a, b in zip(c1, c2)), "single", "exclusion level of a single-model combination", got=c1, want=c2, **wit)
    u1, u2 = comb.poi_upper_limit(expected=exp), f.poi_upper_limit(expected=exp)
    rec.check(u1 == u2 or abs(u1 - u2) <= 0.03 * u2, "single", "upper limit of a single-model combination", got=u1, want=u2, **wit)
    rec.check(comb.is_alive == f.is_alive and comb.minimum_poi == f.backend.config().minimum_poi, "single", "attributes", **wit)


def scan_min(fs, exp, data, lo, hi, around):
    best = (math.inf, None)
    g = lambda x: sum(f.likelihood(float(x), expected=exp, data=(data or {}).get(f.analysis)) for f in fs)
    for x in around:
        if lo <= x <= hi:
            v = g(x)
            if v < best[0]:
                best = (v, x)
    return best, g


def maximum(rng, rec):
    specs = members(rng, 2, 3, rich=False)
    exp = EXPECTED[rng.integers(3)]
    neg = bool(rng.integers(2))
    ms, fresh = models(specs), models(specs)
    comb = UnCorrStatisticsCombiner(*ms)
    lo = max(f.backend.config().minimum_poi for f in fresh) if neg else 0.0
    rec.check(comb.minimum_poi == max(f.backend.config().minimum_poi for f in fresh), "maximum", "smallest allowed strength is not the largest member minimum", got=comb.minimum_poi)
    data = None
    if rng.random() < 0.4:
        data = {"a0": np.maximum(np.round(np.array(specs[0]["b"]) * rng.uniform(0.85, 1.2, specs[0]["n"])), 1.0).tolist()}
    kw = {}
    if rng.random() < 0.3:
        kw["initial_muhat_value"] = float(round(rng.uniform(0.0, 1.0), 2))
    if rng.random() < 0.2:
        kw["par_bounds"] = [(max(lo, -0.1), 0.5)]
        lo, hi = kw["par_bounds"][0]
    else:
        hi = 10.0
    rec.case(sig(specs, "max", str(exp), neg, repr(data), repr(kw)), True)
    wit = dict(specs=specs, expected=str(exp), negative=neg, data=data, options=kw)
    with LogTap() as tap:
        x, v = comb.maximize_likelihood(expected=exp, allow_negative_signal=neg, data=data, **kw)
    x = float(x)
    rec.check(lo - 1e-9 <= x <= hi + 1e-9, "maximum", "combined best fit outside the allowed range", got=x, range=[lo, hi], **wit)
    near = [x + d for d in (-0.3, -0.1, -0.03, 0.03, 0.1, 0.3)] + [0.0, 0.25, 0.5, 1.0, 2.0]
    safe_lo = max(lo, 0.5 * max(f.backend.config().minimum_poi for f in fresh))
    best, g = scan_min(fresh, exp, data, safe_lo, hi, near)
    if x > safe_lo:
        at = g(x)
        rec.check(abs(at - v) <= 1e-5 + 1e-8 * abs(v), "maximum", "combined maximum is not the sum at its point", got=v, want=at, muhat=x, **wit)
    if not tap.unconverged():
        rec.check(v <= best[0] + 4e-3 * len(specs), "maximum", "a better strength exists in the allowed range", got=[x, v], better=list(best), **wit)
    _, lin = comb.maximize_likelihood(expected=exp, allow_negative_signal=neg, data=data, return_nll=False, **kw)
    rec.check(abs(lin - math.exp(-v)) <= 1e-4 * math.exp(-v) + 1e-300, "maximum", "linear maximum", got=lin, want=math.exp(-v), **wit)
    d, v2 = comb.maximize_likelihood(expected=exp, allow_negative_signal=neg, data=data, poi_indices=[0], **kw)
    rec.check(list(d) == [0] and abs(d[0] - x) < 1e-6 and abs(v2 - v) < 1e-7, "maximum", "requested parameters", got=repr(d), want=x, **wit)


def asimov_maximum(rng, rec):
    """Maxima of combined Asimov likelihoods, for data with deficits and excesses and every statistic name."""
    specs = members(rng, 1, 3, kinds=["ub", "cb", "tm", "es", "poi"], rich=False)
    f = rng.uniform(0.7, 1.25)
    for sp in specs:
        sp["d"] = np.maximum(np.round(np.array(sp["b"]) * f + rng.normal(0, 0.5, sp["n"]) * np.sqrt(sp["b"])), 1.0).tolist()
    exp = EXPECTED[rng.integers(3)]
    ts = ["q", "qmu", "qtilde", "qmutilde", "q0"][rng.integers(5)]
    comb, fresh = UnCorrStatisticsCombiner(*models(specs)), models(specs)
    lo = max(m.backend.config().minimum_poi for m in fresh) if ts in ("q", "qmu") else 0.0
    rec.case(sig(specs, "amax", str(exp), ts), True)
    wit = dict(specs=specs, expected=str(exp), statistic=ts)
    with LogTap() as tap:
        x, v = comb.maximize_asimov_likelihood(expected=exp, test_statistics=ts)
    x = float(x)
    rec.check(lo - 1e-9 <= x <= 10 + 1e-9, "maximum", "Asimov best fit outside the allowed range", got=x, low=lo, **wit)
    data = {m.analysis: m.generate_asimov_data(expected=exp, test_statistic=ts) for m in fresh}
    safe = max(lo, 0.5 * max(m.backend.config().minimum_poi for m in fresh))
    near = [x + d for d in (-0.6, -0.3, -0.1, -0.03, 0.03, 0.1, 0.3)] + [-1.0, -0.5, -0.2, -0.05, 0.0, 0.5, 1.0]
    best, g = scan_min(fresh, exp, data, safe, 10.0, near)
    if x > safe:
        at = g(x)
        rec.check(abs(at - v) <= 1e-5 + 1e-8 * abs(v), "maximum", "Asimov maximum is not the sum at its point", got=v, want=at, muhat=x, **wit)
    if not tap.unconverged():
        rec.check(v <= best[0] + 1.5e-3 * len(specs), "maximum", "a better strength exists for the Asimov data", got=[x, v], better=list(best), **wit)
    if x < -0.01:
        rec.count("asimov-negative-fits")


def extreme(rng, rec):
    """Very unlikely strengths: the sum has every term, and an impossible strength stays infinitely unlikely."""
    specs = members(rng, 2, 4, kinds=["poi", "gau", "mvn", "ub"], rich=False)
    k = int(rng.integers(len(specs)))
    lev = float(10 ** rng.uniform(0.5, 3.0))
    specs[k]["s"] = (np.array(specs[k]["s"]) * lev).tolist()
    ms, fresh = models(specs), models(specs)
    mu = float(round(rng.uniform(1, 9), 3))
    exp = EXPECTED[rng.integers(3)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        parts = [float(m.likelihood(mu, expected=exp)) for m in fresh]
        rec.case(sig(specs, "extreme", k, lev, mu), max(parts) > 100)
        comb = UnCorrStatisticsCombiner(*ms)
        got, lin = comb.likelihood(mu, expected=exp), comb.likelihood(mu, expected=exp, return_nll=False)
    want = sum(parts)
    if max(parts) > 700:
        rec.count("extreme:above-700")
    wit = dict(specs=specs, expected=str(exp), mu=mu, parts=parts)
    tol = 1e-6 * len(specs) + 1e-7 * sum(abs(x) for x in parts)
    rec.check(got == want or abs(got - want) <= tol, "sum", "combined likelihood of an extreme strength is not the sum", got=got, want=want, **wit)
    w = math.exp(-want) if want > -700 else math.inf
    rec.check(lin == w or abs(lin - w) <= 1e-5 * w + 2 * tol * w + 1e-300, "sum", "linear likelihood of an extreme strength", got=lin, want=w, **wit)


def gaussian(rng, rec):
    """Gaussian members have a closed-form combination."""
    specs = members(rng, 1, 5, kinds=["gau", "mvn"], rich=False)
    exp = EXPECTED[rng.integers(3)]
    A = B = 0.0
    C = 0.0
    for sp in specs:
        ref = R.Ref(sp)
        n = [ref.nll(np.array([t]), ref.data(exp)) for t in (0.0, 1.0, -1.0)]
        A += 0.5 * (n[1] + n[2]) - n[0]
        B += 0.5 * (n[1] - n[2])
        C += n[0]
    muhat, sg = -B / (2 * A), 1 / math.sqrt(2 * A)
    neg = bool(rng.integers(2))
    if abs(muhat) > 8 or (neg and muhat < -0.0 and abs(muhat) > 6):
        raise SkipCase("range")
    want = muhat if neg else max(muhat, 0.0)
    rec.case(sig(specs, "gauss", str(exp), neg), True)
    comb = UnCorrStatisticsCombiner(*models(specs))
    x, v = comb.maximize_likelihood(expected=exp, allow_negative_signal=neg)
    best = C + B * want + A * want * want
    wit = dict(specs=specs, expected=str(exp), negative=neg, muhat=muhat, sigma=sg)
    rec.check(abs(v - best) <= 2e-3, "closed-form", "combined maximum differs from the closed form", got=[x, v], want=[want, best], **wit)
    rec.check(abs(x - want) <= 0.07 * sg, "closed-form", "combined best fit differs from the weighted mean", got=x, want=want, **wit)
    mu = float(muhat + sg * rng.uniform(-2, 3))
    got = comb.likelihood(mu, expected=exp)
    w = C + B * mu + A * mu * mu
    rec.check(abs(got - w) <= 1e-6 + 1e-9 * abs(w), "closed-form", "combined likelihood differs from the closed form", got=got, want=w, mu=mu, **wit)
    s = comb.sigma_mu(float(round(abs(mu) + 0.3 * sg, 4)), expected=exp, test_statistics="q")
    rec.check(abs(s - sg) <= 0.05 * sg or abs(mu) < 0.7 * sg, "closed-form", "uncertainty of the combined strength", got=s, want=sg, mu=mu, **wit)


def order(rng, rec):
    specs = members(rng, 2, 4, rich=False)
    exp = EXPECTED[rng.integers(3)]
    neg = bool(rng.integers(2))
    perm = rng.permutation(len(specs))
    mk = lambda ix: UnCorrStatisticsCombiner(*[R.build(specs[i], analysis=f"a{i}", xsection=1.0) for i in ix])
    one, two = mk(range(len(specs))), mk(perm)
    mu = float(round(rng.uniform(0, 1.5), 3))
    rec.case(sig(specs, "order", perm.tolist(), str(exp), mu), list(perm) != sorted(perm))
    wit = dict(specs=specs, permutation=perm, expected=str(exp), mu=mu, negative=neg)
    a, b = one.likelihood(mu, expected=exp), two.likelihood(mu, expected=exp)
    rec.check(abs(a - b) <= 1e-7 + 1e-10 * abs(a), "order", "likelihood depends on the order", first=a, second=b, **wit)
    (x, v), (y, w) = one.maximize_likelihood(expected=exp, allow_negative_signal=neg), two.maximize_likelihood(expected=exp, allow_negative_signal=neg)
    rec.check(abs(v - w) <= 4e-3, "order", "maximum depends on the order", first=[x, v], second=[y, w], **wit)
    a, b = one.asimov_likelihood(mu, expected=exp), two.asimov_likelihood(mu, expected=exp)
    rec.check(abs(a - b) <= 1e-7 + 1e-10 * abs(a), "order", "Asimov likelihood depends on the order", first=a, second=b, **wit)
    rec.check(one.minimum_poi == two.minimum_poi and one.is_alive == two.is_alive, "order", "attributes depend on the order", **wit)


def dead(rng, rec):
    """Members without signal only add a constant."""
    specs = members(rng, 1, 2, rich=False)
    z = nice_spec(rng, kinds=["ub", "cb", "poi"])
    z["s"] = [0.0] * z["n"]
    exp = EXPECTED[rng.integers(3)]
    neg = bool(rng.integers(2))
    with_dead = models(specs) + [R.build(z, analysis="dead")]
    if rng.integers(2):
        with_dead = with_dead[::-1]
    comb, alone = UnCorrStatisticsCombiner(*with_dead), UnCorrStatisticsCombiner(*models(specs))
    rec.case(sig(specs, "dead", str(exp), neg), True)
    const = R.build(z).likelihood(0.0, expected=exp)
    x, v = comb.maximize_likelihood(expected=exp, allow_negative_signal=neg)
    y, w = alone.maximize_likelihood(expected=exp, allow_negative_signal=neg)
    wit = dict(specs=specs, dead=z, expected=str(exp), negative=neg)
    rec.check(math.isfinite(v) and math.isfinite(x), "dead-member", "combined maximum is not finite", got=[x, v], **wit)
    rec.check(abs(v - const - w) <= 6e-3, "dead-member", "a member without signal moves the combined maximum", got=[x, v - const], want=[y, w], **wit)
    rec.check(comb.is_alive, "dead-member", "combination with signal reported without", **wit)
    rec.check(not UnCorrStatisticsCombiner(R.build(z)).is_alive, "dead-member", "combination without signal reported alive", **wit)


_POOL = {}


def pool():
    if not _POOL:
        f = spey.get_backend("default.poisson")
        for i in range(9):
            name = f"an{i % 6}"  # several models share a name
            _POOL[i] = f(signal_yields=[1.0 + i], background_yields=[10.0 + i], data=[11 + i], analysis=name)
    return _POOL


def membership(rng, rec):
    """Random edit histories against a list of models."""
    P = pool()
    ids = [int(i) for i in rng.permutation(6)[: int(rng.integers(0, 5))]]
    comb = UnCorrStatisticsCombiner(*[P[i] for i in ids])
    ref = [P[i] for i in ids]
    hist = [("init", ids)]
    rec.case(["members", ids, int(rng.integers(1 << 30))], True)

    def same(c, r, what):
        ok = (
            [m for m in c] == r
            and len(c) == len(r)
            and all(a is b for a, b in zip(c.statistical_models, r))
            and c.analyses == [m.analysis for m in r]
            and [(k, v) for k, v in c.items()] == [(m.analysis, m) for m in r]
            and len(set(c.analyses)) == len(r)
        )
        return rec.check(ok, "membership", f"members differ from the history ({what})", history=hist, got=c.analyses, want=[m.analysis for m in r])

    def refused(fn, errs, what):
        try:
            fn()
            rec.check(False, "membership", f"{what} accepted", history=hist)
        except errs:
            rec.check(True, "membership", "")

    same(comb, ref, "constructor")
    for _ in range(int(rng.integers(3, 12))):
        op = ["append", "remove", "name", "index", "slice", "matmul", "matmul-comb", "bad", "dup-init"][rng.integers(9)]
        k = int(rng.integers(9))
        hist.append((op, k))
        names = [m.analysis for m in ref]
        if op == "append":
            if P[k].analysis in names:
                refused(lambda: comb.append(P[k]), AnalysisQueryError, "duplicate analysis")
            else:
                comb.append(P[k])
                ref.append(P[k])
        elif op == "remove":
            nm = f"an{k}"
            if nm in names:
                comb.remove(nm)
                ref.pop(names.index(nm))
            else:
                refused(lambda: comb.remove(nm), AnalysisQueryError, "removal of an unknown analysis")
        elif op == "name":
            nm = f"an{k}"
            if nm in names:
                rec.check(comb[nm] is ref[names.index(nm)], "membership", "lookup by name", history=hist)
            else:
                refused(lambda: comb[nm], AnalysisQueryError, "unknown name")
        elif op == "index":
            if k < len(ref):
                rec.check(comb[k] is ref[k] and (comb[-k - 1] is ref[-k - 1]), "membership", "lookup by position", history=hist)
            else:
                refused(lambda: comb[k], AnalysisQueryError, "position out of range")
        elif op == "slice":
            a, b = sorted(int(x) for x in rng.integers(0, 6, 2))
            got = comb[a:b]
            rec.check(list(got) == ref[a:b], "membership", "slice", history=hist, got=[m.analysis for m in got], want=[m.analysis for m in ref[a:b]])
        elif op in ("matmul", "matmul-comb"):
            others = [P[k]] if op == "matmul" else [P[int(i)] for i in rng.permutation(6)[: int(rng.integers(0, 3))]]
            o = others[0] if op == "matmul" else UnCorrStatisticsCombiner(*others)
            if any(m.analysis in names for m in others):
                refused(lambda: comb @ o, AnalysisQueryError, "combination with a duplicate name")
            else:
                new = comb @ o
                same(new, ref + others, "@")
                rec.check(new is not comb, "operands", "combining returned its operand", history=hist)
                if len(ref):
                    new.remove(ref[0].analysis)  # edits of the result must not reach the operands
                if op == "matmul-comb":
                    same(o, others, "right operand of @")
                if rng.random() < 0.3:
                    comb, ref = new, (ref + others)[1:] if ref else list(others)
            rec.check(True, "operands", "")
        elif op == "bad":
            x = [3, "an0", None, [P[0]], P[0].backend][rng.integers(5)]
            refused(lambda: comb.append(x), TypeError, "append of something that is no model")
            refused(lambda: comb @ x, ValueError, "combination with something that is no model")
        else:
            same_name = [i for i in P if P[i].analysis == P[k].analysis]
            if len(same_name) > 1:
                refused(lambda: UnCorrStatisticsCombiner(P[same_name[0]], P[same_name[1]]), AnalysisQueryError, "duplicate names at construction")
        if not same(comb, ref, op):
            return
    if ref:
        v = comb.likelihood(0.5)
        w = sum(m.likelihood(0.5) for m in ref)
        rec.check(abs(v - w) <= 1e-9 * max(1, abs(w)), "sum", "likelihood does not follow the members", got=v, want=w, history=hist)


def sensitive(rng, rec):
    specs = members(rng, 2, 3, rich=False)
    xs = [float(np.exp(rng.uniform(np.log(1e-3), np.log(10)))) for _ in specs]
    mk = lambda i: R.build(specs[i], analysis=f"a{i}", xsection=xs[i])
    comb = UnCorrStatisticsCombiner(*[mk(i) for i in range(len(specs))])
    rec.case(sig(specs, "sens", xs), True)
    lim = []
    for i in range(len(specs)):
        lim.append(mk(i).poi_upper_limit(expected=ET.apriori) * xs[i])
    srt = sorted(lim)
    if srt[1] - srt[0] < 5e-3 * srt[0]:
        raise SkipCase("tie")
    got = comb.find_most_sensitive()
    rec.check(got.analysis == f"a{int(np.argmin(lim))}", "sensitive", "most sensitive member", got=got.analysis, limits=lim, xsections=xs, specs=specs)


class Broken(StatisticalModel):
    """A member whose yields are negative beyond a signal strength."""

    limit = 1.0

    def likelihood(self, poi_test=1.0, **kw):
        if float(poi_test[0] if isinstance(poi_test, dict) else poi_test) > self.limit:
            raise NegativeExpectedYields("negative yields")
        return super().likelihood(poi_test=poi_test, **kw)


def negative(rng, rec):
    specs = members(rng, 1, 3, rich=False, kinds=["poi", "gau", "ub"])
    bad = int(rng.integers(len(specs)))
    ms = [(Broken if i == bad else StatisticalModel)(backend=R.build(sp).backend, analysis=f"a{i}") for i, sp in enumerate(specs)]
    comb = UnCorrStatisticsCombiner(*ms)
    mu = float(round(rng.uniform(0.2, 2.0), 3))
    lin = bool(rng.integers(2))
    as_dict = bool(rng.integers(2))
    rec.case(sig(specs, "negative", bad, mu, lin, as_dict), True)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        v = comb.likelihood({0: mu} if as_dict else mu, return_nll=not lin)
    if mu > 1.0:
        rec.check(math.isnan(v) and any(issubclass(x.category, RuntimeWarning) for x in w), "negative-yields", "negative yields must give not-a-number with a warning", got=v, mu=mu, specs=specs)
    else:
        s = sum(R.build(sp).likelihood(mu) for sp in specs)
        s = math.exp(-s) if lin else s
        rec.check(abs(v - s) <= 1e-6 + 1e-6 * abs(s), "negative-yields", "valid strengths must not be affected", got=v, want=s, mu=mu, specs=specs)


KINDS = {f.__name__: f for f in (likelihood, routing, bounded, single, maximum, gaussian, asimov_maximum, extreme, order, dead, membership, sensitive, negative)}
