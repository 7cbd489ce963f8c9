"""C13: Asimov data are the expected data of the documented conditional fit."""
import math

import numpy as np

import refmodel as R
import spey
from props.common import EXPECTED, ET, LogTap, SkipCase, moderate, nice_spec, rand_point, spec_sig
from props.stats import Indep
from spey import UnCorrStatisticsCombiner

RULE = (
    "distinct (model, expectation, statistic, tested strength) whose Asimov data were compared with the reference model's expected data at "
    "the model's own conditional fit and at an independent conditional fit, and whose Asimov likelihoods were compared with ordinary "
    "likelihoods on that data set"
)
PLAN = {
    "quick": {"expected_data": 900, "own": 500, "independent": 260, "likelihoods": 260, "closure": 200, "options": 120, "combination": 60},
    "thorough": {"expected_data": 25000, "own": 12000, "independent": 8000, "likelihoods": 7000, "closure": 5000, "options": 3000, "combination": 1500},
}
MINIMA = {"mon:expected-data": 1500, "mon:conditional-fit": 400, "mon:independent": 180, "mon:asimov-likelihood": 400, "mon:closure": 150, "mon:combination": 100}
ASSUMPTIONS = [
    "the comparison with the independent fit is made in the regular domain of C03/C04",
    "the signal strength one of the discovery statistic is inside the physical region of the model",
]
CASE_TIMEOUT = 120
STATS = ["q", "qmu", "qtilde", "qmutilde", "q0"]


def split(ref, asim):
    a = np.asarray(asim, dtype=float)
    return a[: len(ref.b)], a[len(ref.b) :]


def expected_data(rng, rec):
    """backend.expected_data is the reference model's rates, plus centres of the constraint terms."""
    spec = R.gen_spec(rng)
    ref = R.Ref(spec)
    m = R.build(spec)
    p = rand_point(rng, spec, ref)
    rec.case(spec_sig(spec, "ed", p[0]), True)
    conv = [np.array, list, tuple][rng.integers(3)]
    if conv is not np.array and (spec["sigfn"] or spec["mods"] or ref.nbkg):
        conv = np.array
    want = np.clip(ref.rates(p), 1e-20, None) if spec["kind"] not in ("gau", "mvn") else ref.rates(p)
    main = np.asarray(m.backend.expected_data(conv(p.tolist()), include_auxiliary=False) if ref.k not in ("poi", "poiabs", "gau", "mvn") else m.backend.expected_data(conv(p.tolist())), dtype=float)
    wit = dict(spec=spec, pars=p, got=main, want=want)
    main, aux0 = split(ref, main)
    ok = main.shape == want.shape and np.all(np.abs(main - want) <= 1e-9 + 1e-9 * np.abs(want))
    rec.check(ok, "expected-data", "expected data differ from the model's rates", **wit)
    full = np.asarray(m.backend.expected_data(conv(p.tolist())), dtype=float)
    a, aux = split(ref, full)
    naux = 0 if spec["kind"] == "poiabs" else ref.nbkg + sum(sl.stop - sl.start for _, _, _, sl in ref.mods)
    rec.check(np.array_equal(a, main) and aux.shape == (naux,) and np.all(aux == 0.0), "expected-data", "auxiliary expectation", aux=aux, expected_aux=naux, **wit)


def own(rng, rec):
    """All model kinds, modifiers and callable signals: rates at the model's own conditional fit."""
    if rng.random() < 0.5:
        spec = nice_spec(rng, modifiers=None, callable_sig=None)
    else:
        spec = R.gen_spec(rng, sb=(0.05, 0.9))
    ref = R.Ref(spec)
    exp = EXPECTED[rng.integers(3)]
    ts = STATS[rng.integers(5)]
    hyp = 1.0 if ts == "q0" else 0.0
    if hyp < 0.5 * ref.minimum_poi:
        raise SkipCase("outside")
    rec.case(spec_sig(spec, "own", ts, str(exp)), True)
    m = R.build(spec)
    with LogTap() as t1:
        asim = m.generate_asimov_data(expected=exp, test_statistic=ts)
    with LogTap() as t2:
        _, pars = R.build(spec).likelihood(hyp, expected=exp, return_parameters=True)
    if t1.unconverged() or t2.unconverged():
        raise SkipCase("unconverged")
    pars = np.asarray(pars, dtype=float)
    a, aux = split(ref, asim)
    want = ref.rates(pars)
    wit = dict(spec=spec, expected=str(exp), statistic=ts, got=a, want=want, pars=pars)
    rec.check(abs(pars[0] - hyp) < 1e-12, "hypothesis", "conditional fit moved the signal strength", **wit)
    scale = np.sqrt(np.abs(want)) if spec["kind"] not in ("gau", "mvn") else np.sqrt(np.abs(want)) + 1
    tol = 2e-3 * scale + 1e-6 if not (spec["sigfn"] in ("lin", "quad") or spec["mods"]) else 0.05 * scale + 1e-4
    rec.check(a.shape == want.shape and bool(np.all(np.abs(a - want) <= tol)), "conditional-fit", "Asimov data are not the expected data of the conditional fit", **wit)
    rec.check(np.all(aux == 0.0), "conditional-fit", "auxiliary Asimov data are not the constraint centres", aux=aux, **wit)
    rec.check(np.all(np.isfinite(a)) and (spec["kind"] in ("gau", "mvn") or np.all(a > 0)), "finite", "Asimov data must be finite (and positive for counts)", **wit)


def independent(rng, rec):
    spec = nice_spec(rng)
    ref = R.Ref(spec)
    exp = EXPECTED[rng.integers(3)]
    ts = STATS[rng.integers(5)]
    ind = Indep(ref, exp, {"qmu": "q", "qmutilde": "qtilde"}.get(ts, ts))
    if not moderate(ref, ind.cond, ind.data):
        raise SkipCase("irregular")
    rec.case(spec_sig(spec, "ind", ts, str(exp)), True)
    a, _ = split(ref, R.build(spec).generate_asimov_data(expected=exp, test_statistic=ts))
    tol = 0.03 * np.sqrt(np.abs(ind.asimov)) + 1e-6
    rec.check(bool(np.all(np.abs(a - ind.asimov) <= tol)), "independent", "Asimov data differ from the independent conditional fit", got=a, want=ind.asimov, spec=spec, expected=str(exp), statistic=ts)
    # what the wrong hypothesis or the wrong data would give, so that the comparison can tell them apart
    other = ref.optimum(ind.data, fixed={0: 0.0 if ts == "q0" else 1.0}, tries=1)
    if other is not None and np.any(np.abs(ref.rates(other[1]) - ind.asimov) > 3 * tol):
        rec.count("discriminating:hypothesis")
    swap = ref.data(ET.apriori if str(exp) != "apriori" else ET.observed)
    other = ref.optimum(swap, fixed={0: 1.0 if ts == "q0" else 0.0}, tries=1)
    if other is not None and np.any(np.abs(ref.rates(other[1]) - ind.asimov) > 3 * tol):
        rec.count("discriminating:data")


def likelihoods(rng, rec):
    spec = nice_spec(rng, modifiers=None if rng.random() < 0.4 else False, callable_sig=None if rng.random() < 0.4 else False)
    ref = R.Ref(spec)
    exp = EXPECTED[rng.integers(3)]
    ts = STATS[rng.integers(5)]
    mu = float(round(rng.uniform(0.0, 2.5), 3))
    rec.case(spec_sig(spec, "llhd", ts, str(exp), mu), True)
    m = R.build(spec)
    f = R.build(spec)
    asim = f.generate_asimov_data(expected=exp, test_statistic=ts)
    wit = dict(spec=spec, expected=str(exp), statistic=ts, mu=mu)
    tol = dict(atol=2e-7, rtol=1e-9)
    got = m.asimov_likelihood(mu, expected=exp, test_statistics=ts)
    want = f.likelihood(mu, expected=exp, data=asim)
    rec.check(abs(got - want) <= tol["atol"] + 1e-9 * abs(want), "asimov-likelihood", "Asimov likelihood is not the likelihood of the Asimov data", got=got, want=want, **wit)
    lin = m.asimov_likelihood(mu, expected=exp, test_statistics=ts, return_nll=False)
    rec.check(abs(lin - math.exp(-want)) <= 1e-6 * math.exp(-want) + 1e-300, "asimov-likelihood", "linear Asimov likelihood", got=lin, want=math.exp(-want), **wit)
    if spec["kind"] not in ("gau", "mvn"):
        # and the reference model's value at the fitted point
        nll, pars = f.likelihood(mu, expected=exp, data=asim, return_parameters=True)
        r = ref.nll(np.asarray(pars, dtype=float), np.asarray(asim, dtype=float)[: len(ref.b)])
        rec.check(abs(r - nll) <= 1e-6 + 1e-9 * abs(r), "asimov-likelihood", "likelihood of the Asimov data differs from the reference model", got=nll, want=r, **wit)
    neg = ts in ("q", "qmu")
    mh, mx = m.maximize_asimov_likelihood(expected=exp, test_statistics=ts)
    mh2, mx2 = f.maximize_likelihood(expected=exp, data=asim, allow_negative_signal=neg)
    rec.check(abs(mx - mx2) <= 2e-7 + 1e-9 * abs(mx2) and abs(mh - mh2) <= 1e-6, "asimov-maximum", "Asimov maximum is not the maximum for the Asimov data", got=[mh, mx], want=[mh2, mx2], **wit)
    _, lin = m.maximize_asimov_likelihood(expected=exp, test_statistics=ts, return_nll=False)
    rec.check(abs(lin - math.exp(-mx2)) <= 1e-6 * math.exp(-mx2) + 1e-300, "asimov-maximum", "linear Asimov maximum", got=lin, want=math.exp(-mx2), **wit)
    if not neg:
        rec.check(mh >= -1e-9, "asimov-maximum", "negative strength although negative signals are excluded", got=mh, **wit)
    if ref.npar > 1:
        i = int(rng.integers(1, ref.npar))
        d, v = m.maximize_asimov_likelihood(expected=exp, test_statistics=ts, poi_indices=[i, 0])
        d2, v2 = f.maximize_likelihood(expected=exp, data=asim, allow_negative_signal=neg, poi_indices=[i, 0])
        rec.check(list(d) == [i, 0] and abs(d[0] - d2[0]) < 1e-6 and abs(d[i] - d2[i]) < 1e-6 and abs(v - v2) < 1e-6, "asimov-maximum", "requested parameters of the Asimov fit", got=repr(d), want=repr(d2), **wit)


def closure(rng, rec):
    """Fitting background-only Asimov data returns the generating hypothesis."""
    if rng.random() < 0.5:
        spec = nice_spec(rng, kinds=["poi", "gau", "mvn"])
        exp = EXPECTED[rng.integers(3)]
    else:
        spec = nice_spec(rng, kinds=["ub", "cb", "es"])  # the third-moment mode is not its mean
        exp = ET.apriori
    ref = R.Ref(spec)
    ts = STATS[rng.integers(5)]
    hyp = 1.0 if ts == "q0" else 0.0
    simple = spec["kind"] in ("poi", "gau", "mvn")
    if hyp and not simple:
        raise SkipCase("constraint centres stay at their nominal values")
    rec.case(spec_sig(spec, "closure", ts, str(exp)), True)
    m = R.build(spec)
    a, _ = split(ref, m.generate_asimov_data(expected=exp, test_statistic=ts))
    want = ref.b + hyp * np.array(spec["s"])
    wit = dict(spec=spec, expected=str(exp), statistic=ts, asimov=a)
    tol = 1e-9 * want + 1e-9 if simple else 5e-3 * np.sqrt(want)
    rec.check(bool(np.all(np.abs(a - want) <= tol)), "closure", "Asimov data of the nominal model are not its nominal expectation", want=want, **wit)
    mh, _ = m.maximize_asimov_likelihood(expected=exp, test_statistics=ts)
    s = np.array(spec["s"])
    var = np.diag(np.array(spec["cov"])) if spec["kind"] == "mvn" else (np.array(spec["unc"]) ** 2 if spec["kind"] == "gau" else ref.b + (0 if spec["kind"] == "poi" else np.array(spec["unc"]) ** 2))
    sg = 1 / math.sqrt(float(np.sum(s**2 / var)))
    rec.check(abs(mh - hyp) <= 0.07 * sg, "closure", "fit to the Asimov data does not return the generating strength", got=mh, want=hyp, sigma=sg, **wit)


def options(rng, rec):
    spec = nice_spec(rng)
    ref = R.Ref(spec)
    exp = EXPECTED[rng.integers(3)]
    ts = STATS[rng.integers(5)]
    rec.case(spec_sig(spec, "opt", ts, str(exp)), True)
    m = R.build(spec)
    base, _ = split(ref, R.build(spec).generate_asimov_data(expected=exp, test_statistic=ts))
    wit = dict(spec=spec, expected=str(exp), statistic=ts, base=base)
    with LogTap() as tap:
        a, _ = split(ref, m.generate_asimov_data(expected=exp, test_statistic=ts, fixed_poi_value=0.7))
    rec.check(np.allclose(a, base, rtol=1e-9) and any("fixed_poi_value" in x for _, x in tap.msgs), "option", "fixed_poi_value must be ignored with a warning", got=a, logs=tap.msgs, **wit)
    init = rng.normal(0, 0.3, ref.npar)
    init[0] = abs(init[0])
    cond = ref.optimum(ref.data(exp), fixed={0: 1.0 if ts == "q0" else 0.0}, tries=1)
    if cond is None or not moderate(ref, cond[1], ref.data(exp)):
        return
    a, _ = split(ref, m.generate_asimov_data(expected=exp, test_statistic=ts, init_pars=init.tolist()))
    rec.check(bool(np.all(np.abs(a - base) <= 0.04 * np.sqrt(np.abs(base)) + 1e-6)), "option", "Asimov data depend on the start values", got=a, init=init, **wit)
    bounds = [(ref.minimum_poi if np.isfinite(ref.minimum_poi) else -5.0, 10.0)] + [(-6.0, 6.0)] * (ref.npar - 1)
    a, _ = split(ref, m.generate_asimov_data(expected=exp, test_statistic=ts, par_bounds=bounds))
    rec.check(bool(np.all(np.abs(a - base) <= 0.04 * np.sqrt(np.abs(base)) + 1e-6)), "option", "Asimov data depend on wide parameter bounds", got=a, bounds=bounds, **wit)
    # bounds which bind in the conditional fit: every Asimov quantity uses the data generated within them
    if spec["kind"] not in ("poi", "gau", "mvn", "poiabs") and ref.npar > 1:
        tight = [(ref.minimum_poi if np.isfinite(ref.minimum_poi) else -5.0, 10.0)] + [(-float(round(rng.uniform(0.02, 0.2), 3)), float(round(rng.uniform(0.02, 0.2), 3))) for _ in range(ref.npar - 1)]
        tini = [0.5] + [0.0] * (ref.npar - 1)
        okw = [dict(par_bounds=list(tight)), dict(par_bounds=list(tight), init_pars=list(tini))][rng.integers(2)]
        f = R.build(spec)
        with LogTap() as tap:
            data = f.generate_asimov_data(expected=exp, test_statistic=ts, **okw)
            _, pars = f.likelihood(1.0 if ts == "q0" else 0.0, expected=exp, return_parameters=True, **okw)
            mu = float(round(rng.uniform(0.0, 1.5), 3))
            pairs = [
                (R.build(spec).maximize_asimov_likelihood(expected=exp, test_statistics=ts, **okw), f.maximize_likelihood(expected=exp, data=data, allow_negative_signal=ts in ("q", "qmu"), **okw)),
                ((mu, R.build(spec).asimov_likelihood(mu, expected=exp, test_statistics=ts, **okw)), (mu, f.likelihood(mu, expected=exp, data=data, **okw))),
            ]
        if not tap.unconverged():
            a, _ = split(ref, data)
            want = ref.rates(np.asarray(pars, dtype=float))
            rec.check(bool(np.all(np.abs(a - want) <= 2e-3 * np.sqrt(np.abs(want)) + 1e-6)), "bounded", "Asimov data do not respect the caller's bounds", got=a, want=want, pars=pars, bounds=tight, **wit)
            for i, (g, w) in enumerate(pairs):
                rec.check(abs(g[0] - w[0]) <= 1e-6 and abs(g[1] - w[1]) <= 2e-6 + 1e-9 * abs(w[1]), "bounded", "Asimov quantity with bounds is not that of the data generated within the bounds", which=["maximum", "likelihood"][i], got=repr(g), want=repr(w), bounds=tight, **wit)
            if np.any(np.abs(a - base) > 5e-3 * np.sqrt(np.abs(base))):
                rec.count("options:binding")
    # aposteriori is the observed data set, and a-priori ignores it
    if str(exp) != "apriori":
        o = ET.observed if exp == ET.aposteriori else ET.aposteriori
        a, _ = split(ref, R.build(spec).generate_asimov_data(expected=o, test_statistic=ts))
        rec.check(np.array_equal(a, base), "option", "observed and a-posteriori Asimov data differ", got=a, **wit)
    else:
        sp = dict(spec, d=[x + 3.0 for x in spec["d"]])
        a, _ = split(ref, R.build(sp).generate_asimov_data(expected=exp, test_statistic=ts))
        rec.check(np.array_equal(a, base), "option", "a-priori Asimov data depend on the observed data", got=a, **wit)


def combination(rng, rec):
    specs = [nice_spec(rng) for _ in range(int(rng.integers(1, 4)))]
    exp = EXPECTED[rng.integers(3)]
    ts = STATS[rng.integers(5)]
    mu = float(round(rng.uniform(0.0, 1.5), 3))
    rec.case(["comb", [spec_sig(s) for s in specs], ts, str(exp)], True)
    comb = UnCorrStatisticsCombiner(*[R.build(sp, analysis=f"a{i}") for i, sp in enumerate(specs)])
    fresh = [R.build(sp, analysis=f"a{i}") for i, sp in enumerate(specs)]
    got = comb.generate_asimov_data(expected=exp, test_statistic=ts)
    want = {f"a{i}": f.generate_asimov_data(expected=exp, test_statistic=ts) for i, f in enumerate(fresh)}
    wit = dict(specs=specs, expected=str(exp), statistic=ts, mu=mu)
    rec.check(list(got) == list(want) and all(np.allclose(got[k], want[k], rtol=1e-9, atol=1e-12) for k in want), "combination", "Asimov data of a combination are not its members'", got=repr(got), want=repr(want), **wit)
    v = comb.asimov_likelihood(mu, expected=exp, test_statistics=ts)
    w = sum(f.likelihood(mu, expected=exp, data=want[f"a{i}"]) for i, f in enumerate(fresh))
    rec.check(abs(v - w) <= 1e-6 + 1e-9 * abs(w), "combination", "Asimov likelihood of a combination", got=v, want=w, **wit)
    mh, mx = comb.maximize_asimov_likelihood(expected=exp, test_statistics=ts)
    at = sum(f.likelihood(float(mh), expected=exp, data=want[f"a{i}"]) for i, f in enumerate(fresh))
    rec.check(abs(at - mx) <= 1e-5 + 1e-8 * abs(mx), "combination", "Asimov maximum is not the value at its point", got=mx, want=at, **wit)
    lo = 0.0 if ts not in ("q", "qmu") else comb.minimum_poi
    rec.check(lo - 1e-9 <= mh <= 10 + 1e-9, "combination", "Asimov maximum outside the allowed range", got=mh, lower=lo, **wit)
    for x in (0.0, 0.3, 1.0):
        at = sum(f.likelihood(x, expected=exp, data=want[f"a{i}"]) for i, f in enumerate(fresh))
        rec.check(mx <= at + 4e-3 * len(specs), "combination", "Asimov maximum is not a maximum", got=mx, better=at, at=x, **wit)


KINDS = {f.__name__: f for f in (expected_data, own, independent, likelihoods, closure, options, combination)}
