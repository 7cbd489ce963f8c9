"""C03: a profile query pins the tested parameters and minimises the rest."""
import numpy as np

import refmodel as R
from props.common import EXPECTED, LogTap, SkipCase, es_domain, moderate, nice_spec, spec_sig

RULE = (
    "distinct (model spec, tested parameter set, data choice) whose profiled value and returned parameters "
    "were compared with an independent constrained optimisation of the reference density"
)
PLAN = {
    "quick": {"outside": 400, "poi": 1500, "multi": 900, "general": 900, "bounded": 300, "closed_form": 300, "tension": 300},
    "thorough": {"outside": 8000, "poi": 30000, "multi": 18000, "general": 15000, "bounded": 6000, "closed_form": 6000, "tension": 6000},
}
MINIMA = {"mon:optimal": 1500}
ASSUMPTIONS = [
    "global optimality is asserted where the profiled problem is regular: array signals without modifiers, at "
    "least one event per bin, optimum within 2.3 sigma and away from vanishing rates; elsewhere pinning, "
    "feasibility and value/parameter consistency are asserted",
    "the reference optimum is the best feasible point of several independent optimisations (a witness)",
]
TOL = 2e-3


def _data(rng, spec, ref, expected):
    if rng.random() < 0.6:
        return None, ref.data(expected)
    d = np.maximum(np.round(np.array(spec["b"]) + np.clip(rng.normal(0, 0.7, spec["n"]), -1.2, 1.2) * np.sqrt(np.array(spec["b"]))), 1.0)
    return d, d


def _common(rec, ref, val, pars, use, fixed, tap, wit, exact=1e-8):
    pars = np.asarray(pars, dtype=float)
    rec.check(pars.shape == (ref.npar,), "parameter-vector", "wrong number of parameters", **wit)
    for i, v in fixed.items():
        rec.close(pars[i], v, "pinned", atol=exact * (1 + abs(v)), rtol=0, pars=pars, **wit)
    want = ref.nll(pars, use)
    rec.close(val, want, "value-at-parameters", atol=1e-9 * (abs(want) + np.sum(np.abs(use)) + 10), rtol=0, pars=pars, **wit)
    if not tap.unconverged():
        rec.check(ref.feasible(pars, 1e-5), "background-non-negative", "negative background rates", pars=pars, **wit)
    return pars


def _optimal(rec, ref, val, pars, use, fixed, wit, bounds=None):
    best = ref.optimum(use, fixed=fixed, starts=[pars], bounds=bounds)
    if best is None or not moderate(ref, best[1], use):
        return False
    gap = val - best[0]
    rec.check(gap < TOL, "optimal", f"value is {gap:.3g} above the reference optimum", pars=pars, best=best[1], **wit)
    return True


def poi(rng, rec):
    spec = nice_spec(rng)
    ref = R.Ref(spec)
    m = R.build(spec)
    expected = EXPECTED[rng.integers(3)]
    data, use = _data(rng, spec, ref, expected)
    mu = [0.0, 1.0, float(round(rng.uniform(0, 2.5), 3)), float(round(max(-0.3, 0.3 * ref.minimum_poi), 4)), 2][rng.integers(5)]
    pt = [mu, np.float64(mu), int(mu) if mu == int(mu) else mu, {0: mu}][rng.integers(4)]
    wit = dict(spec=spec, mu=mu, form=repr(pt), expected=str(expected), data=data)
    with LogTap() as tap:
        val, pars = m.likelihood(pt, expected=expected, data=data, return_parameters=True)
        lin = m.likelihood(pt, expected=expected, data=data, return_nll=False)
        nll = m.likelihood(pt, expected=expected, data=data)
    pars = _common(rec, ref, val, pars, use, {0: mu}, tap, wit)
    rec.close(lin, np.exp(-val), "nll-vs-likelihood", atol=1e-300, rtol=1e-7 * (1 + abs(val)), **wit)
    rec.close(nll, val, "nll-vs-likelihood", atol=1e-9, rtol=1e-9, **wit)
    if not tap.unconverged():
        _optimal(rec, ref, val, pars, use, {0: mu}, wit)
    else:
        rec.count("unconverged")
    rec.case(spec_sig(spec, repr(pt), str(expected), data), sample=wit)


def multi(rng, rec):
    """Several tested parameters, by index, by name or mixed, with or without the signal strength."""
    named = rng.random() < 0.5
    spec = nice_spec(rng, kinds=["ub", "cb", "tm", "es", "poiabs"] if not named else ["ub", "cb", "tm", "es", "gau", "mvn"])
    if named:
        # named parameters need signal parameters; linear signal keeps the problem regular when pinned
        if spec["kind"] not in ("gau", "mvn"):
            spec["nsp"] = 1
        spec["sigfn"] = "lin"
        spec["nsp"] = 1
        spec["s1"] = [[0.2 * x for x in spec["s"]]]
        spec["spb"] = [[-2.0, 2.0]]
    ref = R.Ref(spec)
    m = R.build(spec)
    names = ref.names()
    rec.check((m.backend.config().parameter_names or None) == names, "names", "parameter names", spec=spec, got=m.backend.config().parameter_names)
    fixed, pt = {}, {}
    cand = list(range(ref.npar))
    k = int(rng.integers(1, max(2, min(4, len(cand)))))
    chosen = sorted(rng.choice(cand, size=k, replace=False).tolist(), key=lambda i: rng.random())
    if named and 0 not in chosen:
        chosen.append(0)
    if named and 1 not in chosen:
        chosen.append(1)
    for i in chosen:
        v = float(round(rng.uniform(0.1, 1.5), 3)) if i == 0 else float(round(np.clip(rng.normal(0, 0.6), -1.2, 1.2), 3))
        if rng.random() < 0.3:  # round values, which also are the default start values
            v = [0.0, 0.0, 1.0, 0.5, -0.5][rng.integers(5 if i else 4)]
            rec.count("multi:round-value")
        fixed[i] = v
        pt[names[i] if names and rng.random() < 0.5 else i] = v
    expected = EXPECTED[rng.integers(3)]
    data, use = _data(rng, spec, ref, expected)
    wit = dict(spec=spec, poi_test=pt, expected=str(expected), data=data)
    with LogTap() as tap:
        val, pars = m.likelihood(dict(pt), expected=expected, data=data, return_parameters=True)
    pars = _common(rec, ref, val, pars, use, fixed, tap, wit)
    if not tap.unconverged() and not (spec["kind"] == "poiabs"):
        _optimal(rec, ref, val, pars, use, fixed, wit)
    rec.count("multi:" + ("named" if names else "index"))
    rec.case(spec_sig(spec, sorted(map(str, pt.items())), str(expected)), sample=wit)


def general(rng, rec):
    """The full domain: modifiers, callable signals, zero counts, deficits and excesses."""
    spec = R.gen_spec(rng)
    ref = R.Ref(spec)
    m = R.build(spec)
    expected = EXPECTED[rng.integers(3)]
    lo = max(ref.minimum_poi * 0.5, -1.0)
    mu = float(round(rng.uniform(max(lo, -0.5), 4.0), 3))
    wit = dict(spec=spec, mu=mu, expected=str(expected))
    with LogTap() as tap:
        val, pars = m.likelihood(mu, expected=expected, return_parameters=True)
    pars = np.asarray(pars, dtype=float)
    if tap.unconverged() or not np.all(np.isfinite(pars)):
        rec.count("unconverged")
        raise SkipCase
    if spec["kind"] not in ("gau", "mvn") and np.min(ref.rates(pars)) < 1e-6:
        rec.count("rate_zero_edge")
        raise SkipCase
    _common(rec, ref, val, pars, ref.data(expected), {0: mu}, tap, wit, exact=1e-7)
    # never worse than the trivial point every fit could use
    triv = np.zeros(ref.npar)
    triv[0] = mu
    triv[1 : 1 + ref.nsp] = pars[1 : 1 + ref.nsp]
    if ref.feasible(triv):
        rec.check(val <= ref.nll(triv, ref.data(expected)) + TOL, "no-worse-than-nominal", "profiled value is worse than nominal nuisances", **wit)
    rec.case(spec_sig(spec, mu, str(expected)), sample=wit)


def bounded(rng, rec):
    """Caller-supplied start values and bounds are honoured."""
    spec = nice_spec(rng, kinds=["ub", "cb", "tm"])
    ref = R.Ref(spec)
    m = R.build(spec)
    expected = EXPECTED[rng.integers(3)]
    mu = float(round(rng.uniform(0, 2), 3))
    init = [1.0] + rng.normal(0, 0.3, ref.npar - 1).round(3).tolist()
    bnds = [(min(-1.0, ref.minimum_poi), 12.0)] + [
        (float(round(rng.uniform(-0.6, -0.05), 3)), float(round(rng.uniform(0.05, 0.6), 3))) for _ in range(ref.npar - 1)
    ]
    if rng.random() < 0.4:
        bnds = None
    use = ref.data(expected)
    wit = dict(spec=spec, mu=mu, expected=str(expected), init=init, bounds=bnds)
    with LogTap() as tap:
        val, pars = m.likelihood(
            mu, expected=expected, return_parameters=True, init_pars=list(init), par_bounds=None if bnds is None else list(bnds)
        )
    pars = _common(rec, ref, val, pars, use, {0: mu}, tap, wit)
    if bnds is not None:
        ok = all(l - 1e-7 <= x <= u + 1e-7 for x, (l, u) in zip(pars, bnds))
        rec.check(ok, "inside-bounds", "parameters outside the given bounds", pars=pars, **wit)
    if not tap.unconverged():
        _optimal(rec, ref, val, pars, use, {0: mu}, wit, bounds=bnds)
    rec.case(spec_sig(spec, mu, init, str(expected)), sample=wit)


def closed_form(rng, rec):
    """Independent bins have an exact conditional solution: compare the fitted nuisances with it."""
    spec = nice_spec(rng, kinds=["ub"])
    ref = R.Ref(spec)
    m = R.build(spec)
    expected = EXPECTED[rng.integers(3)]
    mu = float(round(rng.uniform(0, 2.5), 3))
    t = ref.ub_profile(mu, ref.data(expected))
    p = np.hstack([[mu], t])
    if not moderate(ref, p, None):
        raise SkipCase
    with LogTap() as tap:
        val, pars = m.likelihood(mu, expected=expected, return_parameters=True)
    if tap.unconverged():
        raise SkipCase
    want = ref.nll(p, ref.data(expected))
    wit = dict(spec=spec, mu=mu, expected=str(expected))
    rec.check(val >= want - 1e-8 * (1 + abs(want)), "not-below-exact-minimum", "value below the exact minimum", got=val, want=want, **wit)
    rec.check(val <= want + TOL, "optimal", "value above the exact minimum", got=val, want=want, **wit)
    rec.close(np.asarray(pars)[1:], t, "exact-nuisances", atol=0.06, rtol=0, **wit)
    rec.case(spec_sig(spec, mu, str(expected)), sample=wit)


def tension(rng, rec):
    """Background uncertainties pulled far away (beyond ten standard deviations) keep the exact solution."""
    n = int(rng.integers(1, 4))
    b = rng.uniform(20, 400, n)
    u = b * rng.uniform(0.01, 0.08, n)
    want = rng.uniform(-14, 26, n)  # wanted pulls
    lam = np.maximum(b + want * u, 0.3 * b)
    t = (lam - b) / u
    d = np.round(lam * (1 + t / u))  # stationary: u - d u / lam + t = 0
    if np.any(d < 1) or np.any(d > 5000):
        raise SkipCase
    spec = dict(nice_spec(rng, kinds=[["ub", "poiabs"][rng.integers(2)]], nmax=1), n=n, b=b.round(4).tolist(), s=(b * rng.uniform(0, 0.2, n)).round(4).tolist(), unc=u.round(4).tolist(), d=d.tolist())
    ref = R.Ref(spec)
    mu = float(round(rng.uniform(0, 1.0), 3))
    use = ref.data(EXPECTED[0])
    t = ref.ub_profile(mu, use)
    if spec["kind"] == "poiabs":  # no constraint term: the background follows the data
        bb, uu = np.array(spec["b"]), np.array(spec["unc"])
        t = np.maximum((d - mu * np.array(spec["s"]) - bb) / uu, -bb / uu)
    p = np.hstack([[mu], t])
    with LogTap() as tap:
        val, pars = R.build(spec).likelihood(mu, return_parameters=True)
    if tap.unconverged():
        rec.count("unconverged")
        raise SkipCase
    exact = ref.nll(p, use)
    wit = dict(spec=spec, mu=mu, pulls=p[1:])
    rec.check(val >= exact - 1e-8 * (1 + abs(exact)), "not-below-exact-minimum", "value below the exact minimum", got=val, want=exact, **wit)
    rec.check(val <= exact + TOL * (1 + 1e-3 * abs(exact)), "optimal", "value above the exact minimum", got=val, want=exact, pars=pars, **wit)
    rec.count("tension:" + ("far" if np.max(np.abs(p[1:])) > 10 else "near"))
    rec.case(spec_sig(spec, mu), sample=wit)


def outside(rng, rec):
    """Tested values beyond the suggested bounds of the parameters are still pinned at what was asked."""
    shaped = rng.random() < 0.35
    spec = nice_spec(rng, kinds=["ub", "cb", "tm", "es", "gau", "mvn"] if shaped else None)
    if shaped:  # a bounded signal parameter, tested outside its bounds
        spec["nsp"] = 1
        spec["sigfn"] = "lin"
        spec["s1"] = [[0.2 * x for x in spec["s"]]]
        spec["spb"] = [[-1.0, 1.0]]
        ref = R.Ref(spec)
        m = R.build(spec)
        v = float(round(rng.uniform(1.05, 2.5), 3))
        fixed = {0: float(round(rng.uniform(0, 1.5), 3)), 1: v}
        if rng.random() < 0.3:
            fixed = {1: v}
        names = ref.names()
        pt = {(names[i] if rng.random() < 0.4 else i): x for i, x in fixed.items()}
        wit = dict(spec=spec, poi_test=repr(pt))
        with LogTap() as tap:
            val, pars = m.likelihood(pt, return_parameters=True)
        use = ref.data(EXPECTED[0])
        pars = _common(rec, ref, val, pars, use, fixed, tap, wit)
        if not tap.unconverged() and 0 in fixed:
            _optimal(rec, ref, val, pars, use, fixed, wit)
        rec.count("outside:signal-parameter")
        rec.case(spec_sig(spec, repr(pt)), sample=wit)
        return
    spec["s"] = [x / 12.0 for x in spec["s"]]
    ref = R.Ref(spec)
    m = R.build(spec)
    mu = [11.0, float(round(rng.uniform(10.01, 40.0), 3)), 25, 60.0][rng.integers(4)]
    fixed = {0: mu}
    pt = mu
    if rng.random() < 0.5:
        pt = {0: mu}
        if ref.nbkg and rng.random() < 0.6:
            i = int(ref.tsl.start + rng.integers(ref.nbkg))
            lo, up = R.build(spec).backend.config().suggested_bounds[i]
            v = float(round(rng.uniform(-1.0, 1.0), 3))
            if up is not None and rng.random() < 0.3:
                v = up + 0.5
                trial = np.zeros(ref.npar)
                trial[0], trial[i] = mu, v
                if not (ref.feasible(trial) and es_domain(ref, trial)):
                    v = 0.3
            fixed[i] = pt[i] = v
    nom = np.zeros(ref.npar)
    for i, v in fixed.items():
        nom[i] = v
    if not ref.feasible(nom):
        raise SkipCase
    lam = np.asarray(ref.rates(nom) if spec["kind"] not in ("gau", "mvn") else np.array(spec["b"]) + mu * np.array(spec["s"]))
    data = np.maximum(np.round(lam + 0.7 * np.clip(rng.normal(size=lam.size), -1.2, 1.2) * np.sqrt(np.abs(lam))), 1.0)
    wit = dict(spec=spec, poi_test=repr(pt), data=data)
    with LogTap() as tap:
        val, pars = m.likelihood(pt, data=data, return_parameters=True)
    pars = _common(rec, ref, val, pars, data, fixed, tap, wit)
    if not tap.unconverged():
        _optimal(rec, ref, val, pars, data, fixed, wit)
    rec.count("outside:" + ("dict" if isinstance(pt, dict) else "float"))
    rec.case(spec_sig(spec, repr(pt), data), sample=wit)


KINDS = {"outside": outside, "poi": poi, "multi": multi, "general": general, "bounded": bounded, "closed_form": closed_form, "tension": tension}
