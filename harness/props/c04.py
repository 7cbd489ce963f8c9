"""C04: the unconditional maximum likelihood."""
import numpy as np
from scipy.special import gammaln

import refmodel as R
import spey
from props.c03 import TOL, _data
from props.common import EXPECTED, LogTap, SkipCase, moderate, nice_spec, spec_sig

RULE = (
    "distinct (model spec, data choice, sign policy, fixed set) whose best fit was compared with an independent "
    "global optimisation, a scan of allowed signal strengths and the model's own profile"
)
PLAN = {
    "quick": {"maximum": 1500, "indices": 700, "fixed": 500, "general": 900, "strength": 900, "tiny": 300, "deficit": 1500, "strong_known": 1},
    "thorough": {"maximum": 25000, "indices": 10000, "fixed": 8000, "general": 12000, "strength": 20000, "tiny": 6000, "deficit": 40000, "strong_known": 1},
}
MINIMA = {"mon:optimal": 1200, "mon:scan": 3000}
ASSUMPTIONS = [
    "global optimality is asserted in the regular domain described for C03; range, value/profile consistency and "
    "never-worse-than-nominal are asserted on the full domain (modifiers, callable signals, zero counts)",
    "deficits: optimality is asserted when the best strength lies at least 1.5% of its distance inside the edge where a "
    "rate vanishes; closer than that the density is not resolved by a numerical minimiser",
]


def maximum(rng, rec):
    spec = nice_spec(rng)
    ref = R.Ref(spec)
    m = R.build(spec)
    expected = EXPECTED[rng.integers(3)]
    neg = bool(rng.random() < 0.5)
    data, use = _data(rng, spec, ref, expected)
    wit = dict(spec=spec, expected=str(expected), negative=neg, data=data)
    with LogTap() as tap:
        muhat, val = m.maximize_likelihood(expected=expected, allow_negative_signal=neg, data=data)
        muhat2, lin = m.maximize_likelihood(expected=expected, allow_negative_signal=neg, data=data, return_nll=False)
    lo = ref.minimum_poi if neg else 0.0
    rec.check(lo - 1e-9 <= muhat <= 10.0 + 1e-9, "range", "best fit outside the allowed range", muhat=muhat, lo=lo, **wit)
    rec.close(lin, np.exp(-val), "nll-vs-likelihood", atol=1e-300, rtol=1e-6 * (1 + abs(val)), **wit)
    rec.close(muhat2, muhat, "nll-vs-likelihood", atol=1e-12, rtol=0, **wit)
    if tap.unconverged():
        rec.count("unconverged")
        raise SkipCase
    best = ref.optimum(use, allow_negative=neg, tries=2)
    if best is None or not moderate(ref, best[1], use):
        raise SkipCase
    prof, pars = m.likelihood(float(muhat), expected=expected, data=data, return_parameters=True)
    best2 = ref.optimum(use, allow_negative=neg, tries=1, starts=[pars])
    if best2 is not None and best2[0] < best[0]:
        best = best2
    rec.check(val - best[0] < TOL, "optimal", f"maximum is {val - best[0]:.3g} above the reference optimum", best=best[1], muhat=muhat, **wit)
    rec.check(val - best[0] > -1e-4 * (1 + 1e-3 * abs(val)), "not-below-reference", f"reported maximum {val - best[0]:.3g} below any feasible point", best=best[1], muhat=muhat, **wit)
    rec.close(prof, val, "profile-reproduces", atol=TOL, rtol=1e-9, muhat=muhat, **wit)
    for mu in [lo if np.isfinite(lo) else -1.0, 0.0, muhat * 0.8, muhat * 1.2 + 0.05, float(rng.uniform(max(lo, -1.0), 4.0))]:
        mu = float(min(max(mu, lo + 0.02 * abs(lo) if np.isfinite(lo) else mu), 10.0))
        with LogTap() as tap2:
            v = m.likelihood(mu, expected=expected, data=data)
        if tap2.unconverged() or not np.isfinite(v):
            continue
        rec.check(v >= val - TOL, "scan", f"signal strength {mu} beats the reported best fit", mu=mu, profile=v, muhat=muhat, nll=val, **wit)
    rec.case(spec_sig(spec, neg, str(expected), data), sample={**wit, "muhat": muhat, "nll": val})


def indices(rng, rec):
    """poi_indices by index or name map to the best-fit values of exactly those parameters."""
    spec = nice_spec(rng, kinds=["ub", "cb", "tm", "es", "gau", "mvn"])
    named = rng.random() < 0.6 or spec["kind"] in ("gau", "mvn")
    if named:
        spec["sigfn"], spec["nsp"] = "lin", 1
        spec["s1"] = [[0.4 * x for x in spec["s"]]]
        spec["spb"] = [[-1.5, 1.5]]
    ref = R.Ref(spec)
    m = R.build(spec)
    expected = EXPECTED[rng.integers(3)]
    names = ref.names()
    keys = []
    idxs = rng.permutation(ref.npar)[: int(rng.integers(1, ref.npar + 1))].tolist()
    for i in idxs:
        keys.append(names[i] if names and rng.random() < 0.5 else int(i))
    wit = dict(spec=spec, keys=keys, expected=str(expected))
    with LogTap() as tap:
        res, val = m.maximize_likelihood(expected=expected, poi_indices=list(keys))
        full, val2 = m.maximize_likelihood(expected=expected, poi_indices=list(range(ref.npar)))
        muhat, val3 = m.maximize_likelihood(expected=expected)
    rec.check(isinstance(res, dict) and list(res) == list(keys), "indices-keys", "returned keys differ from the request", got=res, **wit)
    vec = np.array([full[i] for i in range(ref.npar)])
    for k, i in zip(keys, idxs):
        rec.close(res[k], vec[i], "indices-map", atol=1e-12, rtol=1e-12, key_=str(k), **wit)
    rec.close([val2, val3], [val, val], "indices-value", atol=1e-12, rtol=1e-12, **wit)
    rec.close(muhat, vec[0], "indices-map", atol=1e-12, rtol=1e-12, **wit)
    use = ref.data(expected)
    if not tap.unconverged():
        want = ref.nll(vec, use)
        rec.close(val, want, "value-at-parameters", atol=1e-9 * (abs(want) + np.sum(np.abs(use)) + 10), rtol=0, vec=vec, **wit)
    rec.case(spec_sig(spec, list(map(str, keys)), str(expected)), sample=wit)


def fixed(rng, rec):
    """Maximisation with some parameters held fixed."""
    spec = nice_spec(rng, kinds=["ub", "cb", "tm"])
    ref = R.Ref(spec)
    m = R.build(spec)
    expected = EXPECTED[rng.integers(3)]
    fx = {}
    for i in rng.permutation(ref.npar)[: int(rng.integers(1, 3))].tolist():
        fx[i] = float(round(rng.uniform(0, 1.5), 3)) if i == 0 else float(round(np.clip(rng.normal(0, 0.6), -1.2, 1.2), 3))
    arg = fx if not (list(fx) == [0] and rng.random() < 0.5) else fx[0]
    wit = dict(spec=spec, fixed=fx, expected=str(expected))
    with LogTap() as tap:
        full, val = m.maximize_likelihood(
            expected=expected, poi_indices=list(range(ref.npar)), fixed_poi_value=dict(arg) if isinstance(arg, dict) else arg
        )
    vec = np.array([full[i] for i in range(ref.npar)])
    for i, v in fx.items():
        rec.close(vec[i], v, "fixed-stays", atol=1e-8, rtol=1e-9, **wit)
    if tap.unconverged():
        raise SkipCase
    use = ref.data(expected)
    want = ref.nll(vec, use)
    rec.close(val, want, "value-at-parameters", atol=1e-9 * (abs(want) + np.sum(np.abs(use)) + 10), rtol=0, **wit)
    best = ref.optimum(use, fixed=fx, starts=[vec], tries=2)
    if best is not None and moderate(ref, best[1], use) and best[1][0] > 0.6 * ref.minimum_poi:
        rec.check(val - best[0] < TOL, "optimal", f"maximum is {val - best[0]:.3g} above the reference optimum", best=best[1], **wit)
    rec.case(spec_sig(spec, sorted(fx.items()), str(expected)), sample=wit)


def general(rng, rec):
    spec = R.gen_spec(rng)
    ref = R.Ref(spec)
    m = R.build(spec)
    expected = EXPECTED[rng.integers(3)]
    neg = bool(rng.random() < 0.5)
    wit = dict(spec=spec, expected=str(expected), negative=neg)
    with LogTap() as tap:
        full, val = m.maximize_likelihood(expected=expected, allow_negative_signal=neg, poi_indices=list(range(ref.npar)))
    vec = np.array([full[i] for i in range(ref.npar)])
    if tap.unconverged() or not np.all(np.isfinite(vec)):
        rec.count("unconverged")
        raise SkipCase
    lo = ref.minimum_poi if neg else 0.0
    rec.check(lo - 1e-8 <= vec[0] <= 10 + 1e-8, "range", "best fit outside the allowed range", vec=vec, **wit)
    if spec.get("spb"):
        for (l, u), x in zip(spec["spb"], vec[1:]):
            rec.check(l - 1e-8 <= x <= u + 1e-8, "range", "signal parameter outside its bounds", vec=vec, **wit)
    if spec["kind"] not in ("gau", "mvn") and np.min(ref.rates(vec)) < 1e-6:
        rec.count("rate_zero_edge")
        raise SkipCase
    use = ref.data(expected)
    want = ref.nll(vec, use)
    rec.close(val, want, "value-at-parameters", atol=1e-9 * (abs(want) + np.sum(np.abs(use)) + 10), rtol=0, vec=vec, **wit)
    triv = np.zeros(ref.npar)
    rec.check(val <= ref.nll(triv, use) + TOL, "no-worse-than-nominal", "maximum is worse than the nominal background", **wit)
    rec.case(spec_sig(spec, neg, str(expected)), sample=wit)


def strength(rng, rec):
    """One-parameter models whose signal is far stronger or weaker than the background."""
    spec = R.gen_spec(rng, kinds=["poi", "gau", "mvn"], callable_sig=False, zero_data=False, nmax=3)
    f = float(10.0 ** rng.uniform(-4, 4))
    if rng.random() < 0.3:  # unit steps as long as the range of negative strengths, few events
        f = float(10.0 ** rng.uniform(0.3, 2.0))
        spec["d"] = [float(rng.poisson(x)) for x in spec["b"]] if spec["kind"] == "poi" else spec["d"]
        rec.count("strength:short-range")
    if spec["regime"] in ("signal", "excess") and f < 0.5:
        f = 1.0 / f
    base = R.Ref(spec)
    spec = dict(spec, s=[x * f for x in spec["s"]])
    if not np.any(np.array(spec["s"]) > 0):
        raise SkipCase("no signal")
    ref = R.Ref(spec)
    m = R.build(spec)
    neg = bool(rng.random() < 0.5)
    expected = EXPECTED[rng.integers(3)]
    use = ref.data(expected)
    # golden-section search of the convex one-dimensional problem, in units of the unscaled signal
    lo, hi = (base.minimum_poi * (1 - 1e-12) if neg else 0.0), 10.0 * f
    x0, x1 = lo, hi
    g = (np.sqrt(5) - 1) / 2

    def nll(x):
        return base.nll(np.array([x]), use)

    for _ in range(160):
        c, d = x1 - g * (x1 - x0), x0 + g * (x1 - x0)
        if nll(c) <= nll(d):
            x1 = d
        else:
            x0 = c
    best = min(((nll(x), x) for x in (lo, 0.5 * (x0 + x1), hi)))
    wit = dict(spec=spec, scale=f, expected=str(expected), negative=neg)
    if best[1] < 0.9 * base.minimum_poi and spec["kind"] == "poi":
        raise SkipCase("vanishing rate")
    with LogTap() as tap:
        muhat, val = m.maximize_likelihood(expected=expected, allow_negative_signal=neg)
    if tap.unconverged():
        rec.count("unconverged")
        raise SkipCase
    rec.check(ref.minimum_poi * (1 + 1e-9) - 1e-12 <= muhat <= 10.0 + 1e-9 and (neg or muhat >= -1e-12), "range", "best fit outside the allowed range", muhat=muhat, **wit)
    rec.check(val - best[0] < TOL, "optimal", f"maximum is {val - best[0]:.3g} above the exact one", muhat=muhat, best=best[1] / f, **wit)
    rec.check(val - best[0] > -1e-5 * (1 + 1e-4 * abs(val)), "not-below-reference", "reported maximum below the exact one", muhat=muhat, best=best[1] / f, **wit)
    rec.count("strength:" + ("weak" if f < 0.03 else "strong" if f > 30 else "ordinary"))
    rec.case(spec_sig(spec, neg, str(expected)), sample={**wit, "muhat": muhat})


STRONG = [2e5, 4e5]


def strong_known(rng, rec):
    """Recorded inputs: one bin with nuisance parameter, signal yields far above the background (see known-findings.txt)."""
    for s in STRONG:
        spec = dict(nice_spec(rng, kinds=["ub"], nmax=1), n=1, s=[s], b=[7.3964], d=[7.0], unc=[1.6347])
        with LogTap() as tap:
            muhat, val = R.build(spec).maximize_likelihood()
        weak, best = R.build(dict(spec, s=[1.0])).maximize_likelihood()
        if not tap.unconverged():
            rec.check(val - best < TOL, f"optimal-strong-{s:.0f}", "fit of a very strong signal is not at the maximum", muhat=muhat, value=val, best=best, spec=spec)
        rec.case(spec_sig(spec), sample=dict(spec=spec, muhat=muhat, value=val))


def deficit(rng, rec):
    """Counting models with far fewer events than expected: the best strength is negative, close to where rates vanish."""
    n = int(rng.integers(1, 5))
    b = 10.0 ** rng.uniform(-0.5, 3, n)
    s = b * 10.0 ** rng.uniform(-1.5, 1.5, n)
    d = rng.poisson(b * rng.uniform(0.0, 1.2)).astype(float)
    if not np.any(d[s > 0]):
        d[int(np.argmax(s / b))] = float(rng.integers(1, 4))
    spec = {"kind": "poi", "n": n, "s": s.round(5).tolist(), "b": b.round(4).tolist(), "d": d.tolist()}
    s, b = np.array(spec["s"]), np.array(spec["b"])
    low = -float(np.min(b / s))

    def nll(x):
        lam = b + x * s
        return float(np.sum(lam - d * np.log(lam) + gammaln(d + 1)))

    x0, x1 = low * (1 - 1e-13), 10.0
    g = (np.sqrt(5) - 1) / 2
    for _ in range(200):
        c, e = x1 - g * (x1 - x0), x0 + g * (x1 - x0)
        if nll(c) <= nll(e):
            x1 = e
        else:
            x0 = c
    best = 0.5 * (x0 + x1)
    if best < 0.985 * low:
        raise SkipCase("vanishing rate")
    wit = dict(spec=spec, best=best, lowest=low)
    m = spey.get_backend("default.poisson")(signal_yields=spec["s"], background_yields=spec["b"], data=spec["d"])
    with LogTap() as tap:
        muhat, val = m.maximize_likelihood(allow_negative_signal=True)
    if tap.unconverged():
        rec.count("unconverged")
        raise SkipCase
    rec.check(low * (1 + 1e-9) <= muhat <= 10.0 + 1e-9, "range", "best fit outside the allowed range", muhat=muhat, **wit)
    rec.check(val - nll(best) < TOL, "optimal", f"maximum is {val - nll(best):.3g} above the exact one", muhat=muhat, **wit)
    rec.check(val - nll(best) > -1e-6 * (1 + abs(val)), "not-below-reference", "reported maximum below the exact one", muhat=muhat, **wit)
    rec.count("deficit:" + ("near-edge" if best < 0.7 * low else "negative" if best < 0 else "positive"))
    rec.case(["deficit", spec["s"], spec["b"], spec["d"]], sample={**wit, "muhat": muhat})


def tiny(rng, rec):
    """Negative strengths stop where the first bin with any signal vanishes, however small that bin's yields are."""
    kind = ["poi", "ub", "cb", "tm", "poiabs"][rng.integers(5)]
    spec = nice_spec(rng, kinds=[kind])
    n = spec["n"]
    if n < 2 and kind != "poi":
        raise SkipCase
    ratio = np.array(spec["b"]) / np.where(np.array(spec["s"]) > 0, spec["s"], np.nan)
    if not np.any(np.isfinite(ratio)):
        raise SkipCase
    j = int(rng.integers(n))
    f = float(10.0 ** rng.uniform(-13, -2))
    s, b, d, unc = (list(spec[k]) if spec.get(k) is not None else None for k in ("s", "b", "d", "unc"))
    b[j] = b[j] * f
    s[j] = b[j] / (float(np.nanmin(ratio)) * float(rng.uniform(0.15, 0.8)))
    if d is not None:
        d[j] = 0.0
    spec = dict(spec, s=s, b=b, d=d)
    for k in ("unc", "up", "dn", "third"):
        if isinstance(spec.get(k), list) and len(spec[k]) == n:
            spec[k] = [x * (f**3 if k == "third" else f) if i == j else x for i, x in enumerate(spec[k])]
    want = -min(bi / si for bi, si in zip(b, s) if si > 0)
    m = R.build(spec)
    wit = dict(spec=spec, bin=j, scale=f)
    rec.close(m.backend.config().minimum_poi, want, "range", atol=0, rtol=1e-9, **wit)
    with LogTap() as tap:
        muhat, val = m.maximize_likelihood(expected=EXPECTED[rng.integers(3)], allow_negative_signal=True)
    rec.check(want * (1 + 1e-9) <= muhat <= 10.0 + 1e-9, "range", "best fit outside the allowed range", muhat=muhat, lowest=want, **wit)
    rec.check(np.isfinite(val), "range", "maximum is not finite", nll=val, **wit)
    rec.count("tiny:" + ("below-1e-3" if s[j] < 1e-3 else "above-1e-3"))
    rec.case(spec_sig(spec, "tiny"), sample={**wit, "muhat": muhat})


KINDS = {"deficit": deficit, "tiny": tiny, "strength": strength, "maximum": maximum, "indices": indices, "fixed": fixed, "general": general, "strong_known": strong_known}
