"""C20: model configuration: bounds, names and indices."""
import copy
import math

import numpy as np

import refmodel as R
from props.common import spec_sig
from props.queries import freeze

RULE = (
    "distinct (configuration, query sequence) cases; every answer is compared with an independently written model of what the query may change, "
    "and the configuration is fingerprinted before and after"
)
PLAN = {
    "quick": {"bounds": 2500, "multi": 2500, "rescale": 1500, "names": 2000, "sequence": 800, "backend": 700, "backend_bounds": 400, "fits": 200, "profile": 40},
    "thorough": {"bounds": 100000, "multi": 100000, "rescale": 60000, "names": 60000, "sequence": 30000, "backend": 20000, "backend_bounds": 12000, "fits": 4000, "profile": 600},
}
MINIMA = {"mon:contains": 3000, "mon:others": 3000, "mon:unmodified": 5000, "mon:resolve": 1500, "mon:backend": 1500, "mon:same-parameter": 100}
ASSUMPTIONS = ["fixed signal strengths lie at or above the minimum signal strength", "the minimum signal strength is not positive"]


def _cfg(rng, named=None, none=True):
    from spey.base.model_config import ModelConfig

    n = int(rng.integers(1, 8))
    poi = 0 if rng.random() < 0.7 else int(rng.integers(n))
    mn = [-float(np.round(10 ** rng.uniform(-2, 1.5), 4)), 0.0, -np.inf][rng.choice(3, p=[0.7, 0.15, 0.15])]
    bounds = []
    for i in range(n):
        lo, hi = sorted(float(v) for v in np.round(rng.uniform(-8, 8, 2), 3))
        hi += 0.01
        t = rng.integers(6)
        if i == poi:
            lo = mn
            hi = [10.0, float(np.round(rng.uniform(0.1, 40), 3)), 1.0][rng.integers(3)]
            if none and rng.random() < 0.15:
                hi = None
        elif none and t == 0:
            lo = None
        elif none and t == 1:
            hi = None
        elif none and t == 2:
            lo = hi = None
        elif t == 3:
            lo, hi = 0.2, 0.2 + abs(hi)
        bounds.append((lo, hi))
    if rng.random() < 0.2:
        bounds = [list(b) for b in bounds]
    names = None
    if named or (named is None and rng.random() < 0.6):
        pool = ["mu", "θ_1", "a b", "", "0", "1", "x", "X", "theta_b_0", "nuisance"]
        names = [pool[i] for i in rng.permutation(len(pool))[:n]]
    return ModelConfig(poi, mn, [0.0] * n, bounds, parameter_names=names, suggested_fixed=[None, [False] * n][rng.integers(2)])


def _snap(c):
    return freeze(vars(c))


def _value(rng, b, mn=None):
    lo, hi = b
    a = -6.0 if lo is None or not np.isfinite(lo) else lo
    h = 6.0 if hi is None else hi
    v = [
        rng.uniform(min(a, h), max(a, h)),
        a,
        h,
        h + 10 ** rng.uniform(-3, 2),
        a - 10 ** rng.uniform(-3, 2),
        0.0,
        -10 ** rng.uniform(-3, 0),
        10 ** rng.uniform(-3, 2),
    ][rng.integers(8)]
    v = float(v)
    if mn is not None:
        v = max(v, mn) if np.isfinite(mn) else v
    return [v, np.float64(v)][rng.integers(2)]


def _norm(b):
    return [tuple(q) for q in b]


def _contains(q, v):
    lo, hi = q
    return (lo is None or lo <= v) and (hi is None or v <= hi)


def _judge_bounds(rec, cfg, before, got, fixed, what):
    ok = rec.check(len(got) == len(before), "length", f"{what}: one bound per parameter", got_bounds=got, had=before)
    if not ok:
        return
    for i, (old, new) in enumerate(zip(_norm(before), _norm(got))):
        if i not in fixed:
            rec.check(old == new, "others", f"{what}: the bound of a parameter that is not fixed changed", index=i, old=old, new=new, fixed=fixed)
            continue
        v = fixed[i]
        rec.check(_contains(new, v), "contains", f"{what}: the bounds do not contain the fixed value", index=i, old=old, new=new, value=v, poi=cfg.poi_index, minimum=cfg.minimum_poi)
        rec.check(new[0] is None or new[1] is None or new[0] <= new[1], "ordered", f"{what}: lower bound above upper bound", index=i, new=new)
        inside = (old[0] is None or old[0] < v) and (old[1] is None or v < old[1])
        if inside:
            rec.check(old == new, "unneeded", f"{what}: a bound that already contains the value changed", index=i, old=old, new=new, value=v)
        if i == cfg.poi_index and new[0] is not None:
            rec.check(new[0] >= cfg.minimum_poi, "minimum", f"{what}: signal lower bound below the minimum signal strength", new=new, minimum=cfg.minimum_poi)


def bounds(rng, rec):
    c = _cfg(rng)
    before, snap = copy.deepcopy(c.suggested_bounds), _snap(c)
    v = _value(rng, before[c.poi_index], c.minimum_poi)
    got = c.fixed_poi_bounds(v)
    rec.check(_snap(c) == snap, "unmodified", "fixed_poi_bounds modified the configuration", value=v)
    _judge_bounds(rec, c, before, got, {c.poi_index: float(v)}, "fixed_poi_bounds")
    free = c.fixed_poi_bounds() if rng.random() < 0.5 else c.fixed_poi_bounds(None)
    rec.check(_norm(free) == _norm(before), "others", "bounds without a fixed value are the suggested ones", got_bounds=free, had=before)
    for lst in (got, free):  # the caller may do what it likes with the answer
        lst[c.poi_index] = (123.0, 456.0)
        lst.append((0, 0))
    rec.check(_snap(c) == snap, "unmodified", "editing the returned bounds changed the configuration")
    rec.case([before, c.poi_index, c.minimum_poi, float(v)])


def multi(rng, rec):
    c = _cfg(rng)
    n = c.npar
    before, snap = copy.deepcopy(c.suggested_bounds), _snap(c)
    fixed = {}
    for i in rng.permutation(n)[: int(rng.integers(0, n + 1))]:
        i = int(i)
        fixed[i] = _value(rng, before[i], c.minimum_poi if i == c.poi_index else None)
    arg = dict(fixed)
    got = c.fixed_poi_bounds_multi(arg if arg or rng.random() < 0.5 else None)
    rec.check(arg == fixed and _snap(c) == snap, "unmodified", "fixed_poi_bounds_multi modified its input or the configuration", fixed=fixed)
    _judge_bounds(rec, c, before, got, {i: float(v) for i, v in fixed.items()}, "fixed_poi_bounds_multi")
    got.clear()
    rec.check(_snap(c) == snap, "unmodified", "editing the returned bounds changed the configuration")
    if list(fixed) == [c.poi_index]:
        one = c.fixed_poi_bounds(fixed[c.poi_index])
        two = c.fixed_poi_bounds_multi(fixed)
        rec.check(_norm(one) == _norm(two), "same-query", "the two ways of fixing the signal strength disagree", one=one, two=two, value=fixed)
    rec.case([before, c.poi_index, c.minimum_poi, [[i, float(v)] for i, v in fixed.items()]])


def rescale(rng, rec):
    c = _cfg(rng)
    before, snap = copy.deepcopy(c.suggested_bounds), _snap(c)
    neg = bool(rng.integers(2))
    up = [None, None, 0.0, 1, float(10 ** rng.uniform(-3, 3))][rng.integers(5)]
    kw = {}
    if not neg or rng.random() < 0.5:
        kw["allow_negative_signal"] = neg
    if up is not None or rng.random() < 0.5:
        kw["poi_upper_bound"] = up
    got = c.rescale_poi_bounds(**kw)
    rec.check(_snap(c) == snap, "unmodified", "rescale_poi_bounds modified the configuration", kw=kw)
    p = c.poi_index
    rec.check(len(got) == len(before), "length", "one bound per parameter")
    for i, (old, new) in enumerate(zip(_norm(before), _norm(got))):
        if i != p:
            rec.check(old == new, "others", "rescaling changed another parameter's bound", index=i, old=old, new=new)
    lo, hi = got[p]
    rec.check(lo == (c.minimum_poi if neg else 0.0), "rescale-lower", "lower bound after rescaling", lower=lo, neg=neg, minimum=c.minimum_poi)
    rec.check(hi == (before[p][1] if up is None else up), "rescale-upper", "upper bound after rescaling", upper=hi, asked=up, had=before[p])
    got.append(1)
    rec.check(_snap(c) == snap, "unmodified", "editing the returned bounds changed the configuration")
    rec.case([before, p, c.minimum_poi, kw])


def names(rng, rec):
    c = _cfg(rng)
    snap = _snap(c)
    n = c.npar
    t = rng.integers(6)
    if t == 0:
        v = [1, 2.5, np.float64(-0.3), True, np.int64(3)][rng.integers(5)]
        r = c.resolve_poi_indices(v)
        rec.check(r == {c.poi_index: float(v)}, "resolve", "a number fixes the signal strength", r=r, v=v)
    elif t in (1, 2):
        want, arg = {}, {}
        for i in rng.permutation(n)[: int(rng.integers(0, n + 1))]:
            i = int(i)
            v = float(rng.normal())
            want[i] = v
            key = c.parameter_names[i] if c.parameter_names and rng.random() < 0.6 else [i, np.int64(i)][rng.integers(2)]
            arg[key] = [v, np.float64(v)][rng.integers(2)]
        keep = dict(arg)
        r = c.resolve_poi_indices(arg)
        rec.check(r == want and arg == keep, "resolve", "names and indices resolve to the same parameters", r=r, want=want, arg=arg)
    elif t == 3:
        bad = ["no such parameter", "MU", "theta", " "][rng.integers(4)]
        try:
            r = c.resolve_poi_indices({bad: 1.0} if rng.random() < 0.5 else {c.poi_index: 0.5, bad: 1.0})
            rec.check(False, "unknown-name", "an unknown name was accepted", name=bad, names=c.parameter_names, r=r)
        except ValueError:
            rec.check(True, "unknown-name")
    else:
        if c.parameter_names is None:
            rec.case([n, "unnamed"], nontrivial=False)
            return
        old = list(c.parameter_names)
        k = int(rng.integers(1, n + 1))
        sub = [old[i] for i in rng.permutation(n)[:k]]
        s = rng.integers(5)
        if s == 0:
            m = {o: f"new{i}" for i, o in enumerate(sub)}
        elif s == 1:  # rotate among existing names (swap)
            m = dict(zip(sub, sub[1:] + sub[:1]))
        elif s == 2:  # collision
            m = {o: "same" for o in sub}
        elif s == 3:
            m = {**{o: o + "!" for o in sub}, "no such parameter": "z"}
        else:
            m = {sub[0]: old[(old.index(sub[0]) + 1) % n]}
        want = [m.get(o, o) for o in old]
        bad = any(o not in old for o in m) or len(set(want)) != n
        keep = dict(m)
        try:
            c.change_parameter_names(m)
            rec.check(not bad, "rename-refused", "an inadmissible renaming was accepted", old=old, m=m, new=c.parameter_names)
        except ValueError:
            rec.check(bad, "rename-refused", "an admissible renaming was refused", old=old, m=m)
        if bad:
            want = old
        rec.check(list(c.parameter_names) == want and m == keep, "renamed", "names after renaming", old=old, m=m, new=c.parameter_names)
        for i, nm in enumerate(want):
            rec.check(c.resolve_poi_indices({nm: 1.5}) == {i: 1.5}, "resolve", "a renamed parameter resolves to its index", name=nm, index=i)
        c.parameter_names[:] = old
    rec.check(_snap(c) == snap, "unmodified", "a name query modified the configuration")
    rec.case([c.parameter_names, int(t), float(rng.random())])


def sequence(rng, rec):
    """Long mixed sequences of queries leave the configuration exactly as it was."""
    c = _cfg(rng)
    snap = _snap(c)
    base = copy.deepcopy(c.suggested_bounds)
    for _ in range(int(rng.integers(4, 25))):
        t = rng.integers(5)
        i = int(rng.integers(c.npar))
        v = _value(rng, base[i], c.minimum_poi if i == c.poi_index else None)
        if t == 0:
            w = _value(rng, base[c.poi_index], c.minimum_poi)
            _judge_bounds(rec, c, base, c.fixed_poi_bounds(w), {c.poi_index: float(w)}, "fixed_poi_bounds")
        elif t == 1:
            _judge_bounds(rec, c, base, c.fixed_poi_bounds_multi({i: v}), {i: float(v)}, "fixed_poi_bounds_multi")
        elif t == 2:
            c.rescale_poi_bounds(bool(rng.integers(2)), float(rng.uniform(0, 20)))
        elif t == 3:
            rec.check(c.resolve_poi_indices({i: v}) == {i: float(v)}, "resolve", "index query")
        else:
            rec.check(c.npar == len(base), "length", "number of parameters", npar=c.npar)
        rec.check(_snap(c) == snap, "unmodified", "a query modified the configuration", query=int(t))
    rec.case([base, c.poi_index, float(rng.random())])


def _model(rng):
    sp = R.gen_spec(rng)
    return sp, R.Ref(sp)


def backend(rng, rec):
    """What the in-tree backends say about themselves."""
    sp, ref = _model(rng)
    m = R.build(sp)
    c = m.backend.config()
    n = ref.npar
    rec.check(c.npar == n and len(c.suggested_init) == n and len(c.suggested_bounds) == n, "backend", "one start value and one bound per parameter", npar=n, init=c.suggested_init, nbounds=len(c.suggested_bounds), spec=sp)
    if c.parameter_names is not None:
        rec.check(len(c.parameter_names) == n and len(set(c.parameter_names)) == n, "backend", "one unique name per parameter", names=c.parameter_names, npar=n, spec=sp)
        rec.check(all(c.resolve_poi_indices({nm: 0.25}) == {i: 0.25} for i, nm in enumerate(c.parameter_names)), "backend", "every name resolves to its own index", names=c.parameter_names)
    else:
        rec.count("unnamed")
    rec.check(c.poi_index == 0, "backend", "signal strength comes first", poi=c.poi_index)
    mn = ref.minimum_poi
    rec.check(c.minimum_poi == mn or abs(c.minimum_poi - mn) <= 1e-9 * abs(mn), "minimum-poi", "smallest signal strength with non-negative yields", got_minimum=c.minimum_poi, want_minimum=mn, spec=sp)
    for i, ((lo, hi), x0) in enumerate(zip(c.suggested_bounds, c.suggested_init)):
        rec.check((lo is None or lo <= x0) and (hi is None or x0 <= hi) and (lo is None or hi is None or lo < hi), "backend", "start value inside its bounds", index=i, lo=lo, hi=hi, x0=x0)
    rec.check(c.suggested_bounds[0][0] == c.minimum_poi, "backend", "signal bound starts at the minimum", bounds=c.suggested_bounds[0], minimum=c.minimum_poi)
    if sp["nsp"] and sp.get("spb") and sp["sigfn"]:
        rec.check([list(q) for q in c.suggested_bounds[1 : 1 + sp["nsp"]]] == sp["spb"], "backend", "signal parameters carry the bounds the user gave", got_bounds=c.suggested_bounds, asked=sp["spb"])
    rec.case(spec_sig(sp, "cfg"))


def backend_bounds(rng, rec):
    """config(allow_negative_signal, poi_upper_bound) changes only what it is asked to change."""
    sp, ref = _model(rng)
    m = R.build(sp)
    base = m.backend.config()
    snap = _snap(base)
    for _ in range(3):
        kw = {}
        if rng.random() < 0.7:
            kw["allow_negative_signal"] = bool(rng.integers(2))
        if rng.random() < 0.7:
            kw["poi_upper_bound"] = [10.0, 1.0, 40.0, 0.5, float(10 ** rng.uniform(-2, 3))][rng.integers(5)]
        c = m.backend.config(**kw)
        lo, hi = c.suggested_bounds[0]
        rec.check(lo == (base.minimum_poi if kw.get("allow_negative_signal", True) else 0.0), "config-lower", "disallowing negative signals raises only the signal's lower bound to zero", kw=kw, lower=lo, minimum=base.minimum_poi)
        rec.check(hi == kw.get("poi_upper_bound", 10.0), "config-upper", "the upper bound is the one asked for", kw=kw, upper=hi)
        rec.check(_norm(c.suggested_bounds[1:]) == _norm(base.suggested_bounds[1:]), "others", "other bounds changed", kw=kw)
        rec.check(
            c.poi_index == base.poi_index and c.minimum_poi == base.minimum_poi and list(c.suggested_init) == list(base.suggested_init) and c.parameter_names == base.parameter_names and c.npar == base.npar,
            "config-rest", "the rest of the configuration changed", kw=kw, names=c.parameter_names, had=base.parameter_names,
        )
        rec.check(_snap(m.backend.config()) == snap, "unmodified", "asking for a configuration changed the model", kw=kw)
    rec.case(spec_sig(sp, "kw", float(rng.random())))


def fits(rng, rec):
    """Fixing parameters by name, by index and (for the signal strength) by value is the same fit."""
    sp, ref = _model(rng)
    m = R.build(sp)
    c = m.backend.config()
    snap = _snap(c)
    k = int(rng.integers(1, min(3, ref.npar) + 1))
    idx = [int(i) for i in rng.permutation(ref.npar)[:k]]
    if rng.random() < 0.6 and 0 not in idx:
        idx[0] = 0
    vals = {}
    for i in idx:
        lo, hi = c.suggested_bounds[i]
        if i == 0:
            vals[i] = float(rng.uniform(max(0.5 * ref.minimum_poi, -0.5), 2.0))
        else:
            a, b = (-1.0 if lo is None else max(lo, -1.0)), (1.0 if hi is None else min(hi, 1.0))
            vals[i] = float(rng.uniform(a, b))
    got = {}
    got["index"] = m.likelihood(dict(vals))
    if c.parameter_names is not None:
        got["name"] = m.likelihood({c.parameter_names[i]: v for i, v in vals.items()})
        got["mixed"] = m.likelihood({(c.parameter_names[i] if j % 2 else i): v for j, (i, v) in enumerate(vals.items())})
    if list(vals) == [0]:
        got["number"] = m.likelihood(vals[0])
    if len(got) > 1:
        v = [float(x) for x in got.values()]
        rec.check(all((x == v[0]) or (math.isnan(x) and math.isnan(v[0])) or abs(x - v[0]) <= 1e-9 * (1 + abs(v[0])) for x in v), "same-parameter", "names and indices fix different parameters", got_values=got, vals=vals, names=c.parameter_names, spec=sp)
    if c.parameter_names is not None:
        try:
            m.likelihood({"no such parameter": 1.0})
            rec.check(False, "unknown-name", "an unknown name was accepted by a fit")
        except ValueError:
            rec.check(True, "unknown-name")
    try:
        m.likelihood({ref.npar + int(rng.integers(0, 5)): 1.0})
        rec.check(False, "unknown-index", "an index beyond the parameters was accepted by a fit", npar=ref.npar)
    except (IndexError, ValueError, KeyError):
        rec.check(True, "unknown-index")
    rec.check(_snap(m.backend.config()) == snap, "unmodified", "fits changed the configuration", spec=sp)
    rec.case(spec_sig(sp, "fit", sorted(vals)))


def profile(rng, rec):
    """Interval estimation on a nuisance parameter by name or index; the signal itself and unknowns are refused."""
    sp = R.gen_spec(rng, kinds=["ub", "cb"], nmax=2, modifiers=False, callable_sig=False, zero_signal=False, regime="background", scale=(20.0, 200.0), rel=(0.05, 0.07))
    sp["mods"] = [{"type": "normalization", "uncertainties": [0.1 * v for v in sp["s"]], "name": "jes"}]
    ref = R.Ref(sp)
    m = R.build(sp)
    c = m.backend.config()
    i = int(rng.integers(1, ref.npar))
    snap = _snap(c)
    x = m.chi2_test(parameter=i)
    y = m.chi2_test(parameter=c.parameter_names[i])
    rec.check(len(x) == len(y) and np.allclose(x, y, rtol=1e-9, atol=1e-9), "same-parameter", "a nuisance parameter profiled by index and by name", by_index=x, by_name=y, index=i)
    for bad in (0, ref.npar, ref.npar + 3, -1, "no such parameter", c.parameter_names[0]):
        try:
            r = m.chi2_test(parameter=bad)
            rec.check(False, "profile-refused", "an inadmissible parameter was profiled", parameter=bad, r=r)
        except ValueError:
            rec.check(True, "profile-refused")
    rec.check(_snap(m.backend.config()) == snap, "unmodified", "profiling changed the configuration")
    rec.case(spec_sig(sp, "prof", i))


KINDS = {k: globals()[k] for k in PLAN["quick"]}
