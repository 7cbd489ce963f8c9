"""C17: signal-uncertainty modifiers."""
import copy
import math

import numpy as np

import refmodel as R
from props.common import LogTap, SkipCase, rand_point
from props.queries import freeze

RULE = (
    "distinct (backend, modifier set, nuisance point) evaluations; the factor on the signal is measured as the change of the expected data "
    "with the signal strength and compared bin by bin with the closed form"
)
PLAN = {
    "quick": {"factors": 900, "points": 500, "layout": 500, "constraint": 350, "inadmissible": 300, "reject": 400, "direct": 700, "ownership": 300, "pair": 250},
    "thorough": {"factors": 30000, "points": 15000, "layout": 12000, "constraint": 10000, "inadmissible": 8000, "reject": 8000, "direct": 25000, "ownership": 8000, "pair": 6000},
}
MINIMA = {"mon:factor": 5000, "mon:layout": 1500, "mon:constraint": 700, "mon:clamped": 400, "mon:refused": 300, "mon:direct": 2000}
ASSUMPTIONS = [
    "a modifier's name is unique among the names in its list",
    "variations are given as documented: one number or one (up, down) pair per bin",
]


def _mods(rng, s, signed=True, nmods=None):
    n = len(s)
    mods = []
    for i in range(int(rng.integers(1, 4)) if nmods is None else nmods):
        typ = ["normalization", "shape"][rng.integers(2)]
        amp = 10.0 ** (rng.uniform(0.3, 1.8) if rng.random() < 0.12 else rng.uniform(-3, 0.3))
        base = np.where(s > 0, s, 1.0) * amp
        if rng.random() < 0.5:
            unc = (rng.uniform(0, 1, n) * base).tolist()
            if rng.random() < 0.2:
                unc[rng.integers(n)] = 0.0
        else:
            unc = [tuple(x) for x in (rng.uniform(0, 1, (n, 2)) * base[:, None]).tolist()]
            t = rng.integers(4)
            if t == 0:
                unc = [[float(u), float(v)] for u, v in unc]
            elif t == 1:
                unc = np.array(unc)
        if rng.random() < 0.15 and not isinstance(unc, np.ndarray):
            unc = tuple(unc)
        m = {"type": typ, "uncertainties": unc}
        if rng.random() < 0.6:
            m["name"] = f"{'abcdef'[i]}{rng.integers(100)}"
        mods.append(m)
    return mods


def _model(rng, mods=None, nmods=None):
    sp = R.gen_spec(rng, kinds=R.DEFAULT_KINDS, modifiers=False, callable_sig=False)
    s = np.array(sp["s"])
    sp["mods"] = _mods(rng, s, nmods=nmods) if mods is None else mods(rng, s)
    if rng.random() < 0.3:
        sp["nsp"], sp["spb"] = int(rng.integers(1, 4)), None
    return sp


def _build(sp, mods=None):
    import spey

    kw = R.build_kwargs(dict(sp, mods=None))
    kw["modifiers"] = copy.deepcopy(sp["mods"]) if mods is None else mods
    return spey.get_backend(R.NAMES[sp["kind"]])(**kw)


def _slots(sp):
    n, k, out = sp["n"], 1 + sp["nsp"] + sp["n"], []
    for m in sp["mods"]:
        w = 1 if m["type"] == "normalization" else n
        out.append(slice(k, k + w))
        k += w
    return out, k


def _log_factor(sp, p):
    """Closed form of the documentation."""
    s = np.array(sp["s"], dtype=float)
    tot = np.zeros(sp["n"])
    for m, sl in zip(sp["mods"], _slots(sp)[0]):
        a = np.broadcast_to(p[sl], (sp["n"],))
        u = np.asarray(m["uncertainties"], dtype=float)
        up, dn = (u, u) if u.ndim == 1 else (u[:, 0], u[:, 1])
        for i in range(sp["n"]):
            if s[i] == 0:
                continue
            d = (up if a[i] >= 0 else dn)[i] / s[i]
            if not d >= 0:
                d = 0.0
            tot[i] += a[i] * math.log1p(d)
    return tot


def _signal(m, sp, p, mu):
    """Observed signal contribution: expected data at mu minus at zero, over mu."""
    n = sp["n"]
    hi, lo = p.copy(), p.copy()
    hi[0], lo[0] = mu, 0.0
    a = np.asarray(m.backend.expected_data(hi), dtype=float)[:n]
    b = np.asarray(m.backend.expected_data(lo), dtype=float)[:n]
    return (a - b) / mu, np.maximum(np.abs(a), np.abs(b)) / abs(mu)


def _alphas(rng, k):
    t = rng.integers(5)
    if t == 0:
        return rng.choice([-1.0, 0.0, 1.0], k)
    if t == 1:
        return rng.uniform(-1, 1, k)
    if t == 2:
        return rng.normal(0, 2.5, k)
    if t == 3:
        return rng.choice([-2.0, 2.0, 0.5, -0.5, 1e-9, -1e-9], k)
    return rng.normal(0, 1, k)


def _judge(rec, m, sp, p, mu, key="factor"):
    got, size = _signal(m, sp, p, mu)
    s = np.array(sp["s"])
    want = s * np.exp(_log_factor(sp, p))
    tol = 1e-9 * np.abs(want) + 1e-12 * size
    for i in range(sp["n"]):
        rec.check(abs(got[i] - want[i]) <= tol[i], key, "signal in a bin is not scaled by the documented factor", bin=i, got_signal=got, want_signal=want, pars=p, spec=sp, mu=mu)


def factors(rng, rec):
    sp = _model(rng)
    m = _build(sp)
    slots, npar = _slots(sp)
    for _ in range(4):
        p = np.zeros(npar)
        p[1 : 1 + sp["nsp"]] = rng.normal(0, 1, sp["nsp"])
        p[1 + sp["nsp"] : 1 + sp["nsp"] + sp["n"]] = rng.normal(0, 0.3, sp["n"])
        p[slots[0].start :] = _alphas(rng, npar - slots[0].start)
        _judge(rec, m, sp, p, float(10.0 ** rng.uniform(-1, 1)))
    rec.case([sp["kind"], sp["b"], repr(sp["mods"])], True)


def points(rng, rec):
    """The named points of the statement, one modifier at a time, with the others at zero."""
    sp = _model(rng)
    m = _build(sp)
    slots, npar = _slots(sp)
    s = np.array(sp["s"])
    z = np.zeros(npar)
    g, size = _signal(m, sp, z, 1.0)
    wit = dict(spec=sp)
    rec.check(bool(np.all(np.abs(g - s) <= 1e-9 * s + 1e-12 * size)), "factor", "signal is not nominal with all nuisances at zero", got=g, **wit)
    rec.case([sp["kind"], sp["b"], repr(sp["mods"])], True)
    j = int(rng.integers(len(slots)))
    mod, sl = sp["mods"][j], slots[j]
    u = np.asarray(mod["uncertainties"], dtype=float)
    up, dn = (u, u) if u.ndim == 1 else (u[:, 0], u[:, 1])
    for k in range(sl.start, sl.stop):
        bins = range(sp["n"]) if mod["type"] == "normalization" else [k - sl.start]
        for a, var in ((1.0, up), (-1.0, dn)):
            p = z.copy()
            p[k] = a
            g, size = _signal(m, sp, p, 1.0)
            for i in range(sp["n"]):
                f = 1.0
                if i in bins and s[i] > 0:
                    f = (1 + var[i] / s[i]) if a > 0 else 1 / (1 + var[i] / s[i])
                rec.check(abs(g[i] - s[i] * f) <= 1e-9 * s[i] * f + 1e-12 * size[i], "factor", "wrong variation at plus/minus one", slot=k, alpha=a, bin=i, got=g[i], want=s[i] * f, **wit)
            q = z.copy()
            q[k] = a * (x := float(rng.uniform(0, 3)))
            h, size2 = _signal(m, sp, q, 1.0)
            for i in range(sp["n"]):
                if s[i] > 0 and g[i] > 0 and s[i] > 1e-3 * size[i]:
                    rec.check(abs(math.log(h[i] / s[i]) - x * math.log(g[i] / s[i])) <= 1e-6, "factor", "interpolation is not exponential", slot=k, alpha=a * x, bin=i, **wit)


def layout(rng, rec):
    sp = _model(rng)
    m = _build(sp)
    slots, npar = _slots(sp)
    c = m.backend.config()
    names = list(c.parameter_names)
    wit = dict(spec=sp, names=names)
    rec.case([sp["kind"], sp["nsp"], repr(sp["mods"])], True)
    rec.check(c.npar == npar == len(c.suggested_init) == len(c.suggested_bounds) == len(names), "layout", "number of parameters", got=c.npar, want=npar, **wit)
    rec.check(len(set(names)) == npar, "layout", "parameter names are not unique", **wit)
    want = ["mu"] + [f"signal_par_{i}" for i in range(sp["nsp"])] + [f"theta_bkg_{i}" for i in range(sp["n"])]
    for j, mod in enumerate(sp["mods"]):
        nm = mod.get("name", f"mod{j}")
        want += [f"theta_sig_{nm}"] if mod["type"] == "normalization" else [f"theta_sig_{nm}_{i}" for i in range(sp["n"])]
    rec.check(names == want, "layout", "parameters are not named in slot order", want=want, **wit)
    # each name addresses the slot that moves the signal it belongs to
    j = int(rng.integers(len(slots)))
    k = int(rng.integers(slots[j].start, slots[j].stop))
    r = m.backend.config().resolve_poi_indices({names[k]: 0.7})
    rec.check({int(a): float(b) for a, b in dict(r).items()} == {k: 0.7}, "layout", "a modifier parameter's name resolves to another slot", got=r, slot=k, **wit)
    p = np.zeros(npar)
    p[k] = 0.7
    _judge(rec, m, sp, p, 1.0)


def constraint(rng, rec):
    """Unit-normal and independent: the log-density at zero signal changes by -a^2/2 per nuisance."""
    sp = _model(rng)
    m = _build(sp)
    slots, npar = _slots(sp)
    f = m.backend.get_logpdf_func()
    p = np.zeros(npar)
    x0 = float(f(p))
    q = p.copy()
    q[slots[0].start :] = a = _alphas(rng, npar - slots[0].start)
    x1 = float(f(q))
    rec.case([sp["kind"], sp["b"], a.tolist()], True)
    tol = 1e-9 * max(1.0, abs(x0), abs(x1))
    rec.check(abs(x1 - x0 + 0.5 * float(np.sum(a**2))) <= tol, "constraint", "modifier nuisances are not independent unit normals", got=x1 - x0, alphas=a, spec=sp)
    k = int(rng.integers(slots[0].start, npar))
    q = p.copy()
    q[k] = 1.5
    rec.check(abs(float(f(q)) - x0 + 1.125) <= tol, "constraint", "modifier nuisance is not unit normal", slot=k, got=float(f(q)) - x0, spec=sp)
    # total: with signal, main term at the documented rates
    mu = float(rng.uniform(0.2, 2))
    q[0] = mu
    n = sp["n"]
    lam = np.clip(np.asarray(m.backend.expected_data(q), dtype=float)[:n], 1e-20, None)
    lam0 = np.clip(np.asarray(m.backend.expected_data(p), dtype=float)[:n], 1e-20, None)
    d = np.array(sp["d"])
    want = float(np.sum(d * (np.log(lam) - np.log(lam0)) - lam + lam0)) - 1.125
    rec.check(abs(float(f(q)) - x0 - want) <= 1e-8 * max(1.0, abs(x0), abs(want)), "constraint", "log-density does not follow the scaled signal", slot=k, got=float(f(q)) - x0, want=want, spec=sp)


def inadmissible(rng, rec):
    def bad(rng, s):
        mods = _mods(rng, s)
        j = int(rng.integers(len(mods)))
        u = np.array(mods[j]["uncertainties"], dtype=float)
        i = int(rng.integers(len(s)))
        v = [-abs(rng.uniform(0.01, 3)) * max(s[i], 1.0), np.nan][rng.integers(2)]
        if u.ndim == 1:
            u[i] = v
        else:
            u[i, rng.integers(2)] = v
        if s[i] == 0:
            k = int(np.argmax(s))
            u[k] = -0.3 * s[k]
        mods[j]["uncertainties"] = u.tolist()
        return mods

    sp = _model(rng, mods=bad)
    if not any(np.array(sp["s"]) > 0):
        raise SkipCase("no signal")
    with LogTap() as tap:
        m = _build(sp)
    rec.case([sp["kind"], sp["b"], repr(sp["mods"])], True)
    rec.check(len(tap.msgs) > 0, "clamped", "inadmissible variations raise no warning", spec=sp)
    slots, npar = _slots(sp)
    for _ in range(2):
        p = np.zeros(npar)
        p[slots[0].start :] = _alphas(rng, npar - slots[0].start)
        _judge(rec, m, sp, p, 1.0, key="clamped")


def reject(rng, rec):
    from spey.system.exceptions import InvalidUncertaintyDefinition

    sp = _model(rng)
    mods = copy.deepcopy(sp["mods"])
    j = int(rng.integers(len(mods)))
    n = sp["n"]
    t = ["type", "missing-type", "long", "short", "dim", "callable", "key"][rng.integers(7)]
    want = InvalidUncertaintyDefinition
    if t == "type":
        mods[j]["type"] = [None, "norm", "Shape", "", "histosys", 3][rng.integers(6)]
    elif t == "missing-type":
        del mods[j]["type"]
    elif t == "long":
        mods[j]["uncertainties"] = list(mods[j]["uncertainties"]) + [mods[j]["uncertainties"][0]]
    elif t == "short":
        if n == 1:
            raise SkipCase("one bin")
        mods[j]["uncertainties"] = list(mods[j]["uncertainties"])[:-1]
    elif t == "dim":
        mods[j]["uncertainties"] = np.ones((n, 2, 2)).tolist()
    elif t == "key":
        del mods[j]["uncertainties"]
        want = Exception
    else:
        sp = dict(sp, sigfn="const", s1=[[0.0] * n])
        want = ValueError
    rec.case([t, sp["kind"], n, len(mods)], True)
    try:
        m = _build(sp, mods)
    except Exception as err:  # noqa: BLE001
        rec.check(isinstance(err, want), "refused", "refused with another error than documented", reason=t, error=repr(err), spec=sp)
        return
    rec.violate("accepted", "malformed modifiers were accepted", reason=t, mods=mods, npar=m.backend.config().npar)


def direct(rng, rec):
    """The synthesizer itself: closed form, slots and names for any start index."""
    from spey.backends.default_pdf.uncertainty_synthesizer import signal_uncertainty_synthesizer

    n = int(rng.integers(1, 6))
    s = rng.uniform(0.1, 30, n)
    if rng.random() < 0.3:
        s[rng.integers(n)] = 0.0
    mods = _mods(rng, s, nmods=int(rng.integers(0, 5)))
    nsp = int(rng.integers(0, 4))
    start = int(rng.integers(0, 9)) if rng.random() < 0.4 else None
    rec.case([n, nsp, start, repr(mods)], bool(mods))
    kw = {} if start is None else {"domain_start": start}
    snap = freeze(mods)
    out = signal_uncertainty_synthesizer(signal_yields=s.tolist(), modifiers=mods, n_signal_parameters=nsp, **kw)
    wit = dict(signal=s, mods=mods, nsp=nsp, start=start)
    rec.check(freeze(mods) == snap, "direct", "modifier configuration was modified", **wit)
    first = 1 + nsp + n if start is None else start
    widths = [1 if m["type"] == "normalization" else n for m in mods]
    rec.check(out["n_parameters"] == sum(widths) == len(out["constraint"]) == len(out["parameter_names"]), "direct", "number of nuisances", got={k: v for k, v in out.items() if k != "lambda"}, **wit)
    doms = [int(i) for c in out["constraint"] for i in np.atleast_1d(c["kwargs"]["domain"])]
    rec.check(doms == list(range(first, first + sum(widths))), "direct", "constraint slots", got=doms, **wit)
    p = rng.normal(0, 1, first + sum(widths) + 2)
    p[first : first + sum(widths)] = _alphas(rng, sum(widths))
    f = np.broadcast_to(np.asarray(out["lambda"](p), dtype=float), (n,))
    tot, k = np.zeros(n), first
    for m, w in zip(mods, widths):
        a = np.broadcast_to(p[k : k + w], (n,))
        k += w
        u = np.asarray(m["uncertainties"], dtype=float)
        for i in range(n):
            if s[i] > 0:
                tot[i] += a[i] * math.log1p((u[i] if u.ndim == 1 else u[i][0 if a[i] >= 0 else 1]) / s[i])
    rec.check(bool(np.all(np.abs(np.log(f) - tot) <= 1e-9 * (1 + np.abs(tot)))), "direct", "factor differs from the closed form", got=np.log(f), want=tot, pars=p, **wit)


def ownership(rng, rec):
    """Caller-owned modifier containers are neither changed nor kept alive by the model; a second model is independent."""
    sp = _model(rng)
    mods = copy.deepcopy(sp["mods"])
    snap = freeze(mods)
    m = _build(sp, mods)
    slots, npar = _slots(sp)
    p = np.zeros(npar)
    p[slots[0].start :] = _alphas(rng, npar - slots[0].start)
    _judge(rec, m, sp, p, 1.3)
    if rng.random() < 0.5:
        m.likelihood(0.3)
    rec.case([sp["kind"], sp["b"], repr(sp["mods"])], True)
    rec.check(freeze(mods) == snap, "mutated", "modifier configuration was modified", spec=sp)
    other = dict(sp, mods=_mods(rng, np.array(sp["s"])))
    m2 = _build(other)
    for x in mods:
        x["type"] = "shape"
        x["uncertainties"] = np.zeros(sp["n"])
    mods.clear()
    _judge(rec, m, sp, p, 0.7)
    s2, n2 = _slots(other)
    q = np.zeros(n2)
    q[s2[0].start :] = _alphas(rng, n2 - s2[0].start)
    _judge(rec, m2, other, q, 0.9)


def pair(rng, rec):
    """Several modifiers multiply, in any order; a zero variation or no modifier changes nothing."""
    sp = _model(rng, nmods=2)
    m = _build(sp)
    slots, npar = _slots(sp)
    p = np.zeros(npar)
    p[slots[0].start :] = _alphas(rng, npar - slots[0].start)
    rev = dict(sp, mods=[dict(x, name=x.get("name", f"k{i}")) for i, x in list(enumerate(sp["mods"]))[::-1]])
    q = p.copy()
    a, b = slots
    q[a.start :] = np.concatenate([p[b], p[a]])
    x, size = _signal(m, sp, p, 1.0)
    y, _ = _signal(_build(rev), rev, q, 1.0)
    rec.case([sp["kind"], sp["b"], repr(sp["mods"])], True)
    rec.check(bool(np.all(np.abs(x - y) <= 1e-9 * np.abs(x) + 1e-12 * size)), "factor", "order of modifiers matters", first=x, second=y, pars=p, spec=sp)
    x1, s1 = _signal(_build(dict(sp, mods=sp["mods"][:1])), sp, p[: a.stop], 1.0)
    two = dict(sp, mods=sp["mods"][1:])
    x2, s2 = _signal(_build(two), two, np.concatenate([p[: a.start], p[b]]), 1.0)
    s = np.array(sp["s"])
    for i in range(sp["n"]):
        rec.check(abs(x1[i] * x2[i] - x[i] * s[i]) <= 1e-8 * x1[i] * x2[i] + 1e-11 * (size[i] * s[i] + s1[i] * x2[i] + s2[i] * x1[i]), "factor", "modifiers do not multiply", bin=i, parts=[x1[i], x2[i]], whole=x[i] * s[i], spec=sp)
    null = dict(sp, mods=[dict(y_, uncertainties=[0.0] * sp["n"]) for y_ in sp["mods"]])
    x0, s0 = _signal(_build(null), null, p, 1.0)
    rec.check(bool(np.all(np.abs(x0 - s) <= 1e-9 * s + 1e-12 * s0)), "factor", "a vanishing variation changes the signal", got=x0, spec=sp)


KINDS = {f.__name__: f for f in (factors, points, layout, constraint, inadmissible, reject, direct, ownership, pair)}
