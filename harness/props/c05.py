"""C05: answers are functions of the model and the arguments; caller data are never modified."""
import copy

import numpy as np

import refmodel as R
import spey
from props.common import ET, EXPECTED, SkipCase, nice_spec, spec_sig
from props.queries import Failure, call, freeze, make_query, outcome_same, same, scramble

RULE = (
    "distinct (model specs, query sequence) histories; every answer in the history was compared with the same "
    "query on a freshly built model, and every caller-owned object with its snapshot"
)
PLAN = {
    "quick": {"history": 260, "combiner": 90, "mutation": 260, "returned": 160, "copies": 120, "inputs": 160},
    "thorough": {"history": 4000, "combiner": 1500, "mutation": 4000, "returned": 2500, "copies": 1800, "inputs": 2500},
}
MINIMA = {"mon:fresh-equal": 1500, "mon:caller-unchanged": 500, "mon:returned-independent": 300}
ASSUMPTIONS = [
    "objects handed out as live views of the model (config(), backend attributes) are not modified by the caller",
]


def _spec(rng):
    if rng.random() < 0.7:
        return nice_spec(rng)
    s = R.gen_spec(rng, zero_data=False, nmax=3, regime="background")
    return s


def history(rng, rec):
    spec = _spec(rng)
    ref = R.Ref(spec)
    m = R.build(spec)
    other = R.build(_spec(rng), analysis="other")
    if rng.random() < 0.5:
        # pin the identity-sensitive caches down with further instances of the same description
        keep = [R.build(spec) for _ in range(3)]
        for k in keep:
            call(make_query(rng, spec, ref, cheap=True)[1], k)
        del keep
    labels = []
    pool = [make_query(rng, spec, ref) for _ in range(5)]
    for step in range(int(rng.integers(6, 14))):
        lab, q = pool[rng.integers(len(pool))] if rng.random() < 0.8 else make_query(rng, spec, ref)
        if rng.random() < 0.15:
            call(make_query(rng, spec, ref, cheap=True)[1], other)
        if rng.random() < 0.1:
            tmp = R.build(spec)  # short-lived instance, its id may be reused
            call(q, tmp)
            del tmp
        got = call(q, m)
        fresh = call(q, R.build(spec))
        rec.check(
            outcome_same(got, fresh), "fresh-equal", f"answer to '{lab}' depends on history", spec=spec,
            history=labels, query=lab, got=repr(got)[:300], fresh=repr(fresh)[:300],
        )
        rec.count("query:" + lab)
        rec.count("outcome:" + ("raise" if isinstance(fresh, Failure) else "value"))
        labels.append(lab)
    rec.case(spec_sig(spec, labels), sample={"spec": spec, "history": labels})


def combiner(rng, rec):
    specs = [nice_spec(rng, nmax=2) for _ in range(int(rng.integers(2, 4)))]

    def fresh():
        c = spey.UnCorrStatisticsCombiner()
        for i, s in enumerate(specs):
            c.append(R.build(s, analysis=f"a{i}"))
        return c

    comb = fresh()
    labels = []
    exp0 = EXPECTED[rng.integers(3)]
    for _ in range(int(rng.integers(4, 8))):
        exp = EXPECTED[rng.integers(3)] if rng.random() < 0.5 else exp0
        mu = float(round(rng.uniform(0, 2), 2))
        neg = bool(rng.integers(2))
        data = {"a0": np.maximum(np.round(np.array(specs[0]["b"]) * 1.1), 1.0)}
        options = {R.NAMES[specs[0]["kind"]]: {"init_pars": None}}
        opts = [
            ("llhd", lambda c: c.likelihood(mu, expected=exp)),
            ("llhd-data", lambda c: c.likelihood(mu, expected=exp, data=data)),
            ("max", lambda c: c.maximize_likelihood(expected=exp, allow_negative_signal=neg)),
            ("max-data", lambda c: c.maximize_likelihood(expected=exp, data=data)),
            ("asimov", lambda c: c.asimov_likelihood(mu, expected=exp, statistical_model_options=options)),
            ("max-asimov", lambda c: c.maximize_asimov_likelihood(expected=exp)),
            ("cls", lambda c: c.exclusion_confidence_level(mu, expected=exp)),
            ("bad", lambda c: c["nope"]),
            ("member", lambda c: [m.maximize_likelihood(expected=exp, allow_negative_signal=neg) for m in c]),
            ("addremove", lambda c: _addremove(c, specs[0])),
        ]
        lab, q = opts[rng.integers(len(opts))]
        df, of = freeze(data), freeze(options)
        got = call(q, comb)
        want = call(q, fresh())
        rec.check(outcome_same(got, want, atol=1e-8), "fresh-equal", f"combiner answer to '{lab}' depends on history", specs=specs, history=labels, got=repr(got)[:300], fresh=repr(want)[:300])
        rec.check(df == freeze(data) and of == freeze(options), "caller-unchanged", "combiner modified caller containers", query=lab)
        rec.count("query:comb-" + lab)
        labels.append(lab)
    # members are untouched by having been combined and queried
    mem = comb["a1"].maximize_likelihood()
    rec.check(same(mem, R.build(specs[1]).maximize_likelihood()), "fresh-equal", "member answers changed by the combination", specs=specs)
    rec.case(["comb", [spec_sig(s) for s in specs], labels], sample={"specs": specs, "history": labels})


def _addremove(c, spec):
    c.append(R.build(spec, analysis="tmp"))
    v = c.likelihood(1.0)
    c.remove("tmp")
    return v, c.likelihood(1.0), c.analyses


def mutation(rng, rec):
    """Every container the caller passes in is compared with a snapshot after the call."""
    spec = nice_spec(rng, kinds=["ub", "cb", "tm", "es"])
    ref = R.Ref(spec)
    m = R.build(spec)
    exp = EXPECTED[rng.integers(3)]
    n, npar = spec["n"], ref.npar
    conv = [list, tuple, np.array][rng.integers(3)]
    isint = bool(rng.integers(2))
    init = conv([1] * npar if isint else [0.7] * npar)
    data = conv([int(x) for x in spec["d"]] if isint else [float(x) for x in spec["d"]])
    lo = max(ref.minimum_poi, -50.0)
    bounds = [(lo, 10.0)] + [(-5, 5)] * (npar - 1)
    if rng.random() < 0.5:
        bounds = [list(b) for b in bounds]
    bounds = tuple(bounds) if rng.random() < 0.3 else bounds
    constraints = []
    if rng.random() < 0.6:
        constraints = [{"type": "ineq", "fun": lambda v: 20.0 - v[0]}]
    if rng.random() < 0.3:
        constraints = tuple(constraints)
    tested = {0: 1, 1: 0} if isint else {0: 0.7, npar - 1: 0.2}
    optd = {"ntrials": 2, "maxiter": 2000}
    indices = [0, npar - 1]
    grid = conv([0, 1, 2])
    scan = [{0: grid, npar - 1: 0.1}, {0: 0.4, npar - 1: conv([0.0, 0.3])}][rng.integers(2)]
    kwargs = dict(init_pars=init, par_bounds=bounds, constraints=constraints)
    mle, lk = {"maxiter": 3000}, {"maxiter": 3000}
    owned = dict(init=init, data=data, bounds=bounds, constraints=constraints, tested=tested, optd=optd, indices=indices, grid=grid, scan=scan, kwargs=kwargs, mle=mle, lk=lk)
    arr = np.asarray(data)
    calls = [
        ("llhd", lambda: m.likelihood(1.0, expected=exp, data=arr, **kwargs)),
        ("llhd-dict", lambda: m.likelihood(tested, expected=exp, init_pars=init, par_bounds=bounds, return_parameters=True)),
        ("max", lambda: m.maximize_likelihood(expected=exp, data=arr, poi_indices=indices, **kwargs)),
        ("max-fixed", lambda: m.maximize_likelihood(expected=exp, fixed_poi_value=tested, init_pars=init, par_bounds=bounds)),
        ("asimov-data", lambda: m.generate_asimov_data(expected=exp, init_pars=init, par_bounds=bounds, **optd)),
        ("asimov", lambda: m.asimov_likelihood(0.5, expected=exp, init_pars=init, par_bounds=bounds)),
        ("max-asimov", lambda: m.maximize_asimov_likelihood(expected=exp, init_pars=init, par_bounds=bounds)),
        ("chi2", lambda: m.chi2(grid, expected=exp, init_pars=init, par_bounds=bounds, mle_kwargs=mle, likelihood_kwargs=lk)),
        ("chi2-scan", lambda: m.chi2(scan, expected=exp)),
        ("ul", lambda: m.poi_upper_limit(expected=exp, optimiser_arguments=optd)),
        ("sampler", lambda: m.fixed_poi_sampler(tested, 3, init_pars=init, par_bounds=bounds)),
        ("sigma", lambda: m.sigma_mu_from_hessian(0.5, init_pars=init, par_bounds=bounds)),
        ("value-grad", lambda: spey.math.value_and_grad(m, data=data)(conv([0.5] * npar))),
        ("hessian", lambda: spey.math.hessian(m, data=data)(conv([0.5] * npar))),
        ("cfg", lambda: (m.backend.config().fixed_poi_bounds_multi(tested), m.backend.config().resolve_poi_indices(tested))),
        ("fit", lambda: _fit(m, init, bounds, constraints, tested, optd)),
        ("cls-toy", lambda: _toy(m, optd)),
    ]
    import spey.math  # noqa: F401

    for i in rng.permutation(len(calls))[:8]:
        lab, fn = calls[int(i)]
        snap = {k: freeze(v) for k, v in owned.items()}
        acopy = arr.copy()
        res = call(lambda _m: fn(), None)
        rec.count("mutcall:" + lab + (":raise" if isinstance(res, Failure) else ""))
        changed = [k for k, v in owned.items() if freeze(v) != snap[k]]
        if not np.array_equal(acopy, arr):
            changed.append("data-array")
        rec.check(not changed, "caller-unchanged", f"{lab} modified {changed}", spec=spec, call=lab, owned=changed)
    got = m.maximize_likelihood(expected=exp)
    rec.check(same(got, R.build(spec).maximize_likelihood(expected=exp)), "fresh-equal", "answer changed after calls with caller options", spec=spec)
    cfg = m.backend.config()
    rec.check(
        all(isinstance(x, float) and x == 1.0 for x in cfg.suggested_init) and cfg.suggested_bounds[1:] == [(None, None)] * (npar - 1),
        "config-unchanged", "model configuration changed by queries", spec=spec, got=[cfg.suggested_init, cfg.suggested_bounds],
    )
    rec.case(spec_sig(spec, str(exp), conv.__name__, isint), sample={"spec": spec})


def _fit(m, init, bounds, constraints, tested, optd):
    from spey.optimizer.core import fit

    o = m.prepare_for_fit(constraints=constraints, **optd)
    return fit(**o, initial_parameters=init, bounds=bounds, fixed_poi_value=tested)


def _toy(m, optd):
    m.ntoys = 2
    return m.exclusion_confidence_level(1.0, calculator="toy", verbose=False)


def returned(rng, rec):
    """Scribbling over returned objects never changes a later answer."""
    spec = _spec(rng)
    ref = R.Ref(spec)
    m = R.build(spec)
    labs = []
    for _ in range(4):
        lab, q = make_query(rng, spec, ref, heavy=False, failing=False)
        if lab == "config":
            continue
        first = call(q, m)
        if isinstance(first, Failure):
            continue
        keep = copy.deepcopy(first)
        scramble(first)
        second = call(q, m)
        rec.check(outcome_same(second, keep), "returned-independent", f"changing the object returned by '{lab}' changed the next answer", spec=spec, first=repr(keep)[:300], second=repr(second)[:300])
        scramble(second)
        third = call(q, m)
        rec.check(outcome_same(third, keep), "returned-independent", f"changing the object returned by '{lab}' changed the next answer", spec=spec)
        labs.append(lab)
    # bounds/initial values handed out for a fixed hypothesis are the caller's
    cfg = m.backend.config(allow_negative_signal=False)
    b = cfg.fixed_poi_bounds(3.0)
    scramble(b)
    b2 = cfg.rescale_poi_bounds(True, 30.0)
    scramble(b2)
    ed = m.backend.expected_data(np.array([0.5] + [0.1] * (ref.npar - 1)))
    keep = np.array(ed, dtype=float).copy()
    scramble(ed)
    ed2 = m.backend.expected_data(np.array([0.5] + [0.1] * (ref.npar - 1)))
    rec.check(same(np.array(ed2, dtype=float), keep), "returned-independent", "changing expected data changed the model", spec=spec)
    rec.check(same(m.likelihood(0.4), R.build(spec).likelihood(0.4)), "fresh-equal", "model changed by modifying returned objects", spec=spec)
    rec.case(spec_sig(spec, labs), sample={"spec": spec, "queries": labs})


def copies(rng, rec):
    """Copies are independent models."""
    spec = nice_spec(rng)
    ref = R.Ref(spec)
    m = R.build(spec, xsection=0.5)
    exp = [ET.observed, ET.aposteriori][rng.integers(2)]
    neg = bool(rng.integers(2))
    if rng.random() < 0.7:
        m.maximize_likelihood(expected=exp, allow_negative_signal=neg)
        m.generate_asimov_data(expected=exp)
        m.maximize_asimov_likelihood(expected=exp)
    c = copy.deepcopy(m)
    new = np.maximum(np.round(np.array(spec["d"]) * rng.uniform(0.8, 1.25, spec["n"]) + 1), 1.0)
    c.backend.data = new
    c.xsection = 2.0
    c.analysis = "copy"
    spec2 = dict(spec, d=new.tolist())
    f1, f2 = R.build(spec, xsection=0.5), R.build(spec2, xsection=2.0)
    mu = float(round(rng.uniform(0, 2), 2))
    qs = [
        ("max", lambda x: x.maximize_likelihood(expected=exp, allow_negative_signal=neg)),
        ("asimov-data", lambda x: x.generate_asimov_data(expected=exp)),
        ("max-asimov", lambda x: x.maximize_asimov_likelihood(expected=exp)),
        ("llhd", lambda x: x.likelihood(mu, expected=exp)),
        ("cls", lambda x: x.exclusion_confidence_level(mu, expected=exp)),
    ]
    for i in rng.permutation(len(qs)):
        lab, q = qs[int(i)]
        order = [(c, f2), (m, f1)]
        if rng.random() < 0.5:
            order.reverse()
        for x, f in order:
            got, want = call(q, x), call(q, f)
            rec.check(outcome_same(got, want), "fresh-equal", f"copy and original mix up '{lab}'", spec=spec, new=new, got=repr(got)[:200], want=repr(want)[:200], copy=x is c)
    rec.check(m.analysis == "an" and m.xsection == 0.5, "fresh-equal", "original changed through its copy")
    sh = copy.copy(m)
    rec.check(same(sh.maximize_likelihood(expected=exp), f1.maximize_likelihood(expected=exp)), "fresh-equal", "shallow copy differs", spec=spec)
    rec.case(spec_sig(spec, new.tolist(), str(exp), neg), sample={"spec": spec, "new": new})


def inputs(rng, rec):
    """Constructor arguments are not modified, and later changes to them do not reach the model."""
    spec = R.gen_spec(rng, zero_data=False, nmax=3, regime="background")
    ref = R.Ref(spec)
    conv = [list, lambda x: np.array(x, dtype=float)][rng.integers(2)]
    kw = R.build_kwargs(spec, conv)
    mods = kw.get("modifiers")
    snap = {k: freeze(v) for k, v in kw.items()}
    m = spey.get_backend(R.NAMES[spec["kind"]])(**kw, analysis="an")
    mu = float(round(rng.uniform(0.1, 2), 2))
    first = call(lambda x: x.likelihood(mu), m)
    call(lambda x: x.maximize_likelihood(), m)
    call(lambda x: x.generate_asimov_data(), m)
    changed = [k for k in kw if freeze(kw[k]) != snap[k]]
    rec.check(not changed, "caller-unchanged", f"model modified constructor arguments {changed}", spec=spec)
    for k, v in kw.items():
        if k != "modifiers" and not callable(v) and k != "n_signal_parameters":
            scramble(v)
    rec.check(outcome_same(call(lambda x: x.likelihood(mu), m), first), "returned-independent", "model changed when the caller reused its input arrays", spec=spec)
    fresh = call(lambda x: x.maximize_likelihood(expected=ET.apriori), R.build(spec))
    rec.check(outcome_same(call(lambda x: x.maximize_likelihood(expected=ET.apriori), m), fresh), "returned-independent", "model changed when the caller reused its input arrays", spec=spec)
    rec.case(spec_sig(spec, mu), sample={"spec": spec})


KINDS = {"history": history, "combiner": combiner, "mutation": mutation, "returned": returned, "copies": copies, "inputs": inputs}
