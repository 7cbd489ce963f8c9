"""C25: plugged-in backends give the same statistics whichever optional hooks they implement."""
import math

import numpy as np
from scipy.optimize import NonlinearConstraint

import refmodel as R
import spey
from props.common import EXPECTED, ET, LogTap, SkipCase, nice_spec, spec_sig
from props.stats import Indep, Own, SIG, cdf, cls, cls_exp, interval
from spey import BackendBase, StatisticalModel, UnCorrStatisticsCombiner
from spey.base.model_config import ModelConfig
from spey.system.exceptions import CalculatorNotAvailable, CombinerNotAvailable, MethodNotAvailable

RULE = (
    "distinct (model, set of implemented optional hooks, parameter order, constant offset of the log-density, query) answers of a plugged-in "
    "backend compared with the in-tree backend it wraps, plus the log of hook calls with their arguments"
)
PLAN = {
    "quick": {"hooks": 260, "calls": 300, "refuse": 200, "fixed": 140, "documented": 60, "members": 50, "nopoi": 100},
    "thorough": {"hooks": 6000, "calls": 6000, "refuse": 2500, "fixed": 2200, "documented": 1200, "members": 900, "nopoi": 1200},
}
MINIMA = {"mon:likelihood": 400, "mon:maximum": 300, "mon:exclusion": 150, "mon:hook-call": 500, "mon:refused": 500, "mon:asimov": 120, "mon:fixed": 100}
ASSUMPTIONS = [
    "wrapped models are taken from the well conditioned domain, where a gradient-free fit and a fit with gradients agree to 4e-3 in the log-likelihood",
    "a wrapped model's native hooks answer through the in-tree backend, whose own correctness is decided by C01-C13",
]
CASE_TIMEOUT = 180
DQ = 8e-3
HOOKS = ["grad", "hess", "sample", "expect", "nll", "min", "anll", "amin"]


def make(spec, hooks, perm=None, shift=0.0, log=None, names=True, fixed=None, poi=True, base=BackendBase, layer=0):
    """A backend obeying the documented interface and implementing exactly the given optional hooks."""
    inner = R.build(spec).backend
    core = StatisticalModel(backend=R.build(spec).backend, analysis="core")
    cfg0 = inner.config()
    npar = cfg0.npar
    perm = list(range(npar)) if perm is None else list(perm)
    inv = np.argsort(perm)
    log = [] if log is None else log

    def to_old(p):
        return np.asarray(p)[inv] if not hasattr(p, "_value") else p[inv]

    def to_new(p):
        return np.asarray(p, dtype=float)[perm]

    def old_test(t):
        if isinstance(t, dict):
            return {perm[int(k)]: v for k, v in t.items()}
        return t

    ns = {"name": "verif.plugin", "version": "1.0.0", "author": "verif", "spey_requires": ">=0.0.0", "arXiv": [], "doi": []}

    def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
        c = inner.config(allow_negative_signal=allow_negative_signal, poi_upper_bound=poi_upper_bound)
        return ModelConfig(
            poi_index=perm.index(c.poi_index) if poi else None,
            minimum_poi=c.minimum_poi,
            suggested_init=[c.suggested_init[i] for i in perm],
            suggested_bounds=[c.suggested_bounds[i] for i in perm],
            parameter_names=[c.parameter_names[i] if c.parameter_names else f"p{i}" for i in perm] if names else None,
            suggested_fixed=None if fixed is None else [i in fixed for i in perm],
        )

    def get_logpdf_func(self, expected=ET.observed, data=None):
        log.append(("logpdf", dict(expected=expected, data=data)))
        f = inner.get_logpdf_func(expected=expected, data=data)
        return lambda p: f(to_old(p)) + shift

    ns.update(config=config, get_logpdf_func=get_logpdf_func, is_alive=property(lambda self: inner.is_alive))
    if getattr(inner, "constraints", None):
        ns["constraints"] = property(
            lambda self: [NonlinearConstraint((lambda c: lambda p: c.fun(to_old(p)))(c), c.lb, c.ub) if perm != sorted(perm) else c for c in inner.constraints]
            if all(isinstance(c, NonlinearConstraint) for c in inner.constraints)
            else [dict(c, fun=(lambda c: lambda p: c["fun"](to_old(p)))(c)) for c in inner.constraints]
        )
    if "grad" in hooks:

        def get_objective_function(self, expected=ET.observed, data=None, do_grad=True):
            log.append(("objective", dict(expected=expected, data=data, do_grad=do_grad)))
            f = inner.get_objective_function(expected=expected, data=data, do_grad=do_grad)
            if not do_grad:
                return lambda p: f(to_old(p)) - shift

            def obj(p):
                v, g = f(to_old(p))
                return v - shift, to_new(g)

            return obj

        ns["get_objective_function"] = get_objective_function
    if "hess" in hooks:

        def get_hessian_logpdf_func(self, expected=ET.observed, data=None):
            log.append(("hessian", dict(expected=expected, data=data)))
            h = inner.get_hessian_logpdf_func(expected=expected, data=data)
            return lambda p: np.asarray(h(to_old(p)))[np.ix_(perm, perm)]

        ns["get_hessian_logpdf_func"] = get_hessian_logpdf_func
    if "sample" in hooks:

        def get_sampler(self, pars):
            log.append(("sampler", dict(pars=np.array(pars, dtype=float))))
            s = inner.get_sampler(to_old(pars))

            def sampler(n):
                out = s(n)
                log.append(("drawn", dict(data=np.array(out, dtype=float))))
                return out

            return sampler

        ns["get_sampler"] = get_sampler
    if "expect" in hooks:

        def expected_data(self, pars):
            log.append(("expected", dict(pars=np.array(pars, dtype=float))))
            return list(inner.expected_data(to_old(pars)))

        ns["expected_data"] = expected_data

    def clean(k):
        return {a: b for a, b in k.items() if a in ("minimizer", "maxiter") and b is not None}

    if "nll" in hooks:

        def negative_loglikelihood(self, poi_test=1.0, expected=ET.observed, **kw):
            log.append(("nll", dict(poi_test=poi_test, expected=expected, **kw)))
            v, p = core.likelihood(old_test(poi_test), expected=expected, data=kw.get("data"), return_parameters=True, **clean(kw))
            return v - shift, to_new(p)

        ns["negative_loglikelihood"] = negative_loglikelihood

    def free(expected, neg, data):
        pars, v = core.maximize_likelihood(expected=expected, allow_negative_signal=neg, data=data, poi_indices=list(range(npar)))
        return v - shift, to_new([pars[i] for i in range(npar)])

    if "min" in hooks:

        def minimize_negative_loglikelihood(self, expected=ET.observed, allow_negative_signal=True, **kw):
            log.append(("min", dict(expected=expected, allow_negative_signal=allow_negative_signal, **kw)))
            return free(expected, allow_negative_signal, kw.get("data"))

        ns["minimize_negative_loglikelihood"] = minimize_negative_loglikelihood
    if "anll" in hooks:

        def asimov_negative_loglikelihood(self, poi_test=1.0, expected=ET.observed, test_statistics="qtilde", **kw):
            log.append(("anll", dict(poi_test=poi_test, expected=expected, test_statistics=test_statistics, **kw)))
            d = core.generate_asimov_data(expected=expected, test_statistic=test_statistics)
            v, p = core.likelihood(old_test(poi_test), expected=expected, data=d, return_parameters=True)
            return v - shift, to_new(p)

        ns["asimov_negative_loglikelihood"] = asimov_negative_loglikelihood
    if "amin" in hooks:

        def minimize_asimov_negative_loglikelihood(self, expected=ET.observed, test_statistics="qtilde", **kw):
            log.append(("amin", dict(expected=expected, test_statistics=test_statistics, **kw)))
            d = core.generate_asimov_data(expected=expected, test_statistic=test_statistics)
            return free(expected, test_statistics in ("q", "qmu"), d)

        ns["minimize_asimov_negative_loglikelihood"] = minimize_asimov_negative_loglikelihood
    if layer:
        # hooks contributed by a common parent, as plug-in packages with several models do
        mid = type("CommonBase", (base,), {k: v for k, v in ns.items() if k not in ("config", "name")})
        cls_ = type("Plugin", (mid,), {k: ns[k] for k in ("config", "name")})
    else:
        cls_ = type("Plugin", (base,), ns)
    return cls_


def draw(rng, spec, need=(), p=0.5, allow_perm=True):
    hooks = sorted({h for h in HOOKS if rng.random() < p} | set(need))
    npar = R.build(spec).backend.config().npar
    perm = list(map(int, rng.permutation(npar))) if allow_perm and rng.random() < 0.6 else list(range(npar))
    shift = float([0.0, 0.0, 25.5, -310.0][rng.integers(4)])
    return hooks, perm, shift


def plug(spec, hooks, perm, shift, log=None, **kw):
    mk = {k: kw.pop(k) for k in ("ntoys", "xsection", "analysis") if k in kw}
    return StatisticalModel(backend=make(spec, hooks, perm, shift, log, **kw)(), **{"analysis": "plug", **mk})


def capable(hooks):
    return "expect" in hooks or ("anll" in hooks and "amin" in hooks)


def near(rec, key, got, want, msg, tol=4e-3, **wit):
    got = float(np.asarray(got))
    return rec.check(math.isfinite(got) and abs(got - want) <= tol, key, msg, result=got, reference=float(want), **wit)


def pick_mu(rng, spec):
    s, b = np.array(spec["s"]), np.array(spec["b"])
    sd = np.sqrt(b + np.array(spec["unc"]) ** 2)
    sig = 1.0 / math.sqrt(float(np.sum((s / sd) ** 2)) + 1e-12)
    return min(float(round(max(0.02, sig * rng.uniform(0.1, 3.0)), 4)), 8.0)


def regular(spec, expected, name, mu):
    i = Indep(R.Ref(spec), expected, name)
    if not i.regular(mu):
        raise SkipCase
    return i


def hooks(rng, rec):
    """Every query of the statistics layer, for a random subset of hooks, against the in-tree model."""
    spec = nice_spec(rng, nmax=2)
    hk, perm, shift = draw(rng, spec)
    expected = EXPECTED[rng.integers(3)]
    name = ["q", "qtilde"][rng.integers(2)]
    mu = pick_mu(rng, spec)
    ind = regular(spec, expected, name, mu)
    layer = int(rng.integers(2))
    wit = dict(spec=spec, hooks=hk, perm=perm, shift=shift, mu=mu, expected=str(expected), stat=name)
    tree = R.build(spec)
    names = bool(rng.integers(2))
    m = plug(spec, hk, perm, shift, layer=layer, names=names)
    poi = perm.index(0)
    with LogTap() as tap:
        base = float(tree.likelihood(mu, expected=expected))
        v = m.likelihood(mu, expected=expected)
        near(rec, "likelihood", v + shift, base, "likelihood at a tested strength", **wit)
        v2, pars = m.likelihood(mu, expected=expected, return_parameters=True)
        rec.check(len(pars) == len(perm) and abs(float(pars[poi]) - mu) < 1e-9, "likelihood", "the returned parameters do not hold the tested strength", parameters=np.asarray(pars).tolist(), **wit)
        near(rec, "likelihood", -float(m.backend.get_logpdf_func(expected=expected)(np.asarray(pars, dtype=float))) + shift, float(v2) + shift, "the returned parameters do not reproduce the likelihood", tol=1e-6, **wit)
        lin = m.likelihood(mu, expected=expected, return_nll=False)
        want = math.exp(-min(max(float(v), -700), 700))
        rec.check(abs(float(lin) - want) <= 1e-2 * want + 1e-300, "likelihood", "likelihood and negative log-likelihood forms differ", linear=float(lin), nll=float(v), **wit)
        lin2, pars2 = m.likelihood(mu, expected=expected, return_nll=False, return_parameters=True)
        rec.check(np.ndim(lin2) == 0 and abs(float(lin2) - want) <= 1e-2 * want + 1e-300, "likelihood", "the likelihood differs when the parameters are requested as well", linear=repr(lin2), nll=float(v), **wit)
        rec.check(len(pars2) == len(perm), "likelihood", "requested parameters are missing", parameters=repr(pars2), **wit)
        muhat, nll = m.maximize_likelihood(expected=expected, allow_negative_signal=name == "q")
        near(rec, "maximum", nll + shift, ind.nll, "maximum likelihood", **wit)
        near(rec, "maximum", tree.likelihood(float(muhat), expected=expected), float(nll) + shift, "the fitted strength does not reproduce the maximum", **wit)
        keys = list(range(len(perm)))
        if names:
            keys[-1] = m.backend.config().parameter_names[-1]
        sel, nll2 = m.maximize_likelihood(expected=expected, allow_negative_signal=name == "q", poi_indices=keys)
        rec.check(list(sel) == keys, "maximum", "requested parameters are missing", got=repr(sel), **wit)
        near(rec, "maximum", -float(m.backend.get_logpdf_func(expected=expected)(np.array([sel[k] for k in keys], dtype=float))), float(nll2), "the requested best-fit parameters do not reproduce the maximum", tol=1e-5, **wit)
        near(rec, "maximum", m.chi2(mu, expected=expected, allow_negative_signal=name == "q"), 2 * (base - ind.nll), "chi-square", tol=2 * DQ, **wit)
        z = float(m.pull(mu, expected=expected))
        full = float(tree.maximize_likelihood(expected=expected)[1])
        near(rec, "maximum", z * z, 2 * max(base - full, 0.0), "pull squared", tol=2 * DQ, **wit)
    if tap.unconverged():
        rec.count("unconverged")
        rec.case(spec_sig(spec, hk, perm, shift, mu), True)
        return
    if capable(hk):
        with LogTap() as tap:
            asymptotic(rng, rec, spec, m, ind, expected, name, mu, hk, shift, wit)
    else:
        chi(rec, m, tree, expected, name, mu, wit)
    rec.case(spec_sig(spec, hk, perm, shift, mu, str(expected), name), True, sample={**wit, "nll": float(v) + shift})


def asymptotic(rng, rec, spec, m, ind, expected, name, mu, hk, shift, wit):
    q, qa = ind.stats(mu)
    near(rec, "asimov", float(m.asimov_likelihood(mu, expected=expected, test_statistics=name)) + shift, ind.fa(mu), "Asimov likelihood", **wit)
    near(rec, "asimov", float(m.maximize_asimov_likelihood(expected=expected, test_statistics=name)[1]) + shift, ind.nll_a, "Asimov maximum", **wit)
    if "expect" in hk:
        d = m.generate_asimov_data(expected=expected, test_statistic=name)
        n = spec["n"]
        ok = np.allclose(np.asarray(d, dtype=float)[:n], ind.asimov, rtol=0.02, atol=0.05)
        rec.check(ok, "asimov", "Asimov data", got=list(map(float, d)), want=ind.asimov.tolist(), **wit)
    neg = name == "q"
    out = m.exclusion_confidence_level(mu, expected=expected, allow_negative_signal=neg)
    if expected == ET.observed:
        lo, hi = interval(lambda a, b: cls(a, b, name), q, qa, DQ)
        rec.check(len(out) == 1 and lo - 1e-6 <= float(out[0]) <= hi + 1e-6, "exclusion", "observed exclusion", got=out, interval=[lo, hi], **wit)
    else:
        for i, s in enumerate(SIG):
            lo, hi = interval(lambda a, b: cls_exp(b, s, name), q, qa, DQ)
            rec.check(len(out) == 5 and lo - 1e-6 <= float(out[i]) <= hi + 1e-6, "exclusion", "expected exclusion", got=out, band=s, interval=[lo, hi], **wit)
    if name == "qtilde":
        ul = m.poi_upper_limit(expected=expected)
        if math.isfinite(ul) and ul < 9.5:
            at = R.build(spec).exclusion_confidence_level(float(ul), expected=expected)
            at = float(at[0] if expected == ET.observed else at[2])
            rec.check(abs(at - 0.95) < 0.015, "exclusion", "the in-tree model is not excluded at 95% at the plugged-in model's limit", limit=float(ul), exclusion=at, **wit)
    i0 = Indep(R.Ref(spec), expected, "q0")
    if i0.regular(1.0):
        q0, q0a = i0.stats(0.0)
        s0a, s0, pv, _ = m.significance(expected=expected)
        for got, w, what in ((s0, q0, "observed"), (s0a, q0a, "Asimov")):
            rec.check(math.sqrt(max(w - DQ, 0)) - 1e-6 <= float(got) <= math.sqrt(w + DQ) + 1e-6, "exclusion", f"{what} discovery significance", got=float(got), reference=math.sqrt(w), **wit)
    sig = float(m.sigma_mu(mu, expected=expected, test_statistics=name))
    if "hess" in hk:
        want = float(R.build(spec).sigma_mu_from_hessian(mu, expected=expected))
        rec.check(abs(sig - want) <= 0.02 * want, "sigma", "uncertainty from the Hessian", got=sig, reference=want, **wit)
    elif qa > 0.2:
        # documented fallback: tested strength over the square root of its Asimov statistic
        rec.check(mu / math.sqrt(qa + DQ) - 1e-6 <= sig <= mu / math.sqrt(qa - DQ) + 1e-6, "sigma", "uncertainty from the Asimov statistic", got=sig, qA=qa, **wit)


def chi(rec, m, tree, expected, name, mu, wit):
    neg = name == "q"
    a = m.exclusion_confidence_level(mu, expected=expected, allow_negative_signal=neg, calculator="chi_square")
    b = tree.exclusion_confidence_level(mu, expected=expected, allow_negative_signal=neg, calculator="chi_square")
    rec.check(len(a) == len(b) and all(abs(float(x) - float(y)) < 0.03 for x, y in zip(a, b)), "exclusion", "chi-square exclusion differs from the in-tree model's", got=a, reference=b, **wit)


def calls(rng, rec):
    """The event log of native hooks: each query is answered by exactly its hook, with the caller's arguments."""
    spec = nice_spec(rng, nmax=2)
    hk, perm, shift = draw(rng, spec, need=("nll", "min", "anll", "amin"))
    expected = EXPECTED[rng.integers(3)]
    mu = pick_mu(rng, spec)
    data = [None, np.maximum(np.round(np.array(spec["b"]) * rng.uniform(0.8, 1.2, spec["n"])), 1.0)][rng.integers(2)]
    log = []
    m = plug(spec, hk, perm, shift, log, ntoys=3)
    npar = len(perm)
    init = [None, [0.4 if i == 0 else 0.1 for i in perm]][rng.integers(2)]
    bnds = [None, [(-0.3, 7.5) if i == 0 else (-4.0, 4.0) for i in perm]][rng.integers(2)]
    neg = bool(rng.integers(2))
    ts = ["q", "qtilde", "q0", "qmu", "qmutilde"][rng.integers(5)]
    extra = [{}, {"maxiter": 777}][rng.integers(2)]
    kw = dict(init_pars=init, par_bounds=bnds)
    wit = dict(spec=spec, hooks=hk, perm=perm, shift=shift, mu=mu, expected=str(expected), data=None if data is None else data.tolist(), **kw)
    test = [mu, {perm.index(0): mu}][rng.integers(2)]
    if npar > 1 and rng.random() < 0.3:
        test = {perm.index(0): mu, perm.index(npar - 1): 0.25}
    dk = {} if data is None else {"data": data}
    table = [
        ("likelihood", "nll", dict(poi_test=test, expected=expected, **dk), lambda: m.likelihood(test, expected=expected, **dk, **kw, **extra)),
        ("maximum", "min", dict(expected=expected, allow_negative_signal=neg, **dk), lambda: m.maximize_likelihood(expected=expected, allow_negative_signal=neg, **dk, **kw, **extra)),
        ("Asimov likelihood", "anll", dict(poi_test=test, expected=expected, test_statistics=ts), lambda: m.asimov_likelihood(test, expected=expected, test_statistics=ts, **kw, **extra)),
        ("Asimov maximum", "amin", dict(expected=expected, test_statistics=ts), lambda: m.maximize_asimov_likelihood(expected=expected, test_statistics=ts, **kw, **extra)),
    ]
    for what, hook, want, fn in table:
        del log[:]
        out = fn()
        ev = [k for k, _ in log]
        rec.check(ev == [hook], "hook-call", f"{what}: not answered by the backend's own method alone", events=ev, **wit)
        if hook not in ev:
            continue
        got = log[ev.index(hook)][1]
        full = {**want, **kw, **extra}
        bad = [k for k in full if k not in got or not alike(got[k], full[k])]
        rec.check(not bad, "hook-call", f"{what}: the backend's own method received other arguments than the caller's", differs=bad, received={k: repr(got.get(k, 'missing'))[:80] for k in bad}, **wit)
        if data is None and what in ("likelihood", "maximum"):
            rec.check(got.get("data", None) is None, "hook-call", f"{what}: data appeared from nowhere", received=repr(got.get("data"))[:80], **wit)
        value = out if what in ("likelihood", "Asimov likelihood") else out[1]
        rec.check(np.ndim(value) == 0 and math.isfinite(float(value)), "hook-call", f"{what}: no finite number returned", got=repr(out), **wit)
    # results of the free fit select the documented parameter
    del log[:]
    muhat, nll = m.maximize_likelihood(expected=expected, allow_negative_signal=neg, **dk)
    keys = [i for i in range(npar)]
    sel, nll2 = m.maximize_likelihood(expected=expected, allow_negative_signal=neg, poi_indices=keys, **dk)
    tree = R.build(spec)
    rsel, rnll = tree.maximize_likelihood(expected=expected, allow_negative_signal=neg, poi_indices=list(range(npar)), **dk)
    rec.check(abs(float(muhat) - rsel[0]) < 1e-9 and all(abs(sel[perm.index(i)] - rsel[i]) < 1e-9 for i in range(npar)), "maximum", "the parameters of the backend's own fit are mixed up", got=sel, reference=rsel, muhat=float(muhat), **wit)
    rec.check(abs(float(nll) + shift - rnll) < 1e-8 and abs(float(nll2) - float(nll)) < 1e-9, "maximum", "the value of the backend's own fit is changed", got=[float(nll), float(nll2)], reference=float(rnll), **wit)
    if rnll < 600 and abs(shift) < 1:
        lin = m.maximize_likelihood(return_nll=False, expected=expected, allow_negative_signal=neg, **dk)[1]
        rec.check(abs(float(lin) - math.exp(-float(nll))) <= 1e-9 * math.exp(-float(nll)), "maximum", "linear and logarithmic forms differ", **wit)
        lin = m.maximize_asimov_likelihood(return_nll=False, expected=expected, test_statistics=ts)[1]
        ref = m.maximize_asimov_likelihood(expected=expected, test_statistics=ts)[1]
        rec.check(abs(float(lin) - math.exp(-float(ref))) <= 1e-9 * math.exp(-float(ref)), "asimov", "linear and logarithmic forms of the Asimov maximum differ", **wit)
        lin = m.asimov_likelihood(mu, return_nll=False, expected=expected, test_statistics=ts)
        ref = m.asimov_likelihood(mu, expected=expected, test_statistics=ts)
        rec.check(abs(float(lin) - math.exp(-float(ref))) <= 1e-9 * math.exp(-float(ref)), "asimov", "linear and logarithmic forms of the Asimov likelihood differ", **wit)
    if "sample" in hk and rng.random() < 0.4:
        del log[:]
        out = m.exclusion_confidence_level(mu, expected=expected, calculator="toy", verbose=False)
        rec.check(all(-1e-12 <= float(x) <= 1 + 1e-12 for x in out), "exclusion", "toy exclusion outside [0,1]", got=out, **wit)
        fits = [a for k, a in log if k == "min"]
        with_data = [a for a in fits if a.get("data") is not None]
        drawn = {tuple(map(float, row)) for k, a in log if k == "drawn" for row in a["data"]}
        fitted = {tuple(map(float, np.asarray(a["data"]))) for a in with_data}
        rec.check(len(drawn) > 0 and fitted == drawn, "hook-call", "toys: the data sets maximised by the backend's own method are not the pseudo-experiments drawn", drawn=sorted(drawn), fitted=sorted(fitted), **wit)
        pois = sorted(float(a["pars"][perm.index(0)]) for k, a in log if k == "sampler")
        rec.check(len(pois) == 2 and abs(pois[0]) < 1e-9 and abs(pois[1] - mu) < 1e-9, "hook-call", "toys: sampled hypotheses are not zero and the tested strength", got=pois, **wit)
    rec.case(spec_sig(spec, hk, perm, shift, mu, ts, neg), True, sample=wit)


def alike(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and {k: float(v) for k, v in a.items()} == {k: float(v) for k, v in b.items()}
    if b is None or isinstance(b, (str, bool)):
        return a == b or (isinstance(b, bool) and bool(a) is b)
    if isinstance(b, (list, tuple, np.ndarray)):
        try:
            return np.array_equal(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
        except (TypeError, ValueError):
            return False
    return a == b


def refuse(rng, rec):
    """Capabilities a backend does not have are reported unavailable and refused; the others work."""
    spec = nice_spec(rng, nmax=2)
    hk, perm, shift = draw(rng, spec, p=0.4)
    layer = int(rng.integers(2))
    m = plug(spec, hk, perm, shift, layer=layer, ntoys=4)
    mu = pick_mu(rng, spec)
    wit = dict(spec=spec, hooks=hk, perm=perm, shift=shift, mu=mu)
    asym, toys = capable(hk), "sample" in hk
    rec.check(bool(m.is_asymptotic_calculator_available) == asym, "refused", "availability of the asymptotic calculator", got=m.is_asymptotic_calculator_available, **wit)
    rec.check(bool(m.is_toy_calculator_available) == toys, "refused", "availability of the toy calculator", got=m.is_toy_calculator_available, **wit)
    rec.check(bool(m.is_chi_square_calculator_available), "refused", "availability of the chi-square calculator", **wit)
    want = {"chi_square"} | ({"asymptotic"} if asym else set()) | ({"toy"} if toys else set())
    rec.check(set(m.available_calculators) == want and len(m.available_calculators) == len(want), "refused", "list of available calculators", got=m.available_calculators, **wit)
    rec.check(all(c in repr(m) for c in want), "refused", "the representation does not name the calculators", got=repr(m), **wit)

    def attempt(what, fn, ok, err):
        try:
            out = fn()
        except err:
            rec.check(not ok, "refused", f"{what}: refused although the backend offers it", **wit)
        except Exception as e:  # noqa: BLE001
            rec.violate("refused", f"{what}: refused with another error than documented", error=repr(e), **wit)
        else:
            rec.check(ok, "refused", f"{what}: answered although the backend does not offer it", got=repr(out)[:100], **wit)

    attempt("asymptotic exclusion", lambda: m.exclusion_confidence_level(mu), asym, CalculatorNotAvailable)
    attempt("toy exclusion", lambda: m.exclusion_confidence_level(mu, calculator="toy", verbose=False), toys, CalculatorNotAvailable)
    attempt("chi-square exclusion", lambda: m.exclusion_confidence_level(mu, calculator="chi_square"), True, CalculatorNotAvailable)
    attempt("sampler", lambda: m.fixed_poi_sampler(mu, 2), toys, MethodNotAvailable)
    attempt("sampler function", lambda: m.fixed_poi_sampler(mu), toys, MethodNotAvailable)
    attempt("Hessian", lambda: m.sigma_mu_from_hessian(mu), "hess" in hk, MethodNotAvailable)
    attempt("combination", lambda: m.combine(R.build(spec)), False, CombinerNotAvailable)
    attempt("combination operator", lambda: m @ R.build(spec), False, CombinerNotAvailable)
    if "expect" not in hk:
        attempt("Asimov data", lambda: m.generate_asimov_data(), False, Exception)
    if not asym:
        attempt("upper limit", lambda: m.poi_upper_limit(), False, Exception)
        attempt("significance", lambda: m.significance(), False, Exception)
    # a combination can do what all its members can
    c = UnCorrStatisticsCombiner(m, R.build(spec, analysis="tree"))
    rec.check(bool(c.is_asymptotic_calculator_available) == ("expect" in hk) or ("expect" not in hk and asym), "refused", "availability of the asymptotic calculator of a combination", got=c.is_asymptotic_calculator_available, **wit)
    # a backend that implements combination
    made = []

    def combine(self, other, **kw):
        made.append((self, other, kw))
        return R.build(spec).backend

    cls_ = type("Combinable", (make(spec, hk, perm, shift),), {"combine": combine})
    a, b = StatisticalModel(cls_(), "a"), StatisticalModel(cls_(), "b")
    out = a.combine(b, depth=3)
    rec.check(isinstance(out, StatisticalModel) and made == [(a.backend, b.backend, {"depth": 3})], "refused", "the backend's own combination was not used with the caller's arguments", got=repr(made)[:200], **wit)
    rec.check("a" in out.analysis and "b" in out.analysis, "refused", "the combined model does not name its parts", got=out.analysis, **wit)
    attempt("not a backend", lambda: StatisticalModel(backend=object(), analysis="x"), False, AssertionError)
    rec.case(spec_sig(spec, hk, perm, shift, "refuse"), True, sample=wit)


def fixed(rng, rec):
    """Parameters a configuration declares fixed stay at their start values in every fit."""
    spec = nice_spec(rng, nmax=2, kinds=["ub", "cb", "tm", "poi", "gau", "mvn"])
    npar = R.build(spec).backend.config().npar
    if npar < 2:
        raise SkipCase
    hk, perm, shift = draw(rng, spec, p=0.4)
    hk = [h for h in hk if h in ("grad", "hess", "sample", "expect")]
    nfix = int(rng.integers(1, npar))
    fx = sorted(map(int, rng.choice(np.arange(1, npar), nfix, replace=False)))
    m = plug(spec, hk, perm, shift, fixed=fx)
    tree = R.build(spec)
    cfg = tree.backend.config()
    expected = EXPECTED[rng.integers(3)]
    mu = pick_mu(rng, spec)
    start = {i: float(cfg.suggested_init[i]) for i in fx}
    wit = dict(spec=spec, hooks=hk, perm=perm, shift=shift, mu=mu, expected=str(expected), fixed=fx)
    with LogTap() as tap:
        v, p = m.likelihood(mu, expected=expected, return_parameters=True)
        want = tree.likelihood({0: mu, **start}, expected=expected)
        sel, nll = m.maximize_likelihood(expected=expected, poi_indices=list(range(npar)))
        rsel, rnll = tree.maximize_likelihood(expected=expected, fixed_poi_value=start, poi_indices=list(range(npar)))
    rec.check(all(abs(float(p[perm.index(i)]) - x) < 1e-8 for i, x in start.items()), "fixed", "a fixed parameter moved in a conditional fit", parameters=np.asarray(p).tolist(), **wit)
    rec.check(all(abs(float(sel[perm.index(i)]) - x) < 1e-8 for i, x in start.items()), "fixed", "a fixed parameter moved in a free fit", parameters=sel, **wit)
    if not tap.unconverged():
        near(rec, "fixed", float(v) + shift, float(want), "conditional fit with fixed parameters", **wit)
        near(rec, "fixed", float(nll) + shift, float(rnll), "free fit with fixed parameters", **wit)
    # start values chosen by the caller move the fixed values with them
    init = [float(cfg.suggested_init[i]) + (0.2 if i in fx else 0.0) for i in perm]
    with LogTap() as tap:
        _, p = m.likelihood(mu, expected=expected, return_parameters=True, init_pars=init)
    rec.check(all(abs(float(p[perm.index(i)]) - (x + 0.2)) < 1e-8 for i, x in start.items()), "fixed", "a fixed parameter left the caller's start value", parameters=np.asarray(p).tolist(), **wit)
    rec.case(spec_sig(spec, hk, perm, fx, mu), True, sample=wit)


class _Documented(BackendBase):
    """The worked example of the backend documentation."""

    name = "verif.documented"
    version = "1.0.0"
    author = "verif"
    spey_requires = ">=0.1.0"

    def __init__(self, signal, background, data):
        self._signal = np.array(signal, dtype=float)
        self._background = np.array(background, dtype=float)
        self._data = np.array(data, dtype=float)

    @property
    def is_alive(self):
        return bool(np.any(self._signal > 0.0))

    def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
        low = -10.0 if allow_negative_signal else 0.0
        return ModelConfig(poi_index=0, minimum_poi=low, suggested_init=[1.0], suggested_bounds=[(low, poi_upper_bound)])

    def get_logpdf_func(self, expected=ET.observed, data=None):
        obs = self._data if data is None else np.array(data)
        if expected is ET.apriori and data is None:
            obs = self._background

        def logpdf(pars):
            rate = pars[0] * self._signal + self._background
            return float(np.sum(obs * np.log(rate) - rate))

        return logpdf

    def expected_data(self, pars):
        return list(pars[0] * self._signal + self._background)


def documented(rng, rec):
    """The documentation's minimal backend gives the statistics of the built-in Poisson model."""
    spec = nice_spec(rng, kinds=["poi"], nmax=3)
    spec["unc"] = [0.0] * spec["n"]
    tree = spey.get_backend("default.poisson")(signal_yields=spec["s"], background_yields=spec["b"], data=[int(x) for x in spec["d"]])
    m = StatisticalModel(_Documented(spec["s"], spec["b"], spec["d"]), "doc", xsection=0.05)
    expected = EXPECTED[rng.integers(3)]
    mu = min(pick_mu(rng, spec), 6.0)
    wit = dict(s=spec["s"], b=spec["b"], d=spec["d"], mu=mu, expected=str(expected))
    with LogTap():
        a, b = m.exclusion_confidence_level(mu, expected=expected), tree.exclusion_confidence_level(mu, expected=expected)
        rec.check(len(a) == len(b) and all(abs(float(x) - float(y)) < 4e-3 for x, y in zip(a, b)), "exclusion", "exclusion", got=a, reference=b, **wit)
        ul, ul0 = m.poi_upper_limit(expected=expected), tree.poi_upper_limit(expected=expected)
        rec.check((math.isinf(ul) and math.isinf(ul0)) or abs(ul - ul0) <= 0.01 * ul0, "exclusion", "upper limit", got=float(ul), reference=float(ul0), **wit)
        if math.isfinite(ul):
            xs = m.excluded_cross_section(expected=expected)
            rec.check(abs(xs - 0.05 * ul) < 1e-3 * xs, "exclusion", "excluded cross section", got=float(xs), **wit)
        x = float(m.chi2(mu, expected=expected)), float(tree.chi2(mu, expected=expected))
        rec.check(abs(x[0] - x[1]) < 5e-3, "likelihood", "chi-square", got=x, **wit)
        x = float(m.significance(expected=expected)[1]), float(tree.significance(expected=expected)[1])
        rec.check(abs(x[0] ** 2 - x[1] ** 2) < 8e-3, "exclusion", "significance", got=x, **wit)
    rec.check(not m.is_toy_calculator_available and m.is_asymptotic_calculator_available, "refused", "availability of calculators", got=m.available_calculators)
    rec.case(spec_sig(spec, mu, "doc", str(expected)), True, sample=wit)


def members(rng, rec):
    """Plugged-in members of a combination count like the models they wrap."""
    sa, sb = nice_spec(rng, nmax=2), nice_spec(rng, nmax=2)
    hk, perm, shift = draw(rng, sa, need=("expect",))
    expected = EXPECTED[rng.integers(3)]
    mu = min(pick_mu(rng, sa), pick_mu(rng, sb))
    wit = dict(specs=[sa, sb], hooks=hk, perm=perm, shift=shift, mu=mu, expected=str(expected))
    regular(sa, expected, "qtilde", mu)
    regular(sb, expected, "qtilde", mu)
    c = UnCorrStatisticsCombiner(plug(sa, hk, perm, shift, analysis="a"), R.build(sb, analysis="b"))
    t = UnCorrStatisticsCombiner(R.build(sa, analysis="a"), R.build(sb, analysis="b"))
    with LogTap() as tap:
        x = float(c.likelihood(mu, expected=expected)) + shift
        y = float(R.build(sa).likelihood(mu, expected=expected)) + float(R.build(sb).likelihood(mu, expected=expected))
        dc, dt = c.generate_asimov_data(expected=expected), t.generate_asimov_data(expected=expected)
        e = c.exclusion_confidence_level(mu, expected=expected), t.exclusion_confidence_level(mu, expected=expected)
        mx = float(c.maximize_likelihood(expected=expected)[1]) + shift, float(t.maximize_likelihood(expected=expected)[1])
    if tap.unconverged():
        raise SkipCase
    near(rec, "likelihood", x, y, "likelihood of the combination", **wit)
    near(rec, "maximum", mx[0], mx[1], "maximum likelihood of the combination", tol=DQ, **wit)
    for k in ("a", "b"):
        n = {"a": sa, "b": sb}[k]["n"]
        rec.check(np.allclose(np.asarray(dc[k], dtype=float)[:n], np.asarray(dt[k], dtype=float)[:n], rtol=0.02, atol=0.05), "asimov", "Asimov data of the combination", got=repr(dc), reference=repr(dt), **wit)
    rec.check(len(e[0]) == len(e[1]) and all(abs(float(p) - float(q)) < 0.02 for p, q in zip(*e)), "exclusion", "exclusion of the combination", got=e[0], reference=e[1], **wit)
    rec.case([spec_sig(sa, hk, perm, shift), spec_sig(sb, mu, str(expected))], True, sample=wit)


def nopoi(rng, rec):
    """A backend without a single parameter of interest answers multi-parameter queries."""
    spec = nice_spec(rng, nmax=2)
    npar = R.build(spec).backend.config().npar
    hk, perm, shift = draw(rng, spec, p=0.4)
    hk = [h for h in hk if h in ("grad", "nll", "min")]
    m = plug(spec, hk, perm, shift, poi=False)
    tree = R.build(spec)
    expected = EXPECTED[rng.integers(3)]
    mu = pick_mu(rng, spec)
    wit = dict(spec=spec, hooks=hk, perm=perm, shift=shift, mu=mu, expected=str(expected))
    names = m.backend.config().parameter_names
    key = [perm.index(0), names[perm.index(0)]][rng.integers(2)] if "nll" not in hk else perm.index(0)
    with LogTap() as tap:
        v, p = m.likelihood({key: mu}, expected=expected, return_parameters=True)
        want = tree.likelihood({0: mu}, expected=expected)
        sel, nll = m.maximize_likelihood(expected=expected, poi_indices=list(range(npar)))
        _, rnll = tree.maximize_likelihood(expected=expected)
    rec.check(abs(float(p[perm.index(0)]) - mu) < 1e-9, "fixed", "the tested parameter is not held", parameters=np.asarray(p).tolist(), **wit)
    if not tap.unconverged():
        near(rec, "likelihood", float(v) + shift, float(want), "likelihood at a tested parameter", **wit)
        near(rec, "maximum", float(nll) + shift, float(rnll), "maximum likelihood", **wit)
    near(rec, "maximum", -float(m.backend.get_logpdf_func(expected=expected)(np.array([sel[i] for i in range(npar)]))), float(nll), "the best-fit parameters do not reproduce the maximum", tol=1e-5, **wit)
    rec.case(spec_sig(spec, hk, perm, shift, mu, "nopoi"), True, sample=wit)


KINDS = {"hooks": hooks, "calls": calls, "refuse": refuse, "fixed": fixed, "documented": documented, "members": members, "nopoi": nopoi}
