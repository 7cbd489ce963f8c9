"""C02: objective, gradient and Hessian against exact derivatives of the reference density."""
import numpy as np

import refmodel as R
import spey
import spey.math
from props.c01 import _data_choice
from props.common import EXPECTED, LogTap, SkipCase, es_domain, moderate, nice_spec, rand_point, spec_sig

RULE = (
    "distinct (model spec, parameter point, data choice) at which objective value, gradient and Hessian "
    "were compared with complex-step derivatives of the reference density; fits with/without gradient"
)
PLAN = {
    "quick": {"deriv": 2500, "helpers": 700, "sigma": 500, "fits": 350},
    "thorough": {"deriv": 60000, "helpers": 15000, "sigma": 8000, "fits": 8000},
}
MINIMA = {"mon:gradient": 3000, "mon:hessian": 2000}
ASSUMPTIONS = [
    "derivatives are compared away from the modifier kink at 0, the effective-sigma floor and non-positive rates",
]


def _kink(ref, p, tol=2e-3):
    return any(np.any(np.abs(p[sl]) < tol) for _, _, _, sl in ref.mods)


def _pick(rng, **kw):
    spec = R.gen_spec(rng, **kw)
    if spec["kind"] in ("gau", "mvn") and rng.random() < 0.25:
        spec["uncfn"] = True
    ref = R.Ref(spec)
    for _ in range(20):
        p = rand_point(rng, spec, ref)
        if not es_domain(ref, p, 0.1) or _kink(ref, p):
            continue
        if spec["kind"] in ("gau", "mvn") or np.min(ref.rates(p) / (1 + ref.b)) > 0.02:
            return spec, ref, p
    raise SkipCase


def _check_point(rec, ref, p, data, obj, hess, wit):
    val, grad = obj
    want = ref.nll(p, data)
    rec.close(float(val), want, "objective", atol=3e-11 * (abs(want) + np.sum(np.abs(data)) + 10), rtol=0, **wit)
    g = ref.grad_nll(p, data)
    sc = 1.0 + np.max(np.abs(g)) + np.max(np.asarray(data) / np.maximum(np.abs(ref.rates(p)), 1e-3))
    rec.close(np.asarray(grad, dtype=float), g, "gradient", atol=1e-8 * sc, rtol=1e-8, **wit)
    if hess is not None:
        H = ref.hess_nll(p, data)
        hs = 1.0 + np.max(np.abs(H))
        hess = np.asarray(hess, dtype=float)
        rec.close(hess, H, "hessian", atol=3e-6 * hs, rtol=1e-5, **wit)
        rec.close(hess, hess.T, "hessian-symmetric", atol=1e-9 * hs, rtol=0, **wit)


def deriv(rng, rec):
    spec, ref, p = _pick(rng)
    m = R.build(spec)
    expected = EXPECTED[rng.integers(3)]
    data, how = _data_choice(rng, spec, ref)
    use = (ref.data(expected) if data is None else np.asarray(data, dtype=float))[: spec["n"]]
    d = None if data is None else np.array(data)
    be = m.backend
    wit = dict(spec=spec, p=p, expected=str(expected), data=data)
    obj = be.get_objective_function(expected=expected, data=d, do_grad=True)(np.array(p))
    h = be.get_hessian_logpdf_func(expected=expected, data=d)(np.array(p))
    _check_point(rec, ref, p, use, obj, -np.asarray(h), wit)
    plain = be.get_objective_function(expected=expected, data=d, do_grad=False)(np.array(p))
    lp = be.get_logpdf_func(expected=expected, data=d)(np.array(p))
    rec.close(float(plain), -float(lp), "objective-is-minus-logpdf", atol=1e-10, rtol=1e-12, **wit)
    rec.close(float(obj[0]), -float(lp), "objective-is-minus-logpdf", atol=1e-10, rtol=1e-12, **wit)
    rec.count("data:" + how)
    rec.count("model:" + spec["kind"])
    rec.case(spec_sig(spec, p.tolist(), str(expected), how), sample=wit)


def helpers(rng, rec):
    """Public spey.math helpers, list inputs, repeated calls of one function object."""
    spec, ref, p0 = _pick(rng)
    m = R.build(spec)
    expected = EXPECTED[rng.integers(3)]
    data, how = _data_choice(rng, spec, ref)
    if data is not None and how != "withaux":
        data = [float(x) for x in data] if rng.random() < 0.5 else list(data)
    use = (ref.data(expected) if data is None else np.asarray(data, dtype=float))[: spec["n"]]
    vg = spey.math.value_and_grad(m, expected=expected, data=data)
    hs = spey.math.hessian(m, expected=expected, data=data)
    for k in range(2):
        p = p0 if k == 0 else p0 + 0.05 * np.sign(p0)
        if k and (not es_domain(ref, p, 0.1) or (spec["kind"] not in ("gau", "mvn") and np.min(ref.rates(p)) < 0.02)):
            break
        _check_point(rec, ref, p, use, vg(p.tolist()), hs(p.tolist()), dict(spec=spec, p=p, data=data, expected=str(expected)))
    rec.case(spec_sig(spec, p0.tolist(), str(expected), how, "h"))


def sigma(rng, rec):
    """sigma_mu equals the inverse reference Hessian at the conditional fit."""
    spec = nice_spec(rng)
    ref = R.Ref(spec)
    m = R.build(spec)
    expected = EXPECTED[rng.integers(3)]
    mu = [0.5, 1, 1.0, float(round(rng.uniform(0, 2), 2)), 2][rng.integers(5)]
    data = ref.data(expected)
    _, pars = m.likelihood(float(mu), expected=expected, return_parameters=True)
    pars = np.asarray(pars, dtype=float)
    if not moderate(ref, pars, data):
        raise SkipCase
    H = ref.hess_nll(pars, data)
    inv = np.linalg.inv(H)
    if np.linalg.cond(H) > 1e6 or inv[0, 0] <= 0:
        raise SkipCase
    got = m.sigma_mu(mu, expected=expected)
    rec.close(float(got), np.sqrt(inv[0, 0]), "sigma-mu", atol=0, rtol=2e-3, spec=spec, mu=mu, expected=str(expected))
    got2 = m.sigma_mu_from_hessian(mu, expected=expected)
    rec.close(float(got2), float(got), "sigma-mu", atol=0, rtol=1e-12, spec=spec)
    rec.case(spec_sig(spec, mu, str(expected), "s"))


def fits(rng, rec):
    """Fits with and without gradients, and through a backend that offers no gradient, agree."""
    from spey.base.backend_base import BackendBase

    spec = nice_spec(rng)
    ref = R.Ref(spec)
    expected = EXPECTED[rng.integers(3)]
    mu = float(round(rng.uniform(0, 2), 2))
    best = ref.optimum(ref.data(expected), fixed={0: mu})
    if best is None or not moderate(ref, best[1], None):
        raise SkipCase
    m = R.build(spec)
    with LogTap() as tap:
        a = m.likelihood(mu, expected=expected)
        b = R.build(spec).likelihood(mu, expected=expected, do_grad=False)
        c_mu, c = R.build(spec).maximize_likelihood(expected=expected)
        d_mu, d = R.build(spec).maximize_likelihood(expected=expected, do_grad=False)

        m2 = R.build(spec)
        cls = type(m2.backend)

        class NoGrad(cls):
            name = cls.name

            def get_objective_function(self, *args, **kwargs):
                return BackendBase.get_objective_function(self, *args, **kwargs)

        try:
            m2.backend.__class__ = NoGrad
            e = m2.likelihood(mu, expected=expected)
            f = m2.maximize_likelihood(expected=expected)[1]
            rec.count("nograd_backend")
        except TypeError:
            e, f = a, c
    if tap.unconverged():
        raise SkipCase
    wit = dict(spec=spec, mu=mu, expected=str(expected))
    tol = 2e-4
    rec.close(b, a, "fit-grad-vs-nograd", atol=tol, rtol=1e-7, **wit)
    rec.close(d, c, "fit-grad-vs-nograd", atol=tol, rtol=1e-7, **wit)
    rec.close(e, a, "fit-grad-vs-nograd", atol=tol, rtol=1e-7, **wit)
    rec.close(f, c, "fit-grad-vs-nograd", atol=tol, rtol=1e-7, **wit)
    rec.case(spec_sig(spec, mu, str(expected), "f"))


KINDS = {"deriv": deriv, "helpers": helpers, "sigma": sigma, "fits": fits}
