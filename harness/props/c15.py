"""C15: equivalent descriptions of the same analysis give the same statistics."""
import copy
import math

import numpy as np

import refmodel as R
from props.common import EXPECTED, ET, LogTap, SkipCase, moderate, nice_spec, rand_point, spec_sig
from props.queries import call, outcome_same
from props.stats import Indep

RULE = (
    "distinct (model, transformation, expectation, tested strength) pairs of equivalent models, compared point by point through their "
    "log-density functions (rounding accuracy) and through likelihoods, best fits, exclusion levels and limits (fit accuracy)"
)
PLAN = {
    "quick": {"permute": 110, "diagonal": 90, "gaussian": 80, "vanishing_skew": 90, "symmetric": 90, "function": 110, "containers": 220, "scale": 120, "apriori": 160},
    "thorough": {"permute": 3000, "diagonal": 2200, "gaussian": 2000, "vanishing_skew": 2200, "symmetric": 2200, "function": 3000, "containers": 7000, "scale": 3000, "apriori": 5000},
}
MINIMA = {"mon:density": 1500, "mon:likelihood": 300, "mon:maximum": 600, "mon:exclusion": 200, "mon:limit": 90, "mon:container": 600, "mon:apriori": 350}
ASSUMPTIONS = [
    "log-densities are compared at rounding accuracy on all models; fitted quantities in the regular domain of C03/C04, where each of the two "
    "fits is accurate to 2e-3 in the log-likelihood",
]
CASE_TIMEOUT = 150


def compare(rng, rec, what, one, two, to_two, ref, spec, exp, k=1.0, heavy=None):
    """one/two: model factories; to_two maps parameter vectors of `one`; two's strengths are one's divided by k."""
    a, b = one(), two()
    wit = dict(transformation=what, spec=spec, expected=str(exp))
    # densities at random points
    for _ in range(3):
        p = rand_point(rng, spec, ref)
        data = None
        if rng.random() < 0.5:
            data = np.maximum(np.round(ref.b * rng.uniform(0.7, 1.4, ref.n)), 0.0)
        x = float(a.backend.get_logpdf_func(expected=exp, data=data)(np.array(p)))
        y = float(b.backend.get_logpdf_func(expected=exp, data=None if data is None else to_two(None, data)[1])(to_two(np.array(p), None)[0]))
        rec.check(abs(x - y) <= 1e-7 + 1e-9 * abs(x), "density", f"{what}: log-densities of equivalent models differ", first=x, second=y, pars=p, **wit)
        e1 = np.asarray(a.backend.expected_data(np.array(p)), dtype=float)[: ref.n]
        e2 = np.asarray(b.backend.expected_data(to_two(np.array(p), None)[0]), dtype=float)[: ref.n]
        w = to_two(None, e1)[1]
        rec.check(np.allclose(w, e2, rtol=1e-9, atol=1e-9), "density", f"{what}: expected data of equivalent models differ", first=w, second=e2, pars=p, **wit)
    ind = Indep(ref, exp, "qtilde")
    mu = float(round(rng.uniform(0.1, 1.6), 3))
    if not ind.regular(mu) or ind.muhat < -0.4:
        return
    signed = Indep(ref, exp, "q")
    degenerate = spec["kind"] == "poiabs"  # no constraint term: only the maximum is unique, not its location
    # fits from the default start do not travel a long way along a flat likelihood: no signed comparison for tiny signals
    negok = (k > 0.05 or ref.npar == 1) and signed.regular(mu) and signed.muhat > max(0.5 * ref.minimum_poi, -3.0)
    x, y = a.likelihood(mu, expected=exp), b.likelihood(mu / k, expected=exp)
    rec.check(abs(x - y) <= 4e-3, "likelihood", f"{what}: profile likelihoods differ", first=x, second=y, mu=mu, **wit)
    s = np.array(spec["s"])
    sd = np.sqrt(ref.b + np.array(spec["unc"]) ** 2)
    sg = 1 / math.sqrt(float(np.sum((s / sd) ** 2)))
    for neg in (True, False):
        if neg and not negok:
            continue
        (p, x), (q, y) = a.maximize_likelihood(expected=exp, allow_negative_signal=neg), b.maximize_likelihood(expected=exp, allow_negative_signal=neg)
        rec.check(abs(x - y) <= 4e-3, "maximum", f"{what}: maxima differ", first=[p, x], second=[q, y], negative=neg, **wit)
        if degenerate or spec["nsp"]:  # a signal shape parameter may vanish or flip: only the maximum is unique
            continue
        rec.check(abs(p - q * k) <= 0.15 * sg + 1e-4, "maximum", f"{what}: best fits differ", first=p, second=q * k, sigma=sg, negative=neg, **wit)
    x, y = a.exclusion_confidence_level(mu, expected=exp), b.exclusion_confidence_level(mu / k, expected=exp)
    rec.check(len(x) == len(y) and all(abs(u - v) <= 0.05 for u, v in zip(x, y)), "exclusion", f"{what}: exclusion levels differ", first=x, second=y, mu=mu, **wit)
    if rng.random() < 0.5 and not (spec["sigfn"] and spec["nsp"]):
        x = a.poi_upper_limit(expected=exp)
        if np.isfinite(x) and x / k > 2e4:  # beyond the range the limit search covers
            return
        y = b.poi_upper_limit(expected=exp) * k
        rec.check(x == y or abs(x - y) <= 0.03 * abs(x), "limit", f"{what}: upper limits differ", first=x, second=y, **wit)


def ident(p, d):
    return p, d


def wide(rng, **kw):
    """Alternate between the regular domain and anything the generator can produce."""
    if rng.random() < 0.65:
        return nice_spec(rng, **kw)
    return R.gen_spec(rng, **{k: v for k, v in kw.items() if k in ("kinds", "modifiers", "callable_sig", "nmin")})


def permuted(spec, o):
    sp = copy.deepcopy(spec)
    for k in ("b", "s", "d", "unc", "m3", "env"):
        if k in sp:
            sp[k] = [sp[k][i] for i in o]
    for k in ("cov", "corr"):
        if k in sp:
            sp[k] = np.array(sp[k])[np.ix_(o, o)].tolist()
    if sp.get("s1"):
        sp["s1"] = [[r[i] for i in o] for r in sp["s1"]]
    for m in sp["mods"] or []:
        u = m["uncertainties"]
        if isinstance(u, (list, tuple)) and len(u) == len(o):
            m["uncertainties"] = [u[i] for i in o]
    return sp


def permute(rng, rec):
    spec = wide(rng, nmin=2, modifiers=None, callable_sig=None) if rng.random() < 0.4 else wide(rng, nmin=2)
    if spec["n"] < 2:
        raise SkipCase("one bin")
    o = rng.permutation(spec["n"])
    exp = EXPECTED[rng.integers(3)]
    ref = R.Ref(spec)
    sp2 = permuted(spec, o)
    rec.case(spec_sig(spec, "perm", o.tolist(), str(exp)), bool(np.any(o != np.arange(len(o)))))

    def to(p, d):
        if p is not None:
            q = p.copy()
            if ref.nbkg:
                q[ref.tsl] = p[ref.tsl][o]
            for _, _, _, sl in ref.mods:
                if sl.stop - sl.start == spec["n"] and spec["n"] > 1:
                    q[sl] = p[sl][o]
            p = q
        return p, None if d is None else np.asarray(d)[o]

    compare(rng, rec, "bin permutation", lambda: R.build(spec), lambda: R.build(sp2), to, ref, spec, exp)


def diagonal(rng, rec):
    spec = wide(rng, kinds=["ub"])
    sp2 = dict(copy.deepcopy(spec), kind="cb", cov=np.diag(np.array(spec["unc"]) ** 2).tolist())
    exp = EXPECTED[rng.integers(3)]
    rec.case(spec_sig(spec, "diag", str(exp)), True)
    compare(rng, rec, "diagonal covariance", lambda: R.build(spec), lambda: R.build(sp2), ident, R.Ref(spec), spec, exp)


def gaussian(rng, rec):
    spec = wide(rng, kinds=["gau"])
    sp2 = dict(copy.deepcopy(spec), kind="mvn", cov=np.diag(np.array(spec["unc"]) ** 2).tolist())
    exp = EXPECTED[rng.integers(3)]
    rec.case(spec_sig(spec, "gauss", str(exp)), True)
    compare(rng, rec, "diagonal multivariate normal", lambda: R.build(spec), lambda: R.build(sp2), ident, R.Ref(spec), spec, exp)


def vanishing_skew(rng, rec):
    spec = wide(rng, kinds=["cb"])
    n = spec["n"]
    m3 = [0.0] * n
    if rng.random() < 0.4:
        m3 = (1e-12 * np.diag(np.array(spec["cov"])) ** 1.5 * rng.uniform(-1, 1, n)).tolist()
    sp2 = dict(copy.deepcopy(spec), kind="tm", m3=m3)
    exp = EXPECTED[rng.integers(3)]
    rec.case(spec_sig(spec, "skew", m3, str(exp)), True)
    compare(rng, rec, "vanishing third moment", lambda: R.build(spec), lambda: R.build(sp2), ident, R.Ref(spec), spec, exp)


def symmetric(rng, rec):
    spec = wide(rng, kinds=["cb"])
    cov = np.array(spec["cov"])
    u = np.sqrt(np.diag(cov))
    sp2 = dict(copy.deepcopy(spec), kind="es", corr=(cov / np.outer(u, u)).tolist(), env=[[x, x] for x in u.tolist()])
    exp = EXPECTED[rng.integers(3)]
    rec.case(spec_sig(spec, "sym", str(exp)), True)
    compare(rng, rec, "symmetric envelopes", lambda: R.build(spec), lambda: R.build(sp2), ident, R.Ref(spec), spec, exp)


def function(rng, rec):
    spec = wide(rng, kinds=["ub", "cb", "tm", "es", "gau", "mvn"], callable_sig=False)
    sp2 = dict(copy.deepcopy(spec), sigfn="const", s1=[[0.0] * spec["n"]])
    if spec["mods"]:
        raise SkipCase("modifiers")
    exp = EXPECTED[rng.integers(3)]
    rec.case(spec_sig(spec, "fn", str(exp)), True)
    compare(rng, rec, "constant signal function", lambda: R.build(spec), lambda: R.build(sp2), ident, R.Ref(spec), spec, exp)


def containers(rng, rec):
    spec = wide(rng) if rng.random() < 0.7 else nice_spec(rng, scale=(200.0, 2e5))
    if spec["sigfn"]:
        spec["sigfn"], spec["nsp"] = None, 0
    for k in ("b", "s", "d"):
        spec[k] = [float(max(round(x), 1 if k == "b" else 0)) for x in spec[k]]
    if spec["kind"] in ("ub", "gau", "poiabs", "cb"):
        spec["unc"] = [float(max(round(x), 1)) for x in spec["unc"]]
    if spec["kind"] == "tm":
        spec["m3"] = [float(round(x)) for x in spec["m3"]]
    ref = R.Ref(spec)
    exp = EXPECTED[rng.integers(3)]
    base = R.build(spec)
    ints = lambda x: [int(v) if float(v).is_integer() else v for v in np.asarray(x, dtype=float)]
    forms = {
        "list": lambda x: [float(v) for v in x],
        "tuple": lambda x: tuple(float(v) for v in x),
        "int-list": ints,
        "int-tuple": lambda x: tuple(ints(x)),
        "int-array": lambda x: np.array(x, dtype=np.int64) if all(float(v).is_integer() for v in x) else np.array(x),
        "int32-array": lambda x: np.array(x, dtype=np.int32) if all(float(v).is_integer() and abs(v) < 2e9 for v in x) else np.array(x),
        "mixed": lambda x: [(int(v) if i % 2 and float(v).is_integer() else np.float64(v)) for i, v in enumerate(x)],
        "strided": lambda x: np.repeat(np.array(x, dtype=float), 2)[::2],
        "read-only": lambda x: _ro(x),
    }
    form = list(forms)[rng.integers(len(forms))]
    rec.case(spec_sig(spec, "cont", form, str(exp)), True)
    other = R.build(spec, conv=forms[form])
    wit = dict(spec=spec, container=form, expected=str(exp))
    for _ in range(2):
        p = rand_point(rng, spec, ref)
        x, y = (float(m.backend.get_logpdf_func(expected=exp)(np.array(p))) for m in (base, other))
        rec.check(abs(x - y) <= 1e-9 + 1e-12 * abs(x), "container", "log-density depends on the input container", first=x, second=y, pars=p, **wit)
    mu = float(round(rng.uniform(0.1, 1.5), 3))
    data = np.maximum(np.round(ref.b), 1.0)
    conv = forms[form]
    with LogTap() as tap:
        pairs = [
            ("likelihood", lambda m, c: m.likelihood(mu, expected=exp)),
            ("likelihood-data", lambda m, c: m.likelihood(mu, expected=exp, data=c(data))),
            ("maximum", lambda m, c: m.maximize_likelihood(expected=exp)[1]),
            ("maximum-data", lambda m, c: m.maximize_likelihood(expected=exp, data=c(data))[1]),
            ("asimov", lambda m, c: m.asimov_likelihood(mu, expected=exp)),
        ]
        for name, q in pairs:
            x = q(base, lambda v: np.array(v, dtype=float))
            y = q(other, conv)
            rec.check(abs(x - y) <= 2e-6 + 1e-9 * abs(x) or tap.unconverged(), "container", f"{name} depends on the input container", first=x, second=y, mu=mu, **wit)


def _ro(x):
    a = np.array(x, dtype=float)
    a.flags.writeable = False
    return a


def scale(rng, rec):
    spec = wide(rng, modifiers=None) if rng.random() < 0.3 else wide(rng)
    if spec["sigfn"]:
        raise SkipCase("function")
    k = float(round(np.exp(rng.uniform(math.log(0.4), math.log(2.5))), 4))
    if rng.random() < 0.3:
        k = float(rng.choice([1e-4, 1e-3, 0.01, 0.1, 0.2, 5.0, 10.0]))
    if spec["kind"] in ("poi", "gau", "mvn") and rng.random() < 0.5:
        k = float(rng.choice([0.01, 50.0, 1000.0]))
    sp2 = copy.deepcopy(spec)
    sp2["s"] = [x * k for x in spec["s"]]
    for m in sp2["mods"] or []:
        u = m["uncertainties"]
        m["uncertainties"] = [tuple(v * k for v in x) if isinstance(x, (list, tuple)) else x * k for x in u]
    exp = EXPECTED[rng.integers(3)]
    ref = R.Ref(spec)
    rec.case(spec_sig(spec, "scale", k, str(exp)), True)

    def to(p, d):
        if p is not None:
            p = p.copy()
            p[0] = p[0] / k
        return p, d

    ind = Indep(ref, exp, "qtilde")
    heavy = abs(ind.muhat) / k < 7
    if not heavy:
        raise SkipCase("beyond the configured range")
    compare(rng, rec, f"signal scaled by {k}", lambda: R.build(spec), lambda: R.build(sp2), to, ref, spec, exp, k=k)


def apriori(rng, rec):
    spec = wide(rng, modifiers=None, callable_sig=None) if rng.random() < 0.4 else wide(rng)
    sp2 = copy.deepcopy(spec)
    sp2["d"] = [float(max(0, round(x * rng.uniform(0.3, 2.0) + rng.integers(-3, 4)))) for x in spec["d"]]
    mu = float(round(rng.uniform(0.1, 2.0), 3))
    q = rng.integers(8)
    rec.case(spec_sig(spec, "apriori", sp2["d"], mu, int(q)), spec["d"] != sp2["d"])
    a, b = R.build(spec), R.build(sp2)
    calls = [
        lambda m: [m.likelihood(mu, expected=ET.apriori)],
        lambda m: list(m.maximize_likelihood(expected=ET.apriori)),
        lambda m: list(m.generate_asimov_data(expected=ET.apriori)),
        lambda m: [m.asimov_likelihood(mu, expected=ET.apriori)],
        lambda m: list(m.maximize_asimov_likelihood(expected=ET.apriori, test_statistics="q")),
        lambda m: list(m.exclusion_confidence_level(mu, expected=ET.apriori)),
        lambda m: [m.sigma_mu(mu, expected=ET.apriori)],
        lambda m: [m.chi2(mu, expected=ET.apriori), m.poi_upper_limit(expected=ET.apriori)] if rng.random() < 0.3 else [m.chi2(mu, expected=ET.apriori)],
        lambda m: [m.backend.get_logpdf_func(expected=ET.apriori)(np.array([mu] + [0.1] * (m.backend.config().npar - 1)))],
    ]
    for i in {int(q), 8, int(rng.integers(9))}:
        st = rng.bit_generator.state
        x = call(calls[i], a)
        rng.bit_generator.state = st
        y = call(calls[i], b)
        ok = outcome_same(x, y)
        rec.check(ok, "apriori", "a-priori result depends on the observed data", query=i, first=x, second=y, spec=spec, other_data=sp2["d"], mu=mu)


KINDS = {f.__name__: f for f in (permute, diagonal, gaussian, vanishing_skew, symmetric, function, containers, scale, apriori)}
