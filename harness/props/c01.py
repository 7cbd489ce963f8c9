"""C01: log-density against the independent reference model."""
import numpy as np

import refmodel as R
from props.common import ET, EXPECTED, SkipCase, es_domain, rand_point, spec_sig

RULE = (
    "distinct (model spec, parameter point, data choice) tuples whose returned log-density was "
    "compared with the independent reference density"
)
PLAN = {
    "quick": {"point": 8000, "param_unc": 900, "dist": 800, "edges": 1500, "tiny": 1200, "large": 300, "profiled": 800},
    "thorough": {"point": 150000, "param_unc": 15000, "dist": 15000, "edges": 25000, "tiny": 20000, "large": 5000, "profiled": 12000},
}
MINIMA = {"mon:density": 20000}
ASSUMPTIONS = [
    "parameter points keep Poisson rates positive (the library clips non-positive rates at 1e-20)",
    "effective-sigma responses are compared off their documented numerical floor",
]


def _data_choice(rng, spec, ref, with_aux=True):
    c = rng.integers(5)
    n = spec["n"]
    if c == 0:
        return None, "none"
    if c == 1:
        d = rng.poisson(np.array(spec["b"])).astype(float) + 0.5 * rng.integers(0, 2)
        return d, "array"
    if c == 2:
        return [int(x) for x in rng.poisson(np.array(spec["b"]))], "intlist"
    if c == 3:
        return np.array([int(x) for x in rng.poisson(np.array(spec["b"]) * 1.3)]), "intarray"
    d = rng.poisson(np.array(spec["b"])).astype(float)
    if ref.nbkg and spec["kind"] != "poiabs" and with_aux:
        d = np.hstack([d, rng.normal(size=len(ref.aux()))])
    return d, "withaux"


def _compare(rec, model, spec, ref, p, expected, data, key="density", **wit):
    use = ref.data(expected) if data is None else np.asarray(data, dtype=float)
    want_m = ref.main_logpdf(p, use)
    want_c = ref.constraint_logpdf(p)
    got = model.backend.get_logpdf_func(expected=expected, data=data if data is None else np.array(data))(
        np.array(p)
    )
    scale = abs(want_m) + abs(want_c) + float(np.sum(np.abs(use))) + 10.0
    rec.check(np.ndim(got) == 0, "scalar", "log-density is not a scalar", spec=spec)
    rec.close(float(got), want_m + want_c, key, atol=3e-11 * scale, rtol=0, spec=spec, p=p, expected=str(expected), data=data, **wit)


def point(rng, rec):
    spec = R.gen_spec(rng, nmax=6 if rng.random() < 0.2 else 4, scale=(0.3, 3000.0))
    ref = R.Ref(spec)
    model = R.build(spec)
    rec.check(model.backend.config().npar == ref.npar, "npar", "parameter count", spec=spec)
    first = None
    for k in range(4):
        p = rand_point(rng, spec, ref)
        if not es_domain(ref, p):
            rec.count("skipped_es_floor")
            continue
        expected = EXPECTED[rng.integers(3)]
        if k == 3:
            expected = str(expected)
        data, how = _data_choice(rng, spec, ref)
        rec.count("data:" + how)
        rec.count("model:" + spec["kind"])
        _compare(rec, model, spec, ref, p, expected, data)
        first = first or [str(expected), how, p.tolist()]
    if first is None:
        raise SkipCase
    rec.case(spec_sig(spec, first), sample={"spec": spec, "point": first})


def param_unc(rng, rec):
    """Normal / multivariate-normal models whose (co)variance is a function of the parameters."""
    spec = R.gen_spec(rng, kinds=["gau", "mvn"])
    if rng.random() < 0.5:
        spec["unc"] = (np.array(spec["unc"]) * 0.02).tolist()
        if "cov" in spec:
            spec["cov"] = (np.array(spec["cov"]) * 4e-4).tolist()
    spec["uncfn"] = True
    ref = R.Ref(spec)
    model = R.build(spec)
    for _ in range(3):
        p = rand_point(rng, spec, ref)
        data, how = _data_choice(rng, spec, ref, False)
        _compare(rec, model, spec, ref, p, EXPECTED[rng.integers(3)], data, key="density")
    rec.case(spec_sig(spec, p.tolist()), sample={"spec": spec, "p": p})


def dist(rng, rec):
    """The distribution classes themselves: explicit domains and parameter-dependent widths and covariances."""
    import spey.backends.distributions as D
    from autograd import numpy as anp
    from scipy.special import gammaln
    from scipy.stats import multivariate_normal, norm

    n, off = int(rng.integers(1, 5)), int(rng.integers(0, 3))
    x = rng.normal(0, 1.5, n + off + int(rng.integers(0, 3)))
    dom = slice(off, off + n)
    loc = rng.normal(0, 1, n)
    w = rng.uniform(0.2, 3.0, n)
    a = float(rng.uniform(-0.5, 0.5))
    fn = lambda v: w * anp.exp(a * v)  # noqa: E731
    call = bool(rng.integers(2))
    sc = fn(x[dom]) if call else w
    wit = dict(n=n, off=off, x=x, loc=loc, w=w, slope=a, parameter_dependent=call)
    got = D.Normal(loc, fn if call else w, domain=dom).log_prob(x)
    rec.close(got, norm.logpdf(x[dom], loc, sc), "density", atol=1e-9, rtol=1e-9, **wit)
    m = rng.normal(size=(n, n + 2))
    base = m @ m.T / (n + 2) + 0.1 * np.diag(w)
    cf = lambda v: base * anp.exp(a * anp.sum(v)) + anp.diag(v * v)  # noqa: E731
    cov = np.array(cf(x[dom])) if call else base
    mv = D.MultivariateNormal(loc, cf if call else base, domain=dom)
    want = float(multivariate_normal(loc, cov).logpdf(x[dom]))
    rec.close(float(mv.log_prob(x)), want, "density", atol=1e-8 * (1 + abs(want)), rtol=0, cov=cov, **wit)
    terms = [{"distribution_type": "normal", "args": [loc, fn if call else w], "kwargs": {"domain": dom}}]
    total = float(np.sum(norm.logpdf(x[dom], loc, sc)))
    if rng.random() < 0.6:
        terms.append({"distribution_type": "multivariatenormal", "args": [loc, cf if call else base], "kwargs": {"domain": dom}})
        total += want
    got = float(D.ConstraintModel(terms).log_prob(x))
    rec.close(got, total, "density", atol=1e-8 * (1 + abs(total)), rtol=0, cov=cov, terms=len(terms), **wit)
    lam = np.exp(rng.normal(1, 1.5, n))
    d = rng.poisson(lam)
    how = int(rng.integers(4))
    d = [d, d.astype(float), d.tolist(), d + rng.uniform(0, 1, n)][how]
    dd = np.asarray(d, dtype=float)
    want = dd * np.log(lam) - lam - gammaln(dd + 1)
    rec.close(D.Poisson(lam).log_prob(d), want, "density", atol=1e-9 * (1 + np.sum(dd)), rtol=0, lam=lam, data=d)
    A = rng.uniform(0.5, 2.0, n)
    models = {
        "poiss": (D.MainModel(lambda p: lam + p[0] * A), lambda p: float(np.sum(dd * np.log(lam + p[0] * A) - lam - p[0] * A - gammaln(dd + 1)))),
        "normal": (
            D.MainModel(lambda p: loc + p[0] * A, cov=(lambda p: w * anp.exp(a * p[0])) if call else w, pdf_type="normal"),
            lambda p: float(np.sum(norm.logpdf(dd, loc + p[0] * A, w * np.exp(a * p[0]) if call else w))),
        ),
        "multivariate_normal": (
            D.MainModel(lambda p: loc + p[0] * A, cov=(lambda p: base * anp.exp(a * p[0])) if call else base, pdf_type="multivariate_normal"),
            lambda p: float(multivariate_normal(loc + p[0] * A, base * np.exp(a * p[0]) if call else base).logpdf(dd)),
        ),
    }
    for name, (model, ref) in models.items():
        for mu in rng.uniform(0, 2, 2):
            p = np.array([mu])
            want = ref(p)
            rec.close(float(model.log_prob(p, np.array(d))), want, "density", atol=1e-8 * (1 + abs(want) + np.sum(dd)), rtol=0, main=name, mu=mu, data=d, **wit)
    rec.case(["dist", n, off, call, how, loc.tolist()], sample=wit)


def edges(rng, rec):
    """Empty signal bins, zero counts, tiny and huge yields, strong correlations, vanishing skew."""
    kind = ["ub", "cb", "tm", "es", "poi", "poiabs", "gau", "mvn"][rng.integers(8)]
    lo, hi = [(0.02, 0.5), (1e3, 1e5), (0.5, 20.0)][rng.integers(3)]
    spec = R.gen_spec(rng, kinds=[kind], scale=(lo, hi), rel=(0.01, 0.5), sb=(1e-4, 20.0), regime="zeros")
    if rng.random() < 0.3:
        spec["d"] = [0.0] * spec["n"]
    if kind == "tm" and rng.random() < 0.3:
        spec["m3"] = [0.0] * spec["n"]
    ref = R.Ref(spec)
    model = R.build(spec)
    for expected in EXPECTED:
        p = rand_point(rng, spec, ref, spread=0.5)
        if es_domain(ref, p):
            _compare(rec, model, spec, ref, p, expected, None)
    rec.case(spec_sig(spec, p.tolist()), sample={"spec": spec, "p": p})


def tiny(rng, rec):
    """Very small expected rates, down to 1e-12, with and without observed events in the bin."""
    kind = ["ub", "cb", "poi", "poiabs", "tm", "es"][rng.integers(6)]
    spec = R.gen_spec(rng, kinds=[kind], scale=(0.5, 30.0), zero_signal=False, modifiers=False, callable_sig=False)
    i = int(rng.integers(spec["n"]))
    lev = float(10.0 ** rng.uniform(-12, -2))
    f = lev / spec["b"][i]
    # shrink bin i coherently, so that the model stays the same up to the units of that bin
    spec["b"][i] = lev
    spec["s"][i] *= f
    spec["unc"][i] *= f
    if kind in ("cb", "tm"):
        c = np.array(spec["cov"])
        c[i, :] *= f
        c[:, i] *= f
        spec["cov"] = c.tolist()
    if kind == "tm":
        spec["m3"][i] *= f**3
    if kind == "es":
        spec["env"][i] = [x * f for x in spec["env"][i]]
    spec["d"][i] = float(rng.integers(0, 3))
    ref = R.Ref(spec)
    model = R.build(spec)
    some = False
    for _ in range(3):
        p = np.zeros(ref.npar)
        p[0] = rng.uniform(0.0, 4.0)
        p[ref.tsl] = rng.normal(0, 0.5, ref.nbkg)
        if not es_domain(ref, p) or np.any(ref.rates(p) < 1e-14) or np.any(ref.bkg(p) < 0.02 * ref.b):
            continue
        some = True
        _compare(rec, model, spec, ref, p, EXPECTED[rng.integers(3)], None)
    if not some:
        raise SkipCase("rates")
    rec.count("tiny:%d" % int(np.log10(lev)))
    rec.case(spec_sig(spec, p.tolist()), sample={"spec": spec, "p": p})


def large(rng, rec):
    """Many bins, in any units: determinants far outside the floating-point range, log-densities well inside it."""
    import spey.backends.distributions as D
    from autograd import numpy as anp

    kind = ["mvn", "mvn", "gau", "cb", "ub", "poi"][rng.integers(6)]
    spec = R.gen_spec(rng, kinds=[kind], nmin=20, nmax=90, modifiers=False, callable_sig=False)
    u = 1.0
    if kind in ("mvn", "gau"):
        u = float(10.0 ** rng.uniform(-7, 6))
        for k in ("b", "s", "d", "unc"):
            spec[k] = [v * u for v in spec[k]]
        if kind == "mvn":
            spec["cov"] = (np.array(spec["cov"]) * u * u).tolist()
    n = spec["n"]
    ref = R.Ref(spec)
    model = R.build(spec)
    p = np.zeros(ref.npar)
    for _ in range(2):
        p[0] = rng.uniform(0.0, 2.0)
        p[ref.tsl] = rng.normal(0, 0.7, ref.nbkg)
        if kind in ("cb", "ub") and np.any(ref.rates(p) <= 1e-3):
            p[ref.tsl] *= 0.1
        if kind in ("cb", "ub") and np.any(ref.rates(p) <= 1e-3):
            continue
        data = ref.data(EXPECTED[rng.integers(3)])
        want = ref.logpdf(p, data)
        got = float(model.backend.get_logpdf_func(data=data)(np.array(p)))
        rec.close(got, want, "density", atol=1e-8 * (abs(want) + 10 * n), rtol=0, bins=n, units=u, kind=kind, p0=p[0])
    if kind == "mvn":
        base = np.array(spec["cov"])
        a = float(rng.uniform(-0.3, 0.3))
        loc = np.array(spec["b"])
        x = np.array(spec["d"])
        m = D.MainModel(lambda q: loc * (1 + 0.1 * q[0]), cov=lambda q: base * anp.exp(a * q[0]), pdf_type="multivariate_normal")
        q = np.array([float(rng.uniform(0, 1))])
        r = x - loc * (1 + 0.1 * q[0])
        c = base * np.exp(a * q[0])
        want = float(-0.5 * r @ np.linalg.solve(c, r) - 0.5 * (n * np.log(2 * np.pi) + np.linalg.slogdet(c)[1]))
        rec.close(float(m.log_prob(q, x)), want, "density", atol=1e-8 * (abs(want) + 10 * n), rtol=0, bins=n, units=u, kind="parameter-dependent covariance")
        v = D.MultivariateNormal(loc, lambda w: base * (1 + 0.1 * anp.tanh(anp.sum(w) / u) ** 2))
        c = base * (1 + 0.1 * np.tanh(np.sum(x) / u) ** 2)
        r = x - loc
        want = float(-0.5 * r @ np.linalg.solve(c, r) - 0.5 * (n * np.log(2 * np.pi) + np.linalg.slogdet(c)[1]))
        rec.close(float(v.log_prob(x)), want, "density", atol=1e-8 * (abs(want) + 10 * n), rtol=0, bins=n, units=u, kind="value-dependent covariance")
    rec.count("large:" + kind)
    rec.case(["large", kind, n, u, spec["b"][:3]])


def profiled(rng, rec):
    """The public likelihood query returns the density at the parameters it reports."""
    spec = R.gen_spec(rng, zero_data=False)
    ref = R.Ref(spec)
    model = R.build(spec)
    expected = EXPECTED[rng.integers(3)]
    data, how = _data_choice(rng, spec, ref)
    mu = float(round(rng.uniform(0.0, 2.0), 3))
    val, pars = model.likelihood(mu, expected=expected, data=None if data is None else np.array(data), return_parameters=True)
    use = ref.data(expected) if data is None else np.asarray(data, dtype=float)
    pars = np.asarray(pars, dtype=float)
    if not es_domain(ref, pars, 1e-3) or (spec["kind"] not in ("gau", "mvn") and np.min(ref.rates(pars)) < 1e-6):
        raise SkipCase
    want = ref.nll(pars, use)
    rec.close(val, want, "query-density", atol=1e-10 * (abs(want) + float(np.sum(use)) + 10), rtol=0, spec=spec, mu=mu, expected=str(expected), data=data)
    lin = model.likelihood(mu, expected=expected, data=None if data is None else np.array(data), return_nll=False)
    rec.close(lin, np.exp(-want), "query-density-linear", atol=1e-300, rtol=1e-7 * (1 + abs(want)), spec=spec)
    rec.case(spec_sig(spec, mu, how, str(expected)), sample={"spec": spec, "mu": mu})


KINDS = {"point": point, "param_unc": param_unc, "dist": dist, "edges": edges, "tiny": tiny, "profiled": profiled, "large": large}
