"""C18: pseudo-experiments follow the model's own distribution."""
import math

import numpy as np
from scipy import stats as st

import refmodel as R
from props.common import EXPECTED, ET, LogTap, SkipCase, moderate, nice_spec, rand_point, spec_sig

RULE = (
    "distinct (model, configuration, parameter point or tested hypothesis, size) samples; every column's mean, variance and full distribution, "
    "every pair's covariance and the independence of consecutive draws are tested against the reference model's exact distribution"
)
PLAN = {
    "quick": {"direct": 900, "terms": 500, "shape": 1200, "fixed": 500, "independent": 300, "seeded": 500, "refuse": 60, "toys": 24},
    "thorough": {"direct": 9000, "terms": 6000, "shape": 12000, "fixed": 4500, "independent": 2600, "seeded": 4000, "refuse": 400, "toys": 300},
}
MINIMA = {"mon:mean": 1000, "mon:variance": 1000, "mon:law": 1000, "mon:covariance": 500, "mon:shape": 1500, "mon:seeded": 300, "mon:refused": 40, "draws": 2000000}
ASSUMPTIONS = [
    "a statistical deviation is reported beyond 8 standard deviations (mean, variance, covariance) or below a probability of 1e-13 (distribution), "
    "so that no choice of random stream raises an alarm; with 6000-20000 draws this resolves relative deviations of some percent",
    "main measurements of the pseudo-experiments at a hypothesis follow the conditional fit's parameters; auxiliary ones are centred at zero",
]
CASE_TIMEOUT = 120
Z = 8.0


def main_law(ref, spec, p):
    """(kind, location, covariance) of the main measurement."""
    loc = ref.rates(p)
    if spec["kind"] in ("gau", "mvn"):
        u = np.array(spec["unc"])
        cov = np.array(spec["cov"]) if spec["kind"] == "mvn" else np.diag(u**2)
        return "normal", loc, cov
    loc = np.clip(loc, 1e-20, None)
    return "poisson", loc, np.diag(loc)


def aux_law(ref, spec):
    """Covariance of the auxiliary measurements: background constraint, then unit normals of the modifiers."""
    k = spec["kind"]
    n = spec["n"]
    if k in ("poi", "poiabs", "gau", "mvn"):
        return None
    if k == "ub":
        c = np.eye(n)
    elif k == "cb":
        cov = np.array(spec["cov"])
        s = np.sqrt(np.diag(cov))
        c = cov / np.outer(s, s)
    elif k == "tm":
        c = R.ref_third_moment(spec["b"], spec["cov"], spec["m3"])[3]
    else:
        c = np.array(spec["corr"])
    m = sum(sl.stop - sl.start for _, _, _, sl in ref.mods)
    out = np.eye(n + m)
    out[:n, :n] = c
    return out


def judge(rec, x, kind, loc, cov, wit, tag=""):
    """x: (N, n) draws; all comparisons against exact moments and laws."""
    N, n = x.shape
    rec.count("draws", N * n)
    if not rec.check(bool(np.all(np.isfinite(x))), "finite", f"{tag}draws are not finite", **wit):
        return
    var = np.diag(cov)
    if kind == "poisson":
        rec.check(bool(np.all(x >= 0) and np.all(x == np.round(x))), "integers", f"{tag}Poisson draws are not counts", **wit)
    mean, s2 = x.mean(0), x.var(0, ddof=1)
    for i in range(n):
        if kind == "poisson" and loc[i] * N < 100:
            # too few events for normal approximations: exact law of the total
            t = x[:, i].sum()
            pr = min(st.poisson.cdf(t, loc[i] * N), st.poisson.sf(t - 1, loc[i] * N))
            rec.check(pr > 1e-14, "mean", f"{tag}wrong mean", bin=i, got_mean=mean[i], want_mean=loc[i], draws=N, **wit)
            continue
        rec.check(abs(mean[i] - loc[i]) <= Z * math.sqrt(var[i] / N), "mean", f"{tag}wrong mean", bin=i, got_mean=mean[i], want_mean=loc[i], draws=N, **wit)
        m4 = var[i] + 3 * var[i] ** 2 if kind == "poisson" else 3 * var[i] ** 2
        sv = math.sqrt((m4 - var[i] ** 2) / N)
        zz = Z if kind == "normal" or loc[i] > 5 else 2 * Z
        rec.check(abs(s2[i] - var[i]) <= zz * sv, "variance", f"{tag}wrong variance", bin=i, got_var=s2[i], want_var=var[i], draws=N, **wit)
        if kind == "normal":
            d = st.kstest((x[:, i] - loc[i]) / math.sqrt(var[i]), "norm").statistic
            rec.check(d * math.sqrt(N) < 3.95, "law", f"{tag}not normally distributed", bin=i, ks=d * math.sqrt(N), draws=N, **wit)
        else:
            lo, hi = st.poisson.ppf([1e-4, 1 - 1e-4], loc[i])
            edges = np.unique(np.round(np.linspace(max(lo, 0), hi, 25)))
            cdf = st.poisson.cdf(edges, loc[i])
            pr = np.diff(np.concatenate([[0.0], cdf, [1.0]]))
            ob = np.diff(np.concatenate([[0], [np.count_nonzero(x[:, i] <= e) for e in edges], [N]]))
            # merge sparse cells
            P, O, ap, ao = [], [], 0.0, 0
            for a, b in zip(pr, ob):
                ap, ao = ap + a, ao + b
                if ap * N >= 25:
                    P.append(ap)
                    O.append(ao)
                    ap, ao = 0.0, 0
            if P and len(P) > 1:
                P[-1] += ap
                O[-1] += ao
                P, O = np.array(P), np.array(O)
                chi = float(np.sum((O - N * P) ** 2 / (N * P)))
                rec.check(st.chi2.sf(chi, len(P) - 1) > 1e-13, "law", f"{tag}not Poisson distributed", bin=i, chi2=chi, cells=len(P), draws=N, **wit)
        if N > 500:
            y = x[:, i] - loc[i]
            r = float(np.mean(y[1:] * y[:-1])) / var[i]
            rec.check(abs(r) <= Z / math.sqrt(N) * (1 + (3 / math.sqrt(loc[i]) if kind == "poisson" else 0)), "independent-draws", f"{tag}consecutive draws are correlated", bin=i, corr=r, draws=N, **wit)
    c = np.cov(x.T).reshape(n, n)
    for i in range(n):
        for j in range(i):
            if kind == "poisson" and min(loc[i], loc[j]) * N < 2000:
                continue
            s = math.sqrt((var[i] * var[j] + cov[i, j] ** 2) / N)
            rec.check(abs(c[i, j] - cov[i, j]) <= Z * s, "covariance", f"{tag}wrong covariance", bins=[i, j], got_cov=c[i, j], want_cov=cov[i, j], draws=N, **wit)


def check_aux(rec, aux, cov, wit):
    rec.check(aux.shape[1] == len(cov), "shape", "wrong number of auxiliary measurements", got_shape=aux.shape, want_n=len(cov), **wit)
    if aux.shape[1] == len(cov):
        judge(rec, aux, "normal", np.zeros(len(cov)), cov, wit, "auxiliary: ")


def cross(rec, main, aux, loc, var, wit):
    """Main and auxiliary measurements are independent."""
    N = len(main)
    a = (main - loc) / np.sqrt(var)
    r = a.T @ aux / N
    for i in range(a.shape[1]):
        if loc[i] * N > 2000:
            rec.check(bool(np.all(np.abs(r[i]) <= Z / math.sqrt(N) * 1.2)), "covariance", "main and auxiliary draws are correlated", bin=i, corr=r[i], **wit)


def direct(rng, rec):
    """Samplers at arbitrary parameter points, every kind and option."""
    spec = R.gen_spec(rng)
    if rng.random() < 0.15 and spec["kind"] in ("gau", "mvn"):
        spec["uncfn"] = False
    ref = R.Ref(spec)
    m = R.build(spec)
    p = rand_point(rng, spec, ref)
    N = 20000 if rng.random() < 0.3 else 6000
    np.random.seed(int(rng.integers(2**31)))
    kind, loc, cov = main_law(ref, spec, p)
    wit = dict(spec=spec, pars=p)
    rec.case(spec_sig(spec, "direct", p[0], N), True)
    acov = aux_law(ref, spec)
    sampler = m.backend.get_sampler(np.array(p))
    x = np.asarray(sampler(N), dtype=float)
    n = spec["n"]
    if not rec.check(x.shape == (N, n + (0 if acov is None else len(acov))), "shape", "wrong sample shape", got_shape=x.shape, draws=N, **wit):
        return
    judge(rec, x[:, :n], kind, loc, cov, wit)
    if acov is not None:
        check_aux(rec, x[:, n:], acov, wit)
        cross(rec, x[:, :n], x[:, n:], loc, np.diag(cov), wit)
        y = np.asarray(sampler(50, include_auxiliary=False), dtype=float)
        rec.check(y.shape == (50, n), "shape", "auxiliary measurements were not left out", got_shape=y.shape, **wit)


def terms(rng, rec):
    """The distribution classes themselves: several terms with own centres, domains and parameter-dependent widths."""
    import spey.backends.distributions as D

    npar = int(rng.integers(2, 9))
    x = rng.normal(0, 1.0, npar)
    desc, locs, covs = [], [], []
    for _ in range(int(rng.integers(1, 5))):
        n = int(rng.integers(1, min(4, npar) + 1))
        off = int(rng.integers(0, npar - n + 1))
        dom = [slice(off, off + n), np.arange(off, off + n)][rng.integers(2)]
        loc, w = rng.normal(0, 4, n), rng.uniform(0.3, 3.0, n)
        call = rng.random() < 0.5
        if rng.random() < 0.5:
            sc = (lambda v, w=w: w * np.exp(0.3 * np.asarray(v))) if call else w
            cov = np.diag((sc(x[off : off + n]) if call else w) ** 2)
            desc.append({"distribution_type": "normal", "args": [loc, sc], "kwargs": {"domain": dom}})
        else:
            g = rng.normal(size=(n, n + 1))
            base = g @ g.T / (n + 1) + 0.2 * np.diag(w)
            sc = (lambda v, base=base: base * np.exp(0.3 * np.sum(v)) + np.diag(np.asarray(v) ** 2)) if call else base
            cov = sc(x[off : off + n]) if call else base
            desc.append({"distribution_type": "multivariatenormal", "args": [loc, sc], "kwargs": {"domain": dom}})
        locs.append(loc)
        covs.append(cov)
    N = 6000
    loc = np.concatenate(locs)
    cov = np.zeros((len(loc), len(loc)))
    k = 0
    for c in covs:
        cov[k : k + len(c), k : k + len(c)] = c
        k += len(c)
    wit = dict(terms=[(d["distribution_type"], str(d["kwargs"]["domain"])) for d in desc], pars=x, centre=loc)
    rec.case(["terms", npar, [d["distribution_type"] for d in desc], loc.round(9).tolist()], True)
    model = D.ConstraintModel(desc)
    np.random.seed(int(rng.integers(2**31)))
    y = np.asarray(model.sample(x, N), dtype=float)
    if rec.check(y.shape == (N, len(loc)), "shape", "wrong sample shape", got_shape=y.shape, want_n=len(loc), **wit):
        judge(rec, y, "normal", loc, cov, wit, "terms: ")
    e = np.asarray(model.expected_data(), dtype=float)
    rec.check(e.shape == loc.shape and bool(np.allclose(e, loc)), "shape", "expected auxiliary data and samples have different layouts", got=e, **wit)


def shape(rng, rec):
    """Every configuration can be sampled, at any size, with the documented shape."""
    spec = R.gen_spec(rng, nmax=6)
    ref = R.Ref(spec)
    m = R.build(spec)
    p = rand_point(rng, spec, ref)
    N = int([1, 2, 3, 7, 100][rng.integers(5)])
    np.random.seed(int(rng.integers(2**31)))
    rec.case(spec_sig(spec, "shape", N), True)
    wit = dict(spec=spec, pars=p, size=N)
    sampler = m.backend.get_sampler(np.array(p))
    acov = aux_law(ref, spec)
    w = spec["n"] + (0 if acov is None else len(acov))
    a = [np.asarray(sampler(N), dtype=float) for _ in range(2)]
    for x in a:
        rec.check(x.shape == (N, w) and bool(np.all(np.isfinite(x))), "shape", "wrong sample shape or content", got_shape=x.shape, want_shape=(N, w), **wit)
    if N >= 7 and np.max(ref.rates(p)) > 0.5:
        rec.check(not np.array_equal(a[0], a[1]), "independent-draws", "two calls return the same draws", **wit)
    e = np.asarray(m.backend.expected_data(np.array(p)), dtype=float)
    rec.check(e.shape == (w,), "shape", "samples and expected data have different layouts", got_shape=e.shape, want_n=w, **wit)
    # a sample is usable as data
    f = m.backend.get_logpdf_func(data=a[0][0])
    rec.check(math.isfinite(float(f(np.array(p)))), "usable", "a pseudo-experiment cannot be evaluated", sample=a[0][0], **wit)
    rec.check(bool(m.is_toy_calculator_available), "available", "sampling is offered but reported unavailable", **wit)


def _hypothesis(rng, m, spec, ref):
    mu = float(round(rng.uniform(0.0, 2.0), 3))
    names = m.backend.config().parameter_names
    t = rng.integers(4)
    if t == 0 and ref.npar > 1:
        i = int(rng.integers(1, ref.npar))
        return {0: mu, i: float(round(rng.uniform(-0.5, 0.5), 3))}, mu
    if t == 1 and names and ref.npar > 1:
        i = int(rng.integers(1, ref.npar))
        return {names[0]: mu, names[i]: 0.25}, mu
    return mu, mu


def fixed(rng, rec):
    """Sampling at a hypothesis: the main measurement follows the model's own conditional fit."""
    spec = nice_spec(rng, modifiers=None, callable_sig=None) if rng.random() < 0.6 else R.gen_spec(rng, zero_data=False)
    ref = R.Ref(spec)
    m = R.build(spec)
    exp = EXPECTED[rng.integers(3)]
    poi, mu = _hypothesis(rng, m, spec, ref)
    N = 6000
    with LogTap() as tap:
        nll, p = m.likelihood(poi, expected=exp, return_parameters=True)
    if tap.unconverged():
        raise SkipCase("not converged")
    p = np.asarray(p, dtype=float)
    np.random.seed(int(rng.integers(2**31)))
    wit = dict(spec=spec, hypothesis=str(poi), expected=str(exp), pars=p)
    rec.case(spec_sig(spec, "fixed", str(poi), str(exp)), True)
    if rng.random() < 0.5:
        x = m.fixed_poi_sampler(poi, size=N, expected=exp)
    else:
        f = m.fixed_poi_sampler(poi, expected=exp)
        if not rec.check(callable(f), "callable", "no sampler is returned without a size", **wit):
            return
        x = f(N)
    x = np.asarray(x, dtype=float)
    kind, loc, cov = main_law(ref, spec, p)
    acov = aux_law(ref, spec)
    n = spec["n"]
    if rec.check(x.shape == (N, n + (0 if acov is None else len(acov))), "shape", "wrong sample shape", got_shape=x.shape, **wit):
        judge(rec, x[:, :n], kind, loc, cov, wit)
        if acov is not None:
            check_aux(rec, x[:, n:], acov, wit)


def independent(rng, rec):
    """... and the conditional fit is the documented one (independent optimum, regular domain)."""
    spec = nice_spec(rng, zero_signal=False, sb=(0.3, 1.0), rel=(0.1, 0.3))
    if spec["kind"] == "poiabs":
        raise SkipCase("degenerate")
    ref = R.Ref(spec)
    m = R.build(spec)
    exp = EXPECTED[rng.integers(3)]
    data = ref.data(exp)
    mu = float(round(rng.uniform(0.0, 2.5), 3))
    o = ref.optimum(data, fixed={0: mu}, tries=2)
    if o is None or not moderate(ref, o[1], data):
        raise SkipCase("irregular")
    N = 6000
    np.random.seed(int(rng.integers(2**31)))
    x = np.asarray(m.fixed_poi_sampler(mu, size=N, expected=exp), dtype=float)[:, : spec["n"]]
    kind, loc, cov = main_law(ref, spec, o[1])
    rec.case(spec_sig(spec, "indep", mu, str(exp)), True)
    s = np.sqrt(np.diag(cov))
    slack = 0.07 * np.array(spec["unc"]) if ref.nbkg else 1e-6 * np.ones(spec["n"])
    d = np.abs(x.mean(0) - loc)
    rec.check(bool(np.all(d <= Z * s / math.sqrt(N) + slack)), "mean-independent", "pseudo-experiments are not drawn at the conditional fit", got_mean=x.mean(0), want_mean=loc, spec=spec, mu=mu, expected=str(exp))


def seeded(rng, rec):
    spec = R.gen_spec(rng)
    ref = R.Ref(spec)
    m = R.build(spec)
    other = R.build(spec)
    p = rand_point(rng, spec, ref)
    seed = int(rng.integers(2**31))
    N = int(rng.integers(1, 60))
    rec.case(spec_sig(spec, "seed", seed, N), True)
    out = []
    for mm in (m, m, other):
        np.random.seed(seed)
        out.append(np.asarray(mm.backend.get_sampler(np.array(p))(N), dtype=float))
    wit = dict(spec=spec, pars=p, seed=seed, size=N)
    rec.check(np.array_equal(out[0], out[1]) and np.array_equal(out[0], out[2]), "seeded", "a seeded global generator does not reproduce the draws", **wit)
    if rng.random() < 0.4:
        mu = float(round(rng.uniform(0, 1.5), 3))
        r = []
        for mm in (m, other):
            np.random.seed(seed)
            r.append(np.asarray(mm.fixed_poi_sampler(mu, size=N), dtype=float))
        rec.check(np.array_equal(r[0], r[1]), "seeded", "a seeded global generator does not reproduce the pseudo-experiments", mu=mu, **wit)
    # drawing leaves the model unchanged
    f = m.backend.get_logpdf_func()
    g = other.backend.get_logpdf_func()
    rec.check(float(f(np.array(p))) == float(g(np.array(p))), "seeded", "drawing changes the model", **wit)


def refuse(rng, rec):
    from spey import BackendBase, UnCorrStatisticsCombiner
    from spey.interface.statistical_model import StatisticalModel
    from spey.system.exceptions import CalculatorNotAvailable, MethodNotAvailable

    spec = nice_spec(rng)
    inner = R.build(spec).backend

    class NoSampler(BackendBase):
        name, version, author, spey_requires = "verif.nosampler", "1.0.0", "verif", ">=0.0.0"

        @property
        def is_alive(self):
            return inner.is_alive

        def config(self, *a, **k):
            return inner.config(*a, **k)

        def get_logpdf_func(self, *a, **k):
            return inner.get_logpdf_func(*a, **k)

        def expected_data(self, *a, **k):
            return inner.expected_data(*a, **k)

    m = StatisticalModel(backend=NoSampler(), analysis="x")
    rec.case(spec_sig(spec, "refuse"), True)
    mu = float(round(rng.uniform(0.1, 1.0), 2))
    for what, fn, err in (
        ("sampler", lambda: m.fixed_poi_sampler(mu, size=3), MethodNotAvailable),
        ("sampler without size", lambda: m.fixed_poi_sampler(mu), MethodNotAvailable),
        ("toys", lambda: m.exclusion_confidence_level(mu, calculator="toy"), CalculatorNotAvailable),
    ):
        try:
            out = fn()
        except Exception as e:  # noqa: BLE001
            rec.check(isinstance(e, err), "refused", f"{what}: refused with another error than documented", error=repr(e))
        else:
            rec.violate("accepted", f"{what}: a model without sampling was sampled", result=repr(out)[:200])
    rec.check(not m.is_toy_calculator_available and "toy" not in m.available_calculators, "refused", "toys are reported available without a sampler", got=m.available_calculators)
    a, b = R.build(spec, analysis="a"), R.build(nice_spec(rng), analysis="b")
    c = UnCorrStatisticsCombiner(a, b)
    rec.check(not c.is_toy_calculator_available, "refused", "toys are reported available for a combination")
    for fn in (lambda: c.fixed_poi_sampler(mu, size=3), lambda: c.exclusion_confidence_level(mu, calculator="toy")):
        try:
            fn()
        except (NotImplementedError, MethodNotAvailable, CalculatorNotAvailable):
            rec.check(True, "refused", "")
        else:
            rec.violate("accepted", "a combination was sampled")


def toys(rng, rec):
    """The toys actually drawn by an exclusion computation: signal toys at the tested strength, background toys at zero."""
    spec = nice_spec(rng, kinds=["ub", "cb", "poi", "gau"], sb=(0.6, 1.5), scale=(8.0, 60.0), rel=(0.05, 0.12))
    spec["s"] = [x if x > 0 else 0.6 * b for x, b in zip(spec["s"], spec["b"])]
    ref = R.Ref(spec)
    m = R.build(spec, ntoys=40)
    exp = [ET.observed, ET.apriori][rng.integers(2)]
    mu = float(round(rng.uniform(1.0, 1.6), 2))
    data = ref.data(exp)
    drawn = []
    cls = type(m)
    orig = cls.fixed_poi_sampler

    def spy(self, poi_test, size=None, **kw):
        s = orig(self, poi_test, size=size, **kw)
        if size is not None:
            drawn.append((float(poi_test), np.asarray(s, dtype=float)))
            return s

        def f(k):
            out = s(k)
            drawn.append((float(poi_test), np.asarray(out, dtype=float)))
            return out

        return f

    np.random.seed(int(rng.integers(2**31)))
    cls.fixed_poi_sampler = spy
    try:
        with LogTap():
            m.exclusion_confidence_level(mu, expected=exp, calculator="toy")
    finally:
        cls.fixed_poi_sampler = orig
    rec.case(spec_sig(spec, "toys", mu, str(exp)), True)
    tot = {}
    for v, x in drawn:
        tot.setdefault(v, []).append(np.atleast_2d(x)[:, : spec["n"]])
    wit = dict(spec=spec, mu=mu, expected=str(exp))
    rec.check(set(tot) == {0.0, mu}, "toys", "toys are drawn at other hypotheses than tested and background", got=sorted(tot), **wit)
    for v, xs in tot.items():
        x = np.vstack(xs)
        rec.check(len(x) == 40, "toys", "wrong number of toys", got=len(x), hypothesis=v, **wit)
        o = ref.optimum(data, fixed={0: v}, tries=2)
        if not moderate(ref, o[1], data):
            continue
        kind, loc, cov = main_law(ref, spec, o[1])
        slack = 0.07 * np.array(spec["unc"])
        rec.check(bool(np.all(np.abs(x.mean(0) - loc) <= 7 * np.sqrt(np.diag(cov) / len(x)) + slack)), "toys", "toys are not drawn at their hypothesis", hypothesis=v, got_mean=x.mean(0), want_mean=loc, **wit)


KINDS = {f.__name__: f for f in (direct, terms, shape, fixed, independent, seeded, refuse, toys)}
