"""C16: skewed-background expansion, third moments and covariance helpers."""
import math

import numpy as np
from scipy.integrate import quad

import refmodel as R
from props.common import LogTap, SkipCase

RULE = (
    "distinct (number of bins, scale decade, skew classes, correlation signs) expansions, envelope pairs, conversions and bin groupings, "
    "counted by input; moments are recomputed from the returned coefficients"
)
PLAN = {
    "quick": {"expansion": 2500, "inadmissible": 700, "third": 900, "convert": 1200, "merge": 2500, "reject": 700, "models": 250},
    "thorough": {"expansion": 90000, "inadmissible": 20000, "third": 25000, "convert": 40000, "merge": 90000, "reject": 20000, "models": 9000},
}
MINIMA = {"mon:mean": 2000, "mon:covariance": 1500, "mon:skew": 2000, "mon:third": 1500, "mon:merge": 2000, "mon:refused": 400, "mon:roundtrip": 1000}
ASSUMPTIONS = [
    "the expansion's covariance is demanded wherever the documented equations have a real solution (B_i^2 B_j^2 + 8 C_i C_j cov_ij >= 0)",
    "third moments: the documented bifurcated-Gaussian integral, in closed form, to 1e-6 relative to the size of its two terms",
]


def _problem(rng, n=None, maxskew=1.0):
    n = n or int(rng.integers(1, 6))
    scale = 10.0 ** rng.uniform(-4, 7)
    u = scale * 10.0 ** rng.uniform(-1.0, 1.0, n) if rng.random() < 0.6 else 10.0 ** rng.uniform(-4, 7, n)
    mean = u * rng.uniform(0.5, 30, n)
    corr = R.rand_corr(rng, n)
    cov = corr * np.outer(u, u)
    cov = (cov + cov.T) / 2
    v = np.diag(cov)
    f = rng.uniform(-1, 1, n) * maxskew
    t = rng.integers(6)
    if t == 0:
        f = np.sign(f) * 10.0 ** rng.uniform(-12, -2, n)
    elif t == 1:
        f[rng.integers(n)] = 0.0
    elif t == 2 and maxskew == 1.0:
        f[rng.integers(n)] = rng.choice([1.0, -1.0])
    elif t == 3:
        f = np.abs(f) * (1 if rng.random() < 0.5 else -1)
    return mean, cov, f * np.sqrt(8.0 * v**3), f


def _moments(A, B, C, rho):
    """Mean, covariance and third central moments of A + B t + C t^2 with unit-normal t correlated by rho."""
    bb, cc = np.outer(B, B), np.outer(C, C)
    return A + C, rho * bb + 2 * rho**2 * cc, 6 * B**2 * C + 8 * C**3


def _judge(rec, mean, cov, m3, out, wit, ok=None):
    A, B, C = (np.asarray(x, dtype=float) for x in out[:3])
    rho = np.asarray(out[3], dtype=float)
    v = np.diag(cov)
    sd = np.sqrt(v)
    rec.check(all(x.shape == v.shape for x in (A, B, C)) and rho.shape == cov.shape, "shape", "coefficients have the wrong shape", got=[A, B, C], **wit)
    m, c, t = _moments(A, B, C, rho)
    rec.check(bool(np.all(np.abs(m - mean) <= 1e-9 * (np.abs(mean) + sd))), "mean", "expansion does not reproduce the mean", got=m, **wit)
    rec.check(bool(np.all(np.abs(np.diag(c) - v) <= 1e-7 * v)), "variance", "expansion does not reproduce the variances", got=np.diag(c), **wit)
    rec.check(bool(np.all(np.abs(t - m3) <= 1e-6 * np.sqrt(8 * v**3))), "skew", "expansion does not reproduce the third moments", got=t, **wit)
    rec.check(bool(np.all(np.abs(np.diag(rho) - 1) <= 1e-6)), "unit", "nuisance parameters are not unit normal", rho=rho, **wit)
    real = np.outer(B, B) ** 2 + 8 * np.outer(C, C) * cov >= 1e-9 * np.outer(v, v)
    err = np.abs(c - cov) <= 1e-6 * np.outer(sd, sd)
    rec.count("covariance-elements", int(real.sum()))
    rec.check(bool(np.all(err | ~real)), "covariance", "expansion does not reproduce the covariance", got=c, **wit)
    rec.check(bool(np.array_equal(rho, rho.T)), "symmetric", "correlation matrix is not symmetric", rho=rho, **wit)


def expansion(rng, rec):
    from spey.backends.default_pdf.third_moment import third_moment_expansion

    mean, cov, m3, f = _problem(rng)
    ints = rng.random() < 0.2 and np.min(np.diag(cov)) > 50 and np.max(np.abs(m3)) < 9e18 and np.max(cov) < 9e18
    if ints:  # integer-valued moments, in a type that holds them exactly
        mean, cov, m3 = np.round(mean), np.round(cov), np.trunc(m3 * 0.97)
        f = m3 / np.sqrt(8.0 * np.diag(cov) ** 3)
    wit = dict(expectation=mean, cov=cov, third=m3, integers=ints)
    rec.case([len(mean), mean.tolist(), f.tolist(), ints], bool(np.any(f != 0)))
    args = [mean.copy(), cov.copy(), m3.copy()]
    if ints:
        small = rng.random() < 0.5 and max(np.max(np.abs(m3)), np.max(np.abs(cov)), np.max(mean)) < 2e9
        args = [x.astype(np.int32 if small else np.int64) for x in args]
        rec.count("integer-inputs")
    with LogTap() as tap:
        out = third_moment_expansion(*args, return_correlation_matrix=True)
        three = third_moment_expansion(*args)
    rec.check(len(out) == 4 and len(three) == 3, "shape", "wrong number of results", **wit)
    rec.check(all(np.array_equal(x, y) for x, y in zip(out, three)), "shape", "coefficients depend on return_correlation_matrix", **wit)
    rec.check(all(np.array_equal(x, y) for x, y in zip(args, (mean, cov, m3))), "mutated", "inputs were modified", **wit)
    v = np.diag(cov)
    if np.all(8 * v**3 >= m3**2):
        _judge(rec, mean, cov, m3, out, wit)
        rec.check(not tap.msgs, "warning", "admissible third moments raise a warning", log=tap.msgs, **wit)
        # an independent solution of the same equations
        try:
            A, B, C, rho = R.ref_third_moment(mean, cov, m3)
        except ValueError:
            return
        sd = np.sqrt(v)
        tol = 1e-5 if np.max(np.abs(f)) > 0.999 else 1e-7
        rec.check(bool(np.all(np.abs(C - out[2]) <= tol * sd) and np.all(np.abs(A - out[0]) <= tol * (sd + mean))), "solution", "coefficients differ from the independent solution", got=out[:3], want=[A, B, C], **wit)


def inadmissible(rng, rec):
    from spey.backends.default_pdf.third_moment import third_moment_expansion

    mean, cov, m3, f = _problem(rng, maxskew=0.7)
    n = len(mean)
    bad = rng.random(n) < 0.5
    bad[rng.integers(n)] = True
    v = np.diag(cov)
    m3 = np.where(bad, np.sign(f + (f == 0)) * np.sqrt(8 * v**3) * (1 + 10.0 ** rng.uniform(-3, 3, n)), m3)
    wit = dict(expectation=mean, cov=cov, third=m3)
    rec.case([n, mean.tolist(), bad.tolist()], True)
    with LogTap() as tap:
        out = third_moment_expansion(mean, cov, m3, return_correlation_matrix=True)
    rec.check(len(tap.msgs) > 0, "refused", "inadmissible third moments are replaced without a warning", **wit)
    _judge(rec, mean, cov, np.where(bad, 0.0, m3), out, wit)


def third(rng, rec):
    from spey.backends.default_pdf.third_moment import compute_third_moments

    n = int(rng.integers(1, 5))
    scale = 10.0 ** rng.uniform(-6, 7)
    up = scale * 10.0 ** rng.uniform(-1, 1, n)
    lo = up * 10.0 ** rng.uniform(-1.5, 1.5, n)
    if rng.random() < 0.2:
        lo = up.copy()
    if rng.random() < 0.2:
        up, lo = 10.0 ** rng.uniform(-6, 7, n), 10.0 ** rng.uniform(-6, 7, n)
        r = np.clip(np.log10(lo / up), -3, 3)
        lo = up * 10**r
    sgn = -1.0 if rng.random() < 0.5 else 1.0
    wit = dict(upper=up, lower=sgn * lo)
    rec.case([up.tolist(), lo.tolist(), sgn], bool(np.any(up != lo)))
    conv = [np.array, list, tuple][rng.integers(3)]
    a, b = conv(up.tolist()), conv((sgn * lo).tolist())
    got = np.asarray(compute_third_moments(a, b), dtype=float)
    two = compute_third_moments(a, b, return_integration_error=True)
    k = 4.0 / math.sqrt(2 * math.pi)
    want = k / (up + lo) * (up**4 - lo**4)
    size = k * (up**4 + lo**4) / (up + lo)
    rec.check(got.shape == (n,) and bool(np.all(np.abs(got - want) <= 1e-6 * size)), "third", "third moment differs from the bifurcated Gaussian's", got=got, want=want, **wit)
    rec.check(len(two) == 2 and np.array_equal(two[0], got) and len(two[1]) == n, "third-error", "integration error form disagrees", got=two, **wit)
    rec.check(bool(np.all(np.asarray(two[1]) >= 0)) and bool(np.all(np.asarray(two[1]) <= 1e-3 * size)), "third", "reported integration errors are implausible", got=two[1], **wit)
    # antisymmetry and sign
    rev = np.asarray(compute_third_moments(np.abs(np.asarray(b)), a), dtype=float)
    rec.check(bool(np.all(np.abs(rev + got) <= 1e-6 * size)), "third", "exchanging the envelopes does not flip the sign", got=[got, rev], **wit)


def convert(rng, rec):
    from spey.helper_functions import correlation_to_covariance, covariance_to_correlation

    n = int(rng.integers(1, 8))
    corr = R.rand_corr(rng, n)
    sd = 10.0 ** rng.uniform(-5, 6, n)
    rec.case([corr.tolist(), sd.tolist()], n > 1)
    wit = dict(corr=corr, sd=sd)
    c0, s0 = corr.copy(), sd.copy()
    cov = np.asarray(correlation_to_covariance(corr, sd))
    rec.check(bool(np.all(np.abs(cov - corr * np.outer(sd, sd)) <= 1e-12 * np.outer(sd, sd))), "covariance-of", "covariance differs from its definition", got=cov, **wit)
    cc = cov.copy()
    back = np.asarray(covariance_to_correlation(cov))
    rec.check(bool(np.all(np.abs(back - corr) <= 1e-12)), "roundtrip", "correlation is not recovered", got=back, **wit)
    rec.check(np.array_equal(corr, c0) and np.array_equal(sd, s0) and np.array_equal(cov, cc), "mutated", "inputs were modified", **wit)
    lst = np.asarray(correlation_to_covariance(corr.tolist(), sd.tolist()))
    rec.check(np.allclose(lst, cov, rtol=1e-12, atol=0), "covariance-of", "lists and arrays convert differently", **wit)
    # any covariance: back and forth
    a = rng.normal(size=(n, n + 1)) * sd[:, None]
    cov = a @ a.T
    s = np.sqrt(np.diag(cov))
    rho = np.asarray(covariance_to_correlation(cov))
    again = np.asarray(correlation_to_covariance(rho, s))
    rec.check(bool(np.all(np.abs(again - cov) <= 1e-11 * np.outer(s, s))), "roundtrip", "covariance is not recovered", got=again, cov=cov)
    rec.check(bool(np.all(np.abs(np.diag(rho) - 1) <= 1e-12)) and bool(np.all(np.abs(rho) <= 1 + 1e-12)), "roundtrip", "not a correlation matrix", got=rho, cov=cov)


def _groups(rng, n):
    k = int(rng.integers(0, n + 1))
    idx = rng.permutation(n)[:k].tolist()
    groups = []
    while idx:
        m = int(rng.integers(1, len(idx) + 1))
        groups.append([int(i) for i in idx[:m]])
        idx = idx[m:]
    return groups


def merge(rng, rec):
    from spey.helper_functions import merge_correlated_bins

    n = int(rng.integers(1, 9))
    many = rng.random() < 0.1  # many bins, few of them left alone
    if many:
        n = int(rng.integers(15, 60))
    b = 10.0 ** rng.uniform(-2, 5, n)
    d = rng.integers(0, 1000, n).astype(float if rng.random() < 0.5 else int)
    s = 10.0 ** rng.uniform(-3, 3, n) if rng.random() < 0.6 else None
    if s is not None and rng.random() < 0.4:
        s = s * rng.choice([-1.0, 0.0, 1.0, 1.0], n)  # interference and empty signal bins
    a = rng.normal(size=(n, n + 1)) * b[:, None] * 0.3
    cov = a @ a.T
    if rng.random() < 0.2:
        cov = cov + np.triu(rng.normal(size=(n, n)), 1) * 1e-3  # not symmetric: conserved all the same
    groups = _groups(rng, n)
    if many:
        idx = rng.permutation(n).tolist()
        cut = sorted(rng.choice(np.arange(1, n - 2), int(rng.integers(1, 5)), replace=False).tolist()) + [n - int(rng.integers(0, 7))]
        groups = [[int(k) for k in idx[lo:hi]] for lo, hi in zip([0] + cut, cut) if hi > lo]
    neg = rng.random() < 0.3
    asked = [[(i - n if neg and rng.random() < 0.4 else i) for i in g] for g in groups]
    idx = bool(rng.random() < 0.7)
    rec.case([n, asked, s is not None], bool(groups) and max(map(len, groups)) > 1)
    wit = dict(background=b, data=d, cov=cov, groups=asked, signal=s)
    ins = [b.copy(), d.copy(), cov.copy(), [list(g) for g in asked], None if s is None else s.copy()]
    kw = {} if s is None else {"signal_yields": ins[4]}
    if idx or rng.random() < 0.5:
        kw["return_group_indices"] = idx
    res = merge_correlated_bins(ins[0], ins[1], ins[2], ins[3], **kw)
    rec.check(
        all(np.array_equal(x, y) for x, y in zip(ins[:3], (b, d, cov))) and ins[3] == asked and (s is None or np.array_equal(ins[4], s)),
        "mutated", "inputs were modified", **wit,
    )
    full = groups + [[i] for i in sorted(set(range(n)) - {i for g in groups for i in g})]
    m = len(full)
    want = {"background_yields", "data", "covariance_matrix"} | ({"signal_yields"} if s is not None else set()) | ({"group_indices"} if idx else set())
    rec.check(set(res) == want, "keys", "reported fields differ from the documented ones", got=sorted(res), **wit)
    nb, nd, nc = (np.asarray(res[k], dtype=float) for k in ("background_yields", "data", "covariance_matrix"))
    rec.check(nb.shape == nd.shape == (m,) and nc.shape == (m, m), "merge", "wrong number of merged bins", got=res, **wit)
    rec.check(math.isclose(nb.sum(), b.sum(), rel_tol=1e-12) and math.isclose(nd.sum(), d.sum(), rel_tol=1e-12), "merge", "totals are not conserved", got=res, **wit)
    rec.check(abs(nc.sum() - cov.sum()) <= 1e-9 * np.abs(cov).sum(), "merge", "total variance is not conserved", got=res, **wit)
    sd = np.sqrt(np.diag(cov))
    for i, gi in enumerate(full):
        rec.check(math.isclose(nb[i], sum(b[k] for k in gi), rel_tol=1e-12) and math.isclose(nd[i], sum(d[k] for k in gi), rel_tol=1e-12, abs_tol=1e-12), "merge", "merged yield is not the sum of its bins", bin=i, got=res, **wit)
        if s is not None:
            rec.check(math.isclose(float(res["signal_yields"][i]), sum(s[k] for k in gi), rel_tol=1e-12, abs_tol=1e-12 * sum(abs(s[k]) for k in gi)), "merge", "merged signal is not the sum of its bins", bin=i, got=res, **wit)
        for j, gj in enumerate(full):
            w = sum(cov[k, l] for k in gi for l in gj)
            rec.check(abs(nc[i, j] - w) <= 1e-10 * sum(sd[gi]) * sum(sd[gj]), "merge", "merged covariance is not the sum of its entries", bins=[i, j], got=res, **wit)
    if idx:
        got = [[int(k) % n for k in g] for g in res["group_indices"]]
        rec.check(got == full, "groups", "reported grouping differs", got=got, want=full, **wit)


def reject(rng, rec):
    from spey.helper_functions import merge_correlated_bins

    n = int(rng.integers(2, 7))
    b, d, s = np.arange(1.0, n + 1), np.arange(2.0, n + 2), np.ones(n)
    cov = np.diag(b)
    groups = _groups(rng, n)
    t = ["overlap", "overlap-within", "overlap-negative", "data", "background", "signal", "square", "cov", "range"][rng.integers(9)]
    if t == "overlap":
        i = int(rng.integers(n))
        groups = [[i], [i, (i + 1) % n]]
    elif t == "overlap-within":
        i = int(rng.integers(n))
        groups = [[i, (i + 1) % n, i]]
    elif t == "overlap-negative":
        i = int(rng.integers(n))
        groups = [[i], [i - n]]
    elif t == "data":
        d = d[:-1]
    elif t == "background":
        b = np.append(b, 1.0)
    elif t == "signal":
        s = s[:-1] if rng.random() < 0.5 else np.append(s, 1.0)
    elif t == "square":
        cov = cov[:, :-1]
    elif t == "cov":
        cov = np.diag(np.arange(1.0, n + 2))
    else:
        groups = [[0, n + int(rng.integers(3))]]
    rec.case([t, n, groups], True)
    try:
        out = merge_correlated_bins(b, d, cov, groups, signal_yields=s)
    except Exception as err:  # noqa: BLE001 - any refusal; documented as AssertionError except for bad indices
        rec.check(isinstance(err, (AssertionError, IndexError) if t == "range" else AssertionError), "refused", "refused with an undocumented error", reason=t, error=repr(err))
        return
    rec.violate("accepted", "invalid merge request accepted", reason=t, groups=groups, result=out)


def models(rng, rec):
    """The moments reach the model: expected background and its sampled response use the same expansion."""
    sp = R.gen_spec(rng, kinds=["tm"], modifiers=False, callable_sig=False)
    m = R.build(sp)
    ref = R.Ref(sp)
    rec.case([sp["kind"], sp["b"], sp["m3"]], True)
    t = rng.normal(0, 1, sp["n"])
    p = np.concatenate([[0.0], t])
    got = np.asarray(m.backend.expected_data(p), dtype=float)[: sp["n"]]
    A, B, C, rho = R.ref_third_moment(sp["b"], sp["cov"], sp["m3"])
    want = A + B * t + C * t**2
    rec.check(np.allclose(got, np.clip(want, 0, None) if np.any(want < 0) else want, rtol=1e-7, atol=1e-7), "model-response", "model background differs from the expansion", got=got, want=want, spec=sp)
    # mean over symmetric points of unit variance in one nuisance: E[A + B t + C t^2] with t = +-1
    q = p.copy()
    q[1:] = 1.0
    r = p.copy()
    r[1:] = -1.0
    avg = 0.5 * (np.asarray(m.backend.expected_data(q), dtype=float)[: sp["n"]] + np.asarray(m.backend.expected_data(r), dtype=float)[: sp["n"]])
    if np.all(A - B + C > 0):
        rec.check(np.allclose(avg, sp["b"], rtol=1e-7), "model-response", "mean background differs from the given yields", got=avg, spec=sp)


KINDS = {f.__name__: f for f in (expansion, inadmissible, third, convert, merge, reject, models)}
