"""A pool of public queries used by the history, concurrency and equivalence checks."""
import copy

import numpy as np

from props.common import ET, EXPECTED


def same(a, b, atol=1e-9, rtol=1e-9):
    """Structural equality with numeric tolerance."""
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and list(map(str, a)) == list(map(str, b)) and all(
            same(x, y, atol, rtol) for x, y in zip(a.values(), b.values())
        )
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not isinstance(a, (list, tuple, np.ndarray)) or not isinstance(b, (list, tuple, np.ndarray)) or len(a) != len(b):
            return False
        return all(same(x, y, atol, rtol) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None or isinstance(a, bool):
        return a == b
    try:
        x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return repr(a) == repr(b)
    if x.shape != y.shape:
        return False
    with np.errstate(all="ignore"):
        return bool(np.all((np.abs(x - y) <= atol + rtol * np.abs(y)) | (x == y) | (np.isnan(x) & np.isnan(y))))


class Failure:
    """Outcome of a call that raised."""

    def __init__(self, err):
        self.t = type(err).__name__

    def __repr__(self):
        return f"raised {self.t}"


def call(q, model):
    """Run a query; exceptions are outcomes too."""
    from vlib import CaseTimeout

    try:
        return q(model)
    except CaseTimeout:
        raise
    except Exception as err:  # noqa: BLE001
        return Failure(err)


def outcome_same(a, b, **kw):
    if isinstance(a, Failure) or isinstance(b, Failure):
        return isinstance(a, Failure) and isinstance(b, Failure) and a.t == b.t
    return same(a, b, **kw)


def make_query(rng, spec, ref, cheap=False, heavy=True, failing=True):
    """Returns (label, fn(model)) — deterministic given its drawn arguments."""
    exp = EXPECTED[rng.integers(3)]
    mu = float(round(rng.uniform(0.0, 2.5), 3))
    n = spec["n"]
    data = np.maximum(np.round(np.array(spec["b"]) * rng.uniform(0.8, 1.25, n)), 1.0)
    neg = bool(rng.integers(2))
    ts = ["q", "qtilde", "q0", "qmu", "qmutilde"][rng.integers(5)]
    opts = [
        ("llhd", lambda m: m.likelihood(mu, expected=exp)),
        ("llhd-lin", lambda m: m.likelihood(mu, expected=exp, return_nll=False)),
        ("llhd-data", lambda m: m.likelihood(mu, expected=exp, data=data.copy(), return_parameters=True)),
        ("max", lambda m: m.maximize_likelihood(expected=exp, allow_negative_signal=neg)),
        ("max-lin", lambda m: m.maximize_likelihood(expected=exp, allow_negative_signal=neg, return_nll=False)),
        ("max-data", lambda m: m.maximize_likelihood(expected=exp, data=data.copy())),
        ("asimov-data", lambda m: m.generate_asimov_data(expected=exp, test_statistic=ts)),
        ("asimov", lambda m: m.asimov_likelihood(mu, expected=exp, test_statistics=ts)),
        ("max-asimov", lambda m: m.maximize_asimov_likelihood(expected=exp, test_statistics=ts)),
        ("chi2", lambda m: m.chi2(mu, expected=exp, allow_negative_signal=neg)),
        ("chi2-list", lambda m: m.chi2([mu, mu + 0.5], expected=exp)),
        ("pull", lambda m: m.pull(mu, expected=exp)),
        ("sigma", lambda m: m.sigma_mu(mu, expected=exp)),
        ("config", lambda m: _cfg(m, neg)),
    ]
    if ref.npar > 1:
        i = int(rng.integers(1, ref.npar))
        v = float(round(rng.uniform(-0.8, 0.8), 3))
        opts += [
            ("llhd-dict", lambda m: m.likelihood({0: mu, i: v}, expected=exp, return_parameters=True)),
            ("max-idx", lambda m: m.maximize_likelihood(expected=exp, poi_indices=[i, 0])),
            ("max-fixed", lambda m: m.maximize_likelihood(expected=exp, fixed_poi_value={i: v}, poi_indices=[0, i])),
            ("llhd-init", lambda m: m.likelihood(mu, expected=exp, init_pars=[0.5] * ref.npar)),
        ]
    if not cheap:
        opts += [
            ("cls", lambda m: m.exclusion_confidence_level(mu, expected=exp)),
            ("cls-neg", lambda m: m.exclusion_confidence_level(mu, expected=exp, allow_negative_signal=True)),
            ("cls-chi", lambda m: m.exclusion_confidence_level(mu, expected=exp, calculator="chi_square")),
            ("signif", lambda m: m.significance(expected=exp)),
        ]
        if heavy:
            opts += [
                ("ul", lambda m: m.poi_upper_limit(expected=exp)),
                ("ul-bands", lambda m: m.poi_upper_limit(expected=ET.apriori, expected_pvalue="1sigma")),
                ("chi2-test", lambda m: m.chi2_test(expected=exp, limit_type="right")),
            ]
    if failing:
        opts += [
            ("bad-calc", lambda m: m.exclusion_confidence_level(mu, calculator="nope")),
            ("bad-cl", lambda m: m.poi_upper_limit(confidence_level=1.7)),
            ("bad-name", lambda m: m.likelihood({"no-such-parameter": 1.0})),
            ("bad-len", lambda m: m.likelihood(mu, data=np.ones(n + 7)[: n - 1] if n > 1 else np.array([]), init_pars=[1.0])),
            ("xsec", lambda m: m.s95exp),
            ("bad-limit", lambda m: m.chi2_test(limit_type="sideways")),
        ]
    return opts[rng.integers(len(opts))]


def _cfg(m, neg):
    c = m.backend.config(allow_negative_signal=neg)
    return [
        list(c.suggested_init),
        [tuple(x) for x in c.suggested_bounds],
        c.parameter_names,
        c.poi_index,
        c.minimum_poi,
        [tuple(x) for x in c.fixed_poi_bounds(12.5)],
        [tuple(x) for x in c.rescale_poi_bounds(neg, 20.0)],
    ]


def freeze(x):
    """A comparable snapshot of a caller-owned object, including dtype and container type."""
    if isinstance(x, np.ndarray):
        return ("nd", str(x.dtype), x.shape, x.tolist())
    if isinstance(x, dict):
        return ("dict", [(repr(k), freeze(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(v) for v in x])
    if callable(x):
        return ("fn", id(x))
    return repr(x)


def scramble(x):
    """Modify a returned object in place as hard as possible."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size:
            x[...] = -777 if x.dtype.kind in "iuf" else x
    elif isinstance(x, list):
        for v in x:
            scramble(v)
        for i in range(len(x)):
            x[i] = -555.5
        x.append("junk")
    elif isinstance(x, dict):
        for k in list(x):
            scramble(x[k])
            x[k] = "junk"
        x["junk"] = 1
    elif isinstance(x, tuple):
        for v in x:
            scramble(v)
