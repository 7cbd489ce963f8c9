"""Published asymptotic formulas and interval arithmetic for comparing confidence levels."""
import math

import numpy as np

SIG = [2.0, 1.0, 0.0, -1.0, -2.0]


def cdf(x):
    return 0.5 * math.erfc(-x / math.sqrt(2.0))


def cls(q, qa, name):
    """Observed 1-p for given statistics (None if undefined: zero Asimov statistic)."""
    q, qa = max(q, 0.0), max(qa, 0.0)
    sq, sa = math.sqrt(q), math.sqrt(qa)
    if name in ("qtilde", "qmutilde") and sq > sa:
        if qa == 0:
            return 0.0
        d = (q - qa) / (2 * sa)
    else:
        d = sq - sa
    psb, pb = cdf(-sa - d), cdf(-d)
    if name == "q0":
        return 1 - psb
    return 1 - (psb / pb if pb > 0 else 0.0)


def cls_exp(qa, s, name="qtilde"):
    sa = math.sqrt(max(qa, 0.0))
    if name == "q0":
        return 1 - cdf(-sa - s)
    return 1 - cdf(-sa - s) / cdf(-s)


def interval(fn, q, qa, dq):
    """Range of fn(q, qa) when both statistics are uncertain by dq."""
    vals = []
    for a in {max(q - dq, 0.0), q, q + dq, max(q - dq / 2, 0), q + dq / 2}:
        for b in {max(qa - dq, 0.0), qa, qa + dq}:
            v = fn(a, b)
            if v is not None and not math.isnan(v):
                vals.append(v)
    return (min(vals), max(vals)) if vals else (0.0, 1.0)


def tstat(name, mu, muhat, nll_hat, nll_of):
    """Test statistic from negative log-likelihoods."""
    if name == "q0":
        return 0.0 if muhat < 0 else max(0.0, 2 * (nll_of(0.0) - nll_hat))
    if muhat > mu:
        return 0.0
    top = nll_hat
    if name == "qtilde" and muhat < 0:
        top = nll_of(0.0)
    return max(0.0, 2 * (nll_of(mu) - top))


class Own:
    """The statistics of a model obtained through its elementary public queries only."""

    def __init__(self, model, expected, name, **kw):
        self.m, self.exp, self.name = model, expected, name
        self.neg = name == "q"
        self.kw = kw
        self.muhat, self.nll = model.maximize_likelihood(expected=expected, allow_negative_signal=self.neg, **kw)
        self.asimov = model.generate_asimov_data(expected=expected, test_statistic=name, **kw)
        self.muhat_a, self.nll_a = model.maximize_likelihood(
            expected=expected, allow_negative_signal=self.neg, data=self.asimov, **kw
        )

    def f(self, mu):
        return float(self.m.likelihood(float(mu), expected=self.exp, **self.kw))

    def fa(self, mu):
        return float(self.m.likelihood(float(mu), expected=self.exp, data=self.asimov, **self.kw))

    def stats(self, mu):
        return (
            tstat(self.name, mu, float(self.muhat), float(self.nll), self.f),
            tstat(self.name, mu, float(self.muhat_a), float(self.nll_a), self.fa),
        )


class Indep:
    """The same statistics from the independent reference model."""

    def __init__(self, ref, expected, name):
        self.ref, self.name = ref, name
        self.data = ref.data(expected)
        self.neg = name == "q"
        b = ref.optimum(self.data, allow_negative=self.neg, tries=2)
        self.best = b
        self.nll, self.muhat = b[0], b[1][0]
        c = ref.optimum(self.data, fixed={0: 1.0 if name == "q0" else 0.0}, tries=2)
        self.cond = c[1]
        self.asimov = ref.rates(c[1])
        a = ref.optimum(self.asimov, allow_negative=self.neg, tries=1, starts=[c[1]])
        self.besta = a
        self.nll_a, self.muhat_a = a[0], a[1][0]

    def f(self, mu):
        return self.ref.optimum(self.data, fixed={0: mu}, tries=1, starts=[self.best[1]])[0]

    def fa(self, mu):
        return self.ref.optimum(self.asimov, fixed={0: mu}, tries=1, starts=[self.cond])[0]

    def stats(self, mu):
        return (
            tstat(self.name, mu, self.muhat, self.nll, self.f),
            tstat(self.name, mu, self.muhat_a, self.nll_a, self.fa),
        )

    def regular(self, mu):
        from props.common import moderate

        r = self.ref
        pts = [(self.best[1], self.data), (self.cond, self.data), (self.besta[1], self.asimov)]
        for d, s in ((self.data, self.best[1]), (self.asimov, self.cond)):
            for m in (mu, 0.0):
                o = r.optimum(d, fixed={0: m}, tries=1, starts=[s])
                if o is None:
                    return False
                pts.append((o[1], d))
        return all(moderate(r, p, d) for p, d in pts) and abs(self.muhat) < 9 and self.muhat > 0.6 * r.minimum_poi
