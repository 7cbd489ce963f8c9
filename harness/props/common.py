"""Shared generators and monitors for the property modules."""
import logging

import numpy as np

import refmodel as R
import spey
from spey import ExpectationType as ET
from vlib import SkipCase

EXPECTED = [ET.observed, ET.apriori, ET.aposteriori]


class LogTap(logging.Handler):
    """Records what the library logs (warnings and above) while active."""

    def __init__(self):
        super().__init__(level=logging.WARNING)
        self.msgs = []

    def emit(self, record):
        self.msgs.append((record.levelno, record.getMessage()))

    def __enter__(self):
        self.log = logging.getLogger("Spey")
        self.lvl = self.log.level
        self.hs = list(self.log.handlers)
        for h in self.hs:
            self.log.removeHandler(h)
        self.log.addHandler(self)
        self.log.setLevel(logging.WARNING)
        return self

    def __exit__(self, *a):
        self.log.removeHandler(self)
        for h in self.hs:
            self.log.addHandler(h)
        self.log.setLevel(self.lvl)

    def unconverged(self):
        return any(
            ("has not been able" in m) or ("Optimization failed" in m) for _, m in self.msgs
        )


def rand_point(rng, spec, ref, mu=None, spread=1.0):
    """A random parameter vector with strictly positive Poisson rates."""
    for _ in range(50):
        p = np.zeros(ref.npar)
        lo = max(ref.minimum_poi, -2.0) if np.isfinite(ref.minimum_poi) else -1.0
        p[0] = rng.uniform(0.5 * lo, 5.0) if mu is None else mu
        p[1 : 1 + ref.nsp] = rng.uniform(-1.5, 1.5, ref.nsp)
        p[ref.tsl] = rng.normal(0, spread, ref.nbkg)
        for _, _, _, sl in ref.mods:
            p[sl] = rng.normal(0, 1.2, sl.stop - sl.start)
        if spec["kind"] in ("gau", "mvn"):
            return p
        r = ref.rates(p)
        if np.all(r > 1e-3) and np.all(ref.bkg(p) > 1e-3):
            return p
        spread *= 0.8
    p[:] = 0.0
    p[0] = 0.3
    return p


def es_domain(ref, p, margin=0.05):
    """Stay off the documented numerical floor of the effective-sigma response."""
    if ref.k != "es":
        return True
    t = p[ref.tsl]
    v = ref.su * ref.sd + (ref.su - ref.sd) * (t - ref.b)
    return bool(np.all(v > margin * ref.su * ref.sd))


def nice_spec(rng, kinds=None, **kw):
    """A model in the convex, moderate domain where fits are well conditioned.

    Array signals without modifiers, at least one observed event per bin, data within about two
    standard deviations of background (plus signal).
    """
    kw = {**dict(modifiers=False, callable_sig=False, zero_data=False, scale=(4.0, 200.0), rel=(0.05, 0.3), sb=(0.08, 0.8), nmax=3), **kw}
    kinds = kinds or ["ub", "cb", "tm", "es", "poi", "gau", "mvn"]
    sp = R.gen_spec(rng, kinds=kinds, regime="background", **kw)
    b = np.array(sp["b"])
    s = np.array(sp["s"])
    sd = np.sqrt(b + np.array(sp["unc"]) ** 2) if sp["kind"] not in ("gau", "mvn", "poi") else np.sqrt(b)
    if sp["kind"] in ("gau", "mvn"):
        sd = np.sqrt(np.diag(np.array(sp["cov"]))) if sp["kind"] == "mvn" else np.array(sp["unc"])
    inj = [0.0, 0.0, rng.uniform(0, 1.5)][rng.integers(3)]
    d = b + inj * s + np.clip(rng.normal(0, 0.8, sp["n"]), -1.3, 1.5) * sd
    d = np.maximum(np.round(d), 1.0)
    if sp["kind"] in ("gau", "mvn"):
        d = np.round(d + rng.normal(0, 0.2, sp["n"]), 3)
    sp["d"] = d.tolist()
    sp["regime"] = f"nice{inj:.2f}"
    return sp


def moderate(ref, p, data):
    """Is this reference optimum away from the non-regular edges of the model?"""
    if ref.nbkg:
        if np.max(np.abs(p[ref.tsl])) > 2.3:
            return False
        if np.min(ref.bkg(p) / ref.b) < 0.25:
            return False
    if ref.k not in ("gau", "mvn"):
        if np.min(ref.rates(p) / ref.b) < 0.12:
            return False
        if np.min(ref.rates(p)) < 0.3:
            return False
    return es_domain(ref, p)


def spec_sig(spec, *extra):
    """Compact identity of a case."""
    return [spec["kind"], spec["n"], spec["regime"], bool(spec["mods"]), spec["sigfn"], spec["b"], *extra]
