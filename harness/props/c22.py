"""C22: backend registry histories against a dictionary reference model."""
import os
import shutil
import sys
import tempfile
import warnings

import numpy as np

import refmodel as R
from props.common import SkipCase
from props.queries import freeze

RULE = (
    "distinct operation histories (registrations of valid and invalid classes, lookups, descriptions, scans, plug-ins installed on a scratch path) "
    "started from the freshly imported registry; after every operation the whole registry is compared with a dictionary reference model"
)
PLAN = {
    "quick": {"history": 700, "installed": 160, "intree": 300},
    "thorough": {"history": 30000, "installed": 6000, "intree": 6000},
}
MINIMA = {
    "mon:listed": 8000, "mon:registered": 1000, "mon:refused-registration": 1500, "mon:refused-retrieval": 800,
    "mon:built": 1500, "mon:described": 1500, "mon:untouched": 800, "mon:intree": 300, "mon:installed": 150,
}
ASSUMPTIONS = [
    "each history starts in a fresh process whose registry holds the installed plug-ins",
    "plug-ins are not uninstalled and no plug-in is installed under the name of a class registered at run time",
]
TASKS_PER_CHILD = 1

META = ("author", "version", "doi", "arXiv", "zenodo")


def _lib():
    import spey

    v = spey.version().split("-")[0].split(".")
    ok = [">=0.0.1", f">={v[0]}.{v[1]}.0", f"=={spey.version()}", f">=0.0.1,<{int(v[0]) + 1}.0.0"]
    bad = [">=99.0.0", "<0.0.1", f"=={v[0]}.{int(v[1]) + 1}.0", f">{spey.version()}", f">={int(v[0]) + 1}.0.0,<{int(v[0]) + 3}.0.0"]
    return spey, ok, bad


def _backend_class(rng, attrs, drop=()):
    """A complete backend class holding whatever it was constructed with."""
    from spey import BackendBase

    def __init__(self, *args, **kwargs):
        self.args, self.kwargs = args, kwargs

    def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
        from spey.base import ModelConfig

        return ModelConfig(poi_index=0, minimum_poi=-5.0, suggested_init=[0.0], suggested_bounds=[(-5.0 if allow_negative_signal else 0.0, poi_upper_bound)])

    def get_logpdf_func(self, expected=None, data=None):
        return lambda p: float(-0.5 * (p[0] - 0.5) ** 2)

    ns = {"__init__": __init__, "config": config, "get_logpdf_func": get_logpdf_func, "__doc__": ["a backend", None][rng.integers(2)]}
    for k in drop:
        ns.pop(k)
    ns.update(attrs)
    return type("Plugin", (BackendBase,), ns)


def _converter_class(rng, attrs, product):
    from spey import ConverterBase

    def __call__(self, *args, **kwargs):
        """builds a backend"""
        return product(*args, **kwargs)

    return type("Converter", (ConverterBase,), {"__call__": __call__, **attrs})


def _meta(rng, name, req):
    a = {"name": name, "spey_requires": req}
    if rng.random() < 0.6:
        a["author"] = f"author {rng.integers(99)}"
    if rng.random() < 0.6:
        a["version"] = f"{rng.integers(9)}.{rng.integers(9)}.{rng.integers(9)}"
    for k, v in (("doi", "10.1000/x%d"), ("arXiv", "2101.%05d"), ("zenodo", "%d")):
        if rng.random() < 0.6:
            vals = [v % rng.integers(99999) for _ in range(rng.integers(0, 3))]
            a[k] = vals if rng.random() < 0.7 else tuple(vals)
    return a


def _described(attrs, name):
    return {
        "name": name,
        "author": attrs.get("author", "__unknown_author__"),
        "version": attrs.get("version", "__unknown_version__"),
        "spey_requires": attrs["spey_requires"],
        "doi": list(attrs.get("doi", [])),
        "arXiv": list(attrs.get("arXiv", [])),
        "zenodo": list(attrs.get("zenodo", [])),
    }


class World:
    """The reference registry: name -> expected class, metadata, state."""

    def __init__(self, rec):
        self.spey, self.ok, self.bad = _lib()
        self.rec = rec
        self.base = list(self.spey.AvailableBackends())
        self.reg = {}  # name -> dict(cls, attrs, conv, broken)
        self.trace = []

    def names(self):
        return sorted(self.base + list(self.reg))

    def check_list(self, where):
        got = self.spey.AvailableBackends()
        self.rec.check(isinstance(got, list) and sorted(got) == self.names(), "listed", "the listed backends are not the registered ones", after=where, got=sorted(got), expected=self.names(), trace=self.trace[-8:])
        if len(got) % 3 == 0:  # the returned list is the caller's
            got.append("intruder")
            got.clear()

    def build(self, name, rng):
        """Fetch a name that must be available and build a model."""
        spey, rec, e = self.spey, self.rec, self.reg[name]
        con = spey.get_backend(name)
        rec.check(callable(con), "built", "get_backend returned no constructor", name=name)
        args = tuple(float(x) for x in rng.integers(0, 9, int(rng.integers(0, 3))))
        kwargs = {f"k{i}": float(rng.integers(9)) for i in range(rng.integers(0, 3))}
        uni = {}
        if rng.random() < 0.6:
            uni["analysis"] = f"an{rng.integers(999)}"
        if rng.random() < 0.6:
            uni["xsection"] = float(np.round(rng.uniform(0.01, 5), 4))
        if rng.random() < 0.5:
            uni["ntoys"] = int(rng.integers(1, 5000))
        m = con(*args, **kwargs, **uni)
        rec.check(isinstance(m, spey.StatisticalModel) and type(m.backend) is e["product"], "built", "the model is not of the requested backend", name=name, got=repr(type(m.backend)))
        rec.check(m.backend.args == args and m.backend.kwargs == kwargs, "built", "constructor arguments did not reach the backend", got=(m.backend.args, m.backend.kwargs), want=(args, kwargs))
        rec.check(m.analysis == uni.get("analysis", "__unknown_analysis__"), "built", "analysis name", got=m.analysis, uni=uni)
        xs = uni.get("xsection", np.nan)
        rec.check(m.xsection == xs or (np.isnan(xs) and np.isnan(m.xsection)), "built", "cross section", got=m.xsection, uni=uni)
        rec.check(m.ntoys == uni.get("ntoys", 1000), "built", "number of toys", got=m.ntoys, uni=uni)
        if not e["conv"]:
            rec.check(m.backend_type == name, "built", "backend type of the model", got=m.backend_type, name=name)
        mu, nll = m.maximize_likelihood()
        rec.check(abs(mu - 0.5) < 1e-3, "built", "the built model does not work", muhat=mu)

    def describe(self, name):
        e = self.reg[name]
        got = self.spey.get_backend_metadata(name)
        self.rec.check(got == _described(e["attrs"], name), "described", "the description is not the backend's metadata", got=got, want=_described(e["attrs"], name))
        for v in got.values():  # the returned dictionary is the caller's
            if isinstance(v, list):
                v.append("x")
        got["name"] = "other"
        again = self.spey.get_backend_metadata(name)
        self.rec.check(again == _described(e["attrs"], name), "described", "editing a returned description changed the backend", got=again)

    def refuse(self, key, fn, errs, what, **wit):
        try:
            out = fn()
        except Exception as err:  # noqa: BLE001
            self.rec.check(isinstance(err, errs), key, f"{what}: refused with another error than documented", error=repr(err), trace=self.trace[-6:], **wit)
        else:
            self.rec.violate("accepted", f"{what}: accepted", result=repr(out)[:200], trace=self.trace[-6:], **wit)


def _register(w, rng, names):
    from spey.system.exceptions import AbstractModel, MissingMetaData, PluginError

    spey, rec = w.spey, w.rec
    t = ["valid", "valid", "valid", "converter", "duplicate", "duplicate-installed", "abstract", "noname", "norequires", "incompatible", "foreign", "subclass", "badspec", "double"][rng.integers(14)]
    fresh = f"verif.{names[0]}.{len(w.trace)}"
    req = w.ok[rng.integers(len(w.ok))]
    attrs = _meta(rng, fresh, req)
    w.trace.append((t, fresh))
    if t in ("valid", "converter", "subclass"):
        if t == "converter":
            product = _backend_class(rng, {"name": fresh + ".product", "spey_requires": req})
            cls = _converter_class(rng, attrs, product)
        elif t == "subclass" and w.reg and any(not e["conv"] and not e["broken"] for e in w.reg.values()):
            base = [e["cls"] for e in w.reg.values() if not e["conv"] and not e["broken"]][0]
            cls = product = type("Sub", (base,), attrs)
            attrs = {**{k: getattr(base, k) for k in META if hasattr(base, k)}, **attrs}
        else:
            cls = product = _backend_class(rng, attrs)
        before = dict(vars(cls))
        out = spey.register_backend(cls)
        rec.check(out is cls, "registered", "registration does not return the class", got=repr(out))
        rec.check(dict(vars(cls)) == before, "untouched", "registration changed the class")
        w.reg[fresh] = {"cls": cls, "product": product, "attrs": attrs, "conv": t == "converter", "broken": None}
        rec.check(fresh in spey.AvailableBackends(), "registered", "a registered backend is not listed", name=fresh)
        return
    if t == "foreign":
        obj = [type("Foreign", (), dict(attrs)), lambda: None, dict(attrs), "default.normal", None, 3.0][rng.integers(6)]
        w.refuse("refused-registration", lambda: spey.register_backend(obj), (AssertionError, TypeError, AttributeError, ValueError), t, obj=repr(obj))
        return
    errs, drop = (), ()
    if t == "abstract":
        drop = [("config",), ("get_logpdf_func",), ("config", "get_logpdf_func")][rng.integers(3)]
        errs = (AbstractModel,)
    elif t == "noname":
        attrs.pop("name")
        errs = (MissingMetaData,)
    elif t == "norequires":
        attrs.pop("spey_requires")
        errs = (MissingMetaData,)
    elif t == "incompatible":
        attrs["spey_requires"] = w.bad[rng.integers(len(w.bad))]
        errs = (PluginError,)
    elif t == "badspec":
        attrs["spey_requires"] = ["not a version", "", "1.x.y.z"][rng.integers(3)]
        errs = (Exception,)
    elif t == "duplicate":
        if not w.reg:
            return
        attrs["name"] = list(w.reg)[rng.integers(len(w.reg))]
        errs = (ValueError,)
    elif t == "duplicate-installed":
        attrs["name"] = w.base[rng.integers(len(w.base))]
        errs = (ValueError,)
    elif t == "double":  # several defects at once
        attrs["name"] = w.base[0]
        attrs["spey_requires"] = w.bad[0]
        if rng.random() < 0.5:
            drop = ("config",)
        errs = (ValueError, PluginError, AbstractModel)
    if t.startswith("duplicate") and attrs["name"] in w.reg and rng.random() < 0.3:
        cls = w.reg[attrs["name"]]["cls"]  # the very same class again
        if w.reg[attrs["name"]]["broken"]:
            return
    elif t not in ("abstract", "double") and rng.random() < 0.25:
        prod = _backend_class(rng, {"name": fresh + ".p", "spey_requires": req})
        cls = _converter_class(rng, attrs, prod)
    else:
        cls = _backend_class(rng, attrs, drop)
    before = dict(vars(cls))
    w.refuse("refused-registration", lambda: spey.register_backend(cls), errs, t, attrs=attrs)
    rec.check(dict(vars(cls)) == before, "untouched", "a refused registration changed the class", kind=t)


def _step(w, rng, names):
    from spey.system.exceptions import AbstractModel, PluginError

    spey, rec = w.spey, w.rec
    op = ["register"] * 5 + ["build"] * 3 + ["describe"] * 3 + ["unknown", "scan", "break", "installed", "not-a-backend"]
    op = op[rng.integers(len(op))]
    live = [n for n, e in w.reg.items() if not e["broken"]]
    if op == "register":
        _register(w, rng, names)
    elif op == "build" and w.reg:
        n = list(w.reg)[rng.integers(len(w.reg))]
        w.trace.append((op, n))
        if w.reg[n]["broken"]:
            w.refuse("refused-retrieval", lambda: spey.get_backend(n), w.reg[n]["broken"], "retrieval of a broken backend", name=n)
        else:
            w.build(n, rng)
    elif op == "describe" and live:
        n = live[rng.integers(len(live))]
        w.trace.append((op, n))
        w.describe(n)
    elif op == "unknown":
        bad = ["", "default", "default.", "DEFAULT.NORMAL", " default.normal", "no.such.backend", "spey.default.normal", f"verif.{rng.integers(1e6)}"]
        n = bad[rng.integers(len(bad))]
        w.trace.append((op, n))
        w.refuse("refused-retrieval", lambda: spey.get_backend(n), (PluginError,), "retrieval of an unknown backend", name=n)
        w.refuse("refused-retrieval", lambda: spey.get_backend_metadata(n), (PluginError,), "description of an unknown backend", name=n)
    elif op == "scan":
        w.trace.append((op,))
        spey.reset_backend_entries()
    elif op == "break" and live and rng.random() < 0.5:
        # the class changes after its registration: retrieval must notice
        n = live[rng.integers(len(live))]
        cls = w.reg[n]["cls"]
        t = rng.integers(3)
        w.trace.append((op, n, int(t)))
        if t == 0:
            cls.spey_requires = w.bad[rng.integers(len(w.bad))]
            err = (PluginError,)
        elif t == 1:
            cls.name = "verif.other"
            err = (AssertionError, PluginError)
        else:
            cls.__abstractmethods__ = frozenset({"config"})
            err = (AbstractModel, PluginError)
        w.reg[n]["broken"] = err
        if t != 2:
            for e in w.reg.values():  # subclasses without their own value inherit the change
                if e["cls"] is not cls and issubclass(e["cls"], cls) and ("spey_requires", "name")[t] not in vars(e["cls"]):
                    e["broken"] = err
        w.refuse("refused-retrieval", lambda: spey.get_backend(n), err, "retrieval of a class broken after registration", name=n, how=int(t))
    elif op == "installed":
        n = [x for x in w.base if x.startswith("default.")][rng.integers(7)]
        w.trace.append((op, n))
        meta = spey.get_backend_metadata(n)
        rec.check(meta["name"] == n and set(meta) == {"name", "author", "version", "spey_requires", "doi", "arXiv", "zenodo"}, "described", "description of an installed backend", got=meta, name=n)
        rec.check(callable(spey.get_backend(n)), "built", "installed backend not fetched", name=n)
    elif op == "not-a-backend":
        # a converter that does not produce a backend is refused when used
        name = f"verif.conv.{names[0]}.{len(w.trace)}"
        w.trace.append((op, name))
        prod = [dict, lambda *a, **k: None, lambda *a, **k: "model"][rng.integers(3)]
        cls = _converter_class(rng, {"name": name, "spey_requires": w.ok[0]}, prod)
        spey.register_backend(cls)
        w.reg[name] = {"cls": cls, "product": None, "attrs": {"name": name, "spey_requires": w.ok[0]}, "conv": True, "broken": (Exception,)}
        w.refuse("refused-retrieval", lambda: spey.get_backend(name)(), (AssertionError, TypeError), "a model around something that is no backend", name=name)
        w.base.append(name)
        del w.reg[name]
    w.check_list(op)


def history(rng, rec):
    w = World(rec)
    names = [f"{rng.integers(10**9)}"]
    w.check_list("start")
    for _ in range(int(rng.integers(6, 30))):
        _step(w, rng, names)
    for n, e in list(w.reg.items()):
        if not e["broken"]:
            w.build(n, rng)
            w.describe(n)
    for n in w.base:
        if n.startswith("default."):
            rec.check(spey_name(w.spey, n) == n, "described", "installed backend changed its name", name=n)
    rec.case([[str(x) for x in t] for t in w.trace], nontrivial=len(w.trace) > 3)


def spey_name(spey, n):
    return spey.get_backend_metadata(n)["name"]


PLUG = '''
from spey import BackendBase, ConverterBase
from spey.base import ModelConfig


class Base(BackendBase):
    def __init__(self, *args, **kwargs):
        self.args, self.kwargs = args, kwargs

    def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
        return ModelConfig(poi_index=0, minimum_poi=-5.0, suggested_init=[0.0], suggested_bounds=[(-5.0 if allow_negative_signal else 0.0, poi_upper_bound)])

    def get_logpdf_func(self, expected=None, data=None):
        return lambda p: float(-0.5 * (p[0] - 0.5) ** 2)

'''


def installed(rng, rec):
    """Plug-ins installed as packages with entry points on a scratch path, found by a scan."""
    from spey.system.exceptions import AbstractModel, PluginError

    w = World(rec)
    spey = w.spey
    d = tempfile.mkdtemp(prefix="verif-c22-")
    tag = f"{rng.integers(10**9)}"
    kinds = {}
    src, ep = [PLUG], []
    n = int(rng.integers(1, 6))
    for i in range(n):
        t = ["valid", "noname", "wrongname", "norequires", "incompatible", "abstract", "converter", "noimport"][rng.integers(8)]
        name = f"plug{tag}.m{i}"
        attrs = _meta(rng, name, w.ok[rng.integers(len(w.ok))])
        base, body = "Base", []
        if t == "wrongname":
            attrs["name"] = "someone.else"
        elif t == "noname":
            attrs.pop("name")
        elif t == "norequires":
            attrs.pop("spey_requires")
        elif t == "incompatible":
            attrs["spey_requires"] = w.bad[rng.integers(len(w.bad))]
        elif t == "abstract":
            base = "BackendBase"
        elif t == "converter":
            base = "ConverterBase"
            src.append(f"class P{i}(Base):\n    name='p{i}'\n    spey_requires='>=0.0.1'\n\n")
            body = ["    def __call__(self, *args, **kwargs):", f"        return P{i}(*args, **kwargs)"]
        src.append(f"class M{i}({base}):\n" + "".join(f"    {k} = {v!r}\n" for k, v in attrs.items()) + "\n".join(body) + "\n    extra = 1\n\n")
        mod = f"plugmod{tag}" if t != "noimport" else f"nosuchmodule{tag}"
        ep.append(f"{name} = {mod}:M{i}")
        kinds[name] = (t, attrs, i)
    with open(os.path.join(d, f"plugmod{tag}.py"), "w") as f:
        f.write("\n".join(src))
    di = os.path.join(d, f"plug{tag}-1.0.dist-info")
    os.mkdir(di)
    with open(os.path.join(di, "METADATA"), "w") as f:
        f.write(f"Metadata-Version: 2.1\nName: plug{tag}\nVersion: 1.0\n")
    with open(os.path.join(di, "entry_points.txt"), "w") as f:
        f.write("[spey.backend.plugins]\n" + "\n".join(ep) + "\n")
    local = None
    try:
        sys.path.insert(0, d)
        if rng.random() < 0.5:  # a class registered before the scan survives it
            local = f"verif.local.{tag}"
            cls = _backend_class(rng, _meta(rng, local, w.ok[0]))
            spey.register_backend(cls)
            w.reg[local] = {"cls": cls, "product": cls, "attrs": {k: v for k, v in vars(cls).items() if k in META + ("name", "spey_requires")}, "conv": False, "broken": None}
        w.check_list("before scan")
        spey.reset_backend_entries()
        w.base += list(kinds)
        w.check_list("after scan")
        import importlib

        importlib.invalidate_caches()
        for name in rng.permutation(list(kinds)):
            name = str(name)
            t, attrs, i = kinds[name]
            if t in ("valid", "converter", "noname"):
                mod = importlib.import_module(f"plugmod{tag}")
                w.reg[name] = {"cls": getattr(mod, f"M{i}"), "product": getattr(mod, f"P{i}" if t == "converter" else f"M{i}"), "attrs": attrs, "conv": t == "converter", "broken": None}
                if t != "noname" and rng.random() < 0.5:
                    w.describe(name)
                w.build(name, rng)
                w.describe(name)
                w.refuse("refused-registration", lambda: spey.register_backend(_backend_class(rng, _meta(rng, name, w.ok[0]))), (ValueError,), "name of an installed plug-in", name=name)
                del w.reg[name]
            else:
                errs = {"wrongname": (AssertionError, PluginError), "norequires": (AssertionError, PluginError), "incompatible": (PluginError,), "abstract": (AbstractModel,), "noimport": (ImportError, PluginError)}[t]
                w.refuse("refused-retrieval", lambda: spey.get_backend(name), errs, "retrieval of a bad installed plug-in: " + t, name=name)
                if t == "noimport":
                    w.refuse("refused-retrieval", lambda: spey.get_backend_metadata(name), errs, "description of a plug-in that can not be imported", name=name)
            w.check_list("installed " + t)
            rec.check(True, "installed")
        spey.reset_backend_entries()
        w.check_list("second scan")
        if local:
            w.build(local, rng)
    finally:
        sys.path.remove(d)
        shutil.rmtree(d, ignore_errors=True)
    rec.case([tag, [(k, v[0]) for k, v in kinds.items()]])


def intree(rng, rec):
    """The installed backends: the constructor of a name builds exactly that backend."""
    import spey
    from spey.backends import default_pdf
    from spey.backends.default_pdf import simple_pdf

    want = {
        "default.correlated_background": default_pdf.CorrelatedBackground,
        "default.effective_sigma": default_pdf.EffectiveSigma,
        "default.third_moment_expansion": default_pdf.ThirdMomentExpansion,
        "default.uncorrelated_background": default_pdf.UncorrelatedBackground,
        "default.multivariate_normal": simple_pdf.MultivariateNormal,
        "default.normal": simple_pdf.Gaussian,
        "default.poisson": simple_pdf.Poisson,
    }
    rec.check(set(want) <= set(spey.AvailableBackends()), "intree", "a default backend is not listed", got=spey.AvailableBackends())
    spec = R.gen_spec(rng)
    name = R.NAMES[spec["kind"]]
    an, xs, nt = f"a{rng.integers(999)}", float(np.round(rng.uniform(0.1, 3), 3)), int(rng.integers(10, 900))
    con = spey.get_backend(name)
    m = con(**R.build_kwargs(spec), analysis=an, xsection=xs, ntoys=nt)
    rec.check(type(m.backend) is want[name] and m.backend_type == name, "intree", "the model is not of the requested backend", name=name, got=repr(type(m.backend)))
    rec.check((m.analysis, m.xsection, m.ntoys) == (an, xs, nt), "intree", "universal settings", got=(m.analysis, m.xsection, m.ntoys))
    direct = spey.StatisticalModel(backend=want[name](**R.build_kwargs(spec)), analysis=an)
    mu = float(round(rng.uniform(0, 1.5), 2))
    p = m.backend.config().suggested_init
    a, b = m.backend.get_logpdf_func()(np.array(p)), direct.backend.get_logpdf_func()(np.array(p))
    rec.check(a == b, "intree", "the fetched constructor builds another model than the class", got=(a, b), mu=mu)
    meta = spey.get_backend_metadata(name)
    cls = want[name]
    rec.check(meta == _described({k: getattr(cls, k) for k in META + ("spey_requires",) if hasattr(cls, k)}, name), "described", "description of an installed backend", got=meta)
    doc = con.__doc__ or ""
    rec.check("analysis" in doc and "xsection" in doc and (cls.__doc__ or "").strip()[:40] in doc, "intree", "constructor documentation", name=name)
    rec.case([name, spec["b"], spec["s"], an], True)


KINDS = {k: globals()[k] for k in PLAN["quick"]}
