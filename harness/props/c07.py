"""C07: memoised functions and methods against the undecorated originals and a reference cache model."""
import copy
import datetime
import gc
import pickle
import threading
import weakref
from collections import OrderedDict

import numpy as np

from props.common import ET, SkipCase
from spey.system.cache import cache_results
from vlib import CaseTimeout

RULE = (
    "distinct (signature, cache options, call sequence) histories; each call's result, identity and number of "
    "computations compared with the undecorated function and a reference FIFO cache"
)
PLAN = {
    "quick": {"args": 2500, "pairs": 2500, "fifo": 1500, "instances": 900, "subclass": 500, "release": 250, "returns": 700, "models": 120},
    "thorough": {"args": 50000, "pairs": 60000, "fifo": 30000, "instances": 16000, "subclass": 9000, "release": 4000, "returns": 12000, "models": 1500},
}
MINIMA = {"mon:value": 20000, "mon:computed": 10000, "mon:distinct-args": 2000, "mon:released": 200}
ASSUMPTIONS = [
    "arguments that Python itself treats as equal dictionary keys (1, 1.0, True; 0.0, -0.0) are not mixed",
    "unhashable user-defined objects without a faithful repr are not used as arguments",
]
CASE_TIMEOUT = 60
TIMEOUT_IS_VIOLATION = True


# ---------------------------------------------------------------- arguments
def canon(x):
    """Independent identity of an argument value."""
    if isinstance(x, np.ndarray):
        if x.dtype.hasobject:
            return ("obj", x.shape, canon(x.tolist()))
        return ("nd", x.shape, str(x.dtype), np.ascontiguousarray(x).tobytes())
    if isinstance(x, np.generic):
        return ("s", repr(x.item()))
    if isinstance(x, dict):
        return ("dict", tuple(sorted((repr(canon(k)), repr(canon(v))) for k, v in x.items())))
    if isinstance(x, list):
        return ("list", tuple(canon(v) for v in x))
    if isinstance(x, tuple):
        return ("tuple", tuple(canon(v) for v in x))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(repr(canon(v)) for v in x)))
    if isinstance(x, ET):
        return ("s", repr(str(x)))
    return ("s", repr(x))


def leaf(rng):
    c = rng.integers(9)
    if c == 0:
        return int(rng.integers(2, 6))
    if c == 1:
        return float(rng.integers(2, 6)) + 0.5
    if c == 2:
        return ["a", "b", "ab", "", "None"][rng.integers(5)]
    if c == 3:
        return None
    if c == 4:
        return [ET.observed, ET.apriori, ET.aposteriori][rng.integers(3)]
    if c == 5:
        return ["x", "y"][rng.integers(2)].encode()
    if c == 6:
        return frozenset(rng.integers(2, 6, 2).tolist())
    if c == 7:
        return datetime.date(2020, 1, int(rng.integers(1, 4)))
    return complex(2, int(rng.integers(2, 5)))


def arr(rng):
    c = rng.integers(12)
    base = rng.integers(2, 4, 4)
    if c == 0:
        return base.astype(float)
    if c == 1:
        return base.astype(int)
    if c == 2:
        return base.reshape(2, 2).astype(float)
    if c == 3:
        return base.reshape(2, 2).astype(float).T
    if c == 4:
        return base.astype(np.float32)
    if c == 5:
        return np.array([], dtype=[float, int][rng.integers(2)])
    if c == 6:
        return np.zeros((0, int(rng.integers(1, 3))))
    if c == 7:
        return np.arange(8.0)[:: int(rng.integers(1, 3))] + base[0]
    if c == 8:
        return np.array(float(base[0]))
    if c == 9:
        a = np.zeros(400) + 2.0
        a[int(rng.integers(3)) * 190] = 3.0  # far beyond what repr shows
        return np.concatenate([a, np.zeros(800)])
    if c == 10:
        return np.array([[2, "x"], [int(base[1]), None]], dtype=object)
    return np.array(["2020-01-0%d" % base[0]], dtype="datetime64[D]")


def value(rng, depth=0):
    c = rng.integers(10)
    if c < 4 or depth > 2:
        return leaf(rng)
    if c < 6:
        return arr(rng)
    if c == 6:
        return [value(rng, depth + 1) for _ in range(int(rng.integers(0, 3)))]
    if c == 7:
        return tuple(value(rng, depth + 1) for _ in range(int(rng.integers(0, 3))))
    keys = [2, "a", "b", 3, ("t", 2), None, ET.observed][: int(rng.integers(1, 7))]
    rng.shuffle(keys) if isinstance(keys, np.ndarray) else None
    keys = [keys[i] for i in rng.permutation(len(keys))]
    return {k: value(rng, depth + 1) for k in keys[: int(rng.integers(0, 4))]}


def neighbour(rng, x):
    """A value that differs from x in one place (dtype, shape, one element, container type, ...)."""
    if isinstance(x, np.ndarray) and not x.dtype.hasobject and x.dtype.kind in "if":
        if x.size > 1 and rng.random() < 0.35:
            # same buffer or same elements, other order
            return [x.T, x[::-1], x.reshape(-1).reshape(x.shape, order="F"), np.asfortranarray(x).ravel("K").reshape(x.shape), x[..., ::-1]][rng.integers(5)]
        c = rng.integers(5)
        if c == 0 and x.size:
            y = x.copy()
            y.reshape(-1)[int(rng.integers(x.size))] += 1
            return y
        if c == 1:
            return x.astype(np.float32 if x.dtype != np.float32 else np.float64)
        if c == 2:
            return x.reshape((1,) + x.shape)
        if c == 3:
            return x.tolist() if x.ndim else [x.tolist()]
        return x.astype(np.int64 if x.dtype.kind == "f" else np.float64)
    if isinstance(x, list):
        return tuple(x) if rng.random() < 0.5 else x + [None]
    if isinstance(x, tuple):
        return list(x) if rng.random() < 0.5 else (x,)
    if isinstance(x, dict):
        c = rng.integers(3)
        if c == 0:
            return dict(x, extra=2)
        if c == 1 and x:
            k = list(x)[0]
            return {**x, k: neighbour(rng, x[k])}
        return list(x.items())
    if x is None:
        return "None"
    if isinstance(x, str):
        return x + "a"
    if isinstance(x, bytes):
        return x.decode()
    if isinstance(x, bool) or isinstance(x, int):
        return x + 1
    if isinstance(x, float):
        return x + 1e-9
    if isinstance(x, frozenset):
        return frozenset(set(x) | {99})
    return [x]


def tag(*vals):
    return [repr(canon(v)) for v in vals]


SIGS = ["plain", "defaults", "star", "kwonly", "posonly", "kwargs"]


def make_fn(which, log):
    if which == "plain":

        def f(a, b):
            log.append(1)
            return tag("plain", a, b)

    elif which == "defaults":

        def f(a, b=2, c=None):
            log.append(1)
            return tag("defaults", a, b, c)

    elif which == "star":

        def f(*args):
            log.append(1)
            return tag("star", *args)

    elif which == "kwonly":

        def f(a, *, k=(2, 3), z=None):
            log.append(1)
            return tag("kwonly", a, k, z)

    elif which == "posonly":

        def f(a, b=None, /, c=2):
            log.append(1)
            return tag("posonly", a, b, c)

    else:

        def f(a=None, **kw):
            log.append(1)
            return tag("kwargs", a, kw)

    f.__doc__ = "doc of " + which
    return f


def gen_call(rng, which, pool):
    v = lambda: pool[rng.integers(len(pool))]  # noqa: E731
    c = rng.random()
    if which == "plain":
        a, b = v(), v()
        return [((a, b), {}), ((a,), {"b": b}), ((), {"a": a, "b": b}), ((), {"b": b, "a": a})][rng.integers(4)], canon([a, b])
    if which == "defaults":
        a = v()
        b = v() if c < 0.6 else 2
        cc = v() if rng.random() < 0.5 else None
        args, kw = [a], {}
        if rng.random() < 0.3:
            args, kw = [], {"a": a}
        if canon(b) != canon(2) or rng.random() < 0.5:
            if args and rng.random() < 0.5:
                args.append(b)
            else:
                kw["b"] = b
        if cc is not None or rng.random() < 0.5:
            if len(args) == 2 and rng.random() < 0.5:
                args.append(cc)
            else:
                kw["c"] = cc
        items = list(kw.items())
        return (tuple(args), dict([items[i] for i in rng.permutation(len(items))])), canon([a, b, cc])
    if which == "star":
        a = tuple(v() for _ in range(int(rng.integers(0, 4))))
        return (a, {}), canon(a)
    if which == "kwonly":
        a, k, z = v(), (v() if c < 0.5 else (2, 3)), (v() if rng.random() < 0.5 else None)
        kw = {}
        if canon(k) != canon((2, 3)) or rng.random() < 0.5:
            kw["k"] = k
        if z is not None or rng.random() < 0.5:
            kw["z"] = z
        return ((a,), kw), canon([a, k, z])
    if which == "posonly":
        a, b, cc = v(), (v() if c < 0.5 else None), (v() if rng.random() < 0.5 else 2)
        args, kw = [a], {}
        if b is not None or rng.random() < 0.5:
            args.append(b)
        if canon(cc) != canon(2) or rng.random() < 0.5:
            kw["c"] = cc
        return (tuple(args), kw), canon([a, b, cc])
    a = v() if c < 0.7 else None
    kw = {k: v() for k in ["x", "y", "self", "a1", "data"] if rng.random() < 0.4}
    args = (a,) if a is not None or rng.random() < 0.5 else ()
    items = list(kw.items())
    kw = dict([items[i] for i in rng.permutation(len(items))])
    return (args, kw), canon([a, kw])


def args(rng, rec):
    """Random calls of random signatures: value transparency and computed-once."""
    which = SIGS[rng.integers(len(SIGS))]
    log, ref_log = [], []
    cop = bool(rng.integers(2))
    raw = make_fn(which, ref_log)
    dec = cache_results(maxsize=1000, copy_on_return=cop)(make_fn(which, log)) if rng.random() < 0.8 else cache_results(make_fn(which, log))
    rec.check(dec.__name__ == "f" and dec.__doc__ == raw.__doc__ and callable(dec), "metadata", "wrapper lost the function's metadata")
    pool = [value(rng) for _ in range(4)]
    pool += [neighbour(rng, p) for p in pool[:2]]
    seen = set()
    for _ in range(14):
        (a, k), ident = gen_call(rng, which, pool)
        want = raw(*a, **k)
        n0 = len(log)
        got = dec(*copy.deepcopy(a), **copy.deepcopy(k))
        wit = dict(sig=which, args=a, kwargs=k)
        rec.check(got == want, "value", "memoised value differs from the original", got=got, want=want, **wit)
        ident = repr(ident)
        rec.check((len(log) - n0 == 1) == (ident not in seen) and len(log) - n0 <= 1, "computed", "wrong number of computations for this call", computed=len(log) - n0, seen=ident in seen, **wit)
        seen.add(ident)
    try:
        raw()
        bad = None
    except TypeError:
        bad = TypeError
    if bad:
        try:
            dec()
            ok = False
        except TypeError:
            ok = True
        rec.check(ok, "bad-call", "invalid call is not rejected like the original", sig=which)
    rec.case([which, cop, sorted(seen)], sample={"sig": which, "calls": sorted(seen)[:4]})


def pairs(rng, rec):
    """Two almost equal arguments never share a result."""
    log = []

    @cache_results(maxsize=64)
    def f(x, y=None):
        log.append(1)
        return tag(x, y)

    x = value(rng) if rng.random() < 0.6 else arr(rng)
    y = neighbour(rng, x)
    if rng.random() < 0.3:
        x, y = [x, 2], [y, 2]
    elif rng.random() < 0.3:
        x, y = {"k": x}, {"k": y}
    if canon(x) == canon(y):
        raise SkipCase
    a, b, a2 = f(x), f(y), f(copy.deepcopy(x))
    rec.check(a == tag(x, None) and b == tag(y, None), "distinct-args", "two different arguments share a result", x=x, y=y, xt=str(type(x)), yt=str(type(y)))
    rec.check(a2 == a and len(log) == 2, "computed", "equal argument recomputed or confused", x=x, computed=len(log))
    c, d = f(x, y), f(y, x)
    rec.check(c == tag(x, y) and d == tag(y, x), "distinct-args", "swapped arguments share a result", x=x, y=y)
    rec.case([repr(canon(x)), repr(canon(y))], sample={"x": x, "y": y})


class Boom(Exception):
    pass


def fifo(rng, rec):
    """Reference model: FIFO store of bounded size, failures never stored, clear empties."""
    maxsize = [1, 2, 3, 5, None, 0][rng.integers(6)] if rng.random() < 0.9 else 1
    if maxsize == 0:
        maxsize = 1
    cop = bool(rng.integers(2))
    method = bool(rng.integers(2))
    state = {"n": 0, "fail": False}

    def body(x, y):
        state["n"] += 1
        if state["fail"]:
            raise Boom((x, y))
        return None if x == 0 else {"x": x, "y": [y], "n": state["n"]}

    if method:

        class K:
            @cache_results(maxsize=maxsize, copy_on_return=cop, per_instance=True)
            def f(self, x, y=1):
                return body(x, y)

        obj = K()
        call = lambda *a, **k: obj.f(*a, **k)  # noqa: E731
        handle = obj.f
        ctl = lambda: obj.f  # noqa: E731
    else:

        @cache_results(maxsize=maxsize, copy_on_return=cop)
        def f(x, y=1):
            return body(x, y)

        call, handle = f, f
        ctl = lambda: f  # noqa: E731
    model = OrderedDict()
    hist = []
    for _ in range(40):
        r = rng.random()
        if r < 0.04:
            (ctl() if rng.random() < 0.5 else handle).cache_clear()
            model.clear()
            hist.append("clear")
        else:
            x, y = int(rng.integers(0, 6)), int(rng.integers(1, 3))
            state["fail"] = rng.random() < 0.15
            fn = call if rng.random() < 0.7 else handle
            n0 = state["n"]
            form = rng.integers(3)
            try:
                got = fn(x, y) if form == 0 else (fn(x, y=y) if form == 1 else (fn(x) if y == 1 else fn(y=y, x=x)))
                raised = False
            except Boom as err:
                got, raised = err.args[0], True
            hist.append(["f", x, y, state["fail"]])
            wit = dict(maxsize=maxsize, copy=cop, method=method, history=hist[-12:])
            if (x, y) in model:
                rec.check(not raised and state["n"] == n0, "computed", "cached entry was recomputed or raised", **wit)
                rec.check(got == model[(x, y)], "value", "cached value changed", got=got, want=model[(x, y)], **wit)
            else:
                rec.check(state["n"] == n0 + 1, "computed", "call neither cached nor computed exactly once", n=state["n"] - n0, **wit)
                if state["fail"]:
                    rec.check(raised and got == (x, y), "failure-not-stored", "failure not delivered", **wit)
                else:
                    want = None if x == 0 else {"x": x, "y": [y], "n": state["n"]}
                    rec.check(not raised and got == want, "value", "fresh value wrong", got=got, want=want, **wit)
                    model[(x, y)] = copy.deepcopy(want)
                    if maxsize is not None:
                        while len(model) > maxsize:
                            model.popitem(last=False)
            if cop and isinstance(got, dict):
                got["y"].append("junk")
                got["x"] = "junk"
        info = ctl().cache_info()
        rec.check(info["size"] == len(model) and info["maxsize"] == maxsize, "bounded", "number of retained entries", info=info, want=len(model), history=hist[-12:], maxsize=maxsize)
    rec.case([maxsize, cop, method, hist], sample={"maxsize": maxsize, "history": hist[:10]})


# ---------------------------------------------------------------- instances
def _make_class(rng, log):
    kind = ["plain", "slots_weak", "slots", "eq", "unhashable", "dataclass"][rng.integers(6)]
    cop = bool(rng.integers(2))

    def f(self, x, y=2):
        log.append(self.v)
        return ["f", self.v, x, y]

    def g(self, x=1, *, k=None):
        log.append(self.v)
        return ["g", self.v, x, k]

    ns = {
        "__init__": lambda self, v: setattr(self, "v", v),
        "f": cache_results(maxsize=16, copy_on_return=cop, per_instance=True)(f),
        "g": cache_results(g) if rng.random() < 0.5 else cache_results(maxsize=16, copy_on_return=cop)(g),
    }
    if kind == "slots_weak":
        ns["__slots__"] = ["v", "__weakref__"]
    if kind == "slots":
        ns["__slots__"] = ["v"]
    if kind == "eq":
        ns["__eq__"] = lambda self, o: True
        ns["__hash__"] = lambda self: 7
    if kind == "unhashable":
        ns["__eq__"] = lambda self, o: True
        ns["__hash__"] = None
    return type("K", (), ns), kind


def instances(rng, rec):
    """Instances, copies and re-created objects (re-used ids) keep separate results."""
    log = []
    K, kind = _make_class(rng, log)
    objs = [K(f"v{i}") for i in range(3)]
    model = {id(o): {} for o in objs}
    cnt = 0
    hist = [kind]
    keepalive = []
    for _ in range(30):
        r = rng.random()
        if r < 0.12 and len(objs) > 1:
            i = int(rng.integers(len(objs)))
            o = objs.pop(i)
            model.pop(id(o))
            del o
            if rng.random() < 0.3:
                gc.collect()
            cnt += 1
            o = K(f"n{cnt}")
            objs.append(o)
            model[id(o)] = {}
            hist.append("recreate")
        elif r < 0.24:
            o = objs[rng.integers(len(objs))]
            c = copy.copy(o) if rng.random() < 0.5 else copy.deepcopy(o)
            cnt += 1
            c.v = f"c{cnt}"
            objs.append(c)
            model[id(c)] = {}
            hist.append("copy")
        elif r < 0.28:
            o = objs[rng.integers(len(objs))]
            o.f.cache_clear()
            model[id(o)] = {k: v for k, v in model[id(o)].items() if k[0] != "f"}
            hist.append("clear-f")
        else:
            o = objs[rng.integers(len(objs))]
            x = int(rng.integers(2, 5))
            meth = ["f", "g"][rng.integers(2)]
            n0 = len(log)
            if meth == "f":
                form = rng.integers(3)
                got = o.f(x) if form == 0 else (o.f(x, 2) if form == 1 else o.f(y=2, x=x))
                want, key = ["f", o.v, x, 2], ("f", x)
            else:
                kk = [None, "z"][rng.integers(2)]
                got = o.g(x, k=kk)
                want, key = ["g", o.v, x, kk], ("g", x, kk)
            hist.append([meth, o.v, x])
            hit = key in model[id(o)]
            rec.check(got == want, "value", "result of another instance or method returned", got=got, want=want, history=hist[-12:], kind=kind)
            rec.check((len(log) - n0) == (0 if hit else 1), "computed", "wrong number of computations", n=len(log) - n0, hit=hit, history=hist[-12:], kind=kind)
            model[id(o)][key] = 1
            if rng.random() < 0.1:
                keepalive.append(o.f)
    rec.case([hist], sample={"history": hist[:12]})


def subclass(rng, rec):
    """Overriding subclasses, super() calls, several memoised methods and sibling classes."""
    log = []

    class A:
        def __init__(self, v):
            self.v = v

        @cache_results(maxsize=8, per_instance=True)
        def f(self, x, scale=1):
            log.append("A.f")
            return ("A.f", self.v, x, scale)

        @cache_results(maxsize=8, per_instance=True)
        def h(self, x, scale=1):
            log.append("A.h")
            return ("A.h", self.v, x, scale)

    class B(A):
        @cache_results(maxsize=8, per_instance=True)
        def f(self, x, scale=1):
            log.append("B.f")
            return ("B.f",) + super().f(x, scale)

    class C(B):
        def f(self, x, scale=3):
            return ("C.f",) + super().f(x, scale)

    class D(A):
        @cache_results(maxsize=8, per_instance=True)
        def f(self, x, scale=1):
            log.append("D.f")
            return ("D.f", self.v, x, scale)

    def want(o, m, x, s):
        t = type(o).__name__
        if m == "h":
            return ("A.h", o.v, x, 1 if s is None else s)
        d = {"A": 1, "B": 1, "C": 3, "D": 1}[t]
        s = d if s is None else s
        base = ("A.f", o.v, x, s)
        return {"A": base, "B": ("B.f",) + base, "C": ("C.f", "B.f") + base, "D": ("D.f", o.v, x, s)}[t]

    objs = [cls(f"{cls.__name__}{i}") for cls in (A, B, C, D) for i in range(2)]
    seen = set()
    hist = []
    for _ in range(30):
        o = objs[rng.integers(len(objs))]
        m = "f" if rng.random() < 0.75 else "h"
        x = int(rng.integers(2, 4))
        s = [None, 1, 3][rng.integers(3)]
        n0 = len(log)
        got = getattr(o, m)(x) if s is None else getattr(o, m)(x, scale=s)
        w = want(o, m, x, s)
        hist.append([o.v, m, x, s])
        rec.check(tuple(got) == w, "value", "overridden or sibling method results mixed", got=got, want=w, history=hist[-10:])
        key = (o.v, m, x, w[-1])
        if key in seen:
            rec.check(len(log) == n0, "computed", "cached call recomputed", entry=str(key), history=hist[-10:])
        seen.add(key)
    rec.case([hist], sample={"history": hist[:8]})


class Thing:
    def __init__(self, v):
        self.v = v


def release(rng, rec):
    """Cached results and instances are garbage once the caller drops the instance."""

    class K:
        def __init__(self, v):
            self.v = v

        @cache_results(maxsize=8, copy_on_return=False, per_instance=True)
        def f(self, x):
            return Thing((self.v, x))

        @cache_results(copy_on_return=bool(rng.integers(2)))
        def g(self, x):
            return [Thing(x)]

    n = int(rng.integers(1, 5))
    refs, vals = [], []
    for i in range(n):
        o = K(i)
        t = o.f(1)
        rec.check(o.f(1) is t, "identity", "object not shared although copying is off")
        o.g(2)
        if rng.random() < 0.5:
            c = copy.deepcopy(o)
            refs.append(weakref.ref(c))
            c.f(1)
            del c
        if rng.random() < 0.3:
            try:
                o.f(1, 2, 3)
            except TypeError:
                pass
        refs.append(weakref.ref(o))
        vals.append(weakref.ref(t))
        if rng.random() < 0.2:
            th = threading.Thread(target=o.f, args=(5,))
            th.start()
            th.join()
            del th
        del o, t
    gc.collect()
    rec.check(all(r() is None for r in refs), "released", "cached instances are kept alive", alive=sum(r() is not None for r in refs))
    rec.check(all(r() is None for r in vals), "released", "cached results outlive their instance", alive=sum(r() is not None for r in vals))
    rec.case([n, int(rng.integers(1 << 30))])


def returns(rng, rec):
    """Independent copies when copying is requested; recursion; exceptions; generators of None."""
    cop = bool(rng.integers(2))
    calls = []

    @cache_results(maxsize=16, copy_on_return=cop)
    def f(x, deep=None):
        calls.append(x)
        return {"arr": np.arange(3.0) + x, "l": [[x], {"k": [x]}], "t": (x, [x])}

    x = int(rng.integers(2, 9))
    a, b = f(x), f(x)
    rec.check(len(calls) == 1, "computed", "recomputed")
    if cop:
        rec.check(a is not b and a["arr"] is not b["arr"] and a["t"][1] is not b["t"][1], "independent-copy", "returned objects are shared")
        a["arr"][:] = -1
        a["l"][1]["k"].append("junk")
        a["t"][1].append("junk")
        del a["l"][0]
        b["new"] = 1
        c = f(x)
        rec.check(np.array_equal(c["arr"], np.arange(3.0) + x) and c["l"] == [[x], {"k": [x]}] and c["t"] == (x, [x]) and "new" not in c, "independent-copy", "a returned object was shared with the cache", got=repr(c))
        content = f.get_cache()
        for v in content.values():
            if isinstance(v, dict):
                v.clear()
        rec.check(f(x)["l"] == [[x], {"k": [x]}] and len(calls) == 1, "independent-copy", "inspecting the cache exposes the stored object")
    else:
        rec.check(a is b, "identity", "object not shared although copying is off")
    # first call's object too
    y = x + 10
    first = f(y)
    if cop:
        first["l"].clear()
        rec.check(f(y)["l"] == [[y], {"k": [y]}], "independent-copy", "the first returned object is the stored one")
    # argument mutated after the call
    z = [x, x]
    r1 = g_arg(z)
    z.append(5)
    r2 = g_arg(z)
    rec.check(r1 == [x, x] and r2 == [x, x, 5] and g_arg([x, x]) == [x, x], "value", "later mutation of an argument changed a cached answer", r1=r1, r2=r2)

    @cache_results(maxsize=4)
    def fib(n):
        calls.append(("fib", n))
        return n if n < 2 else fib(n - 1) + fib(n - 2)

    rec.check(fib(12) == 144, "value", "recursive memoised function", got=fib(12))
    flaky = {"n": 0}

    @cache_results(maxsize=4)
    def bad(x):
        flaky["n"] += 1
        if flaky["n"] <= 2:
            raise [ValueError, KeyError, KeyboardInterrupt][x % 3]("no")
        return flaky["n"]

    outs = []
    for _ in range(4):
        try:
            outs.append(bad(x))
        except (ValueError, KeyError, KeyboardInterrupt):
            outs.append("raise")
    rec.check(outs == ["raise", "raise", 3, 3], "failure-not-stored", "failures are remembered or block later calls", got=outs)
    rec.case([cop, x, int(rng.integers(1 << 30))])


@cache_results(maxsize=512)
def g_arg(v):
    return list(v)


def models(rng, rec):
    """The memoised model methods themselves: values per argument form, per instance, release."""
    import refmodel as R
    from props.common import nice_spec
    from props.queries import same
    from spey.interface.statistical_model import StatisticalModel

    spec = nice_spec(rng, kinds=["ub", "cb", "poi", "mvn"], nmax=2)
    m = R.build(spec)
    raw = {k: getattr(StatisticalModel, k) for k in ("maximize_likelihood", "generate_asimov_data", "maximize_asimov_likelihood")}
    # through the class the original function is reached
    b = np.array(spec["b"])
    d1 = np.maximum(np.round(b * 1.1), 1.0)
    d2 = d1.copy()
    d2[0] += 1
    forms = [
        ("maximize_likelihood", (), {}),
        ("maximize_likelihood", (True,), {}),
        ("maximize_likelihood", (False,), {}),
        ("maximize_likelihood", (), {"return_nll": False}),
        ("maximize_likelihood", (True, ET.observed, False), {}),
        ("maximize_likelihood", (), {"allow_negative_signal": False}),
        ("maximize_likelihood", (), {"expected": ET.apriori}),
        ("maximize_likelihood", (), {"expected": ET.aposteriori}),
        ("maximize_likelihood", (), {"data": d1}),
        ("maximize_likelihood", (), {"data": d2}),
        ("maximize_likelihood", (), {"data": d1, "allow_negative_signal": False}),
        ("maximize_likelihood", (), {"poi_indices": [0]}),
        ("generate_asimov_data", (), {}),
        ("generate_asimov_data", (), {"test_statistic": "q0"}),
        ("generate_asimov_data", (), {"test_statistic": "q"}),
        ("generate_asimov_data", (ET.apriori, "q0"), {}),
        ("maximize_asimov_likelihood", (), {}),
        ("maximize_asimov_likelihood", (), {"test_statistics": "q"}),
        ("maximize_asimov_likelihood", (False,), {}),
    ]
    order = rng.integers(0, len(forms), 24)
    hist = []
    for i in order:
        name, a, k = forms[int(i)]
        got = getattr(m, name)(*a, **k)
        want = raw[name](R.build(spec), *a, **k)
        hist.append(int(i))
        rec.check(same(got, want, atol=1e-9), "value", f"memoised {name} differs from the original", args=repr(a), kwargs=repr(k), got=repr(got), want=repr(want), spec=spec, history=hist)
    w = weakref.ref(m)
    wb = weakref.ref(m.backend) if hasattr(type(m.backend), "__weakref__") else (lambda: None)
    del m
    gc.collect()
    rec.check(w() is None and wb() is None, "released", "a queried model is kept alive by its caches", spec=spec)
    rec.case([spec["kind"], spec["b"], hist], sample={"spec": spec, "history": hist})


KINDS = {"args": args, "pairs": pairs, "fifo": fifo, "instances": instances, "subclass": subclass, "release": release, "returns": returns, "models": models}
