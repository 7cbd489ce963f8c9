"""C08: the result cache under concurrent calls, failures, clears and evictions.

Monitor: every call, computation and clear on a memoised callable is recorded in one global event log
while threads run under randomised scheduling (random yields on each line of the cache module plus a
tiny switch interval); an offline checker then judges the recorded history.
"""
import hashlib
import random
import sys
import threading
import time

import spey.system.cache as cache_mod
from spey.system.cache import cache_results

RULE = (
    "a case is one concurrent history (threads x operations x computation delays and failures) or one directed "
    "scenario; distinct = distinct order of recorded events (hash of the event log); trivial = no two operations overlapped"
)
PLAN = {
    "quick": {"history": 2400, "methods": 800, "directed": 1200, "nested": 400},
    "thorough": {"history": 60000, "methods": 20000, "directed": 30000, "nested": 8000},
}
MINIMA = {"mon:value": 3000, "mon:single-flight": 800, "ev:waited": 100, "ev:failed-compute": 200, "ev:clear": 150, "ev:evict-possible": 100}
ASSUMPTIONS = ["a computation never calls itself again with its own arguments in the same thread"]
CASE_TIMEOUT = 90
TIMEOUT_IS_VIOLATION = True
JOIN = 25.0


class Boom(Exception):
    def __init__(self, cid, x):
        super().__init__(f"{cid}:{x}")
        self.cid, self.x = cid, x


class Halt(BaseException):
    """Like KeyboardInterrupt: not an Exception."""

    def __init__(self, cid, x):
        super().__init__(f"{cid}:{x}")
        self.cid, self.x = cid, x


class Log:
    def __init__(self):
        self.ev = []
        self.lk = threading.Lock()

    def add(self, *e):
        with self.lk:
            self.ev.append((len(self.ev),) + e)
            return len(self.ev) - 1


def tracer(seed, p):
    """Random pre-emption at every line executed inside the cache module."""
    fname = cache_mod.__file__

    def install():
        rnd = random.Random(seed ^ threading.get_ident())

        def local(frame, event, arg):
            if event == "line" and rnd.random() < p:
                time.sleep(rnd.choice([0, 0, 1e-6, 5e-5, 3e-4]))
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename == fname:
                return local
            return None

        sys.settrace(glob)

    return install


class World:
    """A memoised callable whose computations are logged, delayed and failed on a schedule."""

    def __init__(self, rng, rec, maxsize, copy, nkeys, pfail, delay, base=False):
        self.log = Log()
        self.rec = rec
        self.rnd = random.Random(int(rng.integers(2**31)))
        self.pfail, self.delay = pfail, delay
        self.base = base
        self.n = 0
        self.lk = threading.Lock()
        self.maxsize, self.copy, self.nkeys = maxsize, copy, nkeys

    def compute(self, who, x):
        with self.lk:
            cid = self.n
            self.n += 1
            fail = self.rnd.random() < self.pfail
            d = self.rnd.random() * self.delay if self.rnd.random() < 0.7 else 0.0
            halt = self.base and self.rnd.random() < 0.4
        key = (who, repr(x))
        self.log.add("cs", cid, key, threading.get_ident())
        if d:
            time.sleep(d)
        if fail:
            self.log.add("cf", cid, key, threading.get_ident())
            raise (Halt if halt else Boom)(cid, x)
        self.log.add("ce", cid, key, threading.get_ident())
        return [cid, who, x]


def run_threads(fns, seed, p, rec, what):
    """Run callables in threads under the tracer; returns False if any hangs."""
    inst = tracer(seed, p)

    def wrap(f):
        def run():
            inst()
            try:
                f()
            finally:
                sys.settrace(None)

        return run

    ths = [threading.Thread(target=wrap(f), daemon=True) for f in fns]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        for t in ths:
            t.start()
        end = time.time() + JOIN
        for t in ths:
            t.join(max(0.0, end - time.time()))
    finally:
        sys.setswitchinterval(old)
    alive = [t for t in ths if t.is_alive()]
    if alive:
        import traceback

        fr = sys._current_frames()
        tr = ["".join(traceback.format_stack(fr[t.ident])[-3:]) for t in alive if t.ident in fr]
        rec.violate("hang", f"{len(alive)} threads never finished: {what}", stacks=tr)
        return False
    rec.count("mon:no-hang")
    return True


def judge(w, rec, what):
    """Offline checker of one recorded history."""
    ev = w.log.ev
    comp, calls, clears, open_c, open_k = {}, [], [], {}, {}
    thread_call = {}
    for e in ev:
        t, k = e[0], e[1]
        if k == "call":
            open_c[e[2]] = {"start": t, "key": e[3], "tid": e[4]}
            thread_call[e[4]] = e[2]
        elif k == "ret":
            c = open_c.pop(e[2])
            calls.append({**c, "end": t, "how": e[3], "val": e[4], "id": e[2]})
        elif k == "cs":
            comp[e[2]] = {"start": t, "key": e[3], "tid": e[4], "end": None, "ok": None, "call": thread_call.get(e[4])}
        elif k in ("ce", "cf"):
            comp[e[2]].update(end=t, ok=k == "ce")
        elif k == "clear0":
            open_k[e[2]] = (t, e[3])
        elif k == "clear1":
            s, scope = open_k.pop(e[2])
            clears.append((s, t, scope))
    callid = {c["id"]: c for c in calls}
    for c in calls:
        if c["how"] == "ok":
            v = c["val"]
            src = comp.get(v[0]) if isinstance(v, list) and len(v) == 3 else None
            rec.check(
                src is not None and src["key"] == c["key"] and src["ok"] and src["end"] < c["end"] and (v[1], repr(v[2])) == c["key"],
                "value", "a call returned something other than a finished computation of its own arguments",
                call=c, source=src, what=what,
            )
            if src:
                # results finished before a clear are gone after it
                stale = any(src["end"] < s and callid.get(src["call"], {"end": 1e18})["end"] < s and c["start"] > e for s, e, sc in clears if sc in (None, c["key"][0]))
                rec.check(not stale, "not-stale", "a cleared result was returned", call=c, source=src, clears=clears, what=what)
                if src["call"] != c["id"]:
                    rec.count("ev:shared")
                    if src["end"] > c["start"]:
                        rec.count("ev:waited")
        elif c["how"] == "raise":
            typ, cid = c["val"]
            src = comp.get(cid)
            rec.check(
                src is not None and src["key"] == c["key"] and src["ok"] is False and src["end"] < c["end"],
                "error", "a call raised something other than the error of a computation of its arguments", call=c, source=src, what=what,
            )
            if src:
                rec.check(src["end"] > c["start"], "failure-not-remembered", "an earlier failure was raised by a later call", call=c, source=src, what=what)
        else:
            rec.violate("foreign-error", f"a call raised a foreign error: {c['val']}", call=c, what=what)
    # single flight and recomputation
    bykey = {}
    for i, c in comp.items():
        bykey.setdefault(c["key"], []).append({**c, "id": i})
    for key, cs in bykey.items():
        cs.sort(key=lambda c: c["start"])
        for i, a in enumerate(cs):
            if a["end"] is None:
                continue
            if not a["ok"]:
                rec.count("ev:failed-compute")
            a_call = callid.get(a["call"])
            t0 = a_call["start"] if a_call else a["start"]
            for b in cs[i + 1 :]:
                b_call = callid.get(b["call"])
                t1 = min(t0, b_call["start"] if b_call else b["start"])  # a caller can pause between registering and computing
                hit = [1 for s, e, sc in clears if e > t1 and s < b["start"] and sc in (None, key[0])]
                if b["start"] < a["end"]:
                    rec.check(bool(hit), "single-flight", "the same arguments were computed twice at once although nothing was cleared", first=a, second=b, what=what)
                elif a["ok"] and w.maxsize is not None and w.nkeys <= w.maxsize or a["ok"] and w.maxsize is None:
                    rec.check(bool(hit), "computed-once", "a stored result was computed again", first=a, second=b, what=what)
            rec.count("mon:single-flight")
    if w.maxsize is not None and w.nkeys > w.maxsize:
        rec.count("ev:evict-possible")
    rec.count("ev:clear", len(clears))
    order = hashlib.sha1(repr([(e[1], e[3] if e[1] in ("call", "cs") else 0) for e in ev]).encode()).hexdigest()
    over = any(a["start"] < b["start"] < a["end"] for a, b in zip(calls, calls[1:])) or any(
        x["start"] < y["start"] < x["end"] for x in calls for y in calls if x is not y
    )
    return order, over


class Ids:
    def __init__(self):
        self.n = 0
        self.lk = threading.Lock()

    def __call__(self):
        with self.lk:
            self.n += 1
            return self.n


def do_call(w, ids, f, who, x):
    i = ids()
    w.log.add("call", i, (who, repr(x)), threading.get_ident())
    try:
        v = f(x)
        w.log.add("ret", i, "ok", v)
        return v
    except (Boom, Halt) as err:
        w.log.add("ret", i, "raise", (type(err).__name__, err.cid))
    except BaseException as err:  # noqa: BLE001
        w.log.add("ret", i, "foreign", f"{type(err).__name__}: {err}")
    return None


def arg(rng, i):
    return [i, [i, i + 1], {"a": i}, (i, "x"), f"k{i}"][rng.integers(5)] if False else [i, [i, i + 1], {"a": i}, (i, "x"), f"k{i}"][i % 5]


def history(rng, rec):
    """Random concurrent history on one memoised function."""
    maxsize = [None, 1, 2, 3, 64][rng.integers(5)]
    copy = bool(rng.integers(2))
    nkeys = int(rng.integers(1, 6))
    w = World(rng, rec, maxsize, copy, nkeys, float(rng.choice([0.0, 0.2, 0.5])), float(rng.choice([0.0, 3e-4, 3e-3])), bool(rng.random() < 0.3))

    @cache_results(maxsize=maxsize, copy_on_return=copy)
    def f(x):
        return w.compute("f", x)

    ids = Ids()
    nth = int(rng.integers(2, 9))
    pclear = float(rng.choice([0.0, 0.0, 0.08, 0.2]))
    progs = []
    for _ in range(nth):
        prog = []
        for _ in range(int(rng.integers(4, 14))):
            if rng.random() < pclear:
                prog.append(("clear",))
            elif rng.random() < 0.08:
                prog.append(("info",))
            elif rng.random() < 0.1:
                prog.append(("get",))
            else:
                prog.append(("call", arg(rng, int(rng.integers(nkeys)))))
        progs.append(prog)

    def runner(prog):
        def run():
            for op in prog:
                if op[0] == "call":
                    do_call(w, ids, f, "f", op[1])
                elif op[0] == "clear":
                    i = ids()
                    w.log.add("clear0", i, None)
                    f.cache_clear()
                    w.log.add("clear1", i)
                elif op[0] == "get":
                    got = f.get_cache()
                    if not isinstance(got, dict):
                        rec.violate("snapshot", "cache snapshot is not a dictionary")
                    for v in got.values():
                        if not (isinstance(v, list) and len(v) == 3):
                            rec.violate("snapshot", f"cache snapshot exposes something that is not a result: {v!r}")
                    rec.count("mon:snapshot")
                else:
                    n = f.cache_info()["size"]
                    if maxsize is not None and n > maxsize + nth:
                        rec.violate("size-running", f"{n} entries, maximum {maxsize}")
                    rec.count("mon:size-running")

        return run

    what = {"maxsize": maxsize, "threads": nth, "keys": nkeys, "pclear": pclear}
    if not run_threads([runner(p) for p in progs], int(rng.integers(2**31)), float(rng.choice([0.02, 0.1, 0.3])), rec, what):
        return
    order, over = judge(w, rec, what)
    after(w, rec, f, "f", nkeys, rng, what)
    rec.case([order, what], nontrivial=over, sample={**what, "events": len(w.log.ev)})


def after(w, rec, f, who, nkeys, rng, what):
    """Quiescent state: bounded and working."""
    n = f.cache_info()["size"]
    rec.check(w.maxsize is None or n <= w.maxsize, "bounded", "more entries than the maximum after all calls finished", size=n, what=what)
    rec.check(n <= nkeys, "bounded", "more entries than keys", size=n, what=what)
    w.pfail = 0.0
    res = {}

    def probe():
        for k in range(nkeys):
            x = arg(rng, k)
            n0 = w.n
            res[k, 0] = f(x)
            res[k, 1] = f(x)
            res[k, 2] = w.n - n0

    t = threading.Thread(target=probe, daemon=True)
    t.start()
    t.join(15)
    if not rec.check(not t.is_alive(), "works-after", "a call hangs after the history although nothing is running", what=what):
        return
    for k in range(nkeys):
        x = arg(rng, k)
        rec.check((k, 2) in res and res[k, 0][1:] == [who, x] and res[k, 1] == res[k, 0] and res[k, 2] <= 1, "works-after", "wrong result or no caching after the history", what=what, got={str(q): v for q, v in res.items()})
    n = f.cache_info()["size"]
    rec.check(w.maxsize is None or n <= w.maxsize, "bounded", "more entries than the maximum", size=n, what=what)


def methods(rng, rec):
    """Random concurrent history on memoised methods of several instances (and their copies and subclasses)."""
    import copy as cp

    maxsize = [1, 2, 64][rng.integers(3)]
    nkeys = int(rng.integers(1, 4))
    w = World(rng, rec, maxsize, False, nkeys, float(rng.choice([0.0, 0.3])), float(rng.choice([0.0, 3e-4, 2e-3])))

    class A:
        def __init__(self, v):
            self.v = v

        @cache_results(maxsize=maxsize, copy_on_return=bool(rng.integers(2)), per_instance=True)
        def f(self, x):
            return w.compute(self.v, x)

    class B(A):
        @cache_results(maxsize=maxsize, per_instance=True)
        def f(self, x):
            return super().f(x)

    objs = [A("a"), A("b"), B("c")]
    cpy = cp.copy(objs[0])
    cpy.v = "a2"
    objs.append(cpy)
    ids = Ids()
    nth = int(rng.integers(2, 7))
    pclear = float(rng.choice([0.0, 0.1]))
    drop = bool(rng.random() < 0.3)

    def runner(r):
        def run():
            for j in range(r.randint(3, 9)):
                o = objs[r.randrange(len(objs))]
                if r.random() < pclear and type(o) is A:
                    i = ids()
                    w.log.add("clear0", i, o.v)
                    o.f.cache_clear()
                    w.log.add("clear1", i)
                else:
                    do_call(w, ids, o.f, o.v, arg(None, r.randrange(nkeys)))
                if drop:
                    t = A(f"t{threading.get_ident()}-{j}-{r.random()}")
                    do_call(w, ids, t.f, t.v, 1)
                    del t

        return run

    what = {"maxsize": maxsize, "threads": nth, "keys": nkeys, "pclear": pclear, "methods": True}
    fns = [runner(random.Random(int(rng.integers(2**31)))) for _ in range(nth)]
    if not run_threads(fns, int(rng.integers(2**31)), float(rng.choice([0.02, 0.1, 0.3])), rec, what):
        return
    order, over = judge(w, rec, what)
    for o in objs:
        after(w, rec, o.f, o.v, nkeys, rng, what)
    rec.case([order, what], nontrivial=over, sample={**what, "events": len(w.log.ev)})


def blocked(t):
    """Is this thread waiting inside the cache module?"""
    fr = sys._current_frames().get(t.ident)
    depth = 0
    while fr is not None and depth < 6:
        if fr.f_code.co_filename == cache_mod.__file__:
            return depth > 0
        fr = fr.f_back
        depth += 1
    return False


def directed(rng, rec):
    """A gated leader, waiters, and one disturbance at that exact moment."""
    dist = ["none", "fail", "halt", "clear", "clear-fail", "evict", "clear-other", "drop", "clear-then-new"][rng.integers(9)]
    per_inst = bool(rng.integers(2)) or dist == "drop"
    copy = bool(rng.integers(2))
    maxsize = [1, 2][rng.integers(2)] if dist == "evict" else [1, 8, None][rng.integers(3)]
    nw = int(rng.integers(1, 6))
    gate, started = threading.Event(), threading.Event()
    comps = []
    lk = threading.Lock()

    def compute(x):
        with lk:
            comps.append(x)
            cid = len(comps) - 1
        if cid == 0:
            started.set()
            if not gate.wait(40):
                raise RuntimeError("harness gate")
            if dist in ("fail", "clear-fail"):
                raise Boom(cid, x)
            if dist == "halt":
                raise Halt(cid, x)
        return [cid, x]

    if per_inst:

        class K:
            @cache_results(maxsize=maxsize, copy_on_return=copy, per_instance=True)
            def f(self, x):
                return compute(x)

        obj = K()
        f = obj.f
        if dist == "drop":
            del obj
    else:

        @cache_results(maxsize=maxsize, copy_on_return=copy)
        def f(x):
            return compute(x)

    x0 = arg(rng, int(rng.integers(5)))
    out = {}

    def caller(i):
        def run():
            try:
                out[i] = ("ok", f(x0))
            except (Boom, Halt) as err:
                out[i] = ("raise", err.cid)
            except BaseException as err:  # noqa: BLE001
                out[i] = ("foreign", f"{type(err).__name__}: {err}")

        return run

    ths = [threading.Thread(target=caller(i), daemon=True) for i in range(nw + 1)]
    ths[0].start()
    started.wait(10)
    for t in ths[1:]:
        t.start()
    end = time.time() + 1.0
    while time.time() < end and not all(blocked(t) for t in ths[1:]):
        time.sleep(5e-4)
    what = {"disturbance": dist, "waiters": nw, "maxsize": maxsize, "per_instance": per_inst, "copy": copy}
    rec.check(len(comps) == 1 and not out, "wait-while-running", "a call for arguments under computation did not wait", computations=comps, out=out, what=what)
    others = []
    if dist in ("clear", "clear-fail", "clear-then-new"):
        f.cache_clear()
        rec.count("ev:clear")
    if dist == "clear-then-new":
        t = threading.Thread(target=caller("new"), daemon=True)
        ths.append(t)
        t.start()
        t.join(5)
        rec.check("new" in out or t.is_alive(), "value", "call vanished", what=what)
    if dist == "evict":
        for k in range(4):
            r = f(100 + k)
            others.append(r)
            rec.check(r[1] == 100 + k, "value", "wrong value while another computation runs", got=r, what=what)
    if dist == "drop":
        import gc

        gc.collect()
    gate.set()
    end = time.time() + 15
    for t in ths:
        t.join(max(0.0, end - time.time()))
    if not rec.check(not any(t.is_alive() for t in ths), "hang", "callers never returned after the computation ended", what=what, out=out):
        return
    failing = dist in ("fail", "halt", "clear-fail")
    for i, o in out.items():
        if o[0] == "ok":
            rec.check(o[1][1] == x0 and comps[o[1][0]] == x0 and not (failing and o[1][0] == 0), "value", "wrong value returned to a waiter", got=o, what=what, caller=i)
        elif o[0] == "raise":
            rec.check(failing and o[1] == 0, "error", "a caller raised although no computation of its arguments failed", got=o, what=what, caller=i)
            rec.count("ev:failed-compute")
        else:
            rec.violate("foreign-error", f"a caller raised {o[1]}", what=what)
    if failing:
        rec.check(out.get(0) == ("raise", 0), "error", "the failing computation's own caller did not see its error", got=out.get(0), what=what)
        if dist != "clear-fail":
            rec.check(comps.count(x0) <= 2, "single-flight", "waiters computed several times after one failure", computations=comps, what=what)
    elif dist in ("none", "evict", "drop"):
        rec.check(comps.count(x0) == 1, "single-flight", "waiting callers computed again", computations=comps, what=what)
        rec.count("ev:waited", nw)
    if dist == "evict":
        rec.count("ev:evict-possible")
    n0 = len(comps)
    r = {}
    t = threading.Thread(target=lambda: r.update(v=f(x0), w=f(x0)), daemon=True)
    t.start()
    t.join(10)
    rec.check(r.get("v", [0, None])[1] == x0 and r.get("w") == r.get("v"), "works-after", "the cache no longer works", got=r, what=what)
    rec.check(len(comps) - n0 <= 1, "works-after", "equal calls are no longer cached", what=what)
    sz = f.cache_info()["size"]
    rec.check(maxsize is None or sz <= maxsize, "bounded", "more entries than the maximum", size=sz, what=what)
    rec.case([what, repr(x0), sorted((str(i), o[0], str(o[1])) for i, o in out.items())], sample=what)


def nested(rng, rec):
    """Computations that use the cache themselves: other keys, other threads' keys, clearing, inspection."""
    mode = ["recursive", "depends", "clear-inside", "info-inside", "two-functions"][rng.integers(5)]
    maxsize = [1, 2, 32][rng.integers(3)]
    w = {"n": 0}
    lk = threading.Lock()
    evs = {k: threading.Event() for k in range(20)}

    def body(x):
        with lk:
            w["n"] += 1
        if mode == "recursive":
            return x if x < 2 else f(x - 1) + f(x - 2)
        if mode == "depends":
            # needs a concurrent computation of another key to have started
            evs[x].set()
            ok = evs[x ^ 1].wait(12)
            return (x, ok)
        if mode == "clear-inside":
            f.cache_clear()
            return (x, True)
        if mode == "info-inside":
            return (x, isinstance(f.cache_info(), dict) and isinstance(f.get_cache(), dict))
        return x + g(x)

    @cache_results(maxsize=maxsize, copy_on_return=bool(rng.integers(2)))
    def f(x):
        return body(x)

    @cache_results(maxsize=maxsize)
    def g(x):
        return 100 + (f(x - 1) if x > 0 else 0)

    def want(x):
        if mode == "recursive":
            a, b = 0, 1
            for _ in range(x):
                a, b = b, a + b
            return a
        if mode == "two-functions":
            return x + 100 + (want(x - 1) if x > 0 else 0)
        return (x, True)

    out = {}
    nth = int(rng.integers(2, 6))
    xs = [int(rng.integers(0, 9)) for _ in range(nth)]
    if mode == "depends":
        xs = [0, 1, 2, 3][: 2 * int(rng.integers(1, 3))]

    def runner(i, x):
        def run():
            try:
                out[i] = f(x)
            except Exception as err:  # noqa: BLE001
                out[i] = f"{type(err).__name__}: {err}"

        return run

    what = {"mode": mode, "maxsize": maxsize, "args": xs}
    if not run_threads([runner(i, x) for i, x in enumerate(xs)], int(rng.integers(2**31)), 0.1, rec, what):
        return
    for i, x in enumerate(xs):
        rec.check(out.get(i) == want(x), "value", "wrong value from a computation that uses the cache itself", got=out.get(i), want=want(x), what=what)
    sz = f.cache_info()["size"]
    rec.check(sz <= maxsize, "bounded", "more entries than the maximum", size=sz, what=what)
    rec.case([what, w["n"]], sample=what)


KINDS = {"history": history, "methods": methods, "directed": directed, "nested": nested}
