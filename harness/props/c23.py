"""C23: logger, logging-switch and warning-filter state around scoped control, with faults injected into the scopes."""
import contextlib
import io
import itertools
import logging
import sys
import threading
import warnings

import numpy as np

import refmodel as R
from props.common import SkipCase, nice_spec

RULE = (
    "distinct random programs of nested scopes (captured logging, disabled logging, tracked warnings) with messages, level changes, exceptions, early "
    "returns and failing streams inside; the complete logger and warning state is snapshotted around every scope and every message is accounted for "
    "on every sink; plus formatted records and library calls interrupted by faults"
)
PLAN = {
    "quick": {"program": 8000, "records": 2000, "threads": 400, "initialise": 400, "once": 200, "library": 300},
    "thorough": {"program": 160000, "records": 50000, "threads": 8000, "initialise": 8000, "once": 4000, "library": 6000},
}
MINIMA = {
    "mon:restored": 8000, "mon:delivered": 8000, "mon:raised-through": 600, "scope:capture": 2500, "scope:disable": 1500, "scope:track": 1500,
    "mon:record": 1500, "mon:library-restored": 200, "library-faulted": 60, "scope-failed": 700, "mon:init": 200, "mon:once": 400,
}
ASSUMPTIONS = [
    "scopes are entered and left by one thread at a time (the logger is global)",
    "a scope that disables logging nests inside weaker ones only",
]


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


LV = [logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL]


class Keep(logging.Handler):
    def __init__(self, level=0):
        super().__init__(level)
        self.got = []

    def emit(self, record):
        self.got.append(record.getMessage())


class BadStream(io.StringIO):
    """A stream whose n-th write fails."""

    def __init__(self, n):
        super().__init__()
        self.n = n

    def write(self, s):
        self.n -= 1
        if self.n < 0:
            raise OSError("stream is gone")
        return super().write(s)


class ListStream:
    """A minimal stream: no flush."""

    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)

    def getvalue(self):
        return "".join(self.parts)


def snapshot():
    lg = logging.getLogger("Spey")
    root = logging.getLogger()
    return {
        "level": lg.level,
        "handlers": [id(h) for h in lg.handlers],
        "handler-levels": [h.level for h in lg.handlers],
        "propagate": lg.propagate,
        "disabled": lg.disabled,
        "filters": len(lg.filters),
        "switch": logging.root.manager.disable,
        "root-level": root.level,
        "root-handlers": [id(h) for h in root.handlers],
        "raise": logging.raiseExceptions,
        "warning-filters": [tuple(map(repr, f)) for f in warnings.filters],
        "showwarning": id(warnings.showwarning),
        "showmsg": id(warnings._showwarnmsg_impl) if hasattr(warnings, "_showwarnmsg_impl") else 0,
        "np": dict(np.geterr()),
    }


def diff(a, b, ignore=()):
    return {k: (a[k], b[k]) for k in a if a[k] != b[k] and k not in ignore}


@contextlib.contextmanager
def sandboxed(level=None, handlers=()):
    """Give the case its own logger configuration and put everything back afterwards."""
    lg = logging.getLogger("Spey")
    old = (lg.level, lg.handlers[:], lg.propagate, logging.root.manager.disable)
    out = sys.stdout
    root = logging.getLogger()
    root_handlers = root.handlers[:]
    root.handlers[:] = [Keep()]
    with warnings.catch_warnings():
        for h in old[1]:
            lg.removeHandler(h)
        for h in handlers:
            lg.addHandler(h)
        if level is not None:
            lg.setLevel(level)
        try:
            yield lg
        finally:
            sys.stdout = out
            root.handlers[:] = root_handlers
            for h in lg.handlers[:]:
                lg.removeHandler(h)
            for h in old[1]:
                lg.addHandler(h)
            lg.setLevel(old[0])
            lg.propagate = old[2]
            logging.disable(old[3])


class Machine:
    """Runs a random program against the real scopes and a reference model of the sinks."""

    def __init__(self, rng, rec, lg, base):
        from spey.system.exceptions import warning_tracker
        from spey.system.logger import capture_logs, disable_logging

        self.capture_logs, self.disable_logging, self.warning_tracker = capture_logs, disable_logging, warning_tracker
        self.rng, self.rec, self.lg, self.base = rng, rec, lg, base
        self.ids = itertools.count()
        self.sink = None  # innermost capture: (level, [expected texts])
        self.level = lg.level
        self.off = logging.root.manager.disable
        self.expect = {id(h): [] for h in base}
        self.prog = []
        self.budget = 60
        self.old = []

    # ---- operations
    def say(self, lv, text):
        args = ("%s", text) if self.rng.random() < 0.2 else (text,)
        self.lg.log(lv, *args)
        if lv <= self.off or lv < self.level:
            return
        if self.sink is not None:
            if lv >= self.sink[0]:
                self.sink[1].append(text)
        else:
            for h in self.base:
                if lv >= h.level:
                    self.expect[id(h)].append(text)

    def message(self):
        lv = LV[self.rng.integers(5)]
        if self.old and self.rng.random() < 0.3:
            lv, text = self.old[self.rng.integers(len(self.old))]  # a repetition
        else:
            text = f"<m{next(self.ids)}>"
            self.old.append((lv, text))
        self.prog.append(("say", lv))
        self.say(lv, text)

    def warn(self):
        self.prog.append(("warn",))
        with warnings.catch_warnings(record=True):  # shield the harness' own streams
            warnings.simplefilter("always")
            warnings.warn(f"w{next(self.ids)}")

    def body(self, depth):
        for _ in range(int(self.rng.integers(0, 6))):
            self.budget -= 1
            if self.budget < 0:
                return
            r = self.rng.random()
            if r < 0.42:
                self.message()
            elif r < 0.47:
                self.warn()
            elif r < 0.53:
                lv = LV[self.rng.integers(5)]
                self.prog.append(("setlevel", lv))
                self.lg.setLevel(lv)
                self.level = lv
            elif r < 0.58:
                self.prog.append(("raise",))
                raise [Boom, Boom, BaseBoom, KeyboardInterrupt, SystemExit][self.rng.integers(5)](f"b{next(self.ids)}")
            elif r < 0.61:
                self.prog.append(("return",))
                return
            elif depth < 5:
                self.scope(depth + 1)

    def scope(self, depth):
        rec, rng = self.rec, self.rng
        t = ["capture", "capture", "disable", "track"][rng.integers(4)]
        catch = rng.random() < 0.6
        before, level, off, sink = snapshot(), self.level, self.off, self.sink
        stdout = sys.stdout
        err = outer = None
        self.prog.append((t, "{"))
        rec.count("scope:" + t)
        try:
            if t == "capture":
                self.capture(depth)
            elif t == "disable":
                lv = max(self.off, LV[rng.integers(5)])
                how = rng.random()
                ctx = self.disable_logging() if lv == logging.CRITICAL and how < 0.5 else self.disable_logging(lv)
                try:
                    with ctx:
                        self.off = lv
                        self.body(depth)
                finally:
                    self.off = off
            else:
                self.track(depth)
        except BaseException as e:  # noqa: BLE001
            if not isinstance(e, (Boom, BaseBoom, KeyboardInterrupt, SystemExit)) or not str(e).startswith("b"):
                raise
            err = e
            rec.count("scope-failed")
        self.prog.append((t, "}", type(err).__name__))
        if t == "capture":
            self.level, self.sink = level, sink
        after = snapshot()
        # the code inside may set the level itself; only a capturing scope undoes that
        ignore = () if t == "capture" else ("level",)
        rec.check(not diff(before, after, ignore), "restored", f"a {t} scope left the logging or warning state changed", changed=diff(before, after, ignore), program=self.prog[-20:], failed=repr(err))
        rec.check(self.lg.level == self.level, "restored", "logger level after the scope", got=self.lg.level, want=self.level, program=self.prog[-20:])
        rec.check(sys.stdout is stdout, "restored", "standard output was replaced")
        if err is not None:
            if catch or depth == 1:
                return
            raise err

    def capture(self, depth):
        rec, rng = self.rec, self.rng
        lv = LV[rng.integers(5)] if rng.random() < 0.9 else int(rng.integers(1, 50))
        kind = ["io", "io", "default", "list", "bad"][rng.integers(5)]
        exp = []
        stream = {"io": io.StringIO, "list": ListStream, "default": io.StringIO, "bad": lambda: BadStream(int(rng.integers(0, 3)))}[kind]()
        raised = None
        ended = False
        old_stdout = sys.stdout
        if kind == "default":
            sys.stdout = stream
        try:
            args = dict(level=lv)
            if lv == logging.DEBUG and rng.random() < 0.5:
                args = {}
            if kind != "default":
                args["stream"] = stream
            try:
                with self.capture_logs(**args):
                    if kind == "default" and rng.random() < 0.5:
                        sys.stdout = old_stdout
                    self.level, self.sink = lv, (lv, exp)
                    try:
                        self.body(depth)
                    except BaseException as e:  # noqa: BLE001
                        raised = e
                        raise
                    finally:
                        if kind != "default":
                            rec.check(stream.getvalue() == "", "delivered", "messages were written before the block ended", text=stream.getvalue()[:200])
                ended = True
            except OSError:
                rec.check(kind == "bad", "raised-through", "a working stream failed")
                rec.count("stream-failed")
                if raised is not None:
                    raise raised
                return
            except BaseException as e:  # noqa: BLE001
                rec.check(e is raised, "raised-through", "another exception than the one raised inside left the block", inside=repr(raised), outside=repr(e))
                raise
            finally:
                sys.stdout = old_stdout
                want = list(dict.fromkeys(exp))
                got = stream.getvalue()
                if kind != "bad":
                    self.account(got, want, "capture")
            rec.check(raised is None or not ended, "raised-through", "the block swallowed an exception", inside=repr(raised))
        finally:
            sys.stdout = old_stdout

    def account(self, got, want, where):
        import re

        seen = re.findall(r"<m\d+>", got)
        self.rec.check(sorted(seen) == sorted(want), "delivered", f"{where}: each captured message is to be delivered exactly once", got=seen, want=want, program=self.prog[-25:])

    def track(self, depth):
        rec, rng = self.rec, self.rng
        token = object()
        raised = []
        mine = rng.random() < 0.5

        @self.warning_tracker
        def func(a, b=2):
            """documented"""
            rec.check(a is token and b == 3, "raised-through", "arguments of a tracked function")
            if mine:
                warnings.simplefilter(["always", "ignore"][rng.integers(2)])
            else:
                warnings.warn(f"tracked {next(self.ids)}")
            try:
                self.body(depth)
            except BaseException as e:  # noqa: BLE001
                raised.append(e)
                raise
            return token

        rec.check(func.__name__ == "func" and func.__doc__ == "documented", "raised-through", "identity of a tracked function")
        # the tracked warnings end as debug messages of the current sinks; they carry no accounted id
        try:
            out = func(token, b=3)
        except BaseException as e:  # noqa: BLE001
            rec.check(raised and e is raised[0], "raised-through", "another exception than the one raised inside left the tracked function", inside=repr(raised), outside=repr(e))
            raise
        rec.check(out is token and not raised, "raised-through", "result of a tracked function")


def program(rng, rec):
    base = [Keep([0, 0, logging.WARNING][rng.integers(3)]) for _ in range(rng.integers(1, 4))]
    with sandboxed(LV[rng.integers(5)], base) as lg:
        if rng.random() < 0.3:
            lg.propagate = True
        m = Machine(rng, rec, lg, base)
        start = snapshot()
        for _ in range(int(rng.integers(1, 4))):
            m.message()
            m.scope(1)
            m.message()
        for h in base:
            rec.check(h.got == m.expect[id(h)] or [x for x in h.got if x.startswith("<m")] == m.expect[id(h)], "delivered", "messages outside capturing scopes reach the handlers as before", got=h.got[:60], want=m.expect[id(h)][:60], program=m.prog[-25:])
        d = diff(start, snapshot(), ("level",))
        rec.check(not d, "restored", "state after the program", changed=d, program=m.prog)
        # generator-based scope closed early
        def gen():
            with m.capture_logs(logging.INFO, stream=io.StringIO()):
                yield 1
                yield 2

        s = snapshot()
        g = gen()
        next(g)
        g.close()
        rec.check(not diff(s, snapshot()), "restored", "a scope in a closed generator is left", changed=diff(s, snapshot()))

        def early():
            for i in range(3):
                with m.capture_logs(logging.INFO, stream=io.StringIO()), m.disable_logging():
                    if i == 1:
                        return i
            return None

        early()
        rec.check(not diff(s, snapshot()), "restored", "an early return leaves the scopes", changed=diff(s, snapshot()))
    rec.case([[str(x) for x in p] for p in m.prog], nontrivial=len(m.prog) > 3)


def records(rng, rec):
    """Formatting: text, idempotence, and the record seen by other handlers."""
    from spey.system.logger import ColoredFormatter, capture_logs

    lv = int([5, 10, 15, 20, 25, 30, 35, 40, 45, 50, 60][rng.integers(11)])
    msg, args = [
        ("plain text", ()), ("%s and %d", ("a", 3)), ("100%", ()), ("unicode é ∑ %s", ("µ",)), ("", ()), ("two\nlines", ()), ("%(a)s", ({"a": 7},)),
        (["a", "list"], ()), (3.5, ()), (ValueError("err"), ()), ("{braces} \x1b[0m", ()),
    ][rng.integers(11)]
    exc = None
    if rng.random() < 0.3:
        try:
            raise Boom("inside")
        except Boom:
            exc = sys.exc_info()
    r = logging.LogRecord("Spey", lv, "file.py", 12, msg, args, exc, func="fn", sinfo="stack" if rng.random() < 0.1 else None)
    want = r.getMessage()
    r = logging.LogRecord("Spey", lv, "file.py", 12, msg, args, exc, func="fn", sinfo=r.stack_info)
    before = dict(vars(r))
    f = ColoredFormatter("%(message)s")
    a, b = f.format(r), f.format(r)
    c = ColoredFormatter("%(levelname)s %(message)s").format(r)
    after = dict(vars(r))
    rec.check({k: before.get(k) for k in ("msg", "args", "levelno", "levelname", "exc_info", "stack_info", "name", "funcName", "lineno")} == {k: after.get(k) for k in ("msg", "args", "levelno", "levelname", "exc_info", "stack_info", "name", "funcName", "lineno")}, "record", "formatting changed the record", before=repr(before), after=repr(after))
    rec.check(r.getMessage() == want, "record", "other handlers see another message", got=r.getMessage(), want=want)
    rec.check(a == b, "record", "formatting twice gives another text", first=a, second=b)
    rec.check(a.count(want) >= 1 and a.count("Spey") == 1 + want.count("Spey") and (not exc or "Boom" in a), "record", "formatted text does not hold the message once", text=a, message=want)
    rec.check(c.count("Spey") == 1 + want.count("Spey"), "record", "a second handler formats a formatted message", text=c)
    # through a real logger with several handlers in both orders
    s1, s2, plain = io.StringIO(), io.StringIO(), Keep()
    h1, h2 = logging.StreamHandler(s1), logging.StreamHandler(s2)
    h1.setFormatter(ColoredFormatter("%(message)s"))
    h2.setFormatter(ColoredFormatter("%(message)s"))
    hs = [h1, h2, plain]
    hs = [hs[i] for i in rng.permutation(3)]
    with sandboxed(1, hs) as lg:
        lg.propagate = False
        lg.log(lv, msg, *args)
        rec.check(plain.got == [want], "record", "a handler behind the coloured ones sees another message", got=plain.got, want=want)
        rec.check(s1.getvalue() == s2.getvalue() or lv < 20, "record", "two coloured handlers print different texts", one=s1.getvalue(), two=s2.getvalue())
        rec.check(s2.getvalue().count("Spey") == 1 + want.count("Spey"), "record", "nested colouring", text=s2.getvalue())
        out = io.StringIO()
        with capture_logs(lv, stream=out):
            for _ in range(3):
                lg.log(lv, msg, *args)
        if want:
            rec.check(out.getvalue().count(want) >= 1 and out.getvalue().count("Spey") == 1 + want.count("Spey"), "record", "a repeated message is delivered once", text=out.getvalue())
        # a message that cannot be formatted does not stop the captured code
        out = io.StringIO()
        done = False
        with capture_logs(logging.INFO, stream=out):
            lg.warning("%d values", "three")
            lg.warning("<after>")
            done = True
        rec.check(done and out.getvalue().count("<after>") == 1, "record", "a badly formatted message disturbed the captured block", text=out.getvalue())
    rec.case([lv, repr(msg), repr(args), bool(exc)])


def threads(rng, rec):
    """Messages of worker threads inside a capturing scope are delivered exactly once."""
    from spey.system.logger import capture_logs

    n, per = int(rng.integers(2, 6)), int(rng.integers(5, 40))
    shared = [f"<s{i}>" for i in range(3)]
    base = [Keep()]
    with sandboxed(logging.INFO, base) as lg:
        out = io.StringIO()
        s = snapshot()
        with capture_logs(logging.INFO, stream=out):
            bar = threading.Barrier(n)

            def work(k):
                bar.wait()
                for i in range(per):
                    lg.info(f"<t{k}.{i}>")
                    lg.info(shared[i % 3])

            ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
            [t.start() for t in ts]
            [t.join() for t in ts]
        text = out.getvalue()
        want = [f"<t{k}.{i}>" for k in range(n) for i in range(per)] + shared
        bad = [w for w in want if text.count(w) != 1]
        rec.check(not bad and text.count("\n") == len(want), "delivered", "messages from threads are to be delivered exactly once", bad=bad[:5], lines=text.count("\n"), want=len(want))
        rec.check(base[0].got == [], "delivered", "captured messages leaked to the handlers", got=base[0].got[:3])
        rec.check(not diff(s, snapshot()), "restored", "state after the block", changed=diff(s, snapshot()))
    rec.case([n, per, int(rng.integers(1e9))])


def initialise(rng, rec):
    """Initialising the logger replaces whatever handlers were attached before."""
    from spey.system import logger

    import spey

    pre = [Keep() for _ in range(rng.integers(0, 5))]
    lvl = int(rng.integers(4))
    with sandboxed(logging.INFO, pre) as lg:
        for _ in range(int(rng.integers(1, 4))):
            out = io.StringIO()
            logger.init(out)
        if True:
            rec.check(len(lg.handlers) == 1 and not any(h in lg.handlers for h in pre), "init", "handlers attached before are replaced", handlers=[repr(h) for h in lg.handlers], had=len(pre))
            rec.check(lg.propagate is False, "init", "messages propagate to the root logger")
            spey.set_log_level(lvl)
            want = [logging.ERROR, logging.WARNING, logging.INFO, logging.DEBUG][lvl]
            rec.check(lg.level == want, "init", "log level", got=lg.level, want=want)
            for i, lv in enumerate(LV):
                lg.log(lv, f"<m{i}>")
            text = out.getvalue()
            bad = [i for i, lv in enumerate(LV) if text.count(f"<m{i}>") != (lv >= want)]
            rec.check(not bad and not any(h.got for h in pre), "init", "every message of the chosen level appears exactly once", text=text, level=lvl, old=[h.got for h in pre])
    rec.case([len(pre), lvl, int(rng.integers(1e9))], len(pre) > 0)


def once(rng, rec):
    """Messages meant to appear once: each is logged at its level, and repeating it while it is remembered stays silent."""
    import spey

    tag = int(rng.integers(1 << 60))
    n = int(rng.integers(1, 10))
    levels = {"debug": logging.DEBUG, "info": logging.INFO, "warning": logging.WARNING, "error": logging.ERROR}
    pairs = [(f"<{tag}.{i}> %s of {{}}", list(levels)[rng.integers(4)]) for i in range(n)]
    h = Keep()
    h.emit = lambda r: h.got.append((r.getMessage() if not r.args else str(r.msg), r.levelno))
    with sandboxed(logging.DEBUG, [h]):
        plan = pairs + [pairs[rng.integers(n)] for _ in range(int(rng.integers(0, 20)))]
        plan = [plan[i] for i in rng.permutation(len(plan))]
        for msg, lv in plan:
            spey.log_once(msg, lv)
    for msg, lv in pairs:
        seen = [v for m, v in h.got if m == msg]
        rec.check(seen == [levels[lv]], "once", "a message to be logged once appears another number of times or at another level", seen=seen, message=msg, level=lv, repeats=plan.count((msg, lv)))
    rec.check(len(h.got) == n, "once", "messages nobody asked for", got=h.got, n=n)
    rec.case([n, len(plan), [lv for _, lv in pairs], tag], nontrivial=len(plan) > n)


def library(rng, rec):
    """Public queries, successful and interrupted: the process-wide state is as before."""
    spec = nice_spec(rng, kinds=["ub", "cb", "tm", "poi", "gau"])
    m = R.build(spec)
    inner = type(m.backend)
    fuse = [None if rng.random() < 0.35 else int(rng.integers(0, 40))]
    err = [Boom, ValueError, KeyboardInterrupt, BaseBoom][rng.integers(4)]("injected")
    hit = []

    class Faulty(inner):
        def _tick(self):
            if fuse[0] is not None:
                fuse[0] -= 1
                if fuse[0] < 0:
                    hit.append(1)
                    raise err

        def get_objective_function(self, *a, **k):
            f = super().get_objective_function(*a, **k)

            def g(p):
                self._tick()
                logging.getLogger("Spey").warning("<w>")
                warnings.warn("from the model", RuntimeWarning)
                return f(p)

            return g

        def get_logpdf_func(self, *a, **k):
            f = super().get_logpdf_func(*a, **k)

            def g(p):
                self._tick()
                return f(p)

            return g

    m.backend.__class__ = Faulty
    mu = float(round(rng.uniform(0.1, 1.5), 2))
    calls = {
        "upper limit": lambda: m.poi_upper_limit(),
        "upper limit expected": lambda: m.poi_upper_limit(expected="apriori", expected_pvalue="1sigma"),
        "exclusion": lambda: m.exclusion_confidence_level(mu),
        "chi2 scan": lambda: m.chi2([0.1, mu], allow_negative_signal=True),
        "chi2 test": lambda: m.chi2_test(),
        "significance": lambda: m.significance(),
        "chi2 dict": lambda: m.chi2({0: [0.2, mu]}),
        "fit": lambda: m.maximize_likelihood(),
        "toys": lambda: m.exclusion_confidence_level(mu, calculator="toy"),
    }
    m.ntoys = 5
    names = [n for n in calls if n != "chi2 test" or fuse[0] is not None]  # slow when it runs to the end
    base = [Keep(), Keep(logging.WARNING)]
    with sandboxed(LV[rng.integers(5)], base) as lg:
        warnings.simplefilter("always")
        old = sys.stdout
        for n in [names[i] for i in rng.permutation(len(names))[:3]]:
            s = snapshot()
            fuse[0] = None if fuse[0] is None else int(rng.integers(0, 40))
            sys.stdout = io.StringIO()
            seen = None
            try:
                with warnings.catch_warnings(record=True):
                    calls[n]()
            except BaseException as e:  # noqa: BLE001
                if type(e).__name__ == "CaseTimeout":
                    raise
                seen = e
            finally:
                sys.stdout = old
            after = snapshot()
            rec.check(not diff(s, after), "library-restored", "a query left the logging or warning state changed", query=n, changed=diff(s, after), error=repr(seen))
            if hit:
                rec.count("library-faulted")
                hit.clear()
            elif seen is not None and not isinstance(seen, (NotImplementedError,)):
                rec.count("library-refused:" + type(seen).__name__)
    rec.case([spec["kind"], spec["b"], mu, fuse[0], repr(err)])


KINDS = {k: globals()[k] for k in PLAN["quick"]}
