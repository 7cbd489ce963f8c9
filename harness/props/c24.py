"""C24: online helpers under injected network, reply and cache-directory faults."""
import contextlib
import io
import json
import logging
import os
import pickle
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time

import numpy as np

from props.common import SkipCase
from vlib import SPEY_SRC

RULE = (
    "distinct histories of cache-directory states x network faults x replies; every call of the real helpers runs against a transport stub that "
    "records each request, and is judged from the directory contents before and after, the messages logged and the requests sent"
)
PLAN = {
    "quick": {"updates": 1500, "unprivileged": 200, "concurrent": 80, "bibtex": 1500, "backend_bibtex": 600, "cite": 400, "imports": 28},
    "thorough": {"updates": 90000, "unprivileged": 6000, "concurrent": 4000, "bibtex": 60000, "backend_bibtex": 25000, "cite": 15000, "imports": 400},
}
MINIMA = {
    "mon:no-raise": 4000, "mon:source": 3000, "mon:requests": 3000, "mon:report": 900, "mon:one-file": 600, "mon:unchanged": 800, "mon:bibtex": 900,
    "reported-from-cache": 200, "reported-from-network": 300, "write-cut-short": 100, "mon:import": 20,
}
ASSUMPTIONS = [
    "files dated in the future, and replies with an error status that carry a complete description, are not generated as decisive cases",
    "faults below the transport (TLS, sockets) are represented by the exceptions requests raises for them",
]
DAY = 86400


# ------------------------------------------------------------------ network stub
class Net:
    """Replaces the transport of requests; every request is recorded."""

    def __init__(self, script):
        self.script, self.sent = script, []
        self.lock = threading.Lock()

    def __enter__(self):
        import requests

        self.orig = requests.adapters.HTTPAdapter.send
        net = self

        def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
            with net.lock:
                net.sent.append({"url": request.url, "method": request.method, "timeout": timeout, "accept": request.headers.get("accept")})
            what = net.script(request.url)
            if isinstance(what, BaseException):
                raise what
            status, body = what
            r = requests.Response()
            r.status_code, r.url, r.request = status, request.url, request
            if isinstance(body, BaseException):
                r.raw = BrokenBody(body)
            else:
                r.raw = io.BytesIO(body)
                r._content = body
                r._content_consumed = True
            r.headers["Content-Type"] = "application/json"
            return r

        requests.adapters.HTTPAdapter.send = send
        return self

    def __exit__(self, *a):
        import requests

        requests.adapters.HTTPAdapter.send = self.orig


class BrokenBody:
    """The connection breaks while the body is read."""

    def __init__(self, err):
        self.err = err

    def stream(self, *a, **k):
        yield b'{"info": {"ver'
        raise self.err

    def read(self, *a, **k):
        raise self.err

    def close(self):
        pass

    def release_conn(self):
        pass


def _faults():
    import requests as q
    from urllib3.exceptions import ProtocolError, ReadTimeoutError

    conn = [q.ConnectionError("x"), q.ConnectTimeout("x"), q.exceptions.ReadTimeout("x"), q.exceptions.SSLError("x"), q.exceptions.ProxyError("x")]
    other = [
        q.exceptions.TooManyRedirects("x"), q.exceptions.InvalidURL("x"), q.exceptions.ContentDecodingError("x"), q.exceptions.Timeout("x"),
        RuntimeError("boom"), OSError(5, "io"), ValueError("x"), UnicodeError("x"), MemoryError("x"), RecursionError("x"), AttributeError("x"), KeyError("x"),
    ]
    body = [ProtocolError("cut"), ReadTimeoutError(None, "u", "slow"), OSError("reset")]
    return conn, other, body


# ------------------------------------------------------------------ replies
def _versions():
    import spey

    v = spey.version().split("-")[0].split(".")
    return spey.version(), [int(x) for x in v]


def _info(rng, uid):
    """A well-formed reply: (document, version, relation, python_ok)."""
    cur, (a, b, c) = _versions()
    rel = ["newer", "older", "same"][rng.integers(3)]
    if rel == "newer":
        ver = f"{a + 1 + uid % 7}.{uid}.{rng.integers(9)}"
    elif rel == "older":
        ver = f"0.0.{uid}"
    else:
        ver = cur
    ok = rng.random() < 0.7
    req = [">=3.8", ">=3.8,<4.0", ">=3.6"][rng.integers(3)] if ok else [">=9.0", "<3.5", ">=3.99"][rng.integers(3)]
    doc = {"info": {"version": ver, "requires_python": req, "name": "spey"}, "urls": [], "releases": {ver: []}}
    if rng.random() < 0.1:
        doc["junk"] = "é" * int(rng.integers(1, 2000))
    return doc, ver, rel, ok


def _malformed(rng):
    """Bytes that do not describe a release, and whether they parse as JSON."""
    cur, (a, b, c) = _versions()
    new = f"{a + 3}.1.1"
    docs = [
        {}, {"info": {}}, {"info": {"version": None, "requires_python": ">=3.8"}}, {"info": {"version": "abc", "requires_python": ">=3.8"}},
        {"info": {"version": 12, "requires_python": ">=3.8"}}, {"info": {"version": [1], "requires_python": ">=3.8"}},
        {"info": {"version": new}}, {"info": {"version": new, "requires_python": 7}}, {"info": {"version": new, "requires_python": "python three"}},
        {"info": "text"}, {"info": [new]}, {"info": None}, {"message": "Not Found"}, {"info": {"version": "", "requires_python": ""}},
        [], [new], "text", 3, True, None, {"info": {"version": {"a": 1}, "requires_python": ">=3.8"}},
    ]
    raw = [
        b"", b"<html>busy</html>", b"{", b'{"info": {"version": "', b"\xff\xfe\x00bad", b"[" * 100000, b"\x00" * 40, b"NaN", b"Infinity",
        b'{"info": {"version": "99.9.9", "requires_python": ">=3.8"}', b"\xef\xbb\xbf{}", b'{"info": {"version": "99.\xff.9"}}',
    ]
    i = rng.integers(len(docs) + len(raw))
    if i < len(docs):
        return json.dumps(docs[i]).encode()
    return raw[i - len(docs)]


def _read(path):
    with open(path, "rb") as f:
        return f.read()


def _judge(data):
    """Independent reading of a document: (version, relation, python ok) when well-formed, otherwise None."""
    try:
        doc = json.loads(data.decode("utf-8"))
        ver, req = doc["info"]["version"], doc["info"]["requires_python"]
        if not (isinstance(ver, str) and isinstance(req, str) and ver and req):
            return None
        p = [int(x) for x in ver.split("-")[0].split(".")]
        cur, cp = _versions()
        if len(p) != 3:
            return None
        if ver == cur:
            rel = "same"
        elif p == cp and "-" not in ver:
            rel = "newer" if "-" in cur else "same"
        else:
            rel = "newer" if p > cp else "older"
        ok = True
        for part in req.split(","):
            part = part.strip()
            for op in (">=", "<"):
                if part.startswith(op):
                    q = [int(x) for x in part[len(op) :].split(".")]
                    here = list(sys.version_info[: len(q)])
                    ok &= here >= q if op == ">=" else here < q
                    break
            else:
                return None
        return ver, rel, ok
    except Exception:  # noqa: BLE001
        return None


def _parses(data):
    try:
        return json.loads(data.decode("utf-8")) is not None
    except Exception:  # noqa: BLE001
        return False


# ------------------------------------------------------------------ directory
def _tree(d):
    """Contents of the cache directory as the current user sees it."""
    out = {}
    try:
        names = sorted(os.listdir(d))
    except OSError as e:
        return {"!": type(e).__name__}
    for n in names:
        p = os.path.join(d, n)
        try:
            st = os.lstat(p)
            kind = "link" if os.path.islink(p) else "dir" if os.path.isdir(p) else "file"
            try:
                data = _read(p) if kind == "file" else (os.readlink(p).encode() if kind == "link" else b"")
            except OSError as e:
                data = b"!" + type(e).__name__.encode()
            out[n] = (kind, data, st.st_mtime)
        except OSError as e:
            out[n] = ("?", type(e).__name__.encode(), 0)
    return out


def _name(age, k):
    return time.strftime("pypi_latest_%Y%m%d_%H%M%S.json", time.gmtime(time.time() - age - k))


def _populate(rng, d, uid, first):
    """Mutate the directory: returns nothing, the oracle reads it back."""
    t = rng.integers(12)
    if first and t < 3:
        return  # missing directory
    if first and t == 3:
        with open(d, "w") as f:
            f.write("not a directory")
        return
    if first and t == 4:
        os.symlink([d, "/nonexistent/verif"][rng.integers(2)], d)
        return
    if first and t == 5:
        os.makedirs(d)
        return
    if not os.path.isdir(d):
        if os.path.lexists(d):
            return
        os.makedirs(d, exist_ok=True)
    for k in range(int(rng.integers(1, 4))):
        age = [0, 5, 600, 3600 * 5, DAY - 300, DAY + 300, 2 * DAY, 30 * DAY][rng.integers(8)]
        nm = _name(age if rng.random() < 0.85 else int(rng.integers(0, 3 * DAY)), k)
        p = os.path.join(d, nm)
        if os.path.lexists(p):
            continue
        r = rng.random()
        if r < 0.5:
            doc = _info(rng, uid())[0]
            data = json.dumps(doc, indent=[None, 4][rng.integers(2)]).encode()
        elif r < 0.62:
            doc = _info(rng, uid())[0]
            data = json.dumps(doc, indent=4).encode()
            data = data[: int(rng.integers(0, len(data)))]
        elif r < 0.85:
            data = _malformed(rng)
        elif r < 0.9:
            os.mkdir(p)
            continue
        elif r < 0.95:
            os.symlink([p, "/nonexistent/x", "/dev/null"][rng.integers(3)], p)
            continue
        else:
            p = os.path.join(d, ["notes.txt", "pypi_latest.json", "pypi_latest_x.txt", "other.json", "config"][rng.integers(5)])
            data = json.dumps(_info(rng, uid())[0]).encode()
        with open(p, "wb") as f:
            f.write(data)
        when = time.time() - age
        os.utime(p, (when, when))


class Tap(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.out = []

    def emit(self, r):
        self.out.append((r.levelno, r.getMessage()))


@contextlib.contextmanager
def tapped(level=logging.INFO):
    lg = logging.getLogger("Spey")
    old, lvl = lg.handlers[:], lg.level
    prop = lg.propagate
    tap = Tap()
    lg.handlers[:] = [tap]
    lg.setLevel(level)
    lg.propagate = False
    try:
        yield tap.out
    finally:
        lg.handlers[:] = old
        lg.setLevel(lvl)
        lg.propagate = prop


@contextlib.contextmanager
def limited(n):
    """Writes beyond n bytes of any file fail (the disk is full)."""
    if n is None:
        yield
        return
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))


def _cache(name):
    return name.startswith("pypi_latest_") and name.endswith(".json")


def _script(rng, uid):
    """One scripted network behaviour: (description, answer)."""
    conn, other, body = _faults()
    r = rng.random()
    if r < 0.5:
        doc = _info(rng, uid())[0]
        return "ok", (200, json.dumps(doc).encode())
    if r < 0.62:
        return "malformed", (200, _malformed(rng))
    if r < 0.72:
        return "status", ([404, 500, 503, 403, 429, 204][rng.integers(6)], [b"", b"<html></html>", b'{"message": "no"}'][rng.integers(3)])
    if r < 0.84:
        return "down", conn[rng.integers(len(conn))]
    if r < 0.94:
        return "error", other[rng.integers(len(other))]
    return "cut", (200, body[rng.integers(len(body))])


def _one_call(rec, d, what, answer, limit, trace):
    """Run check_updates once and judge it."""
    from spey.system import webutils

    before = _tree(d)
    now = time.time()
    net = Net(lambda url: answer)
    err = ret = None
    with net, tapped() as out, limited(limit):
        try:
            ret = webutils.check_updates()
        except Exception as e:  # noqa: BLE001
            err = e
    after = _tree(d)
    wit = dict(network=what, answer=repr(answer)[:300], before={k: (v[0], v[1][:160], round(now - v[2])) if len(v) == 3 else v for k, v in before.items()}, limit=limit, log=out, trace=trace[-6:])
    rec.check(err is None and ret is None, "no-raise", "checking for updates failed the program", error=repr(err), **wit)
    files = {k: v for k, v in before.items() if isinstance(v, tuple) and _cache(k) and v[0] == "file" and not v[1].startswith(b"!")}
    fresh = {k: v for k, v in files.items() if now - v[2] < DAY - 60}
    maybe = {k: v for k, v in files.items() if now - v[2] < DAY + 60}
    links = [k for k, v in before.items() if isinstance(v, tuple) and _cache(k) and v[0] != "file"]
    n = len(net.sent)
    rec.check(n <= 1, "requests", "more than one request", sent=net.sent, **wit)
    for s in net.sent:
        rec.check("pypi.org" in s["url"] and "spey" in s["url"] and s["timeout"] is not None, "requests", "unexpected request", sent=s)
    newest = max(files) if files and not links else None
    if newest is not None and newest in fresh and _judge(files[newest][1]) is not None:
        rec.check(n == 0, "requests", "a fresh well-formed cache exists but the server was asked", sent=net.sent, **wit)
    if not any(_parses(v[1]) for v in maybe.values()):
        rec.check(n == 1, "requests", "no usable cache but the server was not asked", **wit)
    # what may be reported
    warn = [m for lv, m in out if lv >= logging.WARNING]
    reply = answer[1] if isinstance(answer, tuple) and isinstance(answer[1], bytes) else None
    status = answer[0] if isinstance(answer, tuple) else None
    if n:
        src = [_judge(reply)] if reply is not None and status == 200 else [None]
    else:
        src = [_judge(v[1]) for v in maybe.values()] or [None]
        if newest is not None and newest in fresh:
            top = _judge(files[newest][1])
            if top is not None or _parses(files[newest][1]):
                src = [top]
    good = [s for s in src if s is not None]
    rec.check(bool(good) or not warn, "source", "something was reported without a well-formed source", requests=n, **wit)
    cur = _versions()[0]
    if warn:
        def fits(s):
            ver, rel, ok = s
            mention = [m for m in warn if ver in m]
            return (rel == "same" or bool(mention)) and (not ok or rel != "same")
        rec.check(any(fits(s) for s in good), "report", "the report does not come from the reply or cache in use", allowed=good, requests=n, **wit)
        rec.count("reported-from-network" if n else "reported-from-cache")
    if len(good) == len(src) == 1:
        ver, rel, ok = good[0]
        want = (rel != "same") + (not ok)
        rec.check(len(warn) == want, "report", "a well-formed source is reported: another release and an unsupported interpreter, each once", source=good[0], requests=n, warnings=warn, **wit)
        if rel == "newer":
            rec.check(any(ver in m and cur in m for m in warn), "report", "a newer release is named together with the one in use", source=good[0], **wit)
    # directory afterwards
    strip = lambda t: {k: v[:2] if isinstance(v, tuple) else v for k, v in t.items()}  # noqa: E731
    parsed = None
    if n and reply is not None and status == 200:
        try:
            parsed = json.loads(reply.decode("utf-8"))
        except Exception:  # noqa: BLE001
            parsed = None
    doc = False
    with contextlib.suppress(Exception):
        json.loads((reply or b"").decode("utf-8", "replace").lstrip("\ufeff"))
        doc = True
    odd = [k for k, v in before.items() if isinstance(v, tuple) and _cache(k) and (v[0] != "file" or v[1].startswith(b"!") or not os.access(os.path.join(d, k), os.W_OK) and k in after)]
    if n == 0 or not (isinstance(answer, tuple) and reply is not None and status == 200 and _parses(reply)):
        if n == 0 or not doc:
            rec.check(strip(after) == strip(before), "unchanged", "the cache directory changed although nothing was fetched", after=strip(after), **wit)
    elif isinstance(parsed, dict) and limit is None and not odd and os.path.isdir(d) and os.access(d, os.W_OK | os.X_OK | os.R_OK) and "!" not in after:
        left = [k for k, v in after.items() if _cache(k) and v[0] in ("file", "link")]
        rec.check(len(left) == 1 and after[left[0]][0] == "file", "one-file", "exactly one cache file remains after a refresh", left=left, **wit)
        if len(left) == 1:
            rec.check(_parses(after[left[0]][1]) and json.loads(after[left[0]][1].decode()) == parsed, "one-file", "the cache file does not hold the reply", **wit)
        if before.keys() != {"!"}:
            rec.check({k: v for k, v in strip(after).items() if not _cache(k)} == {k: v for k, v in strip(before).items() if not _cache(k)}, "unchanged", "foreign files were touched", after=strip(after), **wit)
    elif limit is not None and n:
        rec.count("write-cut-short")
        if before.keys() != {"!"}:
            rec.check({k: v for k, v in strip(after).items() if not _cache(k)} == {k: v for k, v in strip(before).items() if not _cache(k)}, "unchanged", "foreign files were touched", after=strip(after), **wit)
    return n


@contextlib.contextmanager
def _home(d):
    import pathlib

    from spey.system import webutils

    old, oldh = getattr(webutils, "_SPEY_DIR", None), os.environ.get("HOME")
    os.environ["HOME"] = d
    if old is not None:
        webutils._SPEY_DIR = pathlib.Path(d) / ".spey"
    try:
        yield os.path.join(d, ".spey")
    finally:
        if old is not None:
            webutils._SPEY_DIR = old
        if oldh is None:
            os.environ.pop("HOME", None)
        else:
            os.environ["HOME"] = oldh


def _counter(rng):
    box = [int(rng.integers(20, 60))]

    def uid():
        box[0] += 1
        return box[0]

    return uid


def _history(rng, rec, home, perms=False):
    uid = _counter(rng)
    trace = []
    with _home(home) as d:
        if rng.random() < 0.05:
            os.rmdir(home)  # the home directory itself is missing
        else:
            _populate(rng, d, uid, True)
        for step in range(int(rng.integers(1, 7))):
            if perms and os.path.isdir(d) and rng.random() < 0.6:
                os.chmod(d, [0o000, 0o555, 0o333, 0o755, 0o111, 0o444][rng.integers(6)])
                trace.append("mode %o" % (os.stat(d).st_mode & 0o777))
                if os.access(d, os.R_OK | os.X_OK):
                    for f in os.listdir(d):
                        if rng.random() < 0.3:
                            with contextlib.suppress(OSError):
                                os.chmod(os.path.join(d, f), [0o000, 0o444, 0o644][rng.integers(3)])
            what, answer = _script(rng, uid)
            limit = int([0, 1, 10, 60, 150][rng.integers(5)]) if rng.random() < 0.2 else None
            n = _one_call(rec, d, what, answer, limit, trace)
            trace.append([what, n, limit])
            r = rng.random()
            if os.path.isdir(d) and not perms:
                if r < 0.2:
                    _populate(rng, d, uid, False)
                elif r < 0.35:  # a day passes
                    for f in os.listdir(d):
                        with contextlib.suppress(OSError):
                            p = os.path.join(d, f)
                            t = os.lstat(p).st_mtime - DAY - 120
                            os.utime(p, (t, t), follow_symlinks=False)
                    trace.append("day")
                elif r < 0.45:  # a writer was killed: the file is cut
                    fs = [f for f in os.listdir(d) if _cache(f) and os.path.isfile(os.path.join(d, f)) and not os.path.islink(os.path.join(d, f))]
                    if fs:
                        p = os.path.join(d, fs[0])
                        st = os.stat(p)
                        os.truncate(p, int(rng.integers(0, st.st_size + 1)))
                        os.utime(p, (st.st_mtime, st.st_mtime))
                        trace.append("cut")
    return trace


def updates(rng, rec):
    home = tempfile.mkdtemp(prefix="verif-c24-")
    try:
        trace = _history(rng, rec, home)
    finally:
        shutil.rmtree(home, ignore_errors=True)
    rec.case([trace, int(rng.integers(1e9))])


def unprivileged(rng, rec):
    """The same histories as a user for whom permissions are effective."""
    home = tempfile.mkdtemp(prefix="verif-c24-")
    r, w = os.pipe()
    import spey.system.webutils  # noqa: F401
    import requests  # noqa: F401

    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            os.chown(home, 65534, 65534)
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
            trace = _history(rng, rec, home, True)
            blob = pickle.dumps((rec.counts, rec.viol, trace))
        except BaseException as e:  # noqa: BLE001
            import traceback

            blob = pickle.dumps((None, type(e).__name__, traceback.format_exc()[-2000:]))
        try:
            with os.fdopen(w, "wb") as f:
                f.write(blob)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        blob = f.read()
    os.waitpid(pid, 0)
    for root, dirs, _ in os.walk(home):
        for x in dirs:
            os.chmod(os.path.join(root, x), 0o700)
    shutil.rmtree(home, ignore_errors=True)
    if not blob:
        raise OSError("unprivileged child gave no answer")
    counts, viol, trace = pickle.loads(blob)
    if counts is None:
        if viol == "PermissionError" and "setuid" in trace:
            raise SkipCase("no unprivileged user")
        raise OSError("unprivileged child: " + trace)
    rec.counts, rec.viol = counts, viol
    rec.case([trace, int(rng.integers(1e9))])


def concurrent(rng, rec):
    """Several threads refresh at once: nobody fails and nothing is invented."""
    from spey.system import webutils

    home = tempfile.mkdtemp(prefix="verif-c24-")
    uid = _counter(rng)
    docs = [_info(rng, uid())[0] for _ in range(4)]
    import itertools

    it = itertools.count()
    errs = []
    try:
        with _home(home) as d:
            if rng.random() < 0.5:
                _populate(rng, d, uid, True)
            known = {v[1] for v in _tree(d).values() if isinstance(v, tuple)}

            def answer(url):
                i = next(it)
                time.sleep(0.002 * (i % 3))
                return (200, json.dumps(docs[i % 4]).encode())

            with Net(answer) as net, tapped() as out:
                bar = threading.Barrier(4)

                def work():
                    bar.wait()
                    try:
                        for _ in range(3):
                            webutils.check_updates()
                    except Exception as e:  # noqa: BLE001
                        errs.append(repr(e))

                ts = [threading.Thread(target=work) for _ in range(4)]
                [t.start() for t in ts]
                [t.join() for t in ts]
            rec.check(not errs, "no-raise", "concurrent refreshes failed the program", errors=errs)
            vers = {x["info"]["version"] for x in docs} | {j[0] for j in map(_judge, known) if j}
            for lv, m in out:
                if lv >= logging.WARNING:
                    rec.check(any(v in m for v in vers) or "python" in m.lower(), "source", "a report without a source", message=m, versions=sorted(vers))
            for k, v in _tree(d).items():
                if isinstance(v, tuple) and _cache(k) and v[0] == "file" and _judge(v[1]) is None:
                    rec.count("file-in-flux")
    finally:
        shutil.rmtree(home, ignore_errors=True)
    rec.case([docs, int(rng.integers(1e9))])


# ------------------------------------------------------------------ citations
HOSTS = {"inspire/arxiv": ("inspirehep.net", "arxiv"), "inspire/doi": ("inspirehep.net", "doi"), "doi": ("doi.org", ""), "zenodo": ("zenodo.org", "records")}


def _entry(rng, k):
    return f"@article{{key{k},\n  title = {{Tïtle {k} ∑}},\n  year = {{20{rng.integers(10, 30)}}}\n}}"


def _bib_answer(rng, k):
    """(expected text or None for 'no entry', connection problem?, answer)"""
    conn, other, body = _faults()
    r = rng.random()
    if r < 0.5:
        t = _entry(rng, k)
        return t, False, ([200, 200, 201, 203][rng.integers(4)], t.encode("utf-8"))
    if r < 0.7:
        return None, False, ([404, 500, 503, 403, 429, 406, 199, 300, 400][rng.integers(9)], [b"", b"<html>no</html>", _entry(rng, k).encode()][rng.integers(3)])
    if r < 0.85:
        return None, True, conn[rng.integers(len(conn))]
    if r < 0.95:
        return None, False, other[rng.integers(len(other))]
    return None, True, (200, body[rng.integers(len(body))])


def bibtex(rng, rec):
    from spey.system import webutils

    k = int(rng.integers(1e6))
    home = list(HOSTS)[rng.integers(4)] if rng.random() < 0.93 else ["arxiv", "", None, "inspire"][rng.integers(4)]
    ident = ["2307.06996", "10.1007/JHEP04(2019)064", "10156353", "", "a b", "é", "%s", "x" * 300, "../../etc"][rng.integers(9)]
    want, link, answer = _bib_answer(rng, k)
    err = got = None
    with Net(lambda u: answer) as net, tapped() as out:
        try:
            got = webutils.get_bibtex(home, ident) if rng.random() < 0.7 else webutils.get_bibtex(home, ident, timeout=int(rng.integers(1, 9)))
        except Exception as e:  # noqa: BLE001
            err = e
    wit = dict(home=home, ident=ident, answer=repr(answer)[:200], got=repr(got)[:200], error=repr(err))
    rec.check(err is None or isinstance(err, webutils.ConnectionError), "bibtex", "a foreign error left the lookup", **wit)
    rec.check(err is None or not net.sent or not isinstance(answer, tuple) or isinstance(answer[1], BaseException), "bibtex", "a connection error although the server answered", **wit)
    rec.check(err is not None or isinstance(got, str), "bibtex", "the lookup does not return text", **wit)
    rec.check(len(net.sent) <= 1 and all(s["timeout"] is not None for s in net.sent), "bibtex", "requests of one lookup", sent=net.sent)
    if home in HOSTS:
        for s in net.sent:
            host, part = HOSTS[home]
            rec.check(host in s["url"] and (part in s["url"] or ".." in ident) and s["accept"] == "application/x-bibtex", "bibtex", "the lookup asks another place", sent=s, home=home)
            if ident and ident.replace(".", "").isalnum() and ident.isascii():
                rec.check(ident in s["url"], "bibtex", "identifier not asked for", sent=s, ident=ident)
        if want is not None and ident != "x":
            rec.check(len(net.sent) == 1 and got == want, "bibtex", "a success reply is returned as it is", want=want, **wit)
        elif isinstance(answer, tuple):
            rec.check(got == "" or err is not None, "bibtex", "text was returned for a failed lookup", **wit)
        else:
            rec.check(err is not None or got == "", "bibtex", "text was returned although the server was not reached", **wit)
    else:
        rec.check(got == "" or err is not None, "bibtex", "an unknown place gave text", **wit)
    rec.check(not [m for lv, m in out if lv >= logging.ERROR], "bibtex", "lookup shouts", log=out)
    rec.case([home, ident, repr(answer), k])


def backend_bibtex(rng, rec):
    import spey
    from spey.system.exceptions import PluginError

    tag = f"verif.bib.{os.getpid()}.{rng.integers(10**12)}"
    ids = {
        "arXiv": [f"21{rng.integers(10, 99)}.{rng.integers(10000, 99999)}" for _ in range(rng.integers(0, 4))],
        "doi": [f"10.{rng.integers(1000, 9999)}/d{rng.integers(10**6)}" for _ in range(rng.integers(0, 4))],
        "zenodo": [f"{rng.integers(10**6, 10**7)}" for _ in range(rng.integers(0, 3))],
    }
    for v in ids.values():
        if len(set(v)) != len(v):
            raise SkipCase("repeated identifier")

    class Bib(spey.BackendBase):
        name, version, author, spey_requires = tag, "1.0.0", "verif", ">=0.0.1"
        arXiv, doi, zenodo = ids["arXiv"], ids["doi"], ids["zenodo"]

        def config(self, *a, **k):
            raise NotImplementedError

        def get_logpdf_func(self, *a, **k):
            raise NotImplementedError

    spey.register_backend(Bib)
    table = {}

    def key(url):
        from urllib.parse import unquote

        u = unquote(url)
        if "inspirehep.net" in u:
            return ("inspire/arxiv" if "/arxiv/" in u else "inspire/doi", u.split("/arxiv/")[-1] if "/arxiv/" in u else u.split("/doi/", 1)[-1])
        if "zenodo.org" in u:
            return ("zenodo", u.split("/records/")[-1])
        return ("doi", u.split("doi.org/", 1)[-1])

    quiet = rng.random() < 0.5  # without connection problems
    for place, xs in (("inspire/arxiv", ids["arXiv"]), ("inspire/doi", ids["doi"]), ("doi", ids["doi"]), ("zenodo", ids["zenodo"])):
        for x in xs:
            k = len(table)
            while True:
                a = _bib_answer(rng, k)
                if not (quiet and a[1]):
                    break
            table[(place, x)] = a
    err = got = None
    with Net(lambda u: table[key(u)][2]) as net, tapped() as out:
        try:
            got = spey.get_backend_bibtex(tag)
        except Exception as e:  # noqa: BLE001
            err = e
    wit = dict(ids=ids, table={str(k): repr(v)[:120] for k, v in table.items()}, got=got, error=repr(err))
    if not rec.check(err is None and isinstance(got, dict) and set(got) == {"inspire", "doi.org", "zenodo"}, "bibtex", "citing a backend failed", **wit):
        return
    full = {"inspire": [], "doi.org": [], "zenodo": []}
    stop = False
    for x in ids["arXiv"]:
        a = table[("inspire/arxiv", x)]
        full["inspire"] += [a[0]] if a[0] else []
        stop |= a[1]
    for x in ids["doi"]:
        a, b = table[("inspire/doi", x)], table[("doi", x)]
        if a[0]:
            full["inspire"].append(a[0])
        elif b[0]:
            full["doi.org"].append(b[0])
        stop |= a[1] or (not a[0] and b[1])
    for x in ids["zenodo"]:
        a = table[("zenodo", x)]
        full["zenodo"] += [a[0]] if a[0] else []
        stop |= a[1]
    norm = lambda t: "\n".join(q.strip() for q in t.strip().splitlines())  # noqa: E731
    for k in full:
        g, w = [norm(t) for t in got[k]], [norm(t) for t in full[k]]
        if stop:
            rec.check(all(t in [norm(y[0]) for y in table.values() if y[0]] for t in g), "bibtex", "an entry that was never received", list=k, **wit)
            rec.count("connection-lost")
        else:
            rec.check(g == w, "bibtex", "the entries of a backend are those received, once each", list=k, want=full[k], **wit)
    sent = [key(s["url"]) for s in net.sent]
    rec.check(len(set(sent)) == len(sent), "bibtex", "a reference was looked up twice", sent=sent)
    try:
        spey.get_backend_bibtex(tag + ".unknown")
        rec.check(False, "bibtex", "unknown backend cited")
    except PluginError:
        rec.check(True, "bibtex")
    rec.case([ids, [repr(v) for v in table.values()]], nontrivial=bool(table))


def cite(rng, rec):
    import spey

    k = int(rng.integers(1e6))
    a = _bib_answer(rng, k)
    z = _bib_answer(rng, k + 1)
    keyed = False
    if z[0]:
        keyed = rng.random() < 0.7
        t = f"@software{{zen_{k},\n  title = {{Spey}},\n  doi = {{10.5281/zenodo.10156353}}\n}}" if keyed else z[0]
        z = (t, False, (200, t.encode("utf-8")))
    err = got = None
    with Net(lambda u: (z if "zenodo" in u else a)[2]), tapped():
        try:
            got = spey.cite()
        except Exception as e:  # noqa: BLE001
            err = e
    wit = dict(arxiv=repr(a)[:200], zenodo=repr(z)[:200], got=repr(got)[:400], error=repr(err))
    if not rec.check(err is None and isinstance(got, str), "bibtex", "citing spey failed", **wit):
        return
    zt = z[0].replace(f"zen_{k}", "spey_zenodo") if keyed else z[0]
    if a[1] or z[1]:
        rec.check(got.strip() in ("", (a[0] or "").strip(), (zt or "").strip()), "bibtex", "a broken connection gives an empty citation", **wit)
    else:
        parts = [p.strip() for p in (a[0], zt) if p]
        rec.check([p.strip() for p in got.split("\n\n") if p.strip()] == parts, "bibtex", "the citation is made of the entries received", want=parts, **wit)
    rec.case([repr(a), repr(z), k])


_IMPORT = """
import os, sys
sys.path.insert(0, {src!r})
import requests
def send(self, request, **kw):
    what = {what!r}
    if what == "down":
        raise requests.ConnectionError("x")
    if what == "error":
        raise RuntimeError("x")
    r = requests.Response()
    r.status_code, r.url, r.request = 200, request.url, request
    r._content = {body!r}
    r._content_consumed = True
    return r
requests.adapters.HTTPAdapter.send = send
if {nopasswd!r}:
    import pwd
    def none(uid):
        raise KeyError(uid)
    pwd.getpwuid = none
import warnings
warnings.filterwarnings("ignore")
import spey
assert spey.__file__.startswith({src!r})
print("IMPORTED", spey.version())
"""


def imports(rng, rec):
    """Importing the package never fails because of the update check."""
    home = tempfile.mkdtemp(prefix="verif-c24-")
    env = {k: v for k, v in os.environ.items() if k not in ("HOME", "SPEY_CHECKUPDATE", "USERPROFILE")}
    state = ["absent", "unset", "file", "readonly", "spey-file", "garbage"][rng.integers(6)]
    nopasswd = False
    uid = _counter(rng)
    try:
        if state == "absent":
            env["HOME"] = os.path.join(home, "none")
        elif state == "unset":
            nopasswd = True
        elif state == "file":
            env["HOME"] = os.path.join(home, "f")
            open(env["HOME"], "w").close()
        elif state == "readonly":
            env["HOME"] = home
            os.chmod(home, 0o555)
        elif state == "spey-file":
            env["HOME"] = home
            open(os.path.join(home, ".spey"), "w").close()
        else:
            env["HOME"] = home
            _populate(rng, os.path.join(home, ".spey"), uid, False)
        if rng.random() < 0.3:
            env["SPEY_CHECKUPDATE"] = ["OFF", "off", "ON"][rng.integers(3)]
        what = ["down", "error", "ok"][rng.integers(3)]
        body = json.dumps(_info(rng, uid())[0]).encode() if rng.random() < 0.5 else _malformed(rng)
        src = _IMPORT.format(src=SPEY_SRC, what=what, body=body[:20000], nopasswd=nopasswd)
        r = subprocess.run([sys.executable, "-c", src], capture_output=True, text=True, timeout=100, env=env, cwd=home)
        if "IMPORTED" not in r.stdout and "spey" not in r.stderr:
            raise OSError("import script failed: " + r.stderr[-800:])
        rec.check("IMPORTED" in r.stdout and r.returncode == 0, "import", "importing the package failed", home=state, network=what, stderr=r.stderr[-1500:])
    finally:
        os.chmod(home, 0o700)
        shutil.rmtree(home, ignore_errors=True)
    rec.case([state, what, body.decode("latin1")[:300], env.get("SPEY_CHECKUPDATE")])


KINDS = {k: globals()[k] for k in PLAN["quick"]}
