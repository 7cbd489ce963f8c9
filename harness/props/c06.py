"""C06: concurrent queries on shared models return the serial answers."""
import copy
import sys
import threading

import numpy as np

import refmodel as R
import spey
from props.common import EXPECTED, SkipCase, nice_spec, spec_sig
from props.queries import Failure, call, make_query, outcome_same

RULE = (
    "distinct (model specs, per-thread query lists) schedules run by 3-6 threads released at a barrier with a "
    "10 microsecond switch interval and injected yields inside the library; every answer compared with the serial one"
)
PLAN = {
    "quick": {"shared": 120, "hot": 80, "combiner": 40, "construct": 40},
    "thorough": {"shared": 1800, "hot": 1200, "combiner": 500, "construct": 500},
}
MINIMA = {"mon:serial-equal": 1500, "overlapping_calls": 300}
ASSUMPTIONS = ["interleavings are sampled, not enumerated; the GIL schedule is perturbed by injected yields"]
HANG = 60.0


class Yielder:
    """Random yields at line granularity inside selected library files (per-thread generator)."""

    FILES = ("distributions.py", "statistical_model.py", "cache.py", "core.py", "scipy_tools.py", "default_pdf", "simple_pdf.py", "combiner", "uncertainty_synthesizer.py")

    def __init__(self, seed, prob):
        self.seed, self.prob, self.n = seed, prob, 0
        self.local = threading.local()

    def __call__(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if "/src/spey/" not in fn or not any(f in fn for f in self.FILES):
            return None
        return self.line

    def line(self, frame, event, arg):
        r = getattr(self.local, "r", None)
        if r is None:
            r = self.local.r = np.random.default_rng([self.seed, threading.get_ident() % 9973])
            self.local.buf = r.random(4096)
            self.local.i = 0
        i = self.local.i = (self.local.i + 1) % 4096
        if self.local.buf[i] < self.prob:
            self.n += 1
            import time

            time.sleep(0 if self.local.buf[i] > 0.3 * self.prob else 5e-5)
        return self.line


def _run(rec, seed, jobs, prob):
    """jobs: list over threads of [(label, thunk)]; returns outcomes per thread or None on hang."""
    out = [[None] * len(j) for j in jobs]
    bar = threading.Barrier(len(jobs))
    active = [0]
    lock = threading.Lock()
    overlap = [0]
    y = Yielder(seed, prob)

    def work(k):
        bar.wait()
        sys.settrace(y)
        try:
            for i, (_, q) in enumerate(jobs[k]):
                with lock:
                    active[0] += 1
                    overlap[0] += active[0] > 1
                out[k][i] = call(lambda _m: q(), None)
                with lock:
                    active[0] -= 1
        finally:
            sys.settrace(None)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(len(jobs))]
    try:
        for t in ts:
            t.start()
        import time

        t0 = time.time()
        for t in ts:
            t.join(max(0.1, HANG - (time.time() - t0)))
    finally:
        sys.setswitchinterval(old)
    rec.count("overlapping_calls", overlap[0])
    rec.count("injected_yields", y.n)
    if any(t.is_alive() for t in ts):
        return None
    return out


def _judge(rec, out, jobs, serial, wit):
    if out is None:
        rec.violate("hang", f"a concurrent call did not return within {HANG} s", **wit)
        return
    rec.count("mon:no-hang")
    for k, js in enumerate(jobs):
        for i, (lab, _) in enumerate(js):
            rec.check(
                outcome_same(out[k][i], serial[k][i], atol=1e-9), "serial-equal", f"concurrent answer to '{lab}' differs from the serial one",
                thread=k, got=repr(out[k][i])[:300], serial=repr(serial[k][i])[:300], **wit,
            )
            rec.count("query:" + lab)


def _spec(rng):
    return nice_spec(rng, nmax=2) if rng.random() < 0.8 else R.gen_spec(rng, zero_data=False, nmax=2, regime="background", modifiers=True, kinds=["ub", "cb", "tm"])


def shared(rng, rec):
    """Several threads query one model (and a second model of the same class)."""
    specs = [_spec(rng), _spec(rng)]
    refs = [R.Ref(s) for s in specs]
    nt = int(rng.integers(3, 6))
    plan = []
    for _ in range(nt):
        th = []
        for _ in range(int(rng.integers(3, 6))):
            w = 0 if rng.random() < 0.8 else 1
            lab, q = make_query(rng, specs[w], refs[w], heavy=False, failing=rng.random() < 0.2)
            th.append((lab, w, q))
        plan.append(th)
    if rng.random() < 0.5:  # same query everywhere: contention on one cache entry
        lab, w, q = plan[0][0]
        for th in plan:
            th.insert(0, (lab, w, q))
    models = [R.build(s) for s in specs]
    serial = [[call(q, R.build(specs[w])) for lab, w, q in th] for th in plan]
    jobs = [[(lab, (lambda q=q, w=w: q(models[w]))) for lab, w, q in th] for th in plan]
    out = _run(rec, int(rng.integers(2**31)), jobs, float(rng.choice([0.002, 0.01, 0.03])))
    _judge(rec, out, jobs, serial, dict(specs=specs))
    rec.case([[spec_sig(s) for s in specs], [[x[0] for x in th] for th in plan]], sample={"specs": specs, "threads": [[x[0] for x in th] for th in plan]})


def hot(rng, rec):
    """Pure density / gradient / sampler-free evaluations racing on the same backend objects."""
    kinds = ["mvn", "gau", "cb", "tm", "es", "ub", "poi"]
    spec = R.gen_spec(rng, kinds=[kinds[rng.integers(7)] if rng.random() < 0.7 else "mvn"], nmax=4, regime="background", zero_data=False)
    ref = R.Ref(spec)
    m = R.build(spec)
    from props.common import es_domain, rand_point

    be = m.backend
    nt = 4
    pts = [[rand_point(rng, spec, ref) for _ in range(12)] for _ in range(nt)]
    exps = [EXPECTED[rng.integers(3)] for _ in range(nt)]
    datas = [np.maximum(rng.poisson(np.array(spec["b"])).astype(float), 1.0) for _ in range(nt)]

    def ev(b, k, p, how):
        if how == 0:
            return float(b.get_logpdf_func(expected=exps[k])(p))
        if how == 1:
            v, g = b.get_objective_function(expected=exps[k], data=datas[k])(p)
            return float(v), np.array(g, dtype=float)
        if how == 2:
            return np.array(b.expected_data(p), dtype=float)
        return float(b.get_logpdf_func(data=datas[k])(p))

    hows = [[int(rng.integers(4)) for _ in range(12)] for _ in range(nt)]
    fresh = R.build(spec).backend
    serial = [[call(lambda _m, k=k, i=i: ev(fresh, k, pts[k][i], hows[k][i]), None) for i in range(12)] for k in range(nt)]
    jobs = [[(f"eval{hows[k][i]}", (lambda k=k, i=i: ev(be, k, pts[k][i], hows[k][i]))) for i in range(12)] for k in range(nt)]
    out = _run(rec, int(rng.integers(2**31)), jobs, float(rng.choice([0.02, 0.1, 0.3])))
    _judge(rec, out, jobs, serial, dict(spec=spec))
    rec.case(spec_sig(spec, hows, [p.tolist() for p in pts[0]]), sample={"spec": spec, "evals": hows})


def combiner(rng, rec):
    specs = [nice_spec(rng, nmax=2) for _ in range(2)]

    def fresh():
        return spey.UnCorrStatisticsCombiner(*[R.build(s, analysis=f"a{i}") for i, s in enumerate(specs)])

    nt = 4
    plan = []
    for _ in range(nt):
        th = []
        for _ in range(2):
            exp = EXPECTED[rng.integers(3)]
            mu = float(round(rng.uniform(0, 2), 2))
            neg = bool(rng.integers(2))
            opts = [
                ("llhd", lambda c, mu=mu, exp=exp: c.likelihood(mu, expected=exp)),
                ("max", lambda c, neg=neg, exp=exp: c.maximize_likelihood(expected=exp, allow_negative_signal=neg)),
                ("max-asimov", lambda c, exp=exp: c.maximize_asimov_likelihood(expected=exp)),
                ("cls", lambda c, mu=mu, exp=exp: c.exclusion_confidence_level(mu, expected=exp)),
                ("member", lambda c, neg=neg, exp=exp: c["a1"].maximize_likelihood(expected=exp, allow_negative_signal=neg)),
            ]
            th.append(opts[rng.integers(len(opts))])
        plan.append(th)
    serial = [[call(q, fresh()) for _, q in th] for th in plan]
    comb = fresh()
    jobs = [[("comb-" + lab, (lambda q=q: q(comb))) for lab, q in th] for th in plan]
    out = _run(rec, int(rng.integers(2**31)), jobs, 0.005)
    _judge(rec, out, jobs, serial, dict(specs=specs))
    rec.case(["comb", [spec_sig(s) for s in specs], [[x[0] for x in th] for th in plan]])


def construct(rng, rec):
    """Threads build models (registry look-ups) and query them while others use shared ones."""
    specs = [nice_spec(rng, nmax=2) for _ in range(3)]
    shared_m = R.build(specs[0])
    mu = float(round(rng.uniform(0, 2), 2))

    def build_and_ask(i):
        m = R.build(specs[i], analysis=f"t{i}")
        v = m.maximize_likelihood()
        return m.analysis, v, m.likelihood(mu), copy.deepcopy(m).maximize_likelihood(allow_negative_signal=False)

    def ask_shared():
        return shared_m.maximize_likelihood(), shared_m.likelihood(mu), spey.AvailableBackends()

    serial_b = [call(lambda _m, i=i: build_and_ask(i), None) for i in range(3)]
    sm = shared_m
    serial_s = call(lambda _m: (R.build(specs[0]).maximize_likelihood(), R.build(specs[0]).likelihood(mu), spey.AvailableBackends()), None)
    jobs, serial = [], []
    for k in range(4):
        i = int(rng.integers(3))
        if rng.random() < 0.5:
            jobs.append([("build", lambda i=i: build_and_ask(i)), ("shared", ask_shared)])
            serial.append([serial_b[i], serial_s])
        else:
            jobs.append([("shared", ask_shared), ("build", lambda i=i: build_and_ask(i))])
            serial.append([serial_s, serial_b[i]])
    out = _run(rec, int(rng.integers(2**31)), jobs, 0.01)
    _judge(rec, out, jobs, serial, dict(specs=specs))
    rec.case(["construct", [spec_sig(s) for s in specs], mu])


KINDS = {"shared": shared, "hot": hot, "combiner": combiner, "construct": construct}
