"""Common machinery: case scheduling, monitors' recorder, verdicts, evidence, replay."""
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVDIR = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
REPO = os.environ.get("VERIF_REPO", "/repo")  # another tree only for development
SPEY_SRC = os.path.join(REPO, "src")


class CaseTimeout(BaseException):
    """Per-case watchdog; inconclusive, never a verdict."""


class SkipCase(Exception):
    """The generated case is outside the property's domain."""


def jsonable(x):
    import numpy as np

    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Recorder:
    """Collects what the monitors of one case observed."""

    def __init__(self):
        self.counts = {}
        self.viol = []
        self.sig = None
        self.trivial = True
        self.sample = None

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def case(self, sig, nontrivial=True, sample=None):
        """Declare this case's identity (for distinctness) and whether it is non-trivial."""
        self.sig = hashlib.sha1(
            json.dumps(jsonable(sig), sort_keys=True).encode()
        ).hexdigest()
        self.trivial = not nontrivial
        self.sample = sample if sample is not None else sig

    def violate(self, key, msg, **wit):
        self.viol.append({"key": key, "msg": msg, "witness": jsonable(wit)})

    def check(self, cond, key, msg="", **wit):
        """One monitor evaluation."""
        self.count("mon:" + key)
        if not bool(cond):
            self.violate(key, msg, **wit)
            return False
        return True

    def close(self, a, b, key, atol=1e-9, rtol=1e-9, msg="", **wit):
        import numpy as np

        a_, b_ = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        ok = a_.shape == b_.shape and bool(
            np.all(
                (np.abs(a_ - b_) <= atol + rtol * np.abs(b_))
                | ((a_ == b_))
                | (np.isnan(a_) & np.isnan(b_))
            )
        )
        return self.check(ok, key, msg or "values differ", got=a, want=b, **wit)


_T0 = [0.0]


def _alarm(signum, frame):
    raise CaseTimeout()


def _in_spey(tb):
    last = None
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(SPEY_SRC):
            last = fr
    return last


def run_case(args):
    modname, seed, kind, idx, tmo = args
    import importlib

    import numpy as np

    mod = importlib.import_module("props." + modname)
    rec = Recorder()
    pid = int(modname[1:])
    ss = np.random.SeedSequence([seed, pid, zlib.crc32(kind.encode()), idx])
    rng = np.random.default_rng(ss)
    np.random.seed(ss.generate_state(1)[0])
    out = {"kind": kind, "idx": idx, "status": "ok"}
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, tmo)
    try:
        mod.KINDS[kind](rng, rec)
    except SkipCase:
        out["status"] = "skip"
    except CaseTimeout:
        out["status"] = "timeout"
        out["where"] = traceback.format_exc()[-1500:]
        if getattr(mod, "TIMEOUT_IS_VIOLATION", False):
            rec.violate("hang", f"case did not finish within {tmo} s", trace=out["where"])
    except Exception as err:  # noqa: BLE001
        fr = _in_spey(err.__traceback__)
        if fr is not None:
            rec.violate(
                "unexpected-exception:" + type(err).__name__ + "@" + fr.name,
                f"{type(err).__name__}: {err}",
                trace=traceback.format_exc()[-3000:],
            )
        elif isinstance(err, (OSError, MemoryError, ImportError)):
            out["status"] = "error"
            out["where"] = traceback.format_exc()[-3000:]
        else:
            # the monitor could not interpret what the real code returned (wrong type/shape/None)
            rec.violate(
                "uninterpretable-result:" + type(err).__name__,
                f"{type(err).__name__}: {err}",
                trace=traceback.format_exc()[-3000:],
            )
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    out["t"] = time.time() - t0
    out.update(counts=rec.counts, viol=rec.viol, sig=rec.sig, trivial=rec.trivial)
    out["sample"] = jsonable(rec.sample)
    return out


def load_known(prop):
    known = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=" + prop + " "):
                rest = line.split("key=", 1)[1]
                key, _, what = rest.partition(" ")
                known.append((key, what))
    return known


def main(prop, replay=None):
    import importlib

    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = zlib.crc32(os.environ["VERIF_SEED"].encode())
    modname = prop.lower()
    mod = importlib.import_module("props." + modname)

    if replay:
        r = json.load(open(replay))
        out = run_case((modname, r["seed"], r["kind"], r["idx"], 600))
        print(json.dumps(out, indent=1))
        return 1 if out["viol"] else 0

    t0 = time.time()
    plan = mod.PLAN[tier]
    tmo = getattr(mod, "CASE_TIMEOUT", 120)
    budget = float(
        os.environ.get("VERIF_BUDGET", getattr(mod, "BUDGET", {}).get(tier, 240 if tier == "quick" else 780))
    )
    jobs = []
    for kind, n in plan.items():
        jobs += [((i + 0.5) / n, (modname, seed, kind, i, tmo)) for i in range(n)]
    # spread kinds evenly so a budget stop still leaves every kind represented
    jobs = [j for _, j in sorted(jobs, key=lambda t: t[0])]
    nproc = int(os.environ.get("VERIF_PROCS", getattr(mod, "PROCS", min(8, os.cpu_count() or 1))))
    results = []
    if hasattr(mod, "setup"):
        mod.setup()
    stopped = False
    if nproc == 1:
        for j in jobs:
            results.append(run_case(j))
            if time.time() - t0 > budget:
                stopped = True
                break
    else:
        ctx = mp.get_context("fork")
        pool = ctx.Pool(nproc, maxtasksperchild=getattr(mod, "TASKS_PER_CHILD", None))
        try:
            it = pool.imap_unordered(run_case, jobs)
            while True:
                try:
                    results.append(it.next(timeout=max(1.0, budget - (time.time() - t0))))
                except StopIteration:
                    break
                except mp.TimeoutError:
                    stopped = True
                    break
                if time.time() - t0 > budget:
                    stopped = True
                    break
        finally:
            pool.terminate()
            pool.join()
    results.sort(key=lambda r: (r["kind"], r["idx"]))

    counts, kinds, status = {}, {}, {}
    sigs, samples, viols = set(), [], []
    for r in results:
        status[r["status"]] = status.get(r["status"], 0) + 1
        kinds.setdefault(r["kind"], 0)
        kinds[r["kind"]] += r["status"] == "ok"
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        if r["sig"] and not r["trivial"] and r["status"] == "ok":
            if r["sig"] not in sigs and sum(s["kind"] == r["kind"] for s in samples) < 1:
                samples.append({"kind": r["kind"], "idx": r["idx"], "case": r["sample"]})
            sigs.add(r["sig"])
        for v in r["viol"]:
            viols.append({**v, "kind": r["kind"], "idx": r["idx"], "seed": seed})

    known = load_known(prop)
    listed, unlisted = {}, []
    for v in viols:
        hit = [k for k in known if k[0] == v["key"]]
        if hit:
            listed.setdefault(hit[0], []).append(v)
        else:
            unlisted.append(v)
    for k, what in known:
        print(f"KNOWN-FINDING: property={prop} {what} [key={k}, seen {len(listed.get((k, what), []))}x in this run]")

    rdir = os.path.join(EVDIR, "replays")
    os.makedirs(rdir, exist_ok=True)
    for old in os.listdir(rdir):
        if old.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, old))
    seen = {}
    for v in unlisted:
        seen[v["key"]] = seen.get(v["key"], 0) + 1
        if seen[v["key"]] <= 2 and len(seen) <= 8:
            path = os.path.join(rdir, f"{prop}-{v['kind']}-{v['idx']}-{len(seen)}{'ab'[seen[v['key']] - 1]}.json")
            json.dump({"property": prop, "tier": tier, **v}, open(path, "w"), indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"   {v['key']}: {v['msg']} {json.dumps(v['witness'])[:600]}")
    wall = time.time() - t0
    inconclusive = []
    for k, n in getattr(mod, "MINIMA", {}).items():
        if counts.get(k, 0) < n:
            inconclusive.append(f"monitor {k} reached {counts.get(k, 0)} < {n}")
    for kind, n in plan.items():
        if kinds.get(kind, 0) == 0:
            inconclusive.append(f"no completed case of kind {kind}")
    if status.get("timeout", 0) > max(2, 0.05 * len(results)):
        inconclusive.append(f"{status['timeout']} cases hit the watchdog")
    if status.get("error", 0):
        inconclusive.append(f"{status['error']} harness errors")
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples[:12] or [{"none": True}],
            "cases_by_kind": kinds,
            "case_status": status,
            "monitor_events": {k: v for k, v in sorted(counts.items())},
            "planned": len(jobs),
            "stopped_by_budget": stopped,
            "violation_keys": seen,
            "known_findings_seen": {k[0]: len(v) for k, v in listed.items()},
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 3),
        "violations": len(unlisted),
    }
    tmp = os.path.join(EVDIR, prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(EVDIR, prop + ".json"))
    print(
        f"{prop} {tier} seed={seed}: cases={len(results)}/{len(jobs)} distinct={len(sigs)} "
        f"status={status} monitors={sum(v for k, v in counts.items() if k.startswith('mon:'))} "
        f"violations={len(unlisted)} wall={wall:.1f}s"
    )
    if os.environ.get("VERIF_VERBOSE"):
        print(json.dumps(ev["coverage"]["monitor_events"], indent=1))
        slow = sorted(results, key=lambda r: -r["t"])[:5]
        print("slowest:", [(r["kind"], r["idx"], round(r["t"], 1)) for r in slow])
        for r in results:
            if r["status"] in ("error", "timeout"):
                print(r["kind"], r["idx"], r["status"], r.get("where"))
                break
        print("violation keys:", seen)
    if unlisted:
        return 1
    if inconclusive:
        print("INCONCLUSIVE: " + "; ".join(inconclusive))
        for r in results:
            if r["status"] in ("error", "timeout"):
                print(r["kind"], r["idx"], r["status"], r.get("where"))
                break
        return 3
    return 0
