"""Seeded search over simulated runs: workers, shrinking, replay files, evidence."""
import hashlib, json, multiprocessing, os, random, sys, time, traceback
from vf import core

HERE = core.HERE
REPLAYS = os.path.join(HERE, "replays")
EVID = os.path.join(HERE, "evidence")


class Outcome:
    """What one case showed."""
    __slots__ = ("viol", "trivial", "digest", "probes", "note")

    def __init__(self, viol=None, trivial=False, digest="", probes=None, note=""):
        self.viol, self.trivial, self.digest, self.probes, self.note = viol, trivial, digest, probes or {}, note


class Ctx:
    """Runs specs on this worker's simulator and counts what they did."""

    def __init__(self, binp):
        self.sim = core.Sim(binp)
        self.reset()

    def reset(self):
        self.runs = self.gcs = self.allocs = self.reclaimed = self.ioops = 0
        self.faults, self.kinds = {}, {}
        self.simtime = 0

    def run(self, spec):
        r = self.sim.run(spec)
        self.runs += 1
        self.gcs += r.stat("gcs")
        self.allocs += r.stat("allocs")
        self.reclaimed += r.stat("reclaimed")
        self.ioops += r.stat("ioops")
        self.kinds[r.kind] = self.kinds.get(r.kind, 0) + 1
        for f in r.faults:
            w = f.split(" ", 4)
            k = w[1] + ":" + w[2]
            self.faults[k] = self.faults.get(k, 0) + 1
        return r

    def stats(self):
        return {"runs": self.runs, "gcs": self.gcs, "allocs": self.allocs, "reclaimed": self.reclaimed, "ioops": self.ioops, "faults": self.faults, "kinds": self.kinds}


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            merge(a.setdefault(k, {}), v)
        else:
            a[k] = a.get(k, 0) + v
    return a


class Prop:
    """One property's check.  Subclasses give cases and judge them."""
    id = "X00"
    level = "exploration"
    rule = ""
    cases = {"quick": 1000, "thorough": 20000}
    chunk = 8
    assumptions = []
    real = "the whole interpreter (src/c/*.cc and src/main.cc) compiled from /repo's working tree, glibc stdio and malloc"
    stub = "file system, stdin/stdout/stderr and temporary files (in-memory), mmap placement and failure, GC trigger, process exit, popen"

    def scenarios(self):
        """directed cases, run first"""
        return []

    def gen(self, rng, idx, tier):
        raise NotImplementedError

    def evaluate(self, ctx, case):
        raise NotImplementedError

    def concretise(self, ctx, case):
        """the same case with all random decisions written out"""
        return case

    def shrinks(self, case):
        """smaller candidates, most drastic first"""
        return []


_P = None
_C = None
_SEED = 1
_TIER = "quick"


def case_for(prop, seed, idx, tier):
    sc = prop.scenarios()
    if idx < len(sc):
        c = dict(sc[idx])
        c.setdefault("name", "scenario%d" % idx)
        return c
    h = hashlib.sha256(b"%d/%s/%d" % (seed, prop.id.encode(), idx)).digest()
    rng = random.Random(int.from_bytes(h[:8], "big"))
    return prop.gen(rng, idx, tier)


def _init(binp, prop, seed, tier):
    global _P, _C, _SEED, _TIER
    sys.setrecursionlimit(20000)
    _P, _SEED, _TIER = prop, seed, tier
    _C = Ctx(binp)


def safe_eval(ctx, prop, case):
    try:
        return prop.evaluate(ctx, case)
    except RuntimeError as e:
        ctx.sim.close()
        raise


def _chunk(args):
    lo, hi = args
    _C.reset()
    outs, viol, mism = [], None, 0
    probes = {}
    t0 = time.time()
    for i in range(lo, hi):
        case = case_for(_P, _SEED, i, _TIER)
        try:
            o = safe_eval(_C, _P, case)
        except Exception as e:
            return {"error": "case %d: %s\n%s" % (i, e, traceback.format_exc()), "lo": lo}
        merge(probes, o.probes)
        outs.append((i, o.trivial, o.digest))
        if o.viol:
            viol = (i, o.viol)
            break
        if i % 97 == 13:  # determinism spot check: the same case again
            o2 = safe_eval(_C, _P, case)
            if o2.digest != o.digest:
                mism += 1
    return {"lo": lo, "outs": outs, "viol": viol, "stats": _C.stats(), "probes": probes, "mism": mism, "t": time.time() - t0}


def minimise(prop, ctx, case, viol, limit=60.0):
    """greedy delta debugging; a candidate must fail the same way"""
    t0 = time.time()
    cls = viol.split(":")[0]
    best, bestv = case, viol
    steps = 0
    improved = True
    while improved and time.time() - t0 < limit:
        improved = False
        for cand in prop.shrinks(best):
            if time.time() - t0 > limit:
                break
            steps += 1
            try:
                o = safe_eval(ctx, prop, cand)
            except Exception:
                continue
            if o.viol and o.viol.split(":")[0] == cls:
                best, bestv, improved = cand, o.viol, True
                break
    return best, bestv, steps


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)
    return {"findings": [], "fixed": []}


def write_replay(prop, case, viol, seed, idx, digest, tier):
    os.makedirs(REPLAYS, exist_ok=True)
    p = os.path.join(REPLAYS, "%s-seed%d-case%d.json" % (prop.id, seed, idx))
    with open(p, "w") as f:
        json.dump({"property": prop.id, "seed": seed, "index": idx, "tier": tier, "violation": viol, "digest": digest, "case": case}, f, indent=1, sort_keys=True)
        f.write("\n")
    return p


def replay(prop, path):
    sys.setrecursionlimit(20000)
    with open(path) as f:
        r = json.load(f)
    ctx = Ctx(core.build())
    o = prop.evaluate(ctx, r["case"])
    ctx.sim.close()
    print("replay: %s" % (o.viol or "no violation"))
    print("digest %s (recorded %s)" % (o.digest, r["digest"]))
    if o.viol:
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        return 1
    return 0


def run_check(prop, tier, seed, jobs=8, n=None, cap=None):
    t0 = time.time()
    binp = core.build()
    tb = time.time() - t0
    sys.setrecursionlimit(20000)
    nsc = len(prop.scenarios())
    total = n or (prop.cases[tier] + nsc)
    cap = cap or (420 if tier == "quick" else 3 * 3600)
    chunks = []
    i = 0
    while i < total:
        j = min(total, i + (1 if i < nsc and prop.chunk > 1 and nsc < 200 else prop.chunk))
        chunks.append((i, j))
        i = j
    pool = multiprocessing.get_context("fork").Pool(jobs, _init, (binp, prop, seed, tier))
    stats, probes, seen = {}, {}, set()
    evals = nontriv = mism = 0
    viol = None
    err = None
    capped = False
    try:
        # ordered consumption: the first violation reported is the one with the lowest index
        bad = []
        it = pool.imap(_chunk, chunks)
        for r in it:
            if "error" in r:
                err = r["error"]
                break
            merge(stats, r["stats"])
            merge(probes, r["probes"])
            mism += r["mism"]
            for (ci, triv, dg) in r["outs"]:
                evals += 1
                if not triv and dg not in seen:
                    seen.add(dg)
                    nontriv += 1
            if r["viol"]:
                bad.append(r["viol"])
                break
            if time.time() - t0 > cap:
                capped = True
                break
        if bad:
            viol = bad[0]
    finally:
        pool.terminate()
        pool.join()
    if err:
        sys.stderr.write("check error: " + err + "\n")
        return 2
    rc = 0
    replay_path = None
    vtext = None
    if viol:
        idx, vtext = viol
        ctx = Ctx(binp)
        case = case_for(prop, seed, idx, tier)
        o = prop.evaluate(ctx, case)
        if not o.viol:
            sys.stderr.write("check error: case %d failed once (%s) and did not reproduce\n" % (idx, vtext))
            return 2
        try:
            c2 = prop.concretise(ctx, case)
            o2 = prop.evaluate(ctx, c2)
            if o2.viol:
                case, o = c2, o2
        except Exception as e:
            sys.stderr.write("concretise: %r\n" % (e,))
        before = len(json.dumps(case))
        best, bv, steps = minimise(prop, ctx, case, o.viol, 45 if tier == "quick" else 120)
        ctx.sim.close()
        ctx2 = Ctx(binp)  # a fresh simulator process must show the same thing
        o3 = prop.evaluate(ctx2, best)
        o4 = prop.evaluate(ctx2, best)
        ctx2.sim.close()
        if not o3.viol or o3.digest != o4.digest:
            best, bv = case, o.viol
            o3 = o
        replay_path = write_replay(prop, best, bv, seed, idx, o3.digest, tier)
        print("%s: first seen: %s" % (prop.id, vtext))
        print("%s: %s" % (prop.id, bv))
        print("minimised from %d to %d bytes in %d runs; case index %d, seed %d" % (before, len(json.dumps(best)), steps, idx, seed))
        if "forms" in best:
            print("program:\n  " + "\n  ".join(best["forms"][-12:]))
        print("VIOLATION property=%s replay=%s" % (prop.id, os.path.relpath(replay_path, HERE)))
        rc = 1
    wall = time.time() - t0
    samples = []
    for i in sorted(set([0, nsc, nsc + 1])):
        if i < total:
            try:
                samples.append(sample_of(case_for(prop, seed, i, tier)))
            except Exception as e:
                samples.append(repr(e))
    cov = {
        "evaluations": evals, "distinct_nontrivial": nontriv, "rule": prop.rule, "samples": samples,
        "simulated_runs": stats.get("runs", 0), "runs_per_hour": int(stats.get("runs", 0) / max(wall - tb, .001) * 3600),
        "seeds": evals, "seeds_per_hour": int(evals / max(wall - tb, .001) * 3600),
        "simulated_time": {"allocations": stats.get("allocs", 0), "io_operations": stats.get("ioops", 0), "note": "the system has no clock; simulated time is counted in allocations and I/O operations"},
        "gc_injected": stats.get("gcs", 0), "blocks_reclaimed": stats.get("reclaimed", 0),
        "faults_injected": stats.get("faults", {}), "run_endings": stats.get("kinds", {}),
        "distinct_executions": {"count": nontriv, "measure": "distinct digests of the full event log (output, I/O operations, faults, collection points, final files) among non-trivial cases"},
        "probes": probes, "determinism_rechecks_mismatched": mism, "directed_scenarios": nsc, "wall_capped": capped,
        "real_components": prop.real, "stubbed_components": prop.stub,
    }
    ev = {"property": prop.id, "tier": tier, "seed": seed, "level": prop.level, "coverage": cov, "wall_s": round(wall, 2), "violations": 1 if rc == 1 else 0, "assumptions": prop.assumptions}
    if vtext:
        ev["violation"] = vtext
        ev["replay"] = replay_path
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if rc == 0:
        print("%s: held on %d cases (%d distinct non-trivial, %d simulated runs, %d collections, faults %s) in %.1f s" % (prop.id, evals, nontriv, stats.get("runs", 0), stats.get("gcs", 0), json.dumps(stats.get("faults", {})), wall))
    return rc


def sample_of(case):
    s = json.dumps(case, sort_keys=True)
    return case if len(s) < 4000 else s[:4000] + "..."
