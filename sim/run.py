"""Check driver.

  python3 -m sim.run C04              run the check of one property
  python3 -m sim.run --replay FILE    replay a failure exactly
  python3 -m sim.run --worker ...     (internal) one block of runs

Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough),
VERIF_WORKERS (default: number of cores), PADS_REPO (default /repo).
"""

import json
import os
import resource
import subprocess
import sys
import tempfile
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
EVID = os.path.join(ROOT, "evidence")
HARD_CAP = 600          # seconds for all blocks together
SHRINK_CAP = 45
STUCK = 120             # seconds after which a replayed run is stuck


def digest(sim, st):
    ch = zlib.crc32(repr(sim.choices).encode())
    return (sim.crc << 32 | ch) ^ (st.steps << 7 if st else 0)


# -- worker side ------------------------------------------------------------------

def setup_worker():
    from . import engine
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    engine.install()


def one(prop, seed=None, replay=None):
    """Returns (sim, stats or None, violation or None)."""
    from .kernel import Sim, Violation
    from .scenario import simulate
    sim = Sim(seed=seed, replay=replay)
    try:
        return sim, simulate(sim, prop), None
    except Violation as v:
        return sim, None, v


def known_match(pid, v):
    from .known import match
    return match(pid, v.entry, v.kind, v.message)


def worker_block(pid, seed, block, lo, hi, statefile, deadline):
    import gc
    from .kernel import mix
    from .props import PROPS
    setup_worker()
    prop = PROPS[pid]
    out = {"runs": 0, "steps": 0, "maxphase": 0, "fired": {}, "planned": {},
           "modes": {}, "switches": 0, "yields": 0, "touches": 0,
           "phases": 0, "cases": {}, "digests": [], "scheds": [],
           "nontrivial": 0, "known": {}, "violation": None, "samples": [],
           "rechecked": 0, "mismatch": 0, "truncated": False, "maxcase": {}}
    first = []
    for i in range(lo, hi):
        if time.time() > deadline:
            out["truncated"] = True
            break
        if statefile:
            with open(statefile, "w") as f:
                f.write(str(i))
        rs = mix(seed, pid, i)
        sim, st, v = one(prop, seed=rs)
        out["runs"] += 1
        if (i - lo) % 50 == 49:
            gc.collect()
        if v is not None:
            k = known_match(pid, v)
            if k is not None:
                out["known"][k] = out["known"].get(k, 0) + 1
                continue
            out["violation"] = {"run": i, "seed": rs, "kind": v.kind,
                                "message": v.message, "entry": v.entry,
                                "choices": sim.choices}
            break
        d = digest(sim, st)
        if len(first) < 4:
            first.append((sim.choices, d))
        out["steps"] += st.steps
        out["maxphase"] = max(out["maxphase"], st.maxphase)
        for name in st.cases:
            out["cases"][name] = out["cases"].get(name, 0) + 1
            out["maxcase"][name] = max(out["maxcase"].get(name, 0),
                                       st.maxphase)
        for k in st.fired:
            out["fired"][k] = out["fired"].get(k, 0) + st.fired[k]
        for k in st.planned:
            out["planned"][k] = out["planned"].get(k, 0) + st.planned[k]
        out["modes"][st.mode] = out["modes"].get(st.mode, 0) + 1
        out["switches"] += st.switches
        out["yields"] += st.yields
        out["touches"] += st.touches
        out["phases"] += st.phases
        if st.nontrivial:
            out["nontrivial"] += 1
            out["digests"].append(sim.crc)
        if st.switches:
            out["scheds"].append(st.sched_crc)
        if len(out["samples"]) < 1 and (st.fired or st.switches) \
                and len(sim.trace) < 40:
            out["samples"].append({"run": i, "seed": rs, "mode": st.mode,
                                   "steps": st.steps,
                                   "trace": [t[:200] for t in sim.trace]})
    if out["violation"] is None:
        for choices, d in first:
            sim, st, v = one(prop, replay=list(choices))
            out["rechecked"] += 1
            if v is not None or digest(sim, st) != d:
                out["mismatch"] += 1
    return out


def worker_shrink(pid, choices, kind, entry, cap):
    from .kernel import shrink
    from .props import PROPS
    setup_worker()
    prop = PROPS[pid]
    runs = 0

    def fails(cand):
        nonlocal runs
        runs += 1
        sim, st, v = one(prop, replay=cand)
        if v is None or v.kind != kind or v.entry != entry \
                or known_match(pid, v) is not None:
            return None
        return sim.choices

    best = shrink(choices, fails, time.time, time.time() + cap)
    sim, st, v = one(prop, replay=best)
    if v is None:
        best = choices
        sim, st, v = one(prop, replay=best)
    return {"choices": best, "kind": v.kind if v else None,
            "message": v.message if v else None,
            "entry": v.entry if v else None, "trace": sim.trace,
            "digest": digest(sim, st), "shrink_runs": runs}


def worker_replay(pid, choices):
    from .props import PROPS
    setup_worker()
    sim, st, v = one(PROPS[pid], replay=choices)
    return {"kind": v.kind if v else None, "entry": v.entry if v else None,
            "message": v.message if v else None, "trace": sim.trace,
            "digest": digest(sim, st)}


def worker_main(argv):
    req = json.load(sys.stdin)
    kind = req.pop("job")
    real = sys.stdout
    sys.stdout = sys.stderr          # library chatter must not mix with JSON
    try:
        res = {"block": worker_block, "shrink": worker_shrink,
               "replay": worker_replay}[kind](**req)
    except BaseException:
        res = {"harness_error": traceback.format_exc()}
    real.write(json.dumps(res))
    real.flush()
    os._exit(0)


# -- parent side --------------------------------------------------------------------

def start(job, hashseed, **req):
    req["job"] = job
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str(hashseed)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    fin = tempfile.TemporaryFile()
    fin.write(json.dumps(req).encode())
    fin.seek(0)
    fout = tempfile.TemporaryFile()
    ferr = tempfile.TemporaryFile()
    p = subprocess.Popen([sys.executable, "-m", "sim.run", "--worker"],
                         cwd=ROOT, env=env, stdin=fin, stdout=fout,
                         stderr=ferr)
    fin.close()
    p.fout, p.ferr = fout, ferr
    return p


def result(p):
    p.fout.seek(0)
    text = p.fout.read().decode()
    try:
        return json.loads(text)
    except ValueError:
        p.ferr.seek(0)
        err = p.ferr.read().decode("utf8", "replace")
        return {"harness_error": "worker died (status %s)\n%s\n%s"
                % (p.returncode, text[-500:], err[-3000:])}


def call(job, hashseed, **req):
    p = start(job, hashseed, **req)
    p.wait()
    return result(p)


def hashseed_for(seed, pid, block):
    from .kernel import mix
    return mix("hashseed", seed, pid, block) % 4294967295


def merge(into, d):
    for k in d:
        into[k] = into.get(k, 0) + d[k]


def run_check(pid):
    from .props import PROPS
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    workers = int(os.environ.get("VERIF_WORKERS", "0")) or os.cpu_count() or 4
    prop = PROPS[pid]
    total = prop.runs[1 if tier == "thorough" else 0]
    if os.environ.get("VERIF_RUNS"):
        total = int(os.environ["VERIF_RUNS"])
    nblocks = min(total, 32 if tier == "quick" else 128)
    bounds = [total * b // nblocks for b in range(nblocks + 1)]
    t0 = time.time()
    deadline = t0 + HARD_CAP * 0.8
    state = tempfile.mkdtemp(prefix="padsim-")
    jobs = list(range(nblocks)) + [-1]     # -1: block 0 again, elsewhere
    running, results, errors = {}, {}, []
    stuck = None
    stop = False
    while (jobs and not stop) or running:
        while jobs and len(running) < workers and not stop:
            b = jobs.pop(0)
            bb = max(b, 0)
            running[b] = start("block", hashseed_for(seed, pid, bb), pid=pid,
                               seed=seed, block=bb, lo=bounds[bb],
                               hi=bounds[bb + 1],
                               statefile=os.path.join(state, str(b)),
                               deadline=deadline)
        time.sleep(0.01)
        for b in list(running):
            if running[b].poll() is not None:
                r = result(running.pop(b))
                if "harness_error" in r:
                    errors.append(r["harness_error"])
                    stop = True
                else:
                    results[b] = r
                    if r["violation"]:
                        stop = True
        if time.time() - t0 > HARD_CAP:
            for b in running:
                running[b].kill()
                try:
                    with open(os.path.join(state, str(b))) as f:
                        stuck = (b, int(f.read()))
                except (OSError, ValueError):
                    pass
            break
    for name in os.listdir(state):
        os.unlink(os.path.join(state, name))
    os.rmdir(state)
    again = results.pop(-1, None)
    wall_explore = time.time() - t0

    agg = {"runs": 0, "steps": 0, "switches": 0, "yields": 0, "touches": 0,
           "phases": 0, "nontrivial": 0, "rechecked": 0, "mismatch": 0}
    fired, planned, modes, cases, known = {}, {}, {}, {}, {}
    digests, scheds = set(), set()
    samples = []
    maxphase = 0
    truncated = 0
    for b in sorted(results):
        r = results[b]
        for k in agg:
            agg[k] += r[k]
        for d, name in ((fired, "fired"), (planned, "planned"),
                        (modes, "modes"), (cases, "cases"),
                        (known, "known")):
            merge(d, r[name])
        digests.update(r["digests"])
        scheds.update(r["scheds"])
        samples += r["samples"]
        maxphase = max(maxphase, r["maxphase"])
        truncated += r["truncated"]
    other = None
    if again is not None and 0 in results and not results[0]["violation"] \
            and not again["truncated"] and not results[0]["truncated"]:
        other = {"runs": again["runs"],
                 "identical": again["digests"] == results[0]["digests"]
                 and again["steps"] == results[0]["steps"]}

    violation = None
    for b in sorted(results):
        if results[b]["violation"]:
            violation = (b, results[b]["violation"])
            break
    replay_path = None
    if violation is None and stuck is not None:
        b, i = stuck
        from .kernel import mix
        replay_path = os.path.join(EVID, "replay-%s-%d-%d.json" % (pid, seed, i))
        os.makedirs(EVID, exist_ok=True)
        with open(replay_path, "w") as f:
            json.dump({"property": pid, "verif_seed": seed, "run": i,
                       "seed": mix(seed, pid, i),
                       "hashseed": hashseed_for(seed, pid, max(b, 0)),
                       "kind": "no-progress", "choices": None}, f)
        violation = (b, {"kind": "no-progress", "run": i,
                         "message": "a run never came back", "entry": None})
    elif violation is not None:
        b, v = violation
        hs = hashseed_for(seed, pid, b)
        s = call("shrink", hs, pid=pid, choices=v["choices"], kind=v["kind"],
                 entry=v["entry"], cap=SHRINK_CAP)
        if "harness_error" in s:
            errors.append(s["harness_error"])
        else:
            os.makedirs(EVID, exist_ok=True)
            replay_path = os.path.join(EVID, "replay-%s-%d-%d.json"
                                       % (pid, seed, v["run"]))
            doc = {"property": pid, "verif_seed": seed, "run": v["run"],
                   "seed": v["seed"], "hashseed": hs, "kind": s["kind"],
                   "entry": s["entry"], "message": s["message"],
                   "choices": s["choices"], "digest": s["digest"],
                   "original_choices": len(v["choices"]),
                   "shrink_runs": s["shrink_runs"], "trace": s["trace"]}
            with open(replay_path, "w") as f:
                json.dump(doc, f, indent=1)
            rr = [call("replay", hs, pid=pid, choices=s["choices"])
                  for _ in range(2)]
            doc["replays_exactly"] = all([x.get("digest") == s["digest"]
                                          for x in rr])
            with open(replay_path, "w") as f:
                json.dump(doc, f, indent=1)

    wall = time.time() - t0
    per_hour = int(agg["runs"] / wall_explore * 3600) if wall_explore else 0
    cov = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": len(digests),
        "rule": "One evaluation is one simulated run drawn from a seed: "
                "inputs, hash orders, clients, schedule and faults. It is "
                "non-trivial when the library executed at least %d monitored "
                "steps in it; distinct means a different checksum of the "
                "complete event trace (cases, switches, faults)."
                % prop.trivial_steps,
        "samples": samples[:3],
        "runs_per_hour": per_hour,
        "simulated_steps": agg["steps"],
        "longest_phase_steps": maxphase,
        "phases": agg["phases"],
        "modes": modes,
        "faults_fired": fired,
        "faults_planned": planned,
        "context_switches": agg["switches"],
        "suspension_points": agg["yields"],
        "caller_callbacks": agg["touches"],
        "distinct_interleavings": len(scheds),
        "interleaving_measure": "checksum of the sequence of (switch or turn, "
                                "client, code point, fault) events",
        "workloads": cases,
        "replayed_in_process": agg["rechecked"],
        "replay_mismatches": agg["mismatch"],
        "block_rerun_in_other_process": other,
        "blocks": len(results),
        "hash_seeds": len(results),
        "truncated_blocks": truncated,
        "known_findings_seen": known,
        "real_components": "the pads package from %s, CPython %s, threads"
                           % (os.environ.get("PADS_REPO", "/repo"),
                              sys.version.split()[0]),
        "stub_components": "callers, graphs/streams/callbacks they supply, "
                           "scheduler, random module, id(), identity hashes, "
                           "locks",
    }
    if prop.extra is not None:
        cov.update(prop.extra(tier, seed))
    evidence = {"property": pid, "tier": tier, "seed": seed,
                "level": "exploration", "coverage": cov,
                "wall_s": round(wall, 2),
                "assumptions": ["CPython 3.12 bytecode: interrupts and thread "
                                "switches happen only at eval-breaker points"],
                "violations": 1 if violation else 0}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    from .known import OPEN
    for k in OPEN:
        if k["property"] == pid:
            print("KNOWN-FINDING: property=%s %s (seen in %d runs)"
                  % (pid, k["what"], known.get(k["id"], 0)))
    print("%s %s seed=%d: %d runs, %d distinct, %d steps, faults %s, "
          "%d switches, %.1fs" % (pid, tier, seed, agg["runs"], len(digests),
                                  agg["steps"], fired, agg["switches"], wall))
    if agg["mismatch"] or (other and not other["identical"]):
        print("WARNING: runs did not repeat exactly")
    if violation is not None and replay_path is not None:
        b, v = violation
        print("seed=%s run=%s %s: %s" % (seed, v["run"], v["kind"],
                                         v["message"]))
        print("VIOLATION property=%s replay=%s" % (pid, replay_path))
        return 1
    if errors:
        print("HARNESS ERROR\n" + errors[0])
        return 2
    if truncated:
        print("NOTE: %d blocks stopped at the time cap" % truncated)
    return 0


def run_replay(path):
    with open(path) as f:
        doc = json.load(f)
    if doc.get("choices") is None:      # a run that never came back
        p = start("block", doc["hashseed"], pid=doc["property"],
                  seed=doc["verif_seed"], block=0, lo=doc["run"],
                  hi=doc["run"] + 1, statefile=None,
                  deadline=time.time() + 1e6)
        try:
            p.wait(STUCK)
        except subprocess.TimeoutExpired:
            p.kill()
            print("no-progress: still running after %d s" % STUCK)
            print("VIOLATION property=%s replay=%s" % (doc["property"], path))
            return 1
        print("not reproduced: the run came to an end")
        return 0
    r = call("replay", doc["hashseed"], pid=doc["property"],
             choices=doc["choices"])
    if "harness_error" in r:
        print(r["harness_error"])
        return 2
    for line in r["trace"]:
        print("  " + line)
    if r["kind"] is None:
        print("not reproduced: the property held")
        return 0
    exact = r["digest"] == doc["digest"] and r["message"] == doc["message"]
    print("%s: %s" % (r["kind"], r["message"]))
    print("exact replay: %s" % exact)
    print("VIOLATION property=%s replay=%s" % (doc["property"], path))
    return 1


def main(argv):
    if argv[0] == "--worker":
        return worker_main(argv[1:])
    if argv[0] == "--replay":
        return run_replay(argv[1])
    return run_check(argv[0])


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
