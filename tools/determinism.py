"""Shows that simulated runs repeat: the same seeds in other processes, other
positions within a block of runs, other numbers of workers at a time.

    python3 tools/determinism.py [RUNS [ID ...]]

For every property RUNS runs (default 120) are made
  - by one process, then by another one (same),
  - split over three processes, so that every run has another past (split),
  - with eight and with two processes at a time,
  - under another PYTHONHASHSEED (other: only the verdict must be the same,
    since the order of a set of strings is part of the input; a failure is
    recorded and replayed with its own value),
and the checksums of the complete event traces are compared.
"""

import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sim.props import PROPS                                   # noqa: E402
from sim.run import hashseed_for, result, start               # noqa: E402


def batch(jobs, width):
    """Run jobs {key: arguments}, width at a time."""
    todo, running, out = list(jobs), {}, {}
    while todo or running:
        while todo and len(running) < width:
            key = todo.pop(0)
            running[key] = start("block", **jobs[key])
        time.sleep(0.02)
        for key in list(running):
            if running[key].poll() is not None:
                r = out[key] = result(running.pop(key))
                if "harness_error" in r:
                    raise SystemExit(r["harness_error"])
    return out


def main(argv):
    n = int(argv[0]) if argv else 120
    ids = argv[1:] or sorted(PROPS)
    never = time.time() + 1e6

    def job(pid, lo, hi, hashseed):
        return dict(hashseed=hashseed, pid=pid, seed=7, block=0, lo=lo,
                    hi=hi, statefile=None, deadline=never)
    one, two = {}, {}
    for pid in ids:
        h = hashseed_for(7, pid, 0)
        k = max(8, n // 20) if pid in ("C34", "C41") else n
        one[pid, "first"] = job(pid, 0, k, h)
        two[pid, "same"] = job(pid, 0, k, h)
        for i in range(3):
            two[pid, i] = job(pid, k * i // 3, k * (i + 1) // 3, h)
        two[pid, "other"] = job(pid, 0, k, h + 1)
    a, b = batch(one, 8), batch(two, 2)
    bad = 0
    total = varied = 0
    for pid in ids:
        first, same = a[pid, "first"], b[pid, "same"]
        other = b[pid, "other"]
        parts = [b[pid, i] for i in range(3)]
        keys = ("digests", "scheds", "steps", "fired", "switches", "cases",
                "touches", "yields")
        ok = all([first[k] == same[k] for k in keys])
        ok &= first["digests"] == sum([p["digests"] for p in parts], [])
        ok &= first["steps"] == sum([p["steps"] for p in parts])
        ok &= not any([r["mismatch"] for r in [first, same, other] + parts])
        ok &= not any([r["violation"] for r in [first, same, other]])
        x = len([1 for p, q in zip(first["digests"], other["digests"])
                 if p != q])
        total += first["runs"]
        varied += x
        bad += not ok
        print("%s %s: %d runs, %d steps, %d differ in trace under another "
              "PYTHONHASHSEED" % (pid, "repeats" if ok else "DIFFERS",
                                  first["runs"], first["steps"], x))
    print("%d runs made in five ways, %d properties differ; %d traces depend "
          "on PYTHONHASHSEED" % (total, bad, varied))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
