"""selftest.py [N]: one seed is one execution.  Executes the first N seeds of every property twice, in different processes:
once in one go, once in two halves (so that what ran before differs), and compares the trace hash of every run."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check


def traces(jobs):
    ps = [check.worker(["--trace", pid, "quick", 1, i0, n]) for pid, i0, n in jobs]
    out = []
    for p in ps:
        o, _ = p.communicate(timeout=1800)
        for line in o.decode().splitlines():
            m = json.loads(line)
            if m["t"] == "trace":
                out += m["out"]
            elif m["t"] == "error":
                raise SystemExit(m["msg"])
    return out


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 24
    check.build()
    bad = total = 0
    for pid in sorted(check_ids()):
        a = traces([(pid, 0, n)])
        b = traces([(pid, 0, n // 2), (pid, n // 2, n - n // 2)])
        diff = [x[:2] for x, y in zip(a, b) if x != y]
        print(pid, len(a), "runs,", "identical" if a == b else f"DIFFERENT: {diff[:5]} {len(a)} {len(b)}", flush=True)
        total += len(a)
        bad += a != b
    print(total, "runs executed twice;", bad, "properties differ")
    sys.exit(1 if bad else 0)


def check_ids():
    return json.load(open(os.path.join(check.V, "sim", "budget.json")))


main()
