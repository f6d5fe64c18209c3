#!/usr/bin/env python3
"""Runs the check of one property: check.py ID [--tier quick|thorough] [--replay FILE] [--seed N]

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: harness error.
"""
import argparse
import json
import os
import select
import subprocess
import sys
import time

V = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
SHIM = os.path.join(V, "build", "shim.so")
sys.dont_write_bytecode = True
CFG = {}


def build():
    src = os.path.join(V, "sim", "shim.c")
    if not os.path.exists(SHIM) or os.path.getmtime(SHIM) < os.path.getmtime(src):
        subprocess.run(["sh", os.path.join(V, "sim", "build.sh")], check=True)


def env(hashseed=0):
    e = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": "/nonexistent", "LANG": "C.UTF-8", "LD_PRELOAD": SHIM,
         "PYTHONHASHSEED": str(hashseed), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONWARNINGS": "ignore", "TZ": "UTC"}
    if "VERIF_REPO" in os.environ:
        e["VERIF_REPO"] = os.environ["VERIF_REPO"]
    return e


def worker(args, hashseed=0, **kw):
    return subprocess.Popen([PY, "-B", os.path.join(V, "sim", "worker.py")] + [str(a) for a in args], env=env(hashseed),
                            stdout=subprocess.PIPE, cwd="/", **kw)


def run_replay(path, show=True):
    p = worker(["--replay", path])
    out, _ = p.communicate(timeout=300)
    for line in out.decode().splitlines():
        m = json.loads(line)
        if m["t"] == "replay":
            return m
        if m["t"] == "error":
            print("harness error:", m["msg"], file=sys.stderr)
    return None


def findings(pid):
    known = []
    path = os.path.join(V, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith(f"known: property={pid} "):
                known.append(line.strip())
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--cap", type=float, default=0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    for f in (sys.stdout, sys.stderr):
        # messages quote keys which may hold anything
        f.reconfigure(errors="backslashreplace")
    build()
    if a.replay:
        a.replay = os.path.abspath(a.replay)
        m = run_replay(a.replay)
        if m is None:
            sys.exit(2)
        if a.v:
            print("\n".join(m["trace"]))
            print("\n".join(m["events"]))
        for c, msg in m["violations"]:
            print(f"{c}: {msg}")
        rec = json.load(open(a.replay))
        print("trace hash", m["hash"], "same as recorded" if m["hash"] == rec.get("hash") else "DIFFERS from recorded")
        if m["violations"]:
            print(f"VIOLATION property={a.prop} replay={a.replay}")
            sys.exit(1)
        sys.exit(0)

    sys.path.insert(0, os.path.join(V, "sim"))
    cfg = json.load(open(os.path.join(V, "sim", "budget.json")))[a.prop]
    ncases = a.cases or cfg[a.tier]
    cap = a.cap or (780 if a.tier == "quick" else 4 * 3600)
    t0 = time.monotonic()
    procs = [worker([a.prop, a.tier, a.seed, w, a.workers, ncases]) for w in range(a.workers)]
    bufs = {p.stdout.fileno(): (p, b"") for p in procs}
    stats, hashes, viols, errors, notes = [], set(), [], [], []
    deadline = None
    while bufs:
        now = time.monotonic()
        if deadline and now > deadline:
            break
        if now - t0 > cap:
            errors.append("wall-clock cap reached before the planned runs were done")
            break
        r, _, _ = select.select(list(bufs), [], [], 1.0)
        for fd in r:
            p, b = bufs[fd]
            d = os.read(fd, 1 << 20)
            if not d:
                del bufs[fd]
                rc = p.wait()
                if rc != 0 and not errors:
                    errors.append(f"worker ended with {rc}")
                continue
            b += d
            *lines, b = b.split(b"\n")
            bufs[fd] = (p, b)
            for line in lines:
                m = json.loads(line)
                if m["t"] == "stats":
                    stats.append(m["d"])
                    hashes.update(m["hashes"])
                elif m["t"] == "violation":
                    viols.append(m)
                    # other workers may be shrinking the same thing; a short grace is enough
                    deadline = deadline or time.monotonic() + 1.0
                elif m["t"] == "error":
                    errors.append(m["msg"])
                    deadline = deadline or time.monotonic() + 3.0
                elif m["t"] == "note":
                    notes.append(m["msg"])
    for p in procs:
        if p.poll() is None:
            p.terminate()
            try:
                p.wait(timeout=5)
            except subprocess.TimeoutExpired:
                p.kill()
    cleanup_scratch(procs)
    wall = time.monotonic() - t0
    code = 0
    vcount = 0
    if viols:
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        viols.sort(key=lambda m: m["case"])
        for n, m in enumerate(viols):
            path = os.path.join(V, "replays", f"{a.prop}-{a.seed}-{m['case']}.json")
            json.dump({"property": a.prop, "class": m["class"], "message": m["msg"], "scenario": m["scenario"], "hash": m["hash"],
                       "trace": m["trace"]}, open(path, "w"), indent=1)
            r = run_replay(path)
            if not (r and any(c == m["class"] for c, _ in r["violations"])):
                errors.append(f"violation {m['class']} did not replay: {m['msg']}")
                continue
            vcount = 1
            print(f"{m['class']}: {m['msg']}")
            print(f"seed={a.seed} case={m['case']} shrunk in {m['shrink_runs']} runs; "
                  + ("replayed with an identical trace" if r["hash"] == m["hash"] else "replayed (trace differs)"))
            print(f"VIOLATION property={a.prop} replay={path}")
            code = 1
            break
    if errors and code == 0:
        for e in errors[:3]:
            print("harness error:", e, file=sys.stderr)
        code = 2
    write_evidence(a, stats, hashes, wall, vcount, notes, ncases)
    if code == 0:
        for line in findings(a.prop):
            print("KNOWN-FINDING: " + line[len("known: "):])
        n = sum(s["runs"] for s in stats)
        print(f"{a.prop} held: {n} simulated runs, {len(hashes)} distinct executions, {wall:.1f}s")
    sys.exit(code)


def cleanup_scratch(procs):
    # a worker ended early may leave its scratch directory
    import glob
    import shutil
    for d in glob.glob("/dev/shm/vsim*") + glob.glob("/tmp/vsim*"):
        try:
            pid = int(open(os.path.join(d, "pid")).read())
        except (OSError, ValueError):
            continue
        if any(p.pid == pid for p in procs):
            shutil.rmtree(d, ignore_errors=True)


def write_evidence(a, stats, hashes, wall, vcount, notes, ncases):
    import importlib.util
    tot = {k: sum(s.get(k, 0) for s in stats) for k in ("runs", "cases", "ops", "switches", "crashes", "aborted", "faulty_runs", "sim_ns")}

    def merge(k):
        out = {}
        for s in stats:
            for n, c in s.get(k, {}).items():
                out[n] = out.get(n, 0) + c
        return dict(sorted(out.items()))
    samples = [x for s in stats for x in s.get("samples", [])][:3]
    meta = json.load(open(os.path.join(V, "sim", "budget.json")))[a.prop]
    ev = {"property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
          "coverage": {"evaluations": tot["runs"], "distinct_nontrivial": len(hashes), "rule": meta["rule"], "samples": samples or ["none"],
                       "seeds": tot["cases"], "planned_seeds": ncases, "runs_per_hour": int(tot["runs"] / max(wall, 0.01) * 3600),
                       "seeds_per_hour": int(tot["cases"] / max(wall, 0.01) * 3600), "simulated_seconds": round(tot["sim_ns"] / 1e9, 3),
                       "intercepted_calls": tot["ops"], "context_switches": tot["switches"], "actors_crashed": tot["crashes"],
                       "step_capped_actors": tot["aborted"], "runs_with_faults": tot["faulty_runs"], "faults_fired": merge("fired"),
                       "faults_fired_by_call": merge("fired_at"), "probes": merge("probes"),
                       "components_real": ["vistautils from " + os.environ.get("VERIF_REPO", "/repo") + ", unmodified", "CPython standard library, PyYAML, attrs, immutablecollections",
                                           "file bytes on a RAM file system"],
                       "components_stub": ["outcome of every file-system call under the scratch directory (errors, short, torn, lost, crash)",
                                           "scheduling between actors", "clock", "getrandom", "directory order"] + meta.get("stubs", []),
                       "notes": notes},
          "assumptions": meta.get("assumptions", []), "wall_s": round(wall, 2), "violations": vcount}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    tmp = os.path.join(V, "evidence", f".{a.prop}.{os.getpid()}")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(V, "evidence", a.prop + ".json"))


if __name__ == "__main__":
    try:
        main()
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)
