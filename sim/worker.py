"""Worker process: runs under the preloaded shim, executes cases of one property.

usage: worker.py PROP TIER SEED WID NWORKERS NCASES [START]   explore
       worker.py --replay FILE                                 run one replay file
       worker.py --trace PROP TIER SEED I N                    print trace hashes (determinism proof)
       worker.py --server                                      execute scenarios from stdin (other environments)
"""
import gc
import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")


def setup():
    # stdlib first (with its cached bytecode), then the code under test from source only
    import argparse, logging.config, pickle, random, shutil as _s, tarfile, zipfile, gzip, ctypes, bz2, lzma  # noqa
    import attr, yaml, immutablecollections, deprecation, sortedcontainers  # noqa
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent-pycache"
    sys.path.insert(0, REPO)
    import vistautils
    if os.path.dirname(os.path.dirname(os.path.abspath(vistautils.__file__))) != os.path.abspath(REPO):
        print(json.dumps({"t": "error", "msg": f"vistautils imported from {vistautils.__file__}"}), flush=True)
        os._exit(3)
    for m in ("io_utils", "key_value", "checkpoints", "parameters", "iter_utils", "parameters_only_entrypoint",
              "logging_utils", "range", "scripts.split_key_value_store", "scripts.join_key_value_stores",
              "scripts.directory_to_key_value_store", "scripts.downsample_key_value_store", "scripts.tar_gz_to_zip",
              "scripts.text_at_offsets"):
        importlib.import_module("vistautils." + m)


def make_base():
    for parent in ("/dev/shm", "/tmp"):
        try:
            b = tempfile.mkdtemp(prefix="vsim", dir=parent)
            break
        except OSError:
            continue
    else:
        raise RuntimeError("no scratch directory")
    # same length wherever it is, so that paths stored in files have equal length in every run
    with open(os.path.join(b, "pid"), "w") as f:
        f.write(str(os.getpid()))
    pad = "x" * (40 - len(b) - 1)
    base = os.path.join(b, pad)
    os.mkdir(base)
    return b, base


def drop_privileges(b, base):
    from core import die_with_parent
    ppid = os.getppid()
    if os.getuid() == 0:
        try:
            os.chown(b, 65534, 65534)
            os.chown(base, 65534, 65534)
            os.setgroups([])
            os.setresgid(65534, 65534, 65534)
            os.setresuid(65534, 65534, 65534)
        except OSError as e:
            print(json.dumps({"t": "note", "msg": f"running without privilege drop: {e}"}), flush=True)
    die_with_parent(ppid)       # after the change of user, which would clear it


def load_prop(pid):
    m = importlib.import_module("props." + pid.lower())
    return m.PROP


class Stats:
    def __init__(self):
        self.d = {"runs": 0, "cases": 0, "ops": 0, "sim_ns": 0, "switches": 0, "crashes": 0, "aborted": 0, "faulty_runs": 0,
                  "fired": {}, "fired_at": {}, "probes": {}, "samples": []}
        self.hashes = set()

    def add(self, prop, sc, h):
        d = self.d
        d["runs"] += 1
        d["ops"] += h.nops
        d["sim_ns"] += h.sim_ns
        d["switches"] += h.switches
        d["crashes"] += len(h.crashed)
        d["aborted"] += len(h.aborted)
        if h.fired:
            d["faulty_runs"] += 1
        for k, n in h.fired.items():
            d["fired"][k] = d["fired"].get(k, 0) + n
        for pi, ph in enumerate(sc["phases"]):
            for f, n in zip(ph.get("faults", ()), h.fault_fired[pi] if pi < len(h.fault_fired) else ()):
                if n:
                    k = f"{f['kind']}@{'/'.join(f.get('cls') or ['any'])}"
                    d["fired_at"][k] = d["fired_at"].get(k, 0) + n
        for k, n in h.extra.get("probes", {}).items():
            d["probes"][k] = d["probes"].get(k, 0) + n
        if prop.interesting(sc, h):
            self.hashes.add(h.extra.get("hash", h.hash))
        if len(d["samples"]) < 2 and (h.fired or d["runs"] > 20):
            d["samples"].append(summary(sc))


def summary(sc):
    s = json.dumps(sc, ensure_ascii=False)
    return sc if len(s) < 3000 else s[:3000] + "..."


def run_one(world, prop, sc):
    h = world.execute(sc, prop)
    if h.hung:
        return h, [("no-progress", f"phase {h.hung[0]} actor {h.hung[1]} did not finish within {world.timeout:.0f} s")]
    if h.aborted:
        viol = prop.on_abort(sc, h)
    else:
        viol = list(prop.check(sc, h))
    if h.escapes and not getattr(prop, "allow_escapes", False):
        viol.append(("escape", "modified something outside its directory: " + "; ".join(h.escapes[:3])))
    return h, viol


def make_case(prop, pid, tier, seed, i, rng):
    import gen
    sc = prop.cases(rng, tier)
    sc["prop"] = pid
    loc = gen.locales(gen.rng_for(pid, seed, i, "locale"))
    if loc:
        sc.setdefault("env", {}).setdefault("loc", loc)
    return sc


def explore(pid, tier, seed, wid, nw, ncases, start=0):
    from core import World, HarnessError
    import gen
    import minimise
    prop = load_prop(pid)
    b, base = make_base()
    st = Stats()
    try:
        drop_privileges(b, base)
        world = World(base)
        gc.collect()
        gc.freeze()
        gc.disable()
        if hasattr(prop, "setup"):
            prop.setup(world)
        t0 = time.monotonic()
        for i in range(start + wid, start + ncases, nw):
            rng = gen.rng_for(pid, seed, i)
            sc = make_case(prop, pid, tier, seed, i, rng)
            sc["seed"] = [seed, i]
            h, viol = run_one(world, prop, sc)
            st.add(prop, sc, h)
            st.d["cases"] += 1
            if not viol:
                for sc2 in prop.variants(rng, sc, h, tier):
                    h2, viol = run_one(world, prop, sc2)
                    st.add(prop, sc2, h2)
                    if viol:
                        sc = sc2
                        break
            if viol:
                sc, viol, steps = minimise.minimise(world, prop, sc, viol, budget=45 if tier == "quick" else 120)
                h, v2 = run_one(world, prop, sc)
                print(json.dumps({"t": "violation", "class": viol[0][0], "msg": viol[0][1], "scenario": sc, "case": i,
                                  "hash": h.hash, "trace": [repr(o) for o in h.ops[:400]], "shrink_runs": steps}), flush=True)
                break
            if (i // nw) % 64 == 63:
                gc.collect()
                print(json.dumps({"t": "tick", "cases": st.d["cases"]}), flush=True)
        st.d["wall"] = time.monotonic() - t0
    finally:
        if hasattr(prop, "teardown"):
            prop.teardown()
        os.chdir("/")
        shutil.rmtree(b, ignore_errors=True)
    print(json.dumps({"t": "stats", "d": st.d, "hashes": [format(x, "x") for x in st.hashes]}), flush=True)


def replay(path):
    from core import World
    rec = json.load(open(path))
    sc = rec["scenario"]
    prop = load_prop(sc["prop"])
    b, base = make_base()
    try:
        drop_privileges(b, base)
        world = World(base)
        gc.collect(); gc.freeze(); gc.disable()
        if hasattr(prop, "setup"):
            prop.setup(world)
        h, viol = run_one(world, prop, sc)
        print(json.dumps({"t": "replay", "violations": viol, "hash": h.hash, "fired": h.fired,
                          "trace": [repr(o) for o in h.ops[:2000]], "events": [repr({k: v for k, v in e.items()})[:400] for e in h.events]}), flush=True)
    finally:
        if hasattr(prop, "teardown"):
            prop.teardown()
        os.chdir("/")
        shutil.rmtree(b, ignore_errors=True)


def trace(pid, tier, seed, i0, n):
    from core import World
    import gen
    prop = load_prop(pid)
    b, base = make_base()
    out = []
    try:
        drop_privileges(b, base)
        world = World(base)
        gc.collect(); gc.freeze(); gc.disable()
        if hasattr(prop, "setup"):
            prop.setup(world)
        for i in range(i0, i0 + n):
            rng = gen.rng_for(pid, seed, i)
            sc = make_case(prop, pid, tier, seed, i, rng)
            h, v = run_one(world, prop, sc)
            out.append([i, 0, h.hash, len(v)])
            for j, sc2 in enumerate(prop.variants(rng, sc, h, tier)):
                h2, v = run_one(world, prop, sc2)
                out.append([i, j + 1, h2.hash, len(v)])
    finally:
        if hasattr(prop, "teardown"):
            prop.teardown()
        os.chdir("/")
        shutil.rmtree(b, ignore_errors=True)
    print(json.dumps({"t": "trace", "out": out}), flush=True)


def server():
    """executes scenarios read from stdin in this process's environment; replies with canonical results"""
    import base64
    import pickle
    from core import World
    b, base = make_base()
    try:
        drop_privileges(b, base)
        world = World(base)
        gc.collect(); gc.freeze(); gc.disable()
        for line in sys.stdin:
            sc = json.loads(line)
            prop = load_prop(sc["prop"])
            try:
                h = world.execute(sc, prop, want_trace=False)
                r = {"events": h.events, "hash": h.hash, "fired": h.fired, "nops": h.nops, "sim_ns": h.sim_ns, "extra": h.extra, "root": world.root}
            except Exception as e:
                traceback.print_exc()
                r = {"error": repr(e)}
            print(base64.b64encode(pickle.dumps(r)).decode(), flush=True)
    except (BrokenPipeError, KeyboardInterrupt):
        os.close(1)
    finally:
        os.chdir("/")
        shutil.rmtree(b, ignore_errors=True)


if __name__ == "__main__":
    try:
        setup()
        a = sys.argv[1:]
        if a[0] == "--replay":
            replay(a[1])
        elif a[0] == "--server":
            server()
        elif a[0] == "--trace":
            trace(a[1], a[2], int(a[3]), int(a[4]), int(a[5]))
        else:
            explore(a[0], a[1], int(a[2]), int(a[3]), int(a[4]), int(a[5]), int(a[6]) if len(a) > 6 else 0)
    except BaseException as e:
        print(json.dumps({"t": "error", "msg": "".join(traceback.format_exception(e))[-6000:]}), flush=True)
        sys.stdout.flush()
        os._exit(3)
