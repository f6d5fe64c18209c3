"""C08: splitting a store, processing the slices with several workers, joining the results."""
import copy
import hashlib
import os
import struct
import zipfile
from pathlib import Path

import corrupt
import gen
from core import Prop, harness_code
from props.common import SKIP, show, skipped, tok

from vistautils.checkpoints import Checkpoints
from vistautils.key_value import KeyValueSink, KeyValueSource
from vistautils.parameters import Parameters
from vistautils.scripts import join_key_value_stores, split_key_value_store


def write_zip_store(path, pairs, method=zipfile.ZIP_STORED):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with zipfile.ZipFile(path, "w", method) as z:
        for k, v in pairs:
            zi = zipfile.ZipInfo(k, (1990, 1, 1, 0, 0, 0))
            zi.compress_type = method
            z.writestr(zi, v)
        z.writestr(zipfile.ZipInfo("__keys", (1990, 1, 1, 0, 0, 0)), "\n".join(sorted(k for k, _ in pairs)).encode())


def make_hole(path, key, how):
    """takes the entry `key` out of a zip store, or damages its data, leaving it listed; whether it was there"""
    with zipfile.ZipFile(path) as z:
        infos = z.infolist()
        got = [(zi, z.read(zi)) for zi in infos]
    if key not in [zi.filename for zi in infos]:
        return
    if how == "unlisted":
        # a zip file some other tool made: the store cannot tell its keys
        key, how = "__keys", "gone"
    if how == "gone" or not dict((zi.filename, v) for zi, v in got)[key]:
        with zipfile.ZipFile(path, "w") as z:
            for zi, v in got:
                if zi.filename != key:
                    z.writestr(zi, v)
        return
    zi = next(zi for zi in infos if zi.filename == key)
    with open(path, "r+b") as f:
        f.seek(zi.header_offset + 26)
        n, m = struct.unpack("<HH", f.read(4))
        at = zi.header_offset + 30 + n + m + zi.compress_size // 2
        f.seek(at)
        b = f.read(1)[0]
        f.seek(at)
        f.write(bytes([b ^ 0x55]))


def write_map_store(root, index, pairs):
    lines = []
    for i, (k, v) in enumerate(pairs):
        p = os.path.join(root, "mapped", f"{i}.bin")
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(v)
        lines.append(f"{k}\t{p}\n")
    with open(index, "w", encoding="utf-8") as f:
        f.write("".join(lines))


def dump_zip(path):
    """{"err"} or {"pairs": {...}, "keys": [...]} read without the library"""
    if not os.path.exists(path):
        return {"err": "missing"}
    try:
        with zipfile.ZipFile(path) as z:
            names = z.namelist()
            pairs = {n: tok(z.read(n)) for n in names if n != "__keys"}
            k = z.read("__keys").decode() if "__keys" in names else None
            return {"pairs": pairs, "keys": sorted(k.split("\n")) if k else [], "n": len(names)}
    except Exception as e:
        return {"err": f"{type(e).__name__}: {e}"}


def dump_dir(path):
    idx = os.path.join(path, "_index")
    if not os.path.exists(idx):
        return {"err": "missing"}
    pairs = {}
    for line in open(idx, encoding="utf-8", newline="\n"):
        k, p = line.rstrip("\n").split("\t")
        try:
            pairs[k] = tok(open(p, "rb").read())
        except OSError as e:
            return {"err": str(e)}
    return {"pairs": pairs, "keys": sorted(pairs), "n": len(pairs) + 1}


def tree_hash(root, rels):
    h = hashlib.sha1()
    for rel in sorted(rels):
        top = os.path.join(root, rel)
        files = [top] if os.path.isfile(top) else sorted(os.path.join(d, f) for d, _, fs in os.walk(top) for f in fs)
        for f in files:
            h.update(f[len(root):].encode("utf-8", "surrogateescape"))
            h.update(hashlib.sha1(open(f, "rb").read()).digest())
    return h.hexdigest()


class C08(Prop):
    id = "C08"
    keep_ops = ("mk", "dump")

    def cases(self, rng, tier):
        env = gen.benign_env(rng, 0.25)
        sid = [0]

        def step(op, **k):
            sid[0] += 1
            return dict(id=sid[0], op=op, **k)
        flow = rng.choice(["slices", "slices", "pipeline", "pipeline", "explicit", "explicit", "join", "join"])
        kind = rng.choice(["zip", "zip", "file-map"])
        outkind = rng.choice(["zip", "zip", "directory", "file-map"])
        nk = rng.choice([0, 1, 2, 3, 5, 8, 13])
        keys = gen.file_keys(rng, nk) if kind != "zip" or outkind != "zip" else gen.zip_keys(rng, nk)
        lots = gen.many(rng)
        kv = [[k, gen.value_desc(rng, True, 0.03)] for k in keys]
        if lots:
            keys, kv = lots, [[k, gen.small_desc(rng)] for k in lots]
        hole = None      # an input entry which is listed but missing or damaged
        if keys and flow != "pipeline" and rng.random() < 0.12:
            hole = [rng.choice(keys), rng.choice(["gone", "damaged", "unlisted"])]
        mk = step("mk", kind=kind, kv=kv, method=rng.choice([0, 8]), **({"hole": hole} if hole else {}))
        if flow in ("slices", "pipeline"):
            n = rng.choice([1, 2, 3, 4, 7])
            cfg = dict(kind=kind, n=n, seed=rng.choice([None, None, 1, 7, 12345]), nest=rng.random() < 0.3)
            if flow == "slices":
                if rng.random() < 0.04:
                    cfg["absent"] = "input"
                bad = rng.choice(["zero", "both", "neither", "neg"]) if rng.random() < 0.06 else None
                if bad:
                    cfg["bad"] = bad
            phases = [{"actors": [[mk, step("split", **cfg)]]}, {"actors": [[step("split", retry=True, **cfg)]]}]
            if flow == "pipeline":
                na = rng.choice([1, 2, 3])
                actors = [[step("work", me=i, of=na, n=n, nest=cfg["nest"])] for i in range(na)]
                phases.append({"actors": actors, "first": rng.randrange(na), "switches": gen.random_switches(rng, na, 60 * n)})
                phases.append({"actors": [[step("work", me=0, of=1, n=n, nest=cfg["nest"])]]})
                j = dict(inputs=[f"done/{i}.zip" for i in range(n)], outkind=outkind, aslist=rng.random() < 0.3, noise=rng.random() < 0.3)
                phases.append({"actors": [[step("join", **j)]]})
                phases.append({"actors": [[step("join", retry=True, **j)]]})
        elif flow == "explicit":
            ns = rng.choice([0, 1, 2, 3])
            splits = [[] for _ in range(ns)]
            for k in keys:
                r = rng.random()
                if ns and r < 0.97:
                    rng.choice(splits).append(k)
                if ns and r < 0.05:
                    rng.choice(splits).append(k)
            if ns and rng.random() < 0.12:
                rng.choice(splits).append("not-there")
            for s in splits:
                rng.shuffle(s)
                if s and rng.random() < 0.2:
                    s.insert(rng.randrange(len(s) + 1), rng.choice([s[0], ""]))
            cfg = dict(kind=kind, splits=splits, exhaustive=rng.choice([None, None, True, False]), top=rng.choice([None, None, None, True, False]))
            if rng.random() < 0.05:
                cfg["absent"] = rng.choice(["input", "keys"]) if ns else "input"
            phases = [{"actors": [[mk, step("explicit", **cfg)]]}, {"actors": [[step("explicit", retry=True, **cfg)]]}]
        else:
            m = rng.choice([0, 1, 2, 3, 4])
            parts = [[] for _ in range(m)]
            for x in kv:
                if m:
                    rng.choice(parts).append(x)
            if m and keys and rng.random() < 0.2:
                dk, dv = rng.choice(kv)     # the same value or another one
                rng.choice(parts).append([dk, dv if rng.random() < 0.5 else gen.value_desc(rng, True, 0.02)])
            for p in parts:
                seen, q = set(), []
                for k, v in p:
                    if k not in seen:
                        seen.add(k)
                        q.append([k, v])
                p[:] = q
            mk = step("mk", kind="parts", parts=parts, method=rng.choice([0, 8]), **({"hole": hole} if hole and m else {}))
            j = dict(inputs=[f"parts/{i}.zip" for i in range(m)], outkind=outkind, aslist=rng.random() < 0.3, noise=rng.random() < 0.3)
            if rng.random() < 0.08:
                j["inputs"].insert(rng.randrange(m + 1), rng.choice(["parts/99.zip", "nowhere/0.zip", "parts"]))
                j["absent"] = "input"
            if m and rng.random() < 0.08:
                i = rng.randrange(m)     # the same store listed twice
                j["inputs"].insert(rng.randrange(len(j["inputs"]) + 1), rng.choice([f"parts/{i}.zip", f"parts/{i}.zip", f"parts/./{i}.zip"]))
                j["again"] = i
            phases = [{"actors": [[mk, step("join", **j)]]}, {"actors": [[step("join", retry=True, **j)]]}]
        phases.append({"actors": [[step("dump", flow=flow, outkind=outkind, n=phases[0]["actors"][0][1].get("n", 0), nest=phases[0]["actors"][0][1].get("nest", False),
                                        splits=len(phases[0]["actors"][0][1].get("splits", ())))]]})
        return {"env": env, "flow": flow, "phases": phases}

    # ---- operations ----
    def op_mk(self, ctx, st):
        with harness_code(ctx):
            R = ctx.root
            if st["kind"] == "parts":
                for i, p in enumerate(st["parts"]):
                    write_zip_store(f"{R}/parts/{i}.zip", [(k, gen.data(v)) for k, v in p], st["method"])
                os.makedirs(R + "/parts", exist_ok=True)
            else:
                pairs = [(k, gen.data(v)) for k, v in st["kv"]]
                if st["kind"] == "zip":
                    write_zip_store(R + "/in.zip", pairs, st["method"])
                else:
                    write_map_store(R, R + "/in.tsv", pairs)
            if st.get("hole"):
                k, how = st["hole"]
                for z in [R + "/in.zip"] + [f"{R}/parts/{i}.zip" for i in range(len(st.get("parts", ())))]:
                    if os.path.exists(z):
                        make_hole(z, k, how)
                if st["kind"] not in ("zip", "parts") and how != "unlisted":
                    i = [x for x, _ in st["kv"]].index(k)
                    os.unlink(f"{R}/mapped/{i}.bin")
            ctx.v["h"] = tree_hash(R, self.inputs())
            with open(R + "/inputs.sha", "w") as f:
                f.write(ctx.v["h"])

    def inputs(self):
        return ["in.zip", "in.tsv", "mapped", "parts"]

    def once(self, ctx, st, what, f):
        """runs f unless an earlier try succeeded"""
        with harness_code(ctx):
            mark = os.path.join(ctx.root, "." + what)
            done = os.path.exists(mark)
        if st.get("retry") and done:
            return SKIP
        f()
        with harness_code(ctx):
            open(mark, "w").close()
        return {"done": True}

    def input_params(self, ctx, st):
        if st.get("absent") == "input":
            return {"type": st["kind"], "path": os.path.join(ctx.root, "absent.zip")}
        return {"type": st["kind"], "path": os.path.join(ctx.root, "in.zip" if st["kind"] == "zip" else "in.tsv")}

    def op_split(self, ctx, st):
        p = {"input": self.input_params(ctx, st), "num_slices": st["n"], "output_dir": os.path.join(ctx.root, "out/slices" if st["nest"] else "slices")}
        if st["seed"]:
            p["random_seed"] = st["seed"]
        b = st.get("bad")
        if b == "zero":
            p["num_slices"] = 0
        if b == "neg":
            p["num_slices"] = -2
        if b == "neither":
            del p["num_slices"]
        if b == "both":
            p["explicit_split"] = {"a": {"keys_file": "x", "output_file": "y"}}
        return self.once(ctx, st, "split", lambda: split_key_value_store.main(Parameters.from_mapping(p)))

    def op_explicit(self, ctx, st):
        e = {}
        with harness_code(ctx):
            for i, s in enumerate(st["splits"]):
                kf = os.path.join(ctx.root, f"keys{i}.txt")
                with open(kf, "w", encoding="utf-8", newline="\n") as f:
                    f.write("\n".join(s) + ("\n" if i % 2 else ""))
                if st.get("absent") == "keys" and i == len(st["splits"]) - 1:
                    kf += ".absent"
                e[f"split{i}"] = {"keys_file": kf, "output_file": os.path.join(ctx.root, f"ex/{i}.zip")}
        if st["exhaustive"] is not None:
            e["must_be_exhaustive"] = st["exhaustive"]
        p = {"input": self.input_params(ctx, st), "explicit_split": e}
        if st.get("top") is not None:
            p["must_be_exhaustive"] = st["top"]
        return self.once(ctx, st, "explicit", lambda: split_key_value_store.main(Parameters.from_mapping(p)))

    def op_work(self, ctx, st):
        d = os.path.join(ctx.root, "out/slices" if st["nest"] else "slices")
        os.makedirs(os.path.join(ctx.root, "done"), exist_ok=True)
        cp = Checkpoints.from_directory(os.path.join(ctx.root, "cp"))
        paths = Parameters.from_mapping({"l": os.path.join(d, "_slices.txt")}).path_list_from_file("l")
        did = []
        for i, p in enumerate(paths):
            if i % st["of"] != st["me"] or f"slice{i}" in cp:
                continue
            with KeyValueSource.zip_bytes_source(p) as src:
                with KeyValueSink.zip_bytes_sink(Path(os.path.join(ctx.root, f"done/{i}.zip"))) as out:
                    for k, v in src.items():
                        out.put(k, v + b"!")
            cp.set(f"slice{i}")
            did.append(i)
        return did

    def op_join(self, ctx, st):
        paths = [os.path.join(ctx.root, p) for p in st["inputs"]]
        out = {"type": st["outkind"], "path": os.path.join(ctx.root, "joined.zip" if st["outkind"] == "zip" else "joined")}
        with harness_code(ctx):
            if st["outkind"] != "zip":
                os.makedirs(out["path"], exist_ok=True)
            lf = os.path.join(ctx.root, "list.txt")
            with open(lf, "w") as f:
                for i, p in enumerate(paths):
                    f.write(p + "\n" + ("\n  \n# not/this one\n" if st["noise"] else ""))
        p = {"input_store_list_file": paths if st["aslist"] else lf, "output": out}
        return self.once(ctx, st, "join", lambda: join_key_value_stores.main(Parameters.from_mapping(p)))

    def op_dump(self, ctx, st):
        with harness_code(ctx):
            R = ctx.root
            r = {"same": open(R + "/inputs.sha").read() == tree_hash(R, self.inputs())}
            if st["flow"] in ("slices", "pipeline"):
                d = os.path.join(R, "out/slices" if st["nest"] else "slices")
                r["slices"] = [dump_zip(f"{d}/{i}.zip") for i in range(st["n"])]
                lp = d + "/_slices.txt"
                r["list"] = open(lp).read().split("\n") == [f"{d}/{i}.zip" for i in range(st["n"])] if os.path.exists(lp) else None
                r["extra"] = sorted(set(os.listdir(d)) - {f"{i}.zip" for i in range(st["n"])} - {"_slices.txt"}) if os.path.isdir(d) else []
            if st["flow"] == "explicit":
                r["ex"] = [dump_zip(f"{R}/ex/{i}.zip") for i in range(st["splits"])]
            if st["flow"] in ("join", "pipeline"):
                r["joined"] = dump_zip(R + "/joined.zip") if st["outkind"] == "zip" else dump_dir(R + "/joined")
            return r

    # ---- faults ----
    def variants(self, rng, sc, h, tier):
        out = []
        flow = sc["flow"]
        where = {"slices": [0], "explicit": [0], "join": [0], "pipeline": [0, 2, 2, 4]}[flow]
        first = {st["id"] for ph in sc["phases"] for a in ph["actors"] for st in a if st["op"] in ("split", "explicit", "join", "work") and not st.get("retry")}
        for _ in range(5 if tier == "quick" else 10):
            fs = []
            for _ in range(rng.choice([1, 1, 2])):
                ph = rng.choice(where)
                pool = [o for o in h.ops if o.phase == ph and o.step in first]
                if pool:
                    fs.append(gen.place_fault(rng, pool, ["ERR", "ERR", "QUOTA", "CRASH_BEFORE", "CRASH_AFTER", "CRASH_TORN", "SHORT", "EINTR"]))
            fs = [f for f in fs if f]
            s = gen.with_faults(sc, fs)
            if flow == "pipeline" and len(s["phases"][2]["actors"]) > 1:
                s["phases"][2]["switches"] = gen.random_switches(rng, len(s["phases"][2]["actors"]), 300)
            out.append(s)
        return out

    # ---- oracle ----
    def check(self, sc, h):
        kv = {}
        flow = sc["flow"]
        done = {}
        must_fail = {}
        hole, loose = None, False
        dump = None
        outkind = None
        for pi, ph in enumerate(sc["phases"]):
            hard = [f for f, n in zip(ph.get("faults", ()), h.fault_fired[pi]) if n and f["kind"] not in ("SHORT", "EINTR")]
            for ai, a in enumerate(ph["actors"]):
                for st in a:
                    ev = h.end_of(st["id"])
                    op = st["op"]
                    if op == "mk":
                        hole, loose = st.get("hole"), False
                        if hole and hole[1] == "unlisted":
                            # it may be refused, but if not, no entry may be lost
                            hole, loose = None, True
                        if st["kind"] == "parts":
                            parts = st["parts"]
                            allk = [k for p in parts for k, _ in p]
                            kv = {k: tok(gen.data(v)) for p in parts for k, v in p}
                            must_fail["join"] = len(allk) != len(set(allk)) and "an input key occurs twice"
                            if hole and hole[0] in allk:
                                must_fail["join"] = "an input entry is missing or damaged"
                        else:
                            kv = {k: tok(gen.data(v)) for k, v in st["kv"]}
                            if hole:
                                must_fail["split"] = "an input entry is missing or damaged"
                            self.raw = {k: gen.data(v) for k, v in st["kv"]}
                        continue
                    if op == "dump":
                        dump = ev
                        continue
                    if ev is None:
                        if not h.crashed.get((pi, ai)):
                            return [("lost-step", f"step {st['id']} did not finish")]
                        continue
                    if skipped(ev):
                        continue
                    if op == "split" and st.get("bad"):
                        must_fail["split"] = f"parameters are wrong ({st['bad']})"
                    if op == "explicit":
                        req = [set(x for x in s if x) for s in st["splits"]]
                        if any(s - set(kv) for s in req):
                            must_fail["explicit"] = "a requested key is missing"
                        elif (st["exhaustive"] if st["exhaustive"] is not None else st.get("top")) is not False and set(kv) - set().union(*req):
                            must_fail["explicit"] = "keys are left out"
                        elif hole and any(hole[0] in s for s in req):
                            must_fail["explicit"] = "a requested entry is missing or damaged"
                    if st.get("absent"):
                        must_fail[op] = "an input does not exist"
                    if op == "join":
                        outkind = st["outkind"]
                        if "again" in st and parts[st["again"]]:
                            must_fail["join"] = "a store with entries is listed twice"
                    e = ev["e"]
                    if e is None:
                        if must_fail.get(op):
                            return [("not-refused", f"{op} succeeded although {must_fail[op]}")]
                        done[op] = st
                    elif not hard and not must_fail.get(op) and not loose:
                        # a directory which is not empty any more is not used again
                        if op == "join" and st.get("retry") and outkind != "zip":
                            continue
                        if op in ("work", "join") and "split" not in done and flow == "pipeline":
                            continue
                        return [("raised", f"{op} raised {e['type']}: {e['msg']} with no fault")]
        if dump is None or dump["e"]:
            return [("dump-failed", f"{dump and dump['e']}")]
        d = dump["v"]
        if not d["same"]:
            return [("input-modified", "the input stores were modified")]
        if "split" in done:
            if d["list"] is not True:
                return [("slice-list", f"_slices.txt does not list the slices ({d['list']})")]
            if d["extra"]:
                return [("slice-extra", f"other files in the output directory: {d['extra']}")]
            got, sizes = {}, []
            for i, s in enumerate(d["slices"]):
                if "err" in s:
                    return [("slice-unreadable", f"slice {i}: {s['err']}")]
                if s["keys"] != sorted(s["pairs"]) or s["n"] != len(s["pairs"]) + 1:
                    return [("slice-listing", f"slice {i} lists {show(s['keys'])} but holds {show(sorted(s['pairs']))}")]
                for k, t in s["pairs"].items():
                    if k in got:
                        return [("slice-duplicate", f"{k!r} is in two slices")]
                    got[k] = t
                sizes.append(len(s["pairs"]))
            if got != kv:
                return [("slice-content", f"slices lose {sorted(set(kv) - set(got))!r:.200}, invent {sorted(set(got) - set(kv))!r:.200}, alter {sorted(k for k in got if k in kv and got[k] != kv[k])!r:.200}")]
            if max(sizes) - min(sizes) > 1:
                return [("slice-sizes", f"slice sizes {sizes}")]
        if "explicit" in done:
            for i, (s, x) in enumerate(zip(done["explicit"]["splits"], d["ex"])):
                want = {k: kv[k] for k in s if k}
                if x.get("pairs") != want or x["keys"] != sorted(want):
                    return [("explicit-content", f"split {i} holds {show(x)}, requested {show(sorted(want))}")]
        if "join" in done:
            want = kv if flow == "join" else {k: tok(v + b"!") for k, v in self.raw.items()}
            x = d["joined"]
            if x.get("pairs") != want or x.get("keys") != sorted(want) or x.get("n") != len(want) + 1:
                g = x.get("pairs", {})
                return [("join-content", f"{x.get('err')}: lost {sorted(set(want) - set(g))!r:.200}, invented {sorted(set(g) - set(want))!r:.200}, altered {sorted(k for k in g if k in want and g[k] != want[k])!r:.200}")]
        elif flow == "pipeline" and "split" in done and outkind == "zip":
            return [("no-recovery", "the pipeline did not complete after the faults stopped")]
        return []


PROP = C08()
