"""C09: directories, tar archives and samples converted into stores."""
import copy
import os
import sys

import corrupt
import gen
from core import Prop, harness_code
from props.c08 import dump_dir, dump_zip, make_hole, tree_hash, write_map_store, write_zip_store
from props.common import SKIP, show, skipped, tok

from vistautils.parameters import Parameters
from vistautils.scripts import directory_to_key_value_store, downsample_key_value_store, tar_gz_to_zip

NAMES = ["a", "b.txt", "c.tar.gz", "é.txt", "日本", ".hidden", ".hidden.txt", "A", "B.TXT", "x y", "no_ext", "z.bin", "doc1.sgm", "doc2.sgm", "doc1.xml",
         "k" * 100 + ".txt", "per%cent", "_keys", "...", "-d", "a.b", "README", "_index2"]
ODD = ["__keys", "_index", "__keys.txt", "_index.sgm", "trail ", " lead", "new\nline", "tab\tx", "trail .txt", "\n", "\u2003x", "\ud800.txt"]
DIRS = ["", "", "", "d", "d", "d/e", "é", ".git", "d.txt"]


def strip(name):
    i = name.rfind(".")
    return name[:i] if 0 < i < len(name) - 1 else name


def tar_size_over(m, cutoff):
    return len(corrupt.member_bytes(m)) > cutoff * 1e9


class C09(Prop):
    id = "C09"
    keep_ops = ("mk", "dump")

    def cases(self, rng, tier):
        env = gen.benign_env(rng, 0.3)
        sid = [0]

        def step(op, **k):
            sid[0] += 1
            return dict(id=sid[0], op=op, **k)
        flow = rng.choice(["dir", "dir", "tar", "tar", "sample"])
        if flow == "dir":
            files, used = [], set()
            clash = rng.random() < 0.12
            kf = rng.choice([None, "identity", "strip_one_extension"])
            for n in rng.sample(NAMES, rng.choice([0, 1, 2, 4, 7])):
                rel = os.path.join(rng.choice(DIRS), n)
                k = strip(n) if kf == "strip_one_extension" else n
                if k in used and not clash:
                    continue
                used.add(k)
                files.append([rel, gen.value_desc(rng, True, 0.06)])
                if clash and rng.random() < 0.4:
                    rel2 = os.path.join(rng.choice(["other", "d/other"]), n)
                    if rel2 not in [f[0] for f in files]:
                        files.append([rel2, gen.value_desc(rng, True, 0.02)])
            odd = rng.random() < 0.12       # names a store may refuse
            if odd:
                files.append([os.path.join(rng.choice(DIRS), rng.choice(ODD[:-1])), gen.value_desc(rng, True, 0.02)])
            lots = gen.many(rng)
            if lots and not clash:
                files = [[os.path.join(rng.choice(DIRS), n + ".e"), gen.small_desc(rng)] for n in lots]
            mk = step("mk", flow=flow, files=files, empty=rng.random() < 0.3, link=rng.random() < 0.15)
            run = dict(kf=kf, odd=odd, outkind=rng.choice(["zip", "zip", "directory", "file-map"]), rel=rng.random() < 0.2)
            if rng.random() < 0.04:
                run["bad"] = rng.choice(["kf", "nodir", "file"])
        elif flow == "tar":
            members = []
            if rng.random() < 0.5:
                members.append({"name": "d", "type": "dir"})
            for n in rng.sample(NAMES, rng.choice([0, 1, 2, 4, 6])):
                d = rng.choice(["", "", "d", "d/e", "."])
                r = rng.random()
                m = {"name": (d + "/" if d else "") + n, "v": gen.value_desc(rng, True, rng.choice([0.02, 0.3]))}
                members.append(corrupt.regular_kind(rng, m))
                if r < 0.1:
                    members.append({"name": n + ".lnk", "type": "sym", "to": "a"})
            omit = rng.random() < 0.4
            if members and not omit and rng.random() < 0.15:
                again = rng.choice(members)
                if again.get("type", "file") == "file":
                    members.append({"name": again["name"], "v": gen.value_desc(rng, True, 0.02)})
            lots = gen.many(rng)
            if lots:
                members = [{"name": n, "v": gen.small_desc(rng)} for n in lots]
            comp = rng.choice(["gz", "gz", "gz", "none", "bz2", "xz"])
            name = rng.choice(["in.tar", "in.tgz", "in.tar.gz", "in", "in.bin", "x.tar.tgz", "sub/in.tgz", "in.tgz.tar.gz", "in.tgz.tar", "x.tar.gz.tgz", "in.tgz.1"])
            mk = step("mk", flow=flow, members=members, comp=comp, name=name, format=rng.choice(["pax", "gnu"]),
                      old=rng.random() < 0.3, there=rng.random() < 0.4)
            run = dict(name=name, unpack=rng.random() < 0.4, omit=omit, abs=rng.random() < 0.3,
                       cutoff=rng.choice([None, 0, 1e-7, 1e-6, 4e-6, 1.0]))
        else:
            kind = rng.choice(["zip", "zip", "file-map"])
            nk = rng.choice([0, 1, 2, 5, 9, 20])
            keys = gen.zip_keys(rng, nk) if kind == "zip" else gen.file_keys(rng, nk)
            keys = gen.many(rng) or keys
            nk = len(keys)
            mk = step("mk", flow=flow, kind=kind, kv=[[k, gen.value_desc(rng, True, 0.02) if nk < 100 else gen.small_desc(rng)] for k in keys], method=rng.choice([0, 8]))
            run = dict(kind=kind, n=rng.choice([1, 2, 3, max(1, nk - 1), max(1, nk), nk + 3]), seed=rng.choice([None, 0, 1, 99]), nest=rng.random() < 0.3)
            if keys and rng.random() < 0.2:
                mk["hole"] = [rng.choice(keys), rng.choice(["gone", "gone", "damaged", "unlisted"])]
            if rng.random() < 0.04:
                run["n"] = rng.choice([0, -1])
        phases = [{"actors": [[mk, step("run", flow=flow, **run)]]}, {"actors": [[step("run", flow=flow, retry=True, **run)]]}]
        if flow == "sample":
            phases.append({"actors": [[step("run", flow=flow, again=True, **run)]]})
        phases.append({"actors": [[step("dump", flow=flow, run=run, name=mk.get("name"))]]})
        return {"env": env, "flow": flow, "phases": phases}

    def op_mk(self, ctx, st):
        with harness_code(ctx):
            R = ctx.root
            if st["flow"] == "dir":
                os.makedirs(R + "/tree")
                for rel, v in st["files"]:
                    p = os.path.join(R, "tree", rel)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, "wb") as f:
                        f.write(gen.data(v))
                if st["empty"]:
                    os.makedirs(R + "/tree/nothing/here")
                if st["link"]:
                    with open(R + "/elsewhere", "wb") as f:
                        f.write(b"linked")
                    os.symlink("../elsewhere", R + "/tree/linked.file")
            elif st["flow"] == "tar":
                p = os.path.join(R, st["name"])
                corrupt.make_archive("tgz", p, st)
                if st["old"]:
                    write_zip_store(os.path.join(R, self.out_name(st["name"])), [("stale", b"old")])
                if st["there"]:
                    with open(R + "/a", "wb") as f:
                        f.write(b"mine")
                    os.makedirs(R + "/d/e")
                    with open(R + "/d/b.txt", "wb") as f:
                        f.write(b"mine too")
                with open(R + "/before", "w") as f:
                    f.write("\n".join(sorted(set(self.listing(R)) - {self.out_name(st["name"])})))
            else:
                pairs = [(k, gen.data(v)) for k, v in st["kv"]]
                if st["kind"] == "zip":
                    write_zip_store(R + "/in.zip", pairs, st["method"])
                else:
                    write_map_store(R, R + "/in.tsv", pairs)
                if st.get("hole"):
                    k, how = st["hole"]
                    if st["kind"] == "zip":
                        make_hole(R + "/in.zip", k, how)
                    elif how != "unlisted":
                        os.unlink(f"{R}/mapped/{[x for x, _ in st['kv']].index(k)}.bin")
            with open(R + "/inputs.sha", "w") as f:
                f.write(tree_hash(R, self.inputs(st)))

    def inputs(self, st):
        return {"dir": ["tree", "elsewhere"], "tar": ["a", "d", st.get("name", "")], "sample": ["in.zip", "in.tsv", "mapped"]}[st["flow"]]

    @staticmethod
    def listing(root):
        return [os.path.join(d, f)[len(root) + 1:] for d, ds, fs in os.walk(root) for f in fs + ds]

    @staticmethod
    def out_name(name):
        for e in (".tar", ".tgz", ".tar.gz"):
            if name.endswith(e):
                return name[:-len(e)] + ".zip"
        return name + ".zip"

    def op_run(self, ctx, st):
        R = ctx.root
        tag = "again" if st.get("again") else "run"
        with harness_code(ctx):
            mark = os.path.join(R, ".done")
            done = os.path.exists(mark)
            if st["flow"] == "dir" and st["outkind"] != "zip":
                os.makedirs(R + "/out", exist_ok=True)
        if st.get("retry") and done:
            return SKIP
        if st["flow"] == "dir":
            p = {"input_directory": "tree" if st["rel"] else R + "/tree", "output": {"type": st["outkind"], "path": R + ("/out.zip" if st["outkind"] == "zip" else "/out")}}
            if st["kf"]:
                p["key_function"] = st["kf"]
            b = st.get("bad")
            if b == "kf":
                p["key_function"] = "reverse"
            if b == "nodir":
                p["input_directory"] = R + "/notree"
            if b == "file":
                p["input_directory"] = R + "/inputs.sha"
            directory_to_key_value_store.main(Parameters.from_mapping(p))
        elif st["flow"] == "tar":
            argv = [os.path.join(R, st["name"]) if st["abs"] else st["name"]]
            if st["unpack"]:
                argv.append("--dont-stream")
            if st["omit"]:
                argv.append("--omit-large-files")
            if st["cutoff"] is not None:
                argv += ["--large-file-cutoff", str(st["cutoff"])]
            old = sys.argv
            sys.argv = ["tar_gz_to_zip"] + argv
            try:
                tar_gz_to_zip.main()
            finally:
                sys.argv = old
        else:
            p = {"input": {"type": st["kind"], "path": R + ("/in.zip" if st["kind"] == "zip" else "/in.tsv")}, "num_to_sample": st["n"],
                 "output_zip_path": R + ("/new/dir" if st["nest"] else "") + f"/{'again' if st.get('again') else 'sample'}.zip"}
            if st["seed"] is not None:
                p["random_seed"] = st["seed"]
            downsample_key_value_store.main(Parameters.from_mapping(p))
        with harness_code(ctx):
            open(mark, "w").close()
        return {"done": tag}

    def op_dump(self, ctx, st):
        with harness_code(ctx):
            R, run = ctx.root, st["run"]
            r = {"same": open(R + "/inputs.sha").read() == tree_hash(R, self.inputs(st))}
            if st["flow"] == "dir":
                r["out"] = dump_zip(R + "/out.zip") if run["outkind"] == "zip" else dump_dir(R + "/out")
            elif st["flow"] == "tar":
                o = self.out_name(st["name"])
                r["out"] = dump_zip(os.path.join(R, o))
                now = set(self.listing(R)) - {"inputs.sha", ".done", o}
                before = set(open(R + "/before").read().split("\n")) - {""}
                r["left"] = sorted(now - before - {"before"})
                r["lost"] = sorted(before - now)
            else:
                d = R + ("/new/dir" if run["nest"] else "")
                r["out"] = dump_zip(d + "/sample.zip")
                r["again"] = dump_zip(d + "/again.zip")
            return r

    def variants(self, rng, sc, h, tier):
        out = []
        runs = {st["id"] for ph in sc["phases"] for a in ph["actors"] for st in a if st["op"] == "run" and not st.get("retry") and not st.get("again")}
        pool = [o for o in h.ops if o.step in runs]
        rd = [o for o in pool if o.cls in ("READ", "OPEN_R", "OPENDIR", "READDIR", "STAT")]
        mk = sc["phases"][0]["actors"][0][0]
        for _ in range(5 if tier == "quick" else 10):
            fs = []
            r = rng.random()
            if sc["flow"] == "tar" and r < 0.3 and mk["comp"] != "none":
                s = copy.deepcopy(sc)
                # the run moves to a phase of its own so that damage can come before it
                run = s["phases"][0]["actors"][0].pop()
                c = corrupt.random_corruption(rng, mk["name"])
                if rng.random() < 0.3:
                    c = {"do": "truncate", "path": mk["name"], "keep": -rng.randrange(1, 40)}
                if c["do"] not in ("flip", "truncate"):
                    c = {"do": "flip", "path": mk["name"], "at": [[rng.randrange(20, 1 << 30), rng.randrange(8)]]}
                s["phases"].insert(1, {"actors": [[run]], "pre": [c]})
                out.append(s)
                continue
            for _ in range(rng.choice([1, 1, 2])):
                if pool:
                    fs.append(gen.place_fault(rng, rd if rd and r > 0.75 else pool,
                                              ["ERR"] if r > 0.75 else ["ERR", "ERR", "QUOTA", "CRASH_BEFORE", "CRASH_AFTER", "CRASH_TORN", "SHORT", "EINTR"]))
            fs = [f for f in fs if f]
            if fs:
                out.append(gen.with_faults(sc, fs))
        return out

    def check(self, sc, h):
        flow = sc["flow"]
        mk = dump = done = None
        damaged = False
        crashed = False
        fail = None
        pr = h.extra.setdefault("probes", {})
        for pi, ph in enumerate(sc["phases"]):
            hard = [f for f, n in zip(ph.get("faults", ()), h.fault_fired[pi]) if n and f["kind"] not in ("SHORT", "EINTR")]
            damaged = damaged or any(c["do"] in ("flip", "truncate") for c in ph.get("pre", ()))
            for st in ph["actors"][0]:
                ev = h.end_of(st["id"])
                if st["op"] == "mk":
                    mk = st
                    want, fail = self.expect(mk, sc)
                    continue
                if st["op"] == "dump":
                    dump = ev
                    continue
                if ev is None:
                    if not h.crashed.get((pi, 0)):
                        return [("lost-step", f"step {st['id']} did not finish")]
                    crashed = True
                    continue
                if skipped(ev):
                    continue
                e = ev["e"]
                pr[f"{flow} {'ok' if e is None else 'failed'}"] = pr.get(f"{flow} {'ok' if e is None else 'failed'}", 0) + 1
                if e is None:
                    if fail:
                        return [("not-refused", f"conversion succeeded although {fail}")]
                    done = st
                elif not hard and not fail and not damaged and not st.get("odd") and not mk.get("hole"):
                    if flow == "dir" and st["outkind"] != "zip" and st.get("retry"):
                        continue
                    return [("raised", f"{flow} raised {e['type']}: {e['msg']} with no fault")]
        if dump is None or dump["e"]:
            return [("dump-failed", f"{dump and dump['e']}")]
        d = dump["v"]
        if not d["same"]:
            if not damaged:
                return [("input-modified", "an input or an unrelated file was modified")]
        if flow == "tar":
            if d["lost"]:
                return [("removed", f"files which were there before are gone: {show(d['lost'])}")]
            if done and d["left"] and not crashed and not h.hard_fired():
                return [("left-behind", f"other files were left behind: {show(d['left'])}")]
        if done is None:
            return []
        x = d["out"]
        if "err" in x:
            return [("unreadable", f"the output cannot be read: {x['err']}")]
        if flow == "sample":
            k = min(done["n"], len(want))
            for o in (x, d["again"]):
                if "err" in o:
                    return [("unreadable", f"the second output cannot be read: {o['err']}")]
                bad = [q for q, t in o["pairs"].items() if want.get(q) != t]
                if bad:
                    return [("content", f"altered or invented entries: {show(bad)}")]
                if len(o["pairs"]) != k or o["n"] != k + 1 or o["keys"] != sorted(o["pairs"]):
                    return [("count", f"{len(o['pairs'])} entries ({o['n'] - 1} members, {len(o['keys'])} listed), expected {k}")]
            if x != d["again"]:
                return [("not-repeatable", "the same seed selected other entries")]
            return []
        g = x["pairs"]
        if g != want:
            return [("content", f"lost {sorted(set(want) - set(g))!r:.200}, invented {sorted(set(g) - set(want))!r:.200}, altered {sorted(k for k in g if k in want and g[k] != want[k])!r:.200}")]
        if flow == "dir" and (x["keys"] != sorted(want) or x["n"] != len(want) + 1):
            return [("listing", f"lists {show(x['keys'])} with {x['n'] - 1} members, expected {show(sorted(want))}")]
        return []

    def expect(self, mk, sc):
        """(token of each expected entry, why it must fail)"""
        run = next(st for ph in sc["phases"] for st in ph["actors"][0] if st["op"] == "run")
        fail = None
        if mk["flow"] == "dir":
            want = {}
            files = mk["files"] + ([["linked.file", ["lit", 0, "linked"]]] if mk["link"] else [])
            for rel, v in files:
                k = os.path.basename(rel)
                k = strip(k) if run["kf"] == "strip_one_extension" else k
                if k in want and run["outkind"] == "zip" or k in want:
                    fail = "two files share a key"
                want[k] = tok(gen.data(v))
            if run.get("bad"):
                fail = f"parameters are wrong ({run['bad']})"
            return want, fail
        if mk["flow"] == "tar":
            cut = 2 if run["cutoff"] is None else run["cutoff"]
            return {m["name"]: tok(corrupt.member_bytes(m)) for m in mk["members"] if m.get("type", "file") == "file"
                    and not (run["omit"] and tar_size_over(m, cut))}, None
        return {k: tok(gen.data(v)) for k, v in mk["kv"]}, "the requested number is not positive" if run["n"] < 1 else None


PROP = C09()
