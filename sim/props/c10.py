"""C10: the same inputs give the same results in every environment."""
import base64
import copy
import json
import os
import pickle
import subprocess
import sys
import zipfile
from pathlib import Path

import corrupt
import gen
from core import Prop, harness_code
from props.c08 import write_map_store, write_zip_store
from props.common import show, tok

from vistautils import io_utils
from vistautils.checkpoints import Checkpoints
from vistautils.io_utils import ByteSink, ByteSource, CharSink, CharSource
from vistautils.key_value import KeyValueLinearSource, KeyValueSink, KeyValueSource, byte_key_value_sink_from_params, byte_key_value_source_from_params
from vistautils.parameters import Parameters, YAMLParametersLoader, YAMLParametersWriter
from vistautils.scripts import (directory_to_key_value_store, downsample_key_value_store, join_key_value_stores,
                                split_key_value_store, tar_gz_to_zip)

# other environments of the interpreter: (hash seed, locale settings, time zone)
OTHERS = [("1", {}, "UTC"), ("4242", {}, "Asia/Kolkata"),
          ("77", {"LC_ALL": "C", "LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, "America/Los_Angeles")]
KEYS = ["k0", "k1", "k2", "a", "ab", "A", "Key", "key", "doc1", "doc2", "doc3", "x.txt", "x.txt.bak", "d/x", "d/y", "d2/f/g", "index", "1", "10", "2", "z", "Z", "~", "#h", "-x", "q'"]
ZKEYS = KEYS + ["\u00e9", "e\u0301", "\u65e5\u672c", "\U0001f600", "a b", "\u00df", "..", "/abs"]

YAMLS = {
    "inc/one.params": "one:\n  b: 1\n  a: \"x\"\nshared: from one\nlist: [3, 1, 2]\n",
    "inc/two.params": "_includes:\n  - one.params\ntwo:\n  z: \"%shared%\"\n  c: \"\u00e9 %shared%\"\nshared: from two\n",
    "main.params": "_includes:\n  - inc/one.params\n  - inc/two.params\nzeta: \"1\"\nalpha: \"%shared%-%zeta%\"\nbeta: \"%alpha% \u65e5\"\none:\n  n: [a, {q: 2, p: 1}]\n",
    "self.params": "c: \"%b%\"\nb: \"%a%\"\na: [1, two, {z: 1, y: 2}]\nd: \"%c%\"\nz1: \"%z2%\"\nz2: \"%z3%\"\nz3: end\n",
    "bad.params": "a: \"%b%\"\nb: \"%a%\"\n",
}


def flat(p):
    """ordered, comparable picture of parameters"""
    def f(x):
        if isinstance(x, Parameters):
            return {"P": f(dict(x.as_mapping()))}
        if isinstance(x, dict) or hasattr(x, "items"):
            return [[k, f(v)] for k, v in x.items()]
        if isinstance(x, (list, tuple)):
            return [f(v) for v in x]
        return [type(x).__name__, str(x)]
    return f(p)


class C10(Prop):
    id = "C10"
    keep_ops = ("mk", "dump")

    def setup(self, world):
        self.servers = {}
        self.cache = {}

    def server(self, i):
        if i not in self.servers:
            hs, loc, tz = OTHERS[i]
            env = {k: v for k, v in os.environ.items() if k not in ("LANG", "LC_ALL", "LC_CTYPE")}
            env.update({"PYTHONHASHSEED": hs, "TZ": tz}, **(loc or {"LANG": "C.UTF-8"}))
            here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
            self.servers[i] = subprocess.Popen([sys.executable, "-B", os.path.join(here, "worker.py"), "--server"], env=env,
                                               stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd="/")
        return self.servers[i]

    def teardown(self):
        for p in self.servers.values():
            p.stdin.close()
            p.stdout.close()
        for p in self.servers.values():
            p.wait()

    def reference(self, sc):
        s = copy.deepcopy(sc)
        s["env"] = {"bseed": 1, "rseed": 5}
        for ph in s["phases"]:
            ph.pop("faults", None)
            ph.pop("clock", None)
            ph["actors"] = [[st for st in a if not st.get("extra")] for a in ph["actors"]]
        key = json.dumps([s["phases"], sc["other"]], sort_keys=True)
        if self.cache.get("k") != key:
            p = self.server(sc["other"])
            p.stdin.write(json.dumps(s).encode() + b"\n")
            p.stdin.flush()
            line = p.stdout.readline()
            if not line:
                raise RuntimeError("reference environment ended")
            r = pickle.loads(base64.b64decode(line))
            if "error" in r:
                raise RuntimeError("reference environment: " + r["error"])
            self.cache = {"k": key, "r": r}
        return self.cache["r"]

    def cases(self, rng, tier):
        sid = [0]

        def step(op, **k):
            sid[0] += 1
            return dict(id=sid[0], op=op, **k)
        nk = rng.choice([0, 1, 3, 5, 9, 14])
        keys = rng.sample(ZKEYS, nk)
        mk = step("mk", kv=[[k, gen.value_desc(rng, True, 0.03)] for k in keys],
                  mkv=[[k, gen.value_desc(rng, True, 0.01)] for k in rng.sample(KEYS, rng.choice([0, 2, 5, 9]))],
                  tree=[[rng.choice(["", "d/", "d/e/", "c/", "b/", "f/g/"]) + k.replace("/", "_"), gen.value_desc(rng, True, 0.01)] for k in rng.sample(KEYS, rng.choice([0, 2, 5, 9]))],
                  lines=[rng.choice(["b", "a", "", "#c", "\u00e9", "x y", "zz", "b", "k0", "\u65e5"]) for _ in range(rng.choice([0, 3, 9]))], method=rng.choice([0, 8]))
        steps = []
        names = sorted(n[3:] for n in dir(self) if n.startswith("do_"))
        for _ in range(rng.choice([1, 1, 2, 3])):
            w = rng.choice(names)
            steps.append(step("do", what=w, o=f"o{sid[0]}", src=rng.choice(["zip", "map"]), n=rng.choice([1, 2, 3, 5]), seed=rng.choice([None, 1, 31]),
                              out=rng.choice(["zip", "zip", "directory", "file-map"]), alt=rng.randrange(4), arg=rng.randrange(1 << 30)))
        phases = [{"actors": [[mk]]}, {"actors": [steps]}, {"actors": [[step("dump")]]}]
        return {"env": {"bseed": 1, "rseed": 5}, "phases": phases, "other": rng.randrange(len(OTHERS))}

    def variants(self, rng, sc, h, tier):
        out = []
        for _ in range(3 if tier == "quick" else 8):
            s = copy.deepcopy(sc)
            s["env"] = gen.benign_env(rng, 0.6)
            s["env"]["dirseed"] = rng.randrange(1, 1 << 40)
            steps = s["phases"][1]["actors"][0]
            n = 100
            for _ in range(rng.choice([0, 0, 1, 2])):
                n += 1
                w = rng.choice(["rand", "seed", "cwd", "env", "same", "same", "hash"])
                x = {"id": n, "op": "prelude", "what": w, "arg": rng.randrange(1 << 30), "extra": True}
                if w == "same":
                    x = dict(rng.choice([st for st in steps if st["op"] == "do"]), id=n, o=f"pre{n}", extra=True)
                steps.insert(rng.randrange(len(steps)), x)
            fs = []
            pool = [o for o in h.ops if o.phase == 1]
            for _ in range(rng.choice([0, 1, 2])):
                if pool:
                    f = gen.place_fault(rng, pool, ["SHORT", "EINTR", "CLOCK"])
                    if f:
                        fs.append(f)
            s = gen.with_faults(s, fs)
            if rng.random() < 0.3:
                s["phases"][1]["clock"] = rng.choice([-86400 * 300, -3600, 3600, 86400 * 2000])
            out.append(s)
        return out

    # ---- operations ----
    def op_mk(self, ctx, st):
        with harness_code(ctx):
            R = ctx.root
            write_zip_store(R + "/in/s.zip", [(k, gen.data(v)) for k, v in st["kv"]], st["method"])
            write_map_store(R + "/in", R + "/in/s.tsv", [(k, gen.data(v)) for k, v in st["mkv"]])
            write_zip_store(R + "/in/part1.zip", [("p-" + k, gen.data(v)) for k, v in st["kv"]], 8)
            os.makedirs(R + "/in/tree")
            used = set()
            for rel, v in st["tree"]:
                p = os.path.join(R, "in/tree", rel)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(gen.data(v))
            corrupt.make_archive("tgz", R + "/in/a.tgz", {"members": [{"name": rel, "v": v} for rel, v in st["tree"]], "comp": "gz"})
            with open(R + "/in/u.tsv", "w", encoding="utf-8") as f:
                f.writelines(f"{k}\t{R}/in/{i}\n" for i, k in enumerate(["\u00e9", "b"] + st["lines"][::2]) if k)
            with open(R + "/in/lines.txt", "w", encoding="utf-8") as f:
                f.write("\n".join(st["lines"]))
            for n, t in YAMLS.items():
                p = os.path.join(R, "in", n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w", encoding="utf-8") as f:
                    f.write(t)

    def op_prelude(self, ctx, st):
        import random
        w = st["what"]
        if w == "rand":
            for _ in range(st["arg"] % 7 + 1):
                random.random()
        elif w == "seed":
            random.seed(st["arg"])
        elif w == "cwd":
            d = ["in", "in/tree", "in/inc"][st["arg"] % 3]
            os.chdir(os.path.join(ctx.root, d))
        elif w == "env":
            os.environ["LARGE"] = "x"
            os.environ["ZZ_UNUSED"] = str(st["arg"])
        elif w == "hash":
            ctx.v["junk"] = {str(i): object() for i in range(st["arg"] % 1000)}
        return None

    def op_do(self, ctx, st):
        o = os.path.join(ctx.root, st["o"])
        with harness_code(ctx):
            os.makedirs(o, exist_ok=True)
        return getattr(self, "do_" + st["what"])(ctx, st, o)

    def src_params(self, ctx, st):
        return {"type": "zip", "path": ctx.root + "/in/s.zip"} if st["src"] == "zip" else {"type": "file-map", "path": ctx.root + "/in/s.tsv"}

    def out_params(self, st, o):
        if st["out"] == "zip":
            return {"type": "zip", "path": o + "/out.zip"}
        return {"type": st["out"], "path": o}

    def pairs(self, ctx, st):
        mk = ctx.sc["phases"][0]["actors"][0][0]
        return [(k, gen.data(v)) for k, v in (mk["kv"] if st["out"] == "zip" else mk["mkv"])]

    def do_sink(self, ctx, st, o):
        p = Parameters.from_mapping({"output": self.out_params(st, o)})
        ps = self.pairs(ctx, st)
        if st["out"] == "zip" and st["alt"] >= 2:
            for part in (ps[:len(ps) // 2], ps[len(ps) // 2:]):
                with KeyValueSink.zip_bytes_sink(Path(o) / "out.zip", overwrite=part is ps) as s:
                    for k, v in part:
                        s.put(k, v)
        else:
            with byte_key_value_sink_from_params(p) as s:
                for k, v in ps:
                    s.put(k, v)
        if st["out"] != "zip":
            with byte_key_value_source_from_params(Parameters.from_mapping({"input": {"type": "file-map", "path": o + "/_index"}})) as s:
                return [list(s.keys()), [[k, tok(v)] for k, v in s.items()]]
        with KeyValueSource.zip_bytes_source(Path(o) / "out.zip") as s:
            return [list(s.keys()), [[k, tok(v)] for k, v in s.items()], [tok(s.get(k)) for k, _ in ps], repr(s).replace(ctx.root, "<R>")]

    def do_relative(self, ctx, st, o):
        """a store named by a relative path, whatever the working directory of its readers"""
        with harness_code(ctx):
            cwd = os.getcwd()
            os.chdir(o)
            os.makedirs("store")
        try:
            kind = "zip" if st["out"] == "zip" else "directory"
            rel = "store/x.zip" if kind == "zip" else "store"
            with byte_key_value_sink_from_params(Parameters.from_mapping({"output": {"type": kind, "path": rel}})) as s:
                for k, v in self.pairs(ctx, st):
                    s.put(k, v)
            ps = self.pairs(ctx, st)
            docs = {}
            for i, (k, v) in enumerate(ps):
                ByteSink.to_file(Path(f"store/doc{i}")).write(v)
                docs[f"doc{i}"] = Path(f"store/doc{i}")
            io_utils.write_doc_id_to_file_map(docs, CharSink.to_file("m.tsv"))
            with harness_code(ctx):
                if ctx.sc["env"].get("dirseed"):
                    os.chdir([ctx.root, "/", o + "/store"][st["arg"] % 3])
            full = o + "/" + rel
            ns = {"type": "zip", "path": full} if kind == "zip" else {"type": "file-map", "path": full + "/_index"}
            with byte_key_value_source_from_params(Parameters.from_mapping({"input": ns})) as s:
                out = [list(s.keys()), [[k, tok(v)] for k, v in s.items()]]
            with KeyValueSource.binary_from_doc_id_to_file_map(Path(o + "/m.tsv")) as s:
                return out + [[tok(s[k]) for k in docs]]
        finally:
            with harness_code(ctx):
                os.chdir(cwd)

    def do_textsink(self, ctx, st, o):
        with KeyValueSink.zip_character_sink(Path(o) / "t.zip") as s:
            for k, v in self.pairs(ctx, st):
                s.put(k, v.decode("latin-1"))
        with KeyValueSource.zip_character_source(Path(o) / "t.zip") as s:
            return [list(s.keys()), [[k, tok(v)] for k, v in s.items()]]

    def do_split(self, ctx, st, o):
        p = {"input": self.src_params(ctx, st), "num_slices": st["n"], "output_dir": o + "/slices"}
        if st["seed"]:
            p["random_seed"] = st["seed"]
        split_key_value_store.main(Parameters.from_mapping(p))

    def do_explicit(self, ctx, st, o):
        mk = ctx.sc["phases"][0]["actors"][0][0]
        keys = [k for k, _ in (mk["kv"] if st["src"] == "zip" else mk["mkv"])]
        e = {}
        with harness_code(ctx):
            for i in range(st["n"]):
                with open(f"{o}/keys{i}.txt", "w", encoding="utf-8") as f:
                    f.write("\n".join(reversed(keys[i::st["n"]])))
                e[f"s{(i * 7) % 5}-{i}"] = {"keys_file": f"{o}/keys{i}.txt", "output_file": f"{o}/ex{i}.zip"}
        if st["alt"] == 3 and keys:
            e.popitem()
        split_key_value_store.main(Parameters.from_mapping({"input": self.src_params(ctx, st), "explicit_split": e}))

    def do_join(self, ctx, st, o):
        with harness_code(ctx):
            with open(o + "/list.txt", "w") as f:
                f.write(f"{ctx.root}/in/part1.zip\n{ctx.root}/in/s.zip\n" if st["alt"] % 2 else f"{ctx.root}/in/s.zip\n")
        out = {"type": "zip", "path": o + "/joined.zip"}
        join_key_value_stores.main(Parameters.from_mapping({"input_store_list_file": o + "/list.txt", "output": out}))

    def do_sample(self, ctx, st, o):
        p = {"input": self.src_params(ctx, st), "num_to_sample": st["n"], "output_zip_path": o + "/ds.zip"}
        if st["seed"]:
            p["random_seed"] = st["seed"]
        downsample_key_value_store.main(Parameters.from_mapping(p))

    def do_dir(self, ctx, st, o):
        p = {"input_directory": ctx.root + "/in/tree", "output": self.out_params(st, o)}
        if st["alt"] == 1:
            p["key_function"] = "strip_one_extension"
        directory_to_key_value_store.main(Parameters.from_mapping(p))

    def do_tar(self, ctx, st, o):
        with harness_code(ctx):
            with open(ctx.root + "/in/a.tgz", "rb") as f, open(o + "/a.tgz", "wb") as g:
                g.write(f.read())
            old, cwd = sys.argv, os.getcwd()
            os.chdir(o)
        sys.argv = ["prog", o + "/a.tgz"] + (["--dont-stream"] if st["alt"] % 2 else [])
        try:
            tar_gz_to_zip.main()
        finally:
            sys.argv = old
            with harness_code(ctx):
                os.chdir(cwd)

    def do_tarsource(self, ctx, st, o):
        f = KeyValueLinearSource.byte_linear_source_from_tar_gz
        with f(Path(ctx.root + "/in/a.tgz")) as s:
            return [[k, tok(v)] for k, v in s.items()]

    def do_source(self, ctx, st, o):
        with byte_key_value_source_from_params(Parameters.from_mapping({"input": self.src_params(ctx, st)})) as s:
            return [list(s.keys()), [[k, tok(v)] for k, v in s.items()]]

    def do_load(self, ctx, st, o):
        n = sorted(YAMLS)[st["arg"] % len(YAMLS)]
        p = YAMLParametersLoader(interpolate_environmental_variables=st["alt"] != 3).load(Path(ctx.root, "in", n))
        return [flat(p), str(p).replace(ctx.root, "<R>"), [x.namespace_prefix for x in p.sub_namespaces()]]

    def do_loadctx(self, ctx, st, o):
        c = Parameters.from_mapping({"shared": "ctx", "extra": {"b": 1, "a": "%shared%"}, "zeta": 9})
        p = YAMLParametersLoader().load(Path(ctx.root, "in/main.params"), c)
        return flat(p)

    def do_write(self, ctx, st, o):
        m = {"z": 1, "a": {"y": [3, "x", {"b": 1, "a": 2}], "b": Path("/q/r")}, "\u00e9": "\u65e5\n", "m": 1.5, "t": True}
        p = Parameters.from_mapping(m)
        if st["alt"] % 2:
            p = p.unify({"a": {"c": 5, "aa": 6}, "new": {"k2": 1, "k1": 2}})
        YAMLParametersWriter().write(p, Path(o, "w.params") if st["alt"] < 2 else CharSink.to_file(Path(o, "w.params")))
        return flat(YAMLParametersLoader().load(Path(o, "w.params")))

    def do_lists(self, ctx, st, o):
        f = ctx.root + "/in/lines.txt"
        p = Parameters.from_mapping({"f": f, "m": ctx.root + "/in/s.tsv", "u": ctx.root + "/in/u.tsv"})
        return [list(io_utils.file_lines_to_set(Path(f))), [str(x).replace(ctx.root, "<R>") for x in p.path_list_from_file("f", resolve_relative_to=Path("/base"))],
                [[k, str(v).replace(ctx.root, "<R>")] for k, v in p.path_map_from_file("m").items()],
                [[k, str(v).replace(ctx.root, "<R>")] for k, v in p.path_map_from_file("u").items()], [[k, str(v).replace(ctx.root, "<R>")] for k, v in io_utils.read_doc_id_to_file_map(CharSource.from_file(Path(ctx.root, "in/u.tsv" if st["alt"] % 2 else "in/s.tsv"))).items()]]

    def do_checkpoint(self, ctx, st, o):
        c = Checkpoints.from_directory(Path(o, "cp"))
        out = [n in c for n in ("a", "b")]
        for n in ["a", "b", "x 1", "task-1", "Z"][st["alt"]:]:
            c.set(n)
        if st["arg"] % 3 == 0:
            c.reset_all()
            c.set("a")
        return out + [n in Checkpoints.from_directory(o + "/cp") for n in ("a", "b", "Z", "z", "task-1")]

    def do_docmap(self, ctx, st, o):
        io_utils.write_doc_id_to_file_map({k: Path("/x") / k for k in ["b", "a", "c", "\u00e9"]}, CharSink.to_file(o + "/m.tsv"))

    def do_text(self, ctx, st, o):
        big = gen.text([gen.TEXT_KINDS[st["arg"] % len(gen.TEXT_KINDS)], 20000 if st["alt"] else 50, st["arg"]])
        CharSink.to_file(o + "/t.txt").write(big)
        s = CharSource.from_file(Path(o) / "t.txt")
        b = CharSource.from_byte_source(ByteSource.from_file(Path(o) / "t.txt"))
        return [tok(s.read_all()), tok(b.read_all()), [tok(x) for x in s.readlines()][:50], s.is_empty()]

    def op_dump(self, ctx, st):
        with harness_code(ctx):
            R = ctx.root
            extra = {s["o"] for ph in ctx.sc["phases"] for a in ph["actors"] for s in a if s.get("extra") and "o" in s}
            out = {}
            for d, ds, fs in os.walk(R):
                if d == R:
                    ds[:] = [x for x in ds if x not in extra]
                for x in ds:
                    out[os.path.join(d, x)[len(R):] + "/"] = "dir"
                for f in fs:
                    p = os.path.join(d, f)
                    rel = p[len(R):]
                    if f.endswith(".zip"):
                        with zipfile.ZipFile(p) as z:
                            out[rel] = [[n.filename, n.compress_type, tok(z.read(n))] for n in z.infolist()]
                    else:
                        b = open(p, "rb").read()
                        out[rel] = tok(b.replace(R.encode(), b"<R>"))
            return out

    # ---- oracle ----
    def check(self, sc, h):
        try:
            ref = self.reference(sc)
        except BrokenPipeError:
            raise RuntimeError("reference environment ended")
        evs = {e["s"]: e for e in ref["events"] if e["k"] == "end"}
        pr = h.extra.setdefault("probes", {})
        for ph in sc["phases"]:
            for st in ph["actors"][0]:
                if st.get("extra"):
                    continue
                a, b = h.end_of(st["id"]), evs.get(st["id"])
                if a is None or b is None:
                    return [("lost-step", f"step {st['id']} did not finish")]
                name = st.get("what", st["op"])
                if st["op"] == "do":
                    k = f"{name} {'ok' if a['e'] is None else 'failed'}"
                    pr[k] = pr.get(k, 0) + 1
                ea, eb = a["e"] and a["e"]["type"], b["e"] and b["e"]["type"]
                if ea != eb:
                    return [("outcome-differs", f"{name}: {ea} ({a['e'] and a['e']['msg']}) here, {eb} ({b['e'] and b['e']['msg']}) in the reference environment {OTHERS[sc['other']]}")]
                if a["v"] != b["v"]:
                    return [("result-differs", f"{name}: {self.diff(a['v'], b['v'])} (here / reference environment {OTHERS[sc['other']]})")]
        return []

    @staticmethod
    def diff(a, b, path=""):
        if type(a) is not type(b):
            return f"{path}: {show(a)} / {show(b)}"
        if isinstance(a, dict):
            for k in sorted(set(a) | set(b)):
                if a.get(k) != b.get(k):
                    return C10.diff(a.get(k), b.get(k), f"{path}{k}")
        if isinstance(a, list) and len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)):
                if x != y:
                    return C10.diff(x, y, f"{path}[{i}]")
        return f"{path}: {show(a)} / {show(b)}"


PROP = C10()
