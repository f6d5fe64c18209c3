"""C06: nothing stays open after an operation, however it ends."""
import gc
import gzip
import logging
import os
import pickle
import sys
import warnings
import zipfile
from pathlib import Path
from tarfile import TarError
from zipfile import BadZipFile, ZipFile

import corrupt
import gen
from core import Prop, harness_code
from props.common import SKIP, skipped
from props.zipcommon import Boom as _Boom

from vistautils import io_utils
from immutablecollections import immutabledict

from vistautils.checkpoints import Checkpoints
from vistautils.io_utils import ByteSink, ByteSource, CharSink, CharSource
from vistautils.key_value import (KeyValueLinearSource, KeyValueSink, KeyValueSource, byte_key_value_linear_source_from_params,
                                  byte_key_value_sink_from_params, byte_key_value_source_from_params, char_key_value_sink_from_params,
                                  char_key_value_source_from_params)
from vistautils.parameters import Parameters, YAMLParametersLoader, YAMLParametersWriter
from vistautils.parameters_only_entrypoint import _real_parameters_only_entry_point
from vistautils.scripts import (directory_to_key_value_store, downsample_key_value_store, join_key_value_stores,
                                split_key_value_store, tar_gz_to_zip, text_at_offsets)

LEAKS = []
RAISED = []    # failures of callbacks and callers during the current operation


KINDS = {"plain": (), "key": (KeyError,), "os": (OSError,), "value": (ValueError,), "nofile": (FileNotFoundError,), "attr": (AttributeError,), "run": (RuntimeError,), "type": (TypeError,),
         "todo": (NotImplementedError,), "index": (IndexError,), "eof": (EOFError,), "unicode": (UnicodeError,), "stopiter": (StopIteration,), "badzip": (BadZipFile,), "tar": (TarError,), "timeout": (TimeoutError,), "perm": (PermissionError,)}
BOOMS = {k: type("Boom", (_Boom,) + b, {}) for k, b in KINDS.items()}
BOOMS["stop"] = type("Boom", (KeyboardInterrupt,), {})
BOOMS["exit"] = type("Boom", (SystemExit,), {})
BOOMS["genexit"] = type("Boom", (GeneratorExit,), {})
CURRENT = ["plain"]


def Boom(text):
    """a failure of a callback or caller, of the kind this operation uses"""
    RAISED.append(1)
    return BOOMS[CURRENT[0]](text)


WHAT = {}      # name -> (function, options)
KEYS = ["k0", "k1", "d/k2", "é3"]


def what(**opts):
    def deco(f):
        WHAT[f.__name__[2:]] = (f, opts)
        return f
    return deco


def P(ctx, rel):
    return Path(os.path.join(ctx.root, rel))


def boom(*a, **k):
    raise Boom("callback failed")


def boom_on(n, f):
    """f, failing at its n-th call"""
    c = [0]

    def g(*a):
        c[0] += 1
        if c[0] == n:
            raise Boom("callback failed")
        return f(*a)
    return g


# ---- stores ----
@what(binary=[True, False], overwrite=[True, False], path=["z.zip", "in.zip", "bad.zip", "plain.txt", "nodir/z.zip"],
      fail=["no", "no", "body", "dup", "none", "type", "fn", "keys_out", "keys_in", "writing"], via=["direct", "direct", "params"])
def w_zip_sink(ctx, st):
    f, b = st["fail"], st["binary"]
    kw = {}
    if f == "fn":
        kw["filename_function"] = boom_on(2, lambda k: k)
    if f == "keys_out":
        kw["keys_out_function"] = boom
    if f == "keys_in":
        kw["keys_in_function"] = boom
    if st["via"] == "params":
        p = Parameters.from_mapping({"output": {"type": "zip", "path": str(P(ctx, st["path"]))}})
        sink = (byte_key_value_sink_from_params if b else char_key_value_sink_from_params)(p)
    else:
        sink = (KeyValueSink.zip_bytes_sink if b else KeyValueSink.zip_character_sink)(P(ctx, st["path"]), overwrite=st["overwrite"], **kw)

    def val(n):
        return bytes([65 + n]) * 3000 if b else "x%d" % n * 900
    with sink as s:
        s.put("new0", val(0))
        if f == "body":
            raise Boom("caller failed")
        s.put("new1", val(1))
        if f == "dup":
            s.put("new0", val(1))
        if f == "none":
            s.put("new2", None)
        if f == "type":
            s.put("new3", 17)
        s["new4"] = val(2)


@what(binary=[True, False], path=["in.zip", "in.zip", "bad.zip", "plain.txt", "missing.zip"], via=["direct", "params", "linear", "view", "view"],
      use=["all", "partial", "get", "missing", "absent", "filter", "body", "none", "closed"], kf=["default", "default", "boom", "none", "fn1", "fn2"])
def w_zip_source(ctx, st):
    b, via = st["binary"], st["via"]
    direct = KeyValueSource.zip_bytes_source if b else KeyValueSource.zip_character_source
    if via == "params" or via == "linear":
        p = Parameters.from_mapping({"input": {"type": "zip", "path": str(P(ctx, st["path"]))}})
        src = (byte_key_value_linear_source_from_params if via == "linear" else
               byte_key_value_source_from_params if b else char_key_value_source_from_params)(p)
    else:
        kw = {"keys_function": boom} if st["kf"] == "boom" else {"keys_function": None} if st["kf"] == "none" else {"filename_function": boom_on(int(st["kf"][2:]), lambda k: k)} if st["kf"][:2] == "fn" else {}
        src = direct(P(ctx, st["path"]), **kw)
    if via == "view":
        wrap = KeyValueSource.interpret_values if st["use"] != "all" else KeyValueLinearSource.interpret_values
        src = wrap(src, boom_on(2, lambda k, v: (k, v)))
    with src as s:
        use_source(s, st["use"])


def use_source(s, use):
    if use == "all":
        for _ in s.items():
            pass
    elif use == "partial":
        it = s.items()
        next(it)
        it2 = s.items()
        next(it2)
        next(it)
    elif use == "get":
        s["k0"]
        s.get("k1")
        s.get("absent")
    elif use == "missing":
        s["absent"]
    elif use == "absent":
        s.get("absent", None)
    elif use == "filter":
        for _ in s.items(boom_on(3, lambda k: True)):
            pass
    elif use == "body":
        for _ in s.items():
            raise Boom("caller failed")
    elif use == "closed":
        s.__exit__(None, None, None)
        s.__enter__()


@what(binary=[True, False], path=["outdir", "outdir", "outdir", "full"], fail=["no", "no", "body", "type", "badkey"])
def w_dir_sink(ctx, st):
    b = st["binary"]
    p = Parameters.from_mapping({"output": {"type": "file-map", "path": str(P(ctx, st["path"]))}})
    with (byte_key_value_sink_from_params if b else char_key_value_sink_from_params)(p) as s:
        s.put("a", b"x" * 5000 if b else "y" * 5000)
        if st["fail"] == "body":
            raise Boom("caller failed")
        if st["fail"] == "badkey":
            s.put("a/b", b"" if b else "")
        s.put("d/b", 17 if st["fail"] == "type" else b"" if b else "")


@what(binary=[True, False], path=["map.tsv", "map.tsv", "map.tsv", "badmap.tsv", "plain.txt", "danglingmap.tsv"], use=["all", "partial", "get", "missing", "absent", "filter", "body"],
      via=["path", "params", "mapping"])
def w_map_source(ctx, st):
    b = st["binary"]
    p = P(ctx, st["path"])
    if st["via"] == "params":
        src = (byte_key_value_source_from_params if b else char_key_value_source_from_params)(Parameters.from_mapping({"input": {"type": "file-map", "path": str(p)}}))
    elif st["via"] == "mapping":
        src = KeyValueSource.from_path_mapping(immutabledict([("k0", P(ctx, "plain.txt")), ("k1", P(ctx, "in.zip")), ("k3", P(ctx, "nothing"))]))
    else:
        src = (KeyValueSource.binary_from_doc_id_to_file_map if b else KeyValueSource.from_doc_id_to_file_map)(p)
    with src as s:
        use_source(s, st["use"])


@what(path=["in.tgz", "in.tar", "bad.tgz", "plain.txt", "missing.tgz"], text=[True, False, False],
      use=["all", "partial", "filter", "body", "none"], fail=["no", "no", "key", "name"])
def w_tar_source(ctx, st):
    kw = {}
    if st["fail"] == "key":
        kw["key_function"] = boom_on(2, lambda k: k)
    if st["fail"] == "name":
        kw["name_filter"] = boom_on(2, lambda k: True)
    f = KeyValueLinearSource.str_linear_source_from_tar_gz if st["text"] else KeyValueLinearSource.byte_linear_source_from_tar_gz
    with f(P(ctx, st["path"]), **kw) as s:
        use_source(s, st["use"])


# ---- sinks and sources ----
@what(kind=["cfile", "bfile", "zip", "zip", "zipbad", "string", "buffer"], path=["new/o", "z2.zip", "in.zip", "bad.zip", "plain.txt", "full"],
      mode=["whole", "open", "two", "body", "noclose"], bad=[False, False, False, True])
def w_io_sink(ctx, st):
    k, p = st["kind"], P(ctx, st["path"])
    sink = {"cfile": lambda: CharSink.to_file(p), "bfile": lambda: ByteSink.to_file(p), "zip": lambda: ByteSink.file_in_zip(p, "m/new"), "zipbad": lambda: ByteSink.file_in_zip(p, "bad \ud800 name"),
            "string": CharSink.to_string, "buffer": ByteSink.to_buffer}[k]()
    v = 17 if st["bad"] else "text" * 5000 if k in ("cfile", "string") else b"data" * 5000
    m = st["mode"]
    if m == "whole":
        sink.write(v)
        return
    if m == "noclose":       # explicit close instead of a context
        out = sink.open()
        try:
            out.write(v)
        finally:
            out.close()
        out.close()
        return
    with sink.open() as out:
        out.write(v)
        if m == "two":
            out.write(v)
            out.flush()
        if m == "body":
            raise Boom("caller failed")


@what(kind=["cfile", "bfile", "gz", "tgz", "czip", "bzip", "cbzip", "cbfile", "ozip", "badenc"],
      path=["plain.txt", "in.gz", "in.tgz", "in.zip", "bad.zip", "bad.tgz", "missing", "latin.txt"], member=["k0", "d/k2", "dir", "absent"],
      mode=["all", "lines", "empty", "some", "body", "close2", "two"])
def w_io_source(ctx, st):
    k, p, m = st["kind"], P(ctx, st["path"]), st["member"]
    zf = None
    if k == "ozip":
        with ZipFile(p) as zf:
            _read_some(CharSource.from_file_in_zip(zf, m), st["mode"])
        return
    s = {"cfile": lambda: CharSource.from_file(p), "bfile": lambda: ByteSource.from_file(p), "gz": lambda: CharSource.from_gzipped_file(p),
         "tgz": lambda: CharSource.from_file_in_tgz(p, m), "czip": lambda: CharSource.from_file_in_zip(p, m), "bzip": lambda: ByteSource.from_file_in_zip(p, m),
         "cbzip": lambda: CharSource.from_byte_source(ByteSource.from_file_in_zip(p, m)), "cbfile": lambda: CharSource.from_byte_source(ByteSource.from_file(p)),
         "badenc": lambda: CharSource.from_byte_source(ByteSource.from_file_in_zip(p, m), encoding="no-such-encoding")}[k]()
    _read_some(s, st["mode"])


def _read_some(s, mode):
    if mode == "all":
        s.read_all() if hasattr(s, "read_all") else s.read()
    elif mode == "lines":
        s.readlines() if hasattr(s, "readlines") else s.read(5)
    elif mode == "empty":
        if hasattr(s, "is_empty"):
            s.is_empty()
    elif mode == "some":
        with s.open() as f:
            f.read(3)
    elif mode == "body":
        with s.open() as f:
            f.readline()
            raise Boom("caller failed")
    elif mode == "close2":
        f = s.open()
        try:
            f.read(1)
        finally:
            f.close()
        f.close()
    elif mode == "two":
        with s.open() as f:
            f.read(2)
            with s.open() as g:
                g.read(1)
            f.read(2)


@what(fn=["lines", "list", "map", "pickle", "docmap_w", "docmap_r", "docmap_open", "empty_dir"],
      path=["plain.txt", "map.tsv", "badmap.tsv", "latin.txt", "p.pickle", "missing", "full"])
def w_lists(ctx, st):
    p, f = P(ctx, st["path"]), st["fn"]
    pr = Parameters.from_mapping({"f": str(p)})
    if f == "lines":
        io_utils.file_lines_to_set(p)
    elif f == "list":
        pr.path_list_from_file("f")
    elif f == "map":
        pr.path_map_from_file("f", log_name="things")
    elif f == "pickle":
        pr.pickled_object_from_file("f")
    elif f == "docmap_w":
        io_utils.write_doc_id_to_file_map({"a": p, "b": p}, CharSink.to_file(P(ctx, "out.tsv")))
    elif f == "docmap_r":
        io_utils.read_doc_id_to_file_map(CharSource.from_file(p))
    elif f == "docmap_open":
        io_utils.read_doc_id_to_file_map(CharSource.from_file_in_zip(P(ctx, "in.zip"), "k0"))
    elif f == "empty_dir":
        io_utils.is_empty_directory(P(ctx, "full"))


@what(path=["main.params"] * 4 + ["broken.params", "badinc.params", "latin.txt", "missing"], fn=["load", "load", "entry", "entry_boom", "entry_p"])
def w_load(ctx, st):
    p = P(ctx, st["path"])
    if st["fn"] == "load":
        YAMLParametersLoader().load(p)
        return
    args = [str(p)] + (["-p", "a.b", "c"] if st["fn"] == "entry_p" else [])
    _real_parameters_only_entry_point(boom if st["fn"] == "entry_boom" else lambda p: None, "usage", program_name="prog", args=args)


@what(to=["new/w.params", "full", "zip"], bad=[False, False, True])
def w_write(ctx, st):
    p = Parameters.from_mapping({"a": {"b": [1, "x" * 9000], "c": object() if st["bad"] else P(ctx, "q")}, "d": 1.5})
    if st["to"] == "zip":
        class S(CharSink):
            def open(self):
                import io
                return io.TextIOWrapper(ByteSink.file_in_zip(P(ctx, "z3.zip"), "params").open(), encoding="utf-8")
        YAMLParametersWriter().write(p, S())
    else:
        YAMLParametersWriter().write(p, P(ctx, st["to"]) if st["to"] == "full" else str(P(ctx, st["to"])))


@what(name=["c1", "nodir/c", ""], reset=[True, False])
def w_checkpoint(ctx, st):
    c = Checkpoints.from_directory(P(ctx, "cp"))
    c.set("c0")
    "c0" in c
    if st["reset"]:
        c.reset_all()
    c.set(st["name"])


@what(fn=["dir", "file", "empty", "empty_del", "exfile", "exdir"], path=["a/b/c", "full", "plain.txt"])
def w_dirs(ctx, st):
    p = Parameters.from_mapping({"x": str(P(ctx, st["path"]))})
    {"dir": lambda: p.creatable_directory("x"), "file": lambda: p.creatable_file("x"), "empty": lambda: p.creatable_empty_directory("x"),
     "empty_del": lambda: p.creatable_empty_directory("x", delete=True), "exfile": lambda: p.existing_file("x"),
     "exdir": lambda: p.existing_directory("x")}[st["fn"]]()


@what(script=["split", "split", "explicit", "join", "join", "dir", "dir", "sample", "tar", "tar", "offsets"], src=["in.zip", "in.zip", "bad.zip", "map.tsv", "plain.txt"],
      out=["zip", "zip", "directory"], odd=["no", "no", "dup", "missing", "unpack", "inexhaustive"])
def w_script(ctx, st):
    s, odd = st["script"], st["odd"]
    src = {"type": "file-map" if st["src"].endswith("tsv") else "zip", "path": str(P(ctx, st["src"]))}
    out = {"type": st["out"], "path": str(P(ctx, "outdir" if st["out"] == "directory" else "so.zip"))}

    def run(main, m):
        main(Parameters.from_mapping(m))
    if s == "split":
        run(split_key_value_store.main, {"input": src, "num_slices": 3, "output_dir": str(P(ctx, "slices")), "random_seed": 5})
    elif s == "explicit":
        run(split_key_value_store.main, {"input": src, "explicit_split": {
            "a": {"keys_file": str(P(ctx, "keysA.txt")), "output_file": str(P(ctx, "ea.zip"))},
            "b": {"keys_file": str(P(ctx, "keysB.txt" if odd != "missing" else "plain.txt")), "output_file": str(P(ctx, "eb.zip"))},
            "must_be_exhaustive": odd == "inexhaustive"}})
    elif s == "join":
        run(join_key_value_stores.main, {"input_store_list_file": str(P(ctx, "list.txt" if odd != "dup" else "listdup.txt")), "output": out})
    elif s == "dir":
        run(directory_to_key_value_store.main, {"input_directory": str(P(ctx, "tree" if odd != "dup" else "duptree")), "output": out})
    elif s == "sample":
        run(downsample_key_value_store.main, {"input": src, "num_to_sample": 2, "output_zip_path": str(P(ctx, "ds.zip"))})
    elif s == "tar":
        script(ctx, tar_gz_to_zip.main, [str(P(ctx, "bad.tgz" if st["src"] == "bad.zip" else "in.tgz"))] + (["--dont-stream"] if odd == "unpack" else []))
    else:
        script(ctx, text_at_offsets.main, [str(P(ctx, "plain.txt" if odd != "dup" else "latin.txt")), "2", "9"])


def script(ctx, main, argv):
    old, cwd = sys.argv, os.getcwd()
    sys.argv = ["prog"] + argv
    os.chdir(ctx.root)
    try:
        main()
    finally:
        sys.argv = old
        os.chdir(cwd)


class C06(Prop):
    id = "C06"
    keep_ops = ("fixtures",)

    def cases(self, rng, tier):
        env = gen.benign_env(rng, 0.2)
        steps = []
        names = sorted(WHAT) + ["script", "script", "script", "zip_sink", "zip_source", "io_sink", "io_source"]
        for i in range(rng.choice([1, 1, 2, 3, 5])):
            n = rng.choice(names)
            st = {"id": i + 2, "op": "leak", "what": n}
            for k, v in WHAT[n][1].items():
                st[k] = rng.choice(v)
            st["exc"] = rng.choice(["plain", "plain", "plain", "key", "key", "key", "os", "value"] + sorted(BOOMS))
            if st.get("kf", "")[:2] == "fn":
                st["via"], st["use"], st["path"] = rng.choice(["direct", "view"]), rng.choice(["get", "get", "absent", "all"]), "in.zip"
            # mostly operate on what suits, sometimes on something else
            if "path" in WHAT[n][1] and n == "io_source" and rng.random() < 0.8:
                st["path"] = {"gz": ["in.gz"], "tgz": ["in.tgz", "bad.tgz"], "czip": ["in.zip", "bad.zip"], "bzip": ["in.zip"], "cbzip": ["in.zip", "bad.zip"],
                              "ozip": ["in.zip", "bad.zip"], "badenc": ["in.zip"]}.get(st["kind"], ["plain.txt", "latin.txt"])[i % 1 if rng.random() < 0.6 else -1]
            if n == "io_sink" and st["kind"] == "zip" and st["path"] == "new/o":
                st["path"] = "in.zip"
            steps.append(st)
        pre = []
        for p in ("bad.zip", "bad.tgz"):
            pre.append(corrupt.random_corruption(rng, p))
        return {"env": env, "phases": [{"actors": [[{"id": 1, "op": "fixtures", "seed": rng.randrange(1 << 30)}]]}, {"actors": [steps], "pre": pre}]}

    def op_fixtures(self, ctx, st):
        with harness_code(ctx):
            import random
            rng = random.Random(st["seed"])
            R = ctx.root

            def w(p, b):
                os.makedirs(os.path.dirname(os.path.join(R, p)) or R, exist_ok=True)
                with open(os.path.join(R, p), "wb") as f:
                    f.write(b.encode() if isinstance(b, str) else b)
            ms = [{"name": k, "v": ["a", rng.choice([0, 10, 5000, 20000]), i + 1], "enc": "utf-8"} for i, k in enumerate(KEYS)]
            for z in ("in.zip", "bad.zip"):
                corrupt.make_archive("zip", os.path.join(R, z), {"members": ms + [{"name": "__keys", "v": ["lit", 0, "\n".join(sorted(KEYS))]}], "method": rng.choice([0, 8])})
            tm = [{"name": "dir", "type": "dir"}] + ms + [{"name": "ln", "type": "sym", "to": "k0"}]
            for t in ("in.tgz", "bad.tgz"):
                corrupt.make_archive("tgz", os.path.join(R, t), {"members": tm})
            corrupt.make_archive("tgz", os.path.join(R, "in.tar"), {"members": tm, "comp": "none"})
            corrupt.make_archive("gz", os.path.join(R, "in.gz"), {"v": ["a", 30000, 5]})
            w("plain.txt", "line one\nline two\n" * 700)
            w("latin.txt", b"caf\xe9 au lait\n" * 50)
            w("map.tsv", "k0\t%s/plain.txt\nk1\t%s/in.zip\n" % (R, R))
            w("danglingmap.tsv", "k0\t%s/nothing\nk1\t%s/in.zip\n" % (R, R))
            w("badmap.tsv", "k0\t%s/plain.txt\nk1 %s/in.zip\n" % (R, R))
            w("p.pickle", pickle.dumps({"a": [1, 2]}))
            w("inc/one.params", "x: 1\n_includes:\n  - two.params\n")
            w("inc/two.params", "y: \"two\"\n")
            w("main.params", "_includes:\n  - inc/one.params\n  - inc/two.params\na:\n  b: \"%y% and\"\n")
            w("broken.params", "a: [1, 2\nb: }\n")
            w("badinc.params", "_includes:\n  - inc/one.params\n  - inc/none.params\nz: \"%nothing%\"\n")
            w("full/f", "content")
            w("tree/a.txt", "a")
            w("tree/sub/b.txt", "b" * 9000)
            w("duptree/a.txt", "a")
            w("duptree/sub/a.txt", "b")
            w("keysA.txt", "k0\nk1\n")
            w("keysB.txt", "d/k2\né3\n")
            w("list.txt", "%s/in.zip\n" % R)
            w("listdup.txt", "%s/in.zip\n%s/in.zip\n" % (R, R))
            os.mkdir(os.path.join(R, "outdir"))

    def actor_start(self, ctx):
        LEAKS.clear()
        warnings.simplefilter("always", ResourceWarning)
        old = warnings.showwarning

        def show(message, category, filename, lineno, file=None, line=None):
            if issubclass(category, ResourceWarning):
                LEAKS.append(str(message).replace(ctx.root, "")[:200])
            else:
                old(message, category, filename, lineno, file, line)
        warnings.showwarning = show

        def zdel(z):
            if getattr(z, "fp", None) is not None and not getattr(z.fp, "closed", False):
                LEAKS.append(f"ZipFile {z.filename!r} was never closed".replace(ctx.root, ""))
                z.close()
        ZipFile.__del__ = zdel

        def gdel(g):
            if getattr(g, "fileobj", None) is not None:
                LEAKS.append(f"GzipFile {getattr(g, 'name', '?')!r} was never closed".replace(ctx.root, ""))
                g.close()
        gzip.GzipFile.__del__ = gdel

    def op_leak(self, ctx, st):
        RAISED.clear()
        CURRENT[0] = st.get("exc", "plain")
        if st["what"] in ("load",):
            root = logging.getLogger()
            try:
                WHAT[st["what"]][0](ctx, st)
            finally:
                root.handlers[:] = []
            return
        WHAT[st["what"]][0](ctx, st)

    def step_end(self, ctx, st, ev):
        if st["op"] != "leak":
            return
        n, names = ctx.open_fds()
        ev["fds"] = n
        ev["open"] = names.replace(ctx.root, "")
        ev["leaks"] = list(LEAKS)
        ev["raised"] = len(RAISED)

    def variants(self, rng, sc, h, tier):
        out = []
        pool = [o for o in h.ops if o.phase == 1]
        if not pool:
            return out
        steps = sorted({o.step for o in pool})
        for _ in range(6 if tier == "quick" else 12):
            s = rng.choice(steps)
            mine = [o for o in pool if o.step == s]
            fs = []
            for _ in range(rng.choice([1, 1, 1, 2])):
                fs.append(gen.place_fault(rng, mine if rng.random() < 0.8 else pool, ["ERR", "ERR", "ERR", "QUOTA", "SHORT"]))
            fs = [f for f in fs if f]
            if fs:
                out.append(gen.with_faults(sc, fs))
        return out

    def check(self, sc, h):
        pr = h.extra.setdefault("probes", {})
        for st in sc["phases"][1]["actors"][0]:
            ev = h.end_of(st["id"])
            if ev is None:
                return [("lost-step", f"step {st['id']} did not finish")]
            how = ev["e"]["type"] if ev["e"] else "success"
            pr[f"{st['what']} {'ok' if not ev['e'] else 'failed'}"] = pr.get(f"{st['what']} {'ok' if not ev['e'] else 'failed'}", 0) + 1
            if ev["fds"]:
                return [("left-open", f"after {st['what']} ({how}): {ev['fds']} still open: {ev['open']}")]
            if ev["leaks"]:
                return [("never-closed", f"during {st['what']} ({how}): {ev['leaks'][:3]}")]
            if ev["raised"] and "Boom" not in (ev["e"] or {"chain": []})["chain"]:
                return [("failure-hidden", f"{st['what']} ended with {how} though a callback or the caller had failed inside it")]
        return []


PROP = C06()
