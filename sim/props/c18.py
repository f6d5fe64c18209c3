"""C18: any number of readers over the same data, interleaved in one process and across several."""
import io
import os
import tarfile
import zipfile
import zlib
from pathlib import Path

import corrupt
import gen
from core import Prop, harness_code
from props.c08 import tree_hash, write_map_store, write_zip_store
from props.common import attempt, show
from props.common import tok as plain_tok

from vistautils.io_utils import ByteSource, CharSource
from vistautils.key_value import KeyValueLinearSource, KeyValueSource

RANDOM = ("zipc", "zipb", "mapc", "mapb")
LINEAR = ("tarc", "tarb")
TEXTS = ("file", "gz", "zipmember", "openzip", "tgzmember", "bytes", "bytes16")
BYTES = ("bfile", "bzipmember", "bopenzip")
DATA = ["s.zip", "m.tsv", "mapped", "t.tgz", "p.txt", "g.gz", "u.txt"]


def tok(v):
    return ["t"] + [tok(x) for x in v] if isinstance(v, tuple) else ["is", v] if isinstance(v, bool) or isinstance(v, int) else plain_tok(v)


class FromCaller(Exception):
    pass


def crc(k):
    return zlib.crc32(k.encode("utf-8", "surrogatepass"))


def keep(f, k):
    """does a filter description keep the key?"""
    if not f or "mod" not in f:
        return True
    return crc(k) % f["mod"] in f["rs"]


def tar_key(kf, name):
    if kf == "pre":
        return "K:" + name
    if kf == "drop":
        return None if crc(name) % 3 == 0 else name
    return name


class C18(Prop):
    id = "C18"
    keep_ops = ("mk", "dump")

    def cases(self, rng, tier):
        env = gen.benign_env(rng, 0.3)
        sid = [0]

        def step(op, **k):
            sid[0] += 1
            return dict(id=sid[0], op=op, **k)
        nk = rng.choice([0, 1, 2, 3, 5, 8, 12])
        keys = gen.file_keys(rng, nk)
        pairs = [[k, gen.value_desc(rng, False, 0.08)] for k in keys]
        mk = step("mk", pairs=pairs, text=gen.value_desc(rng, False, 0.1), method=rng.choice([0, 8]), dirs=rng.random() < 0.3)
        na = rng.choice([1, 1, 1, 2, 2, 3])
        actors = [self.actor(rng, step, keys, pairs, rng.choice([2, 3, 4, 5]) if na == 1 else rng.choice([1, 2])) for _ in range(na)]
        n = sum(len(a) for a in actors)
        phases = [{"actors": [[mk]]},
                  {"actors": actors, "first": rng.randrange(na), "switches": gen.random_switches(rng, na, 8 * n)},
                  {"actors": [[step("dump")]]}]
        return {"env": env, "phases": phases}

    def filt(self, rng):
        r = rng.random()
        if r < 0.4:
            return None
        if r < 0.75:
            m = rng.choice([2, 3, 5])
            return {"mod": m, "rs": rng.sample(range(m), rng.choice([0, 1, 1, m - 1]))}
        if r < 0.88:
            return {"nest": rng.choice(["iter", "iter", "lookup"])}
        return {"raise": rng.choice([1, 2, 3])}

    def actor(self, rng, step, keys, pairs, nread):
        seqs = []
        absent = [k for k in ["nothing", "k0x", "A ", "a/nothing"] + [k + "x" for k in keys[:2]] if k not in keys]
        nm = [0]

        def name(c):
            nm[0] += 1
            return c + str(nm[0])
        sources = []
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            kind = rng.choice(RANDOM + LINEAR + LINEAR)
            sources.append(dict(src=name("S"), kind=kind, interp=rng.choice([None, None, "up", "nest", "bad"]),
                                bad=rng.choice(keys) if keys else "?", kf=rng.choice([None, None, "pre", "drop"]) if kind in LINEAR else None))
        for s in sources:
            seqs.append([step("open", **s)])
        zname = name("Z")
        seqs.append([step("zopen", z=zname)])
        heads = len(seqs)
        for _ in range(nread):
            r = rng.random()
            seq = []
            if r < 0.62:
                s = rng.choice(sources)
                if s["kind"] in RANDOM and rng.random() < 0.35:
                    for _ in range(rng.choice([1, 2, 4])):
                        c = rng.random()
                        k = rng.choice(keys) if keys and rng.random() < 0.8 else rng.choice(absent)
                        seq.append(step("keys", src=s["src"]) if c < 0.3 else step("get", src=s["src"], key=k, default=rng.random() < 0.4)
                                   if c < 0.65 else step("item", src=s["src"], key=k))
                else:
                    it = name("I")
                    on = s["src"]
                    if rng.random() < 0.25:
                        on = name("V")
                        seq.append(step("view", src=on, of=s["src"], interp=rng.choice(["up", "up", "nest", "bad"]), bad=rng.choice(keys) if keys else "?"))
                    seq.append(step("iter", it=it, src=on, filt=self.filt(rng)))
                    for _ in range(rng.choice([1, 2, 3, 5])):
                        seq.append(step("next", it=it, n=rng.choice([1, 1, 1, 2, 3, -1])))
                    if rng.random() < 0.2:
                        seq.append(step("drop", it=it))
            else:
                h = name("H")
                if rng.random() < 0.15:
                    seq.append(step("whole", how=rng.choice(["readlines", "all", "empty"]), **self.what(rng, keys, zname, False)))
                else:
                    seq.append(step("hopen", h=h, **self.what(rng, keys, zname, True)))
                    for _ in range(rng.choice([1, 2, 3, 6])):
                        seq.append(step("hread", h=h, how=rng.choice(["read", "read", "line", "lines"]), n=rng.choice([1, 5, 30, 1000, 8192, 70000, -1])))
                    if rng.random() < 0.75:
                        seq.append(step("hclose", h=h))
                        if rng.random() < 0.3:
                            seq.append(step("hread", h=h, how="read", n=5))
            seqs.append(seq)
        # sources are mostly opened first; closing and opening again comes anywhere
        out = []
        order = list(range(heads))
        rng.shuffle(order)
        for i in order:
            if rng.random() < 0.9:
                out += seqs[i]
                seqs[i] = []
        rest = [s for s in seqs if s]
        for s in sources:
            if rng.random() < 0.5:
                r = [step("close", src=s["src"])]
                if rng.random() < 0.7:
                    r.append(step("open", **s))
                rest.append(r)
        if rng.random() < 0.15:
            rest.append([step("zclose", z=zname)])
        while rest:
            s = rng.choice(rest)
            for _ in range(rng.choice([1, 1, 1, 2])):
                if s:
                    out.append(s.pop(0))
            rest = [s for s in rest if s]
        return out

    def what(self, rng, keys, zname, handles):
        w = rng.choice(TEXTS + (BYTES if handles else ()))
        d = dict(what=w)
        if w in ("zipmember", "openzip", "tgzmember", "bzipmember", "bopenzip"):
            d["key"] = rng.choice(keys) if keys and rng.random() < 0.92 else "not there"
        if w in ("openzip", "bopenzip"):
            d["z"] = zname
        return d

    # --- what the steps do ---
    def op_mk(self, ctx, st):
        with harness_code(ctx):
            R = ctx.root
            pairs = [(k, gen.text(v).encode("utf-8")) for k, v in st["pairs"]]
            write_zip_store(R + "/s.zip", pairs, st["method"])
            write_map_store(R, R + "/m.tsv", pairs)
            with tarfile.open(R + "/t.tgz", "w:gz", format=tarfile.PAX_FORMAT) as t:
                for i, (k, v) in enumerate(pairs):
                    if st["dirs"] and i % 2:
                        ti = tarfile.TarInfo(f"dir{i}")
                        ti.type = tarfile.DIRTYPE
                        t.addfile(ti)
                    ti = tarfile.TarInfo(k)
                    ti.size = len(v)
                    t.addfile(ti, io.BytesIO(v))
            text = gen.text(st["text"])
            import gzip
            for n, b in (("p.txt", text.encode("utf-8")), ("g.gz", gzip.compress(text.encode("utf-8"), 6, mtime=0)), ("u.txt", text.encode("utf-16"))):
                with open(os.path.join(R, n), "wb") as f:
                    f.write(b)
            with open(R + "/inputs.sha", "w") as f:
                f.write(tree_hash(R, DATA))

    def interp_fn(self, ctx, how, bad, src):
        def up(k, v):
            return ("I", k, v)

        def nest(k, v):
            # looks at the same source while a value is being interpreted
            if isinstance(src, KeyValueSource):
                return ("I", k, v, src.get(k) == v, src.get("not there", 7))
            for _ in src.items():
                break
            return ("I", k, v, True, 7)

        def failing(k, v):
            if k.endswith(bad):
                raise FromCaller("interpretation")
            return ("I", k, v)
        return {"up": up, "nest": nest, "bad": failing}[how]

    def make_source(self, ctx, st):
        R = Path(ctx.root)
        kind = st["kind"]
        kf = {"key_function": lambda n: tar_key(st["kf"], n)} if st.get("kf") else {}
        s = {"zipc": lambda: KeyValueSource.zip_character_source(R / "s.zip"), "zipb": lambda: KeyValueSource.zip_bytes_source(R / "s.zip"),
             "mapc": lambda: KeyValueSource.from_doc_id_to_file_map(R / "m.tsv"), "mapb": lambda: KeyValueSource.binary_from_doc_id_to_file_map(R / "m.tsv"),
             "tarc": lambda: KeyValueLinearSource.str_linear_source_from_tar_gz(R / "t.tgz", **kf),
             "tarb": lambda: KeyValueLinearSource.byte_linear_source_from_tar_gz(R / "t.tgz", **kf)}[kind]()
        if st["interp"]:
            cls = KeyValueSource if kind in RANDOM else KeyValueLinearSource
            s = cls.interpret_values(s, self.interp_fn(ctx, st["interp"], st["bad"], s))
        return s

    def op_open(self, ctx, st):
        def go():
            s = ctx.v.get(st["src"])
            if s is None:
                s = ctx.v[st["src"]] = self.make_source(ctx, st)
            r = s.__enter__()
            return r is s
        return attempt(go)

    def op_close(self, ctx, st):
        if st["src"] not in ctx.v:
            return None
        return attempt(lambda: [ctx.v[st["src"]].__exit__(None, None, None)])

    def op_view(self, ctx, st):
        def go():
            s = ctx.v[st["of"]]
            cls = KeyValueSource if isinstance(s, KeyValueSource) else KeyValueLinearSource
            ctx.v[st["src"]] = cls.interpret_values(s, self.interp_fn(ctx, st["interp"], st["bad"], s))
        return attempt(go) if st["of"] in ctx.v else None

    def op_iter(self, ctx, st):
        if st["src"] not in ctx.v:
            return None
        src, f, calls = ctx.v[st["src"]], st["filt"], [0]

        def flt(k):
            calls[0] += 1
            if f and f.get("raise") and calls[0] >= f["raise"]:
                raise FromCaller("filter")
            if f and f.get("nest") == "iter":
                for _ in src.items():
                    break
            elif f and f.get("nest") and isinstance(src, KeyValueSource):
                src.get(k)
                src.keys()
            return keep(f, k)

        def go():
            ctx.v[st["it"]] = iter(src.items(flt) if f else src.items())
        return attempt(go)

    def op_next(self, ctx, st):
        it = ctx.v.get(st["it"])
        if it is None:
            return None
        got, end = [], False

        def go():
            nonlocal end
            for _ in range(st["n"] if st["n"] >= 0 else 1000):
                try:
                    k, v = next(it)
                except StopIteration:
                    end = True
                    return
                got.append([k, tok(v)])
        r = attempt(go)
        return {"got": got, "end": end, "exc": r[1] if r[0] == "exc" else None}

    def op_drop(self, ctx, st):
        return attempt(lambda: ctx.v.pop(st["it"]).close()) if st["it"] in ctx.v else None

    def op_get(self, ctx, st):
        if st["src"] not in ctx.v:
            return None
        d = ("dflt",)
        r = attempt(lambda: ctx.v[st["src"]].get(st["key"], *([d] if st["default"] else [])))
        return ["ok", ["dflt"]] if r[0] == "ok" and r[1] is d else ["ok", tok(r[1])] if r[0] == "ok" else r

    def op_item(self, ctx, st):
        if st["src"] not in ctx.v:
            return None
        r = attempt(lambda: ctx.v[st["src"]][st["key"]])
        return ["ok", tok(r[1])] if r[0] == "ok" else r

    def op_keys(self, ctx, st):
        if st["src"] not in ctx.v:
            return None
        r = attempt(lambda: ctx.v[st["src"]].keys())
        return ["ok", None if r[1] is None else sorted(r[1])] if r[0] == "ok" else r

    def op_zopen(self, ctx, st):
        def go():
            ctx.v[st["z"]] = zipfile.ZipFile(ctx.root + "/s.zip")
        return attempt(go)

    def op_zclose(self, ctx, st):
        return attempt(lambda: ctx.v[st["z"]].close()) if st["z"] in ctx.v else None

    def char_source(self, ctx, st):
        """one source object per kind and member, shared by all its handles"""
        key = repr(sorted((k, v) for k, v in st.items() if k in ("what", "key", "z")))
        if key in ctx.v:
            return ctx.v[key]
        R, w = Path(ctx.root), st["what"]
        z = ctx.v.get(st.get("z"))
        if "z" in st and z is None:
            return None
        s = {"file": lambda: CharSource.from_file(R / "p.txt"), "gz": lambda: CharSource.from_gzipped_file(R / "g.gz"),
             "zipmember": lambda: CharSource.from_file_in_zip(R / "s.zip", st["key"]), "openzip": lambda: CharSource.from_file_in_zip(z, st["key"]),
             "tgzmember": lambda: CharSource.from_file_in_tgz(R / "t.tgz", st["key"]), "bytes": lambda: CharSource.from_byte_source(ByteSource.from_file(R / "p.txt")),
             "bytes16": lambda: CharSource.from_byte_source(ByteSource.from_file(R / "u.txt"), encoding="utf-16"),
             "bfile": lambda: ByteSource.from_file(R / "p.txt"), "bzipmember": lambda: ByteSource.from_file_in_zip(R / "s.zip", st["key"]),
             "bopenzip": lambda: ByteSource.from_file_in_zip(z, st["key"])}[w]()
        ctx.v[key] = s
        return s

    def op_hopen(self, ctx, st):
        def go():
            s = self.char_source(ctx, st)
            if s is None:
                return "skip"
            ctx.v[st["h"]] = s.open()
        return attempt(go)

    def op_hread(self, ctx, st):
        h = ctx.v.get(st["h"])
        if h is None:
            return None

        def go():
            if st["how"] == "read":
                return [tok(h.read(st["n"]))]
            if st["how"] == "line":
                return [tok(h.readline())]
            out = []
            for line in h:
                out.append(tok(line))
                if len(out) >= 3:
                    break
            return out
        return attempt(go)

    def op_hclose(self, ctx, st):
        return attempt(lambda: ctx.v[st["h"]].close()) if st["h"] in ctx.v else None

    def op_whole(self, ctx, st):
        def go():
            s = self.char_source(ctx, st)
            if s is None:
                return "skip"
            if st["how"] == "readlines":
                return [tok(x) for x in s.readlines()]
            if st["how"] == "all":
                return tok(s.read_all())
            return s.is_empty()
        return attempt(go)

    def op_dump(self, ctx, st):
        with harness_code(ctx):
            with open(ctx.root + "/inputs.sha") as f:
                was = f.read()
            extra = sorted(set(os.listdir(ctx.root)) - set(DATA) - {"inputs.sha"})
            return {"same": was == tree_hash(ctx.root, DATA), "extra": extra}

    # --- judging ---
    def check(self, sc, h):
        out = []
        mk = next((s for ph in sc["phases"] for a in ph["actors"] for s in a if s["op"] == "mk"), None)
        ev = h.end_of(mk["id"]) if mk else None
        if ev is None or ev["e"]:
            return []
        hit = {(o.phase, o.actor, o.step) for o in h.ops if o.kind in ("ERR", "SIGINT") or (o.kind == "CRASH_TORN")}
        data = [(k, gen.text(v)) for k, v in mk["pairs"]]
        text = gen.text(mk["text"])
        for pi, ph in enumerate(sc["phases"]):
            if pi == 0:
                continue
            for ai, steps in enumerate(ph["actors"]):
                out += Judge(self, data, text, lambda s, p=pi, a=ai: (p, a, s) in hit).run(steps, h)
        return out

    def variants(self, rng, sc, h, tier):
        ops = [o for o in h.ops if o.phase == 1]
        out = []
        for i in range(6):
            kinds = [["ERR"], ["ERR"], ["SIGINT"], ["EINTR", "SHORT"], ["ERR", "SIGINT"], ["CRASH_BEFORE", "CRASH_AFTER"]][i]
            if i == 5 and len(sc["phases"][1]["actors"]) == 1:
                kinds = ["ERR"]
            f = gen.place_fault(rng, ops, kinds)
            if f:
                f2 = gen.place_fault(rng, ops, ["SHORT", "EINTR"]) if rng.random() < 0.3 else None
                out.append(gen.with_faults(sc, [f] + ([f2] if f2 else [])))
        if len(sc["phases"][1]["actors"]) > 1:
            import copy
            for _ in range(2):
                s = copy.deepcopy(sc)
                s["phases"][1]["switches"] = gen.random_switches(rng, len(s["phases"][1]["actors"]), len(ops))
                out.append(s)
        return out


class Judge:
    """what each reader would see alone"""

    def __init__(self, prop, data, text, hit):
        self.p, self.data, self.text, self.hit = prop, data, text, hit
        self.out = []
        self.src, self.it, self.z, self.h = {}, {}, {}, {}

    def bad(self, cls, st, msg):
        self.out.append((cls, f"step {st['id']} {st['op']}: {msg}"))

    def run(self, steps, hist):
        for st in steps:
            ev = hist.end_of(st["id"])
            if ev is None:
                break
            hit = self.hit(st["id"])
            if ev["e"]:
                if not hit:
                    self.bad("reader-error", st, f"raised {show(ev['e'])}")
                # the step did not reach its bookkeeping: whatever it touched is in doubt
                for d, key in ((self.src, st.get("src")), (self.it, st.get("it")), (self.h, st.get("h")), (self.z, st.get("z"))):
                    if key in d:
                        d[key]["doubt"] = True
                    elif key is not None:
                        d[key] = {"doubt": True, "gone": True}
                continue
            getattr(self, "j_" + st["op"])(st, ev["v"], hit)
        return self.out

    # -- key-value sources --
    def expected(self, s):
        """(key, value token or FromCaller) in order, for a source or view"""
        out = []
        for k, v in self.data:
            if s["kind"] in LINEAR:
                k = tar_key(s.get("kf"), k)
                if k is None:
                    continue
            out.append((k, self.interpreted(s, k, v)))
        return out

    def interpreted(self, s, k, v):
        x = v.encode("utf-8") if s["kind"][-1] == "b" else v
        for how, bad in s["layers"]:
            if how == "bad" and k.endswith(bad):
                return FromCaller
            x = ("I", k, x, True, 7) if how == "nest" else ("I", k, x)
        return tok(x)

    def root(self, s):
        while s.get("of"):
            s = self.src[s["of"]]
        return s

    def j_open(self, st, r, hit):
        s = self.src.setdefault(st["src"], {"kind": st["kind"], "kf": st.get("kf"), "open": False, "sess": 0,
                                            "layers": [(st["interp"], st["bad"])] if st["interp"] else []})
        if s.get("gone"):
            return
        if s["open"]:
            s["doubt"] = True  # entered twice: outside the domain
            return
        s["sess"] += 1
        if r[0] == "ok":
            s["open"], s["doubt"] = True, False
            if r[1] is not True:
                self.bad("not-itself", st, "entering the source gave something else")
        else:
            s["open"] = False
            s["doubt"] = True
            if not hit:
                self.bad("cannot-open", st, show(r[1]))

    def j_close(self, st, r, hit):
        s = self.src.get(st["src"])
        if r is None or s is None or s.get("gone"):
            return
        if r[0] == "ok" and r[1][0]:
            self.bad("swallows", st, "leaving the source claims to have handled exceptions")
        if r[0] == "exc" and s["open"] and not hit and not s.get("doubt"):
            self.bad("cannot-close", st, show(r[1]))
        s["open"] = False
        if r[0] == "exc" and (hit or s.get("doubt")):
            s["doubt"] = True

    def j_view(self, st, r, hit):
        if r is None:
            return
        o = self.src.get(st["of"])
        if o is None or o.get("gone"):
            self.src[st["src"]] = {"gone": True, "doubt": True}
            return
        if r[0] == "exc" and not hit:
            self.bad("cannot-view", st, show(r[1]))
        self.src[st["src"]] = {"kind": o["kind"], "kf": o.get("kf"), "of": st["of"], "layers": o["layers"] + [(st["interp"], st["bad"])]}
        if r[0] == "exc":
            self.src[st["src"]]["gone"] = True

    def refuses(self, st, r, s, what):
        """use of a closed source: only the sources without any state may answer"""
        if s["kind"] in ("mapc", "mapb"):
            return False
        if r[0] == "ok":
            self.bad("closed-but-answers", st, f"{what} of a closed {s['kind']} source gave {show(r[1])}")
        return True

    def lookup(self, st, r, hit, missing):
        s = self.src.get(st["src"])
        if r is None or s is None or s.get("gone"):
            return
        t = self.root(s)
        if hit or t.get("doubt"):
            pass
        if not t["open"] and not t.get("doubt"):
            if self.refuses(st, r, t, "lookup"):
                return
        want = [v for k, v in self.expected(s) if k == st["key"]]
        if r[0] == "exc":
            if hit or t.get("doubt") or (want and want[0] is FromCaller and r[1]["type"] == "FromCaller"):
                t["doubt"] = t.get("doubt") or (hit and r[1]["type"] != "FromCaller")
                return
            if not want and missing == "KeyError" and "KeyError" in r[1]["mro"]:
                return
            self.bad("lookup-failed", st, f"{s['kind']}[{st['key']!r}] raised {show(r[1])}")
            return
        exp = want[0] if want else missing
        if r[1] != exp:
            self.bad("wrong-value", st, f"{s['kind']}[{st['key']!r}] gave {show(r[1])} instead of {show(exp)}")

    def j_get(self, st, r, hit):
        self.lookup(st, r, hit, ["dflt"] if st["default"] else ["none"])

    def j_item(self, st, r, hit):
        self.lookup(st, r, hit, "KeyError")

    def j_keys(self, st, r, hit):
        s = self.src.get(st["src"])
        if r is None or s is None or s.get("gone"):
            return
        t = self.root(s)
        if not t["open"] and not t.get("doubt") and self.refuses(st, r, t, "keys"):
            return
        if r[0] == "exc":
            if not hit and not t.get("doubt"):
                self.bad("keys-failed", st, show(r[1]))
            return
        if r[1] != sorted(k for k, _ in self.data):
            self.bad("wrong-keys", st, f"keys {show(r[1])}")

    def j_iter(self, st, r, hit):
        s = self.src.get(st["src"])
        if r is None or s is None or s.get("gone"):
            self.it[st["it"]] = {"gone": True}
            return
        t = self.root(s)
        if r[0] == "exc":
            self.it[st["it"]] = {"gone": True}
            if not hit and not t.get("doubt") and (t["open"] or t["kind"] in ("mapc", "mapb")):
                self.bad("cannot-iterate", st, show(r[1]))
            return
        if not t["open"] and not t.get("doubt"):
            # views may only notice at the first element; the source itself notices at once
            if not s.get("of") and not s["layers"] and t["kind"] not in ("tarc",):
                self.refuses(st, r, t, "items()")
        exp = [(k, v) for k, v in self.expected(s) if keep(st["filt"], k)]
        lazy = s["kind"] in LINEAR and (bool(s["layers"]) or s["kind"] == "tarc")
        self.it[st["it"]] = {"src": s, "filt": st["filt"], "exp": exp, "left": dict(exp), "i": 0, "calls": 0,
                             "sess": None if lazy else t["sess"] if t["open"] else -1, "end": False, "dead": False, "doubt": hit}

    def j_next(self, st, r, hit):
        it = self.it.get(st["it"])
        if r is None or it is None or it.get("gone"):
            return
        s = it["src"]
        t = self.root(s)
        f = it["filt"]
        if it["sess"] is None:  # the underlying iteration starts here
            it["sess"] = t["sess"] if t["open"] else -1
        ended_session = t["kind"] not in ("mapc", "mapb") and not (t["open"] and t["sess"] == it["sess"])
        for k, v in r["got"]:
            if it["end"] or (it["dead"] and not it.get("doubt")):
                self.bad("element-after-end", st, f"{k!r} after the end")
            if s["kind"] in LINEAR and not it.get("doubt"):
                exp = it["exp"][it["i"]] if it["i"] < len(it["exp"]) else None
                it["i"] += 1
                if exp is None or exp[0] != k or exp[1] != v:
                    self.bad("wrong-element", st, f"got {k!r} {show(v)} where {show(exp)} comes next")
                it["left"].pop(k, None)
            else:
                exp = it["left"].pop(k, None)
                if exp is None:
                    self.bad("wrong-element", st, f"{k!r} is not (or no longer) to come")
                elif exp != v:
                    self.bad("wrong-element", st, f"{k!r} came with {show(v)} instead of {show(exp)}")
            if t["kind"] in ("zipc", "zipb", "tarc", "tarb") and not t["open"] and not t.get("doubt"):
                self.bad("closed-but-answers", st, f"{k!r} delivered although its source is closed")
        caller = f and "raise" in f
        badleft = any(v is FromCaller for v in it["left"].values())
        if r["exc"]:
            it["dead"] = True
            if r["exc"]["type"] == "FromCaller":
                if not caller and not badleft:
                    self.bad("foreign-error", st, show(r["exc"]))
                return
            if hit or it.get("doubt") or t.get("doubt"):
                # only what shares the position in the archive may go on failing
                it["doubt"] = True
                if t["kind"] in LINEAR:
                    t["doubt"] = True
                return
            if not ended_session:
                self.bad("iteration-failed", st, show(r["exc"]))
        elif r["end"]:
            if it["left"] and not it["dead"] and not it["end"] and not it.get("doubt"):
                self.bad("ended-early", st, f"ended although {show(sorted(it['left']))} had not come")
            it["end"] = True
        if hit:
            it["doubt"] = True
            if t["kind"] in LINEAR:
                t["doubt"] = True

    def j_drop(self, st, r, hit):
        self.it.pop(st["it"], None)
        if r and r[0] == "exc" and not hit:
            self.bad("cannot-drop", st, show(r[1]))

    # -- handles --
    def j_zopen(self, st, r, hit):
        self.z[st["z"]] = {"open": r[0] == "ok", "doubt": r[0] != "ok"}

    def j_zclose(self, st, r, hit):
        if st["z"] in self.z:
            self.z[st["z"]]["open"] = False

    def content(self, st):
        if "key" in st:
            return dict(self.data).get(st["key"])
        return self.text

    def alive(self, st):
        if "z" not in st:
            return True
        z = self.z.get(st["z"])
        return z is not None and z["open"] and not z.get("doubt")

    def j_hopen(self, st, r, hit):
        c = self.content(st)
        self.h[st["h"]] = {"gone": True}
        if r[0] == "ok" and r[1] == "skip":
            return
        if r[0] == "exc":
            if hit or c is None or not self.alive(st):
                return
            self.bad("cannot-open", st, show(r[1]))
            return
        if c is None:
            self.bad("opened-nothing", st, f"{st['what']} of an absent member opened")
            return
        m = io.BytesIO(c.encode("utf-8")) if st["what"] in BYTES else io.StringIO(c, newline="\n")
        self.h[st["h"]] = {"m": m, "st": st, "open": True, "doubt": hit}

    def j_hread(self, st, r, hit):
        d = self.h.get(st["h"])
        if r is None or d is None or d.get("gone"):
            return
        if not d["open"]:
            if r[0] == "ok" and not d.get("doubt"):
                self.bad("closed-but-answers", st, f"a closed handle gave {show(r[1])}")
            return
        m = d["m"]
        if r[0] == "exc":
            if not hit and not d.get("doubt") and self.alive(d["st"]):
                self.bad("read-failed", st, show(r[1]))
            d["doubt"] = True
            return
        if d.get("doubt"):
            return  # position unknown after a delivered failure
        if st["how"] == "read":
            want = [tok(m.read(st["n"]))]
        elif st["how"] == "line":
            want = [tok(m.readline())]
        else:
            want = []
            for line in m:
                want.append(tok(line))
                if len(want) >= 3:
                    break
        if r[1] != want:
            self.bad("wrong-data", st, f"{d['st']['what']} gave {show(r[1])} instead of {show(want)}")
        if hit:
            d["doubt"] = True

    def j_hclose(self, st, r, hit):
        d = self.h.get(st["h"])
        if r is None or d is None or d.get("gone"):
            return
        if r[0] == "exc" and not hit and not d.get("doubt"):
            self.bad("cannot-close", st, show(r[1]))
        d["open"] = False
        if r[0] == "exc":
            d["doubt"] = True

    def j_whole(self, st, r, hit):
        c = self.content(st)
        if r[0] == "ok" and r[1] == "skip":
            return
        if r[0] == "exc":
            if not (hit or c is None or not self.alive(st)):
                self.bad("read-failed", st, show(r[1]))
            return
        if c is None:
            self.bad("opened-nothing", st, f"{st['what']} of an absent member read")
            return
        if st["how"] == "readlines":
            want = [tok(x.rstrip("\n")) for x in io.StringIO(c, newline="\n")]
        elif st["how"] == "all":
            want = tok(c)
        else:
            want = c == ""
        if r[1] != want:
            self.bad("wrong-data", st, f"{st['how']} of {st['what']} gave {show(r[1])} instead of {show(want)}")

    def j_dump(self, st, r, hit):
        if not r["same"]:
            self.bad("data-changed", st, "the files read are not what they were")
        if r["extra"]:
            self.bad("left-behind", st, f"reading left {r['extra']} behind")


PROP = C18()
