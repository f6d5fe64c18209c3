"""C05: character and byte sinks and sources."""
import os
from pathlib import Path
from zipfile import ZipFile

import corrupt
import gen
from core import Prop, describe_exc, harness_code
from props.common import SKIP, ok, skipped, tok

from vistautils.io_utils import ByteSink, ByteSource, CharSink, CharSource


def pieces(v, cuts):
    """v cut into parts at the given fractions"""
    n = len(v)
    at = sorted({c * n // 1000 for c in cuts} | {0, n})
    return [v[a:b] for a, b in zip(at, at[1:])] or [v]


def make_sink(ctx, st):
    k, p = st["sink"], os.path.join(ctx.root, st.get("via") or st.get("path", ""))
    if k == "cfile":
        return CharSink.to_file(p if st.get("as_str") else Path(p))
    if k == "bfile":
        return ByteSink.to_file(Path(p))
    if k == "zip":
        return ByteSink.file_in_zip(Path(p), st["member"])
    return {"string": CharSink.to_string, "buffer": ByteSink.to_buffer, "nowhere": CharSink.to_nowhere}[k]()


def make_source(ctx, st, zf=None):
    k, p = st["src"], os.path.join(ctx.root, st.get("via") or st.get("path", ""))
    where = zf if zf is not None else Path(p)
    if k == "cfile":
        return CharSource.from_file(p if st.get("as_str") else Path(p))
    if k == "bfile":
        return ByteSource.from_file(Path(p))
    if k == "gz":
        return CharSource.from_gzipped_file(Path(p), **({"encoding": st["enc"]} if st.get("enc") else {}))
    if k == "tgz":
        return CharSource.from_file_in_tgz(Path(p), st["member"], **({"encoding": st["enc"]} if st.get("enc") else {}))
    if k == "czip":
        return CharSource.from_file_in_zip(where, st["member"])
    if k == "bzip":
        return ByteSource.from_file_in_zip(where, st["member"])
    if k == "cbfile":
        return CharSource.from_byte_source(ByteSource.from_file(Path(p)), **({"encoding": st["enc"]} if st.get("enc") else {}))
    if k == "cbzip":
        return CharSource.from_byte_source(ByteSource.from_file_in_zip(where, st["member"]), **({"encoding": st["enc"]} if st.get("enc") else {}))
    raise KeyError(k)


CHAR = {"cfile", "gz", "tgz", "czip", "cbfile", "cbzip"}


def split_lines(t):
    """text broken at newline only, as a list of complete lines"""
    parts = t.split("\n")
    return parts[:-1] if parts[-1] == "" else parts


class C05(Prop):
    id = "C05"
    keep_ops = ("link",)

    def cases(self, rng, tier):
        env = gen.benign_env(rng, 0.3)
        sid = [0]

        def step(op, **k):
            sid[0] += 1
            return dict(id=sid[0], op=op, **k)
        kinds = rng.choice([["cfile"], ["bfile"], ["zip"], ["cfile", "bfile", "zip"], ["mem"], ["gz"], ["tgz"], ["zipfix"],
                            ["gz", "tgz", "zipfix"], ["zip", "zipfix"], ["cfile", "mem"]])
        pre, writes, reads = [], [], []

        def value(binary):
            d = gen.value_desc(rng, binary, 0.05)
            if not binary and rng.random() < 0.1:
                d = ["lit", 0, rng.choice(["\r", "\r\n", "\n", "a\rb", "\u2028", "\x85\n", "x\r\n\r\ny", "\ufeff", "😀", "\x1c\x1d\x0b", "end\r"])]
            return d
        dests = []           # (src kinds, path, member)
        for k in kinds:
            if k in ("cfile", "bfile"):
                for i in range(rng.choice([1, 2])):
                    p = rng.choice(["f.txt", "new/dir/f.txt", "fü.txt", "other"]) if i == 0 else "g.txt"
                    dests.append((k, p, None))
            elif k == "zip":
                for m in rng.sample(["m0", "d/m1", "mü", "M0"], rng.choice([1, 2, 3])):
                    dests.append(("zip", "z.zip", m))
        for _ in range(rng.choice([1, 2, 3, 5]) if dests else 0):
            k, p, m = rng.choice(dests)
            binary = k != "cfile"
            extra = {"bad": rng.choice(["type", "surrogate"]), "sur": rng.choice(["ok \ud800 bad", "caf\udce9", "\udfff"])} if rng.random() < 0.08 else {}
            writes.append(step("w", sink=k, path=p, member=m, value=value(binary), binary=binary, as_str=rng.random() < 0.3,
                               mode=rng.choice(["whole", "whole", "chunks", "lines"]), flush=rng.random() < 0.3,
                               cuts=[rng.randrange(1001) for _ in range(rng.choice([0, 1, 3, 10]))], **extra))
        if "mem" in kinds:
            for _ in range(rng.choice([1, 2, 3])):
                sk = rng.choice(["string", "buffer", "nowhere"])
                writes.append(step("mem", sink=sk, values=[value(sk == "buffer") for _ in range(rng.choice([1, 2]))], binary=sk == "buffer",
                                   mode=rng.choice(["whole", "chunks", "lines"]), cuts=[rng.randrange(1001) for _ in range(3)]))
                writes.append(step("str", value=value(False), how=rng.choice(["string", "nowhere"])))
        enc = rng.choice([None, None, None, "latin-1", "utf-16", "utf-8"])

        def enc_value():
            if enc in ("latin-1",):
                return gen.value_desc(rng, False, 0.04, ["a", "cr", "crlf", "nl"])
            if enc is None and rng.random() < 0.08:
                return None
            return value(False)
        for k in kinds:
            if k == "gz":
                v = enc_value()
                f = {"do": "gz", "path": "x.gz", "v": v or value(True), "level": rng.choice([0, 1, 6]), "parts": rng.choice([1, 1, 1, 2, 3])}
                if v:
                    f["enc"] = enc or "utf-8"
                pre.append(f)
            if k in ("tgz", "zipfix"):
                ms = []
                te = enc if enc != "utf-16" else None
                for i, n in enumerate(rng.sample(["a", "b/c.txt", "é", "empty", "z"], rng.choice([1, 2, 3]))):
                    v = value(False) if k == "zipfix" else gen.value_desc(rng, False, 0.04, ["a", "cr", "crlf"]) if te == "latin-1" else enc_value()
                    m = {"name": n, "v": v or value(True)}
                    if v:
                        m["enc"] = (te or "utf-8") if k == "tgz" else "utf-8"
                    if k == "zipfix":
                        m["method"] = rng.choice([0, 8])
                    ms.append(m)
                if k == "tgz" and rng.random() < 0.25:
                    # a member which has no content
                    ms.insert(rng.randrange(len(ms) + 1), {"name": "dir", "type": "dir"})
                f = {"do": "tgz" if k == "tgz" else "zip", "path": "x.tgz" if k == "tgz" else rng.choice(["z.zip", "y.zip"]), "members": ms}
                if k == "tgz":
                    f["format"] = rng.choice(["pax", "gnu"]) if te is None else "pax"
                    f["level"] = rng.choice([0, 6])
                elif rng.random() < 0.2:
                    f["comment"] = rng.choice([1, 100])
                pre.append(f)
        targets = []
        for k, p, m in dests:
            targets += {"cfile": [("cfile", p, None), ("cbfile", p, None), ("bfile", p, None)], "bfile": [("bfile", p, None), ("cfile", p, None), ("cbfile", p, None)],
                        "zip": [("czip", p, m), ("bzip", p, m), ("cbzip", p, m)]}[k]
        for f in pre:
            if f["do"] == "gz":
                targets += [("gz", f["path"], None)] * 2
            for m in f.get("members", ()):
                targets += [("tgz", f["path"], m["name"])] if f["do"] == "tgz" else [("czip", f["path"], m["name"]), ("bzip", f["path"], m["name"])]
        for _ in range(rng.choice([2, 3, 5]) if targets else 0):
            k, p, m = rng.choice(targets)
            mode = rng.choice(["all", "all", "chunks", "readline", "iter", "readlines", "empty", "empty"] if k in CHAR else ["all", "all", "chunks", "iter", "size", "empty"])
            r = step("r", src=k, path=p, member=m, mode=mode, n=rng.choice([1, 2, 7, 100, 4096, 8192, 100000]), as_str=rng.random() < 0.3,
                     open_zip=k in ("czip", "bzip", "cbzip") and rng.random() < 0.4)
            if r["n"] < 7:
                r["limit"] = 200   # many tiny reads of a big value cost a lot
            e = enc if k == "gz" else enc if k == "tgz" and enc != "utf-16" else None
            if e:
                r["enc"] = e
            reads.append(r)
        if rng.random() < 0.25:
            # the same files under other names
            links = {}
            for st in writes + reads:
                p = st.get("path")
                if p and "/" not in p and rng.random() < 0.6 and st["op"] in ("w", "r"):
                    st["via"] = links.setdefault(p, "links/" + p)
            if links and writes:
                writes.insert(0, step("link", links=links))
            elif links:
                reads.insert(0, step("link", links=links))
        if rng.random() < 0.5:
            # sinks and sources are objects which may be used again
            for st in writes + reads:
                if st["op"] in ("w", "r") and not st.get("open_zip"):
                    st["keep"] = True
        again = [st for st in reads if st["op"] == "r"]
        if again and rng.random() < 0.4:
            # written, read, written and read again; archives made elsewhere are replaced in between
            steps = writes + reads
            for f in pre:
                if rng.random() < 0.6:
                    g = dict(f)
                    if "members" in f:
                        g["members"] = [dict(m, v=value(False) if m.get("enc") == "utf-8" else m["v"]) if "v" in m else m for m in f["members"] if rng.random() < 0.7][::rng.choice([1, -1])]
                    elif f.get("enc") in (None, "utf-8"):
                        g["v"] = value(False)
                    steps.append(step("fix", fix=g))
            first = [st for st in writes if st["op"] == "w" and rng.random() < 0.6]
            steps += [dict(st, id=step("w")["id"], value=value(st["binary"])) for st in first]
            steps += [dict(st, id=step("r")["id"]) for st in again]
            phases = [{"actors": [steps], "pre": pre}]
        elif not writes:
            phases = [{"actors": [reads], "pre": pre}]
        else:
            phases = [{"actors": [writes], "pre": pre}, {"actors": [reads]}]
        return {"env": env, "phases": phases}

    # ---- operations ----
    def _write(self, sink, v, st):
        m = st["mode"]
        if m == "whole":
            sink.write(v)
            return
        with sink.open() as out:
            ps = pieces(v, st["cuts"]) if not st.get("bad") else [v]
            if m == "lines":
                out.writelines(ps)
            else:
                for x in ps:
                    out.write(x)
                    if st.get("flush"):
                        out.flush()

    @staticmethod
    def kept(ctx, st, make):
        if not st.get("keep"):
            return make(ctx, st)
        key = ("kept", make.__name__) + tuple(st.get(k) for k in ("sink", "src", "path", "via", "member", "enc", "as_str"))
        if key not in ctx.v:
            ctx.v[key] = make(ctx, st)
        return ctx.v[key]

    def op_fix(self, ctx, st):
        with harness_code(ctx):
            corrupt.make_archive(st["fix"]["do"], os.path.join(ctx.root, st["fix"]["path"]), st["fix"])

    def op_w(self, ctx, st):
        v = gen.value(st["value"], st["binary"])
        if st.get("bad"):
            v = 17 if st["bad"] == "type" or st["binary"] else st.get("sur", "ok \ud800 bad")
        self._write(self.kept(ctx, st, make_sink), v, st)

    def op_link(self, ctx, st):
        with harness_code(ctx):
            os.makedirs(os.path.join(ctx.root, "links"), exist_ok=True)
            for p, l in st["links"].items():
                os.symlink("../" + p, os.path.join(ctx.root, l))

    def op_mem(self, ctx, st):
        s = make_sink(ctx, st)
        out = []
        for d in st["values"]:
            self._write(s, gen.value(d, st["binary"]), st)
            if st["sink"] != "nowhere":
                out.append(tok(s.last_bytes_written if st["binary"] else s.last_string_written))
        return out

    def op_str(self, ctx, st):
        t = gen.text(st["value"]) if st["how"] == "string" else ""
        s = CharSource.from_string(t) if st["how"] == "string" else CharSource.from_nowhere()
        with s.open() as f:
            inc = "".join(iter(lambda: f.read(5), ""))
        with s.open() as f:
            li = list(f)
        return [tok(s.read_all()) == tok(t), tok(inc) == tok(t), li == t.split("\n") or "".join(li) == t and all(x.count("\n") <= 1 for x in li),
                s.readlines() == split_lines(t), s.is_empty() == (t == ""), tok(s.read_all()) == tok(t)]

    def op_r(self, ctx, st):
        zf = None
        if st.get("open_zip"):
            zf = ZipFile(os.path.join(ctx.root, st.get("via") or st["path"]), "r")
        try:
            return self._read(make_source(ctx, st, zf) if zf is not None else self.kept(ctx, st, make_source), st)
        finally:
            if zf is not None:
                zf.close()

    def _read(self, s, st):
        mode, char = st["mode"], st["src"] in CHAR
        got = []
        try:
            if mode == "all":
                got.append(s.read_all() if char else s.read())
            elif mode == "size":
                got.append(s.read(st["n"]))
            elif mode == "empty":
                if not hasattr(s, "is_empty"):
                    return SKIP
                return {"empty": s.is_empty()}
            elif mode == "readlines":
                return {"lines": tok(repr(s.readlines()))}
            else:
                with s.open() as f:
                    if mode == "chunks":
                        n, c = st["n"], 0
                        while True:
                            x = f.read(n)
                            if not x:
                                break
                            got.append(x)
                            c += 1
                            if c == st.get("limit"):
                                n = 1 << 20
                    elif mode == "readline":
                        while True:
                            x = f.readline()
                            if not x:
                                break
                            got.append(x)
                    else:
                        for x in f:
                            got.append(x)
        except BaseException as e:
            j = ("" if char else b"").join(got)
            return {"exc": describe_exc(e), "got": len(j), "tok": tok(j)}
        j = ("" if char else b"").join(got)
        r = {"tok": tok(j)}
        if mode in ("readline", "iter"):
            # every piece but the last ends with its only newline
            nl = "\n" if char else b"\n"
            r["broken"] = [i for i, x in enumerate(got) if nl in x[:-1] or (i < len(got) - 1 and not x.endswith(nl))][:3]
        return r

    # ---- faults ----
    def variants(self, rng, sc, h, tier):
        import copy
        out = []
        wr = {st["id"] for st in sc["phases"][0]["actors"][0] if st["op"] == "w"}
        rd = {st["id"] for ph in sc["phases"] for st in ph["actors"][0] if st["op"] == "r"}
        w = [o for o in h.ops if o.step in wr]
        r = [o for o in h.ops if o.step in rd]
        # nothing in a gzip file of several parts tells that whole parts are missing
        arch = [f["path"] for f in sc["phases"][0].get("pre", ()) if f.get("parts", 1) == 1]
        single = len(sc["phases"]) == 1
        arch += [st["path"] for st in sc["phases"][0]["actors"][0] if st["op"] == "w" and st["sink"] == "zip" and not single]
        for _ in range(5 if tier == "quick" else 9):
            s, fs = copy.deepcopy(sc), []
            what = rng.choice(["w", "r", "r", "damage", "damage", "mix"])
            if what in ("w", "mix") and w:
                for _ in range(rng.choice([1, 1, 2])):
                    fs.append(gen.place_fault(rng, w, ["ERR", "ERR", "QUOTA", "SHORT", "EINTR", "SIGINT"]))
            if what in ("r", "mix") and r:
                for _ in range(rng.choice([1, 1, 2])):
                    fs.append(gen.place_fault(rng, r, ["ERR", "ERR", "SHORT", "EINTR"]))
            fs = [f for f in fs if f]
            if what in ("damage", "mix") and arch:
                c = corrupt.random_corruption(rng, rng.choice(arch))
                if not (c["do"] == "append" or (c["do"] == "truncate" and c["keep"] >= 0 and c["keep"] < 100)):
                    if c["do"] == "truncate":
                        c["min"] = 1
                        c["keep"] = rng.choice([-rng.randrange(1, 60), -rng.randrange(1, 2000), rng.randrange(1, 1 << 30)])
                    s["phases"][-1].setdefault("pre", []).append(c)
            s = gen.with_faults(s, fs)
            if fs or what in ("damage", "mix"):
                out.append(s)
        return out

    # ---- oracle ----
    def check(self, sc, h):
        state = {}         # (path, member) -> bytes
        self.older = {}    # superseded versions, which stay inside a zip file and reappear if the newest is hidden by damage
        shaky = set()      # archives which a failed or damaged operation may have left unreadable
        unknown = set()    # destinations whose content is not determined
        damaged = set()
        for pi, ph in enumerate(sc["phases"]):
            hard = [f for f, n in zip(ph.get("faults", ()), h.fault_fired[pi]) if n and f["kind"] not in ("SHORT", "EINTR", "CLOCK")]
            for f in ph.get("pre", ()):
                if f["do"] == "gz":
                    state[(f["path"], None)] = corrupt.member_bytes(f)
                elif f["do"] in ("tgz", "zip"):
                    for m in f["members"]:
                        if "v" in m:
                            state[(f["path"], m["name"])] = corrupt.member_bytes(m)
                else:
                    damaged.add(f["path"])
            for st in ph["actors"][0]:
                ev = h.end_of(st["id"])
                if ev is None:
                    return [("lost-step", f"step {st['id']} did not finish")]
                if skipped(ev) or st["op"] == "link":
                    continue
                e = ev["e"]
                if st["op"] == "fix":
                    f = st["fix"]
                    for d in [d for d in state if d[0] == f["path"]]:
                        del state[d]
                    for m in f.get("members", [dict(f, name=None)]):
                        if "v" in m:
                            state[(f["path"], m["name"])] = corrupt.member_bytes(m)
                    shaky.discard(f["path"])
                    damaged.discard(f["path"])
                    unknown -= {d for d in unknown if d[0] == f["path"]}
                    continue
                if st["op"] == "w":
                    d = (st["path"], st["member"])
                    v = self.on_write(st, d, e, hard, state, shaky, unknown, damaged)
                elif st["op"] == "mem":
                    want = [tok(gen.value(x, st["binary"])) for x in st["values"]] if st["sink"] != "nowhere" else []
                    v = ("memory-sink-raised", f"{st['sink']}: {e['type']}: {e['msg']}") if e else \
                        ("memory-sink-wrong", f"{st['sink']} sink holds {ev['v']}, written {want}") if ev["v"] != want else None
                elif st["op"] == "str":
                    v = ("string-source", f"{e or ev['v']}") if e or not all(ev["v"]) else None
                else:
                    v = self.on_read(st, ev, e, hard, state, shaky, unknown, damaged)
                if v:
                    return [(v[0], f"step {st['id']}: {v[1]}")]
        return []

    def on_write(self, st, d, e, hard, state, shaky, unknown, damaged):
        if e is None:
            if st.get("bad"):
                return "bad-write-accepted", f"writing a value of the wrong type to {d} was accepted"
            v = gen.value(st["value"], st["binary"])
            v = v if st["binary"] else v.encode("utf-8")
            if st["sink"] == "zip" and d in state:
                self.older.setdefault(d, []).append(state[d])
            state[d] = v
            unknown.discard(d)
            return None
        if not st.get("bad") and not hard and d[0] not in shaky and d[0] not in damaged:
            return "write-raised", f"{e['type']}: {e['msg']} with no fault"
        unknown.add(d)
        if st["sink"] == "zip":
            shaky.add(d[0])
            self.older.setdefault(d, []).append(None)
            # the entries of an archive which could not be written are true or unreadable
        return None

    def on_read(self, st, ev, e, hard, state, shaky, unknown, damaged):
        d = (st["path"], st["member"])
        r = self.on_read_of(state.get(d), st, ev, e, hard, shaky, unknown, damaged)
        if r and d[0] in damaged:
            # of a write which failed any part may be there
            if any(w is None or self.on_read_of(w, st, ev, e, hard, shaky, unknown, damaged) is None for w in self.older.get(d, ())):
                return None
        return r

    def on_read_of(self, want, st, ev, e, hard, shaky, unknown, damaged):
        d = (st["path"], st["member"])
        may_fail = bool(hard) or d[0] in shaky or d[0] in damaged
        if d in unknown:
            return None
        if want is None:
            # never written: there is nothing to read
            if e is None and not ev["v"].get("exc") and not (d[0] in shaky):
                return "read-of-nothing", f"reading {d}, which was never written, gave {ev['v']}"
            return None
        char = st["src"] in CHAR
        if char:
            try:
                want = want.decode(st.get("enc") or "utf-8")
            except UnicodeDecodeError:
                if e is None and not ev["v"].get("exc") and st["mode"] != "empty":
                    return "undecodable-accepted", f"{st['src']} {d} gave {ev['v']} for bytes which are not text"
                return None
        x = e or ev["v"].get("exc")
        if x:
            if not may_fail:
                return "read-raised", f"{st['src']} {d} {st['mode']}: {x['type']}: {x['msg']} with no fault"
            if e is None and d[0] not in damaged:
                g = ev["v"]["got"]
                if tok(want[:g]) != ev["v"]["tok"]:
                    return "wrong-before-error", f"{st['src']} {d} gave {g} units which are not what was written before raising {x['type']}"
            return None
        v = ev["v"]
        if "empty" in v:
            # the first unit is read before a checksum can be verified
            if v["empty"] != (len(want) == 0) and (v["empty"] or d[0] not in damaged):
                return "is-empty-wrong", f"{st['src']} {d}: is_empty() is {v['empty']} for {len(want)} units"
            return None
        if "lines" in v:
            if v["lines"] != tok(repr(split_lines(want))):
                return "lines-wrong", f"{st['src']} {d}: readlines() differs from the text broken at newlines"
            return None
        if st["mode"] == "size":
            if d[0] not in damaged and v["tok"] != tok(want[:st["n"]]):
                return "read-size-wrong", f"{st['src']} {d}: read({st['n']}) gave {v['tok']}, expected {tok(want[:st['n']])}"
            return None
        if v["tok"] != tok(want):
            return "content-wrong", f"{st['src']} {d} {st['mode']} gave {v['tok']}, written {tok(want)}"
        if v.get("broken"):
            return "lines-broken", f"{st['src']} {d} {st['mode']}: pieces {v['broken']} are not lines ended by newline"
        return None


PROP = C05()
