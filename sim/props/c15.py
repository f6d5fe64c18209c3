"""C15: lists of lines and paths, maps of identifiers to files, stored objects."""
import gzip
import io
import json
import os
import pickle
import tarfile
import zipfile
from pathlib import Path

import gen
from core import Prop, harness_code
from props.common import show

from vistautils.io_utils import ByteSource, CharSink, CharSource, file_lines_to_set, read_doc_id_to_file_map, write_doc_id_to_file_map
from vistautils.parameters import Parameters

WORDS = ["\ufeffbom", "a", "b", "doc1", "doc2", "some/file.txt", "/abs/path", "with space", "\u00e9t\u00e9", "\u65e5\u672c", "\U0001f600", "a\u2028b", "a\u2029b", "a\u0085b", "a\x0bb", "a\x0cb", "a\x1cb", "a\x1eb", "a\u00a0b",
         "Doc1", "B", "a #1.txt", "a# b", "x //y", "a;b", "~", "~/x", "$HOME/y", "${a}", "{b}", "a%20b", '"quoted"', "two  blanks", "back\\slash", "*.txt", "a=b", "file:///x", "C:\\x", "x/", "x/.", "N/A", "None", "0", "x#y", "a,b", "..", "../up", "sub/../x", "a/b/../../c.txt", "./here", "%x%", "'q'", "k=v", "-", "e\u0301", "\u00c9"]


class _Bytes(ByteSource):
    def __init__(self, b):
        self.b = b

    def open(self):
        return io.BytesIO(self.b)

    def is_empty(self):
        return not self.b


ODD = ["x ", " x", "x\t", "x\ty", "x\ny", "\n", "\u2003x", "x\x85", "", " ", "x\u2028", "\u00a0"]


class C15(Prop):
    id = "C15"
    keep_ops = ("put",)

    def word(self, rng):
        w = rng.choice(WORDS)
        r = rng.random()
        if r < 0.25:
            w += str(rng.randrange(1000))
        elif r < 0.27:
            w = w + "l" * rng.choice([500, 8191, 8192, 70000])
        elif r < 0.34:
            w = rng.choice(["#", "# ", ";", "%", "!", "\"", "'", "- ", "~", "$", "=", "[", "\ufeff", "REM ", "--"]) + w
        return w

    def lines(self, rng, kind):
        n = rng.choice([0, 1, 2, 3, 6, 12]) if rng.random() < 0.95 else rng.choice([300, 2000])
        out = []
        keys = set()
        for i in range(n):
            r = rng.random()
            if kind == "paths":
                if r < 0.12:
                    out.append(rng.choice(["", "", "  ", "\t"]))
                elif r < 0.24:
                    out.append(rng.choice(["# comment", "  # indented", "#", "#\u2028x", "\t#t"]))
                else:
                    out.append(rng.choice(["", "", "", " ", "\t"]) + self.word(rng) + rng.choice(["", "", "", " ", "\t"]))
            elif kind == "lines":
                out.append("" if r < 0.15 else rng.choice(["", "", " "]) + self.word(rng) + rng.choice(["", "", "  "]))
            else:
                k = self.word(rng)
                if k in keys:
                    k += f"-{i}"
                keys.add(k)
                if r < 0.01:
                    out.append(rng.choice([k, k + "\ta\tb", "" if kind == "pmap" else k]))
                else:
                    out.append(rng.choice(["", "", " "]) + k + rng.choice(["", "", " "]) + "\t" + rng.choice(["", "", " "]) + self.word(rng) + rng.choice(["", "", " "]))
        return out

    def cases(self, rng, tier):
        env = gen.benign_env(rng, 0.6)
        sid = [0]

        def step(op, **k):
            sid[0] += 1
            return dict(id=sid[0], op=op, **k)
        steps = []
        for _ in range(rng.choice([1, 2, 3])):
            kind = rng.choice(["lines", "paths", "paths", "pmap", "pmap", "docmap", "docmap", "docwrite", "docwrite", "pickle"])
            f = rng.choice(["f.txt", "d/f.txt", "\u00e9 x/g"])
            for _ in range(rng.choice([1, 1, 2])):
                if kind == "docwrite":
                    m = {}
                    for _ in range(rng.choice([0, 1, 2, 5, 12]) if rng.random() < 0.95 else 700):
                        m[self.word(rng) + rng.choice(["", str(rng.randrange(100))])] = self.word(rng)
                    items = list(m.items())
                    if rng.random() < 0.12:     # what the format cannot hold, it must refuse
                        odd = rng.choice(ODD)
                        items.append([odd, self.word(rng)] if rng.random() < 0.6 and odd not in m else ["odd", "dir/" + odd])
                    rng.shuffle(items)
                    steps.append(step("docwrite", f=f, items=items, to=rng.choice(["file", "file", "string"])))
                    continue
                put = step("put", f=f, kind=kind)
                if kind == "pickle":
                    put["obj"] = rng.choice([1, "x", [1, 2, 3], ["y" * 30000], ["z" * 150000, "\u00e9" * 70000], {"k": [1.5, None]}, list(range(3000)), "\u00e9"])
                    put["proto"] = rng.choice([0, 2, 4, 5])
                    put["cut"] = rng.random() < 0.08
                else:
                    put.update(lines=self.lines(rng, kind), nl=rng.choice(["\n", "\n", "\r\n"]), final=rng.random() < 0.7, bad=rng.random() < 0.04, as_=rng.choice(["file", "file", "gz", "zip", "tgz", "string", "bytes"]) if kind == "docmap" else "file")
                    if rng.random() < 0.02 and put["as_"] not in ("string", "bytes"):
                        put["missing"] = True
                steps.append(put)
                steps.append(step("read", f=f, kind=kind, as_=put.get("as_"), rel=rng.choice([None, None, "/base/dir", "relative"]), log=rng.choice([None, "things"]),
                                  inline=[self.word(rng).strip() for _ in range(3)] if kind == "paths" and rng.random() < 0.1 else None))
        return {"env": env, "phases": [{"actors": [steps]}]}

    def body(self, st):
        if st["kind"] == "pickle":
            b = pickle.dumps(st["obj"], protocol=st["proto"])
            return b[:len(b) // 2] if st["cut"] else b
        t = st["nl"].join(st["lines"]) + (st["nl"] if st["final"] and st["lines"] else "")
        b = t.encode()
        if st["bad"]:
            i = len(b) // 2
            b = b[:i] + b"\xff\xfe" + b[i:]
        return b

    def op_put(self, ctx, st):
        with harness_code(ctx):
            p = os.path.join(ctx.root, st["f"])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if os.path.exists(p):
                os.unlink(p)
            if st.get("missing"):
                return {}
            b = self.body(st)
            as_ = st.get("as_", "file")
            if as_ in ("string", "bytes"):
                ctx.v["text"] = b
            elif as_ == "gz":
                with open(p, "wb") as f:
                    with gzip.GzipFile(fileobj=f, mode="wb", mtime=1) as g:
                        g.write(b)
            elif as_ == "zip":
                with zipfile.ZipFile(p, "w", zipfile.ZIP_DEFLATED) as z:
                    z.writestr(zipfile.ZipInfo("in/side.txt"), b)
            elif as_ == "tgz":
                with open(p, "wb") as f, gzip.GzipFile(fileobj=f, mode="wb", mtime=1) as g, tarfile.open(fileobj=g, mode="w") as t:
                    ti = tarfile.TarInfo("in/side.txt")
                    ti.size = len(b)
                    t.addfile(ti, io.BytesIO(b))
            else:
                with open(p, "wb") as f:
                    f.write(b)
        return {}

    def op_docwrite(self, ctx, st):
        with harness_code(ctx):
            os.chdir(ctx.root)
        p = os.path.join(ctx.root, st["f"])
        sink = CharSink.to_string() if st["to"] == "string" else CharSink.to_file(p)
        m = {k: Path(v) for k, v in st["items"]}
        before = list(m.items())
        try:
            write_doc_id_to_file_map(m, sink)
        except ValueError as e:
            return {"refused": str(e)}
        out = {"same": list(m.items()) == before}
        src = CharSource.from_string(sink.last_string_written) if st["to"] == "string" else CharSource.from_file(Path(p))
        out["back"] = [[k, self.rel(ctx, v)] for k, v in read_doc_id_to_file_map(src).items()]
        return out

    def rel(self, ctx, v):
        assert isinstance(v, Path), repr(v)
        return str(v).replace(ctx.root, "ROOT")

    def op_read(self, ctx, st):
        with harness_code(ctx):
            os.chdir(ctx.root)
        p = os.path.join(ctx.root, st["f"])
        k = st["kind"]
        if k == "lines":
            return {"r": list(file_lines_to_set(Path(p)))}
        if k == "docmap":
            a = st["as_"]
            if a in ("string", "bytes"):
                b = ctx.v.get("text", b"")
                src = CharSource.from_string(b.decode()) if a == "string" else CharSource.from_byte_source(_Bytes(b), encoding="utf-8")
            elif a == "gz":
                src = CharSource.from_gzipped_file(Path(p), "utf-8")
            elif a == "zip":
                src = CharSource.from_file_in_zip(Path(p), "in/side.txt")
            elif a == "tgz":
                src = CharSource.from_file_in_tgz(Path(p), "in/side.txt", "utf-8")
            else:
                src = CharSource.from_file(p)
            return {"r": [[a, self.rel(ctx, b)] for a, b in read_doc_id_to_file_map(src).items()]}
        params = Parameters.from_mapping({"p": st["inline"] or p})
        kw = {}
        if st["rel"]:
            kw["resolve_relative_to"] = Path(st["rel"])
        if st["log"]:
            kw["log_name"] = st["log"]
        if k == "paths":
            return {"r": [self.rel(ctx, x) for x in params.path_list_from_file("p", **kw)]}
        if k == "pmap":
            return {"r": [[a, self.rel(ctx, b)] for a, b in params.path_map_from_file("p", **kw).items()]}
        return {"r": params.pickled_object_from_file("p")}

    def variants(self, rng, sc, h, tier):
        out = []
        if not h.ops:
            return out
        io_ = [o for o in h.ops if o.cls in ("READ", "WRITE", "CLOSE")]
        for _ in range(6 if tier == "quick" else 14):
            fs = [gen.place_fault(rng, io_ if io_ and rng.random() < 0.7 else h.ops, ["ERR", "ERR", "SHORT", "SHORT", "EINTR", "SIGINT"]) for _ in range(rng.choice([1, 1, 2]))]
            if any(fs):
                out.append(gen.with_faults(sc, [f for f in fs if f]))
        return out

    def expect(self, put, st):
        """the value, or an exception's reason as Bad"""
        if st.get("inline"):
            return [str(Path(st["rel"]) / x.strip()) if st["rel"] else str(Path(x.strip())) for x in st["inline"]]
        if put is None or put.get("missing") and put.get("as_") not in ("string", "bytes"):
            raise LookupError("missing")
        if put["kind"] == "pickle":
            if put["cut"]:
                raise LookupError("cut short")
            return put["obj"]
        if put["bad"]:
            raise LookupError("undecodable")
        lines = put["lines"]
        k = st["kind"]
        rel = lambda x: str(Path(st["rel"]) / x) if st["rel"] and k != "docmap" else str(Path(x))
        if k == "lines":
            out = []
            for x in lines:
                if x and x not in out:
                    out.append(x)
            return out
        if k == "paths":
            return [rel(x.strip()) for x in lines if x.strip() and not x.strip().startswith("#")]
        out = {}
        if lines and lines[-1] == "" and not put["final"]:
            lines = lines[:-1]
        for x in lines:
            parts = x.split("\t")
            if len(parts) != 2:
                raise LookupError("malformed line")
            out[parts[0].strip()] = rel(parts[1].strip())
        return [[a, b] for a, b in out.items()]

    def check(self, sc, h):
        pr = h.extra.setdefault("probes", {})
        ph = sc["phases"][0]
        fired = [f for f, n in zip(ph.get("faults", ()), h.fault_fired[0]) if n and f["kind"] not in ("SHORT", "EINTR")]
        files = {}
        text = None
        for st in ph["actors"][0]:
            ev = h.end_of(st["id"])
            if ev is None:
                return [("lost-step", f"step {st['id']} did not finish")]
            faulted = any(f["step"] == st["id"] or f.get("count", 1) > 1 and f["step"] <= st["id"] for f in fired)
            if st["op"] == "put":
                if st.get("as_") in ("string", "bytes") and not st.get("missing"):
                    text = st
                files[st["f"]] = st
                continue
            if st["op"] == "docwrite":
                files.pop(st["f"], None)
                k = "docwrite " + ("ok" if ev["e"] is None else "failed")
                pr[k] = pr.get(k, 0) + 1
                if ev["e"] is not None:
                    if not faulted:
                        return [("raised", f"writing and reading a map raised {ev['e']['type']}: {ev['e']['msg']} with no fault")]
                    continue
                if "refused" in ev["v"]:
                    if not any(o in (k, v[4:]) for o in ODD for k, v in st["items"]):
                        return [("refused", f"a map which the format can hold was refused: {ev['v']['refused']}")]
                    continue
                want = [[k, v if v.startswith("/") else os.path.join("ROOT", str(Path(v)))] for k, v in sorted(dict(st["items"]).items())]
                if ev["v"]["back"] != want:
                    return [("wrong", f"written {show(want, 400)}, read {show(ev['v']['back'], 400)}")]
                if not ev["v"]["same"]:
                    return [("changed", "writing changed the map")]
                continue
            put = files.get(st["f"])
            if st["kind"] == "docmap" and st["as_"] in ("string", "bytes"):
                put = text
            k = st["kind"] + (" ok" if ev["e"] is None else " failed")
            pr[k] = pr.get(k, 0) + 1
            try:
                if put is not None and put["kind"] != st["kind"] and not st.get("inline"):
                    continue  # left over after minimisation
                want = self.expect(put, st)
            except LookupError as e:
                if ev["e"] is None:
                    return [("not-refused", f"reading {st['kind']} from a file ({e}) gave {show(ev['v'])}")]
                continue
            if ev["e"] is not None:
                if not faulted:
                    return [("raised", f"reading {st['kind']} raised {ev['e']['type']}: {ev['e']['msg'][:200]} {ev['e']['chain']} with no fault; expected {show(want)}")]
                continue
            if json.dumps(ev["v"]["r"]) != json.dumps(want):
                return [("wrong", f"{st['kind']}: got {show(ev['v']['r'], 500)}, expected {show(want, 500)}")]
        return []


PROP = C15()
