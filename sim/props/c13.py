"""C13: writing parameters and loading them back."""
import json
import os
from pathlib import Path, PurePosixPath

import gen
from core import Prop, harness_code
from props.common import show

from vistautils.io_utils import CharSink
from vistautils.parameters import Parameters, YAMLParametersLoader, YAMLParametersWriter

KEYS = ["a", "b", "c", "key", "Key", "x-y", "n_1", "with space", "yes", "no", "null", "~", "1", "1.5", "2020-01-01", "true", "<<", "=", "-", "- x", "?", "? q", ":", "a: b", "#c", "a #b",
        "\u00e9", "e\u0301", "\u65e5\u672c", "\U0001f600", "'q'", '"d"', "*a", "&a", "!t", "|", ">", "@", "`", "[", "]", "{", "}", ",", "%p", "\\", "tab\tx", "nl\nx", " lead", "trail ", "k" * 130,
        "long key " * 12, "0x1F", "0o7", "010", "1_000", "1:30", ".inf", ".nan", "---", "...", "on", "off", "y", "n", "\u2028", "\u0085", "\ufeff"]
STRS = KEYS + ["", " ", "\n", "\n\n", "a\n", "a\n\n", "\na", " \n", "a\n b\n", "a\n\n\nb", "line one\nline two\n", "trailing space \nx", "tab\t\n", "\r", "a\r\nb", "\x00", "\x07bell", "\x1b[0m", "\x7f",
               "100%", "50 % of", "%", "%%", "% a %", "word " * 40, "x" * 300, "a" * 77, "a" * 78, "a " * 39, ("word " * 15 + "\n") * 3, "\u00e9t\u00e9 " * 30, "'" * 100, '"' * 50, "\\n", "C:\\dir\\new",
               "/data/some dir/file.txt", "http://x.org/?a=b&c=d#e", "key: value", "- item\n- item2", "{a: 1}", "[1, 2]", "# comment", "x # y", "1e3", "1e+3", "1.0e+3", "-1", "+1", "0", "00", "-0", "0b1",
               "12:30:45", "2020-01-01T00:00:00Z", "2020-01-01 10:00:00", "NULL", "Null", "TRUE", "False", "nan", ".NaN", "-.INF", "inf", "!!python/object:x", "&anchor x", "*alias", "<<: *x",
               "  two lead", "two trail  ", "\ttab lead", "a  b   c", "a\u2028b", "a\u2029b", "a\u0085b", "\ufeffbom", "\ud83d\ude00".encode("utf-16", "surrogatepass").decode("utf-16"), "\uffff", "\U0010ffff", "a\u00a0b", "a:", ":a", "a,b", "?x", "-x", "x-"]
FLOATS = ["0.0", "-0.0", "1.5", "-2.25", "1e300", "5e-324", "1e16", "1e22", "123456789.123456789", "inf", "-inf", "nan", "0.1", "1e-7", "100000.0", "1e15"]
BAD = ["none", "bytes", "bytearray", "set", "obj", "purepath", "params_in_list", "nested_bytes", "range"]


def build(v):
    if isinstance(v, dict):
        (k, x), = v.items()
        if k in ("ns", "map"):
            return {a: build(b) for a, b in x}
        if k == "path":
            return Path(x)
        if k == "tuple":
            return tuple(build(y) for y in x)
        if k == "f":
            return float(x)
        if k == "bad":
            return {"none": None, "bytes": b"ab", "bytearray": bytearray(b"x"), "set": {1}, "obj": object(), "purepath": PurePosixPath("/x"), "params_in_list": [Parameters.from_mapping({"a": 1})],
                    "nested_bytes": ["ok", {"k": [b"x"]}], "range": range(3)}[x]
    if isinstance(v, list):
        return [build(x) for x in v]
    return v


def expect(v):
    """the picture of what must come back; maps keep their order"""
    if isinstance(v, dict):
        (k, x), = v.items()
        if k in ("ns", "map"):
            return {"ns": [[a, expect(b)] for a, b in x]}
        if k == "path":
            return str(Path(x))
        if k == "tuple":
            return [expect(y) for y in x]
        if k == "f":
            return {"f": repr(float(x))}
        if k == "bad":
            return [0, 1, 2] if x == "range" else None
    if isinstance(v, list):
        return [expect(x) for x in v]
    return v


def picture(p, in_list=False):
    if isinstance(p, Parameters):
        return {"ns": [[k, picture(v)] for k, v in p._data.items()]}
    if isinstance(p, dict):
        return {"ns": [[k, picture(v)] for k, v in p.items()]}
    if isinstance(p, (list, tuple)):
        return [picture(v) for v in p]
    if type(p) is float:
        return {"f": repr(p)}
    if p is None or type(p) in (str, int, bool):
        return p
    return {"odd": type(p).__name__ + " " + repr(p)[:80]}


def has_bad(v):
    if isinstance(v, dict):
        (k, x), = v.items()
        if k == "bad":
            return x != "range"
        return k in ("ns", "map") and any(has_bad(b) for _, b in x) or k == "tuple" and any(map(has_bad, x))
    return isinstance(v, list) and any(map(has_bad, v))


class C13(Prop):
    id = "C13"

    def value(self, rng, depth=0):
        r = rng.random()
        if r < 0.5:
            s = rng.choice(STRS)
            if rng.random() < 0.25:
                s = rng.choice(["", " ", "\n", "x ", "\u00e9"]) .join(rng.choice(STRS) for _ in range(rng.choice([2, 2, 5])))
            if rng.random() < 0.04:
                s = s * rng.choice([20, 3000 // (len(s) + 1) + 1])
            return s.replace("%", "% ") if s.count("%") > 1 else s
        if r < 0.62:
            return rng.choice([0, 1, -1, 7, 2 ** 31, 2 ** 64, -10 ** 30, True, False])
        if r < 0.72:
            return {"f": rng.choice(FLOATS) if rng.random() < 0.6 else repr(rng.uniform(-1, 1) * 10 ** rng.randint(-20, 20))}
        if r < 0.8:
            return {"path": rng.choice(["/data/x", "rel/y", "/with space/\u00e9", ".", "/", "a/../b", "~x", "/1", "null", "/long" * 30])}
        if depth > 2:
            return "x"
        items = [self.value(rng, depth + 1) for _ in range(rng.choice([0, 1, 2, 3, 3, 8]))]
        if rng.random() < 0.2:
            return {"tuple": items}
        if rng.random() < 0.2:
            items.append({"map": [[k, self.value(rng, depth + 1)] for k in rng.sample(KEYS, rng.choice([0, 1, 2]))]})
        return items

    def tree(self, rng, depth=0):
        n = rng.choice([0, 1, 2, 3, 5, 8] if depth == 0 else [0, 1, 2, 3])
        out = []
        for k in rng.sample(KEYS, n):
            if "." in k:
                k = k.replace(".", "_")
            if k in [x for x, _ in out]:
                continue
            if depth < 4 and rng.random() < 0.25:
                out.append([k, {"ns": self.tree(rng, depth + 1)}])
            else:
                out.append([k, self.value(rng)])
        if depth == 0 and rng.random() < 0.02:
            out.append(["big", [self.value(rng, 2) for _ in range(400)]])
        return out

    def cases(self, rng, tier):
        env = gen.benign_env(rng, 0.5)
        sid = [0]

        def step(op, **k):
            sid[0] += 1
            return dict(id=sid[0], op=op, **k)
        phases = []
        files = ["p.params", "out/p.params", "out/deep er/\u00e9/p.params", "q.yaml"]
        for ph in range(rng.choice([1, 1, 2, 3])):
            na = rng.choice([1, 1, 1, 2])
            actors = []
            for a in range(na):
                steps = []
                # concurrent actors use different files, which may share missing parents
                mine = [f for i, f in enumerate(files) if na == 1 or i % 2 == a]
                for _ in range(rng.choice([1, 2, 3])):
                    if rng.random() < 0.75 or not steps:
                        t = self.tree(rng)
                        if rng.random() < 0.06:
                            bad = {"bad": rng.choice(BAD)}
                            for _ in range(rng.choice([0, 0, 1, 2])):
                                bad = rng.choice([["x", bad], [bad], {"tuple": [1, bad]}, [{"map": [["a", "x"], ["b", bad]]}], {"ns": [["n", bad]]}])
                            t.insert(rng.randrange(len(t) + 1), ["bad", bad])
                        s = step("write", tree=t, to=rng.choice(mine), how=rng.choice(["path", "path", "str", "rel", "sink", "sink", "string", "nowhere"]), dup=rng.random() < 0.15)
                        steps.append(s)
                        if rng.random() < 0.7:
                            steps.append(step("load", f=s["to"], how=s["how"]))
                    else:
                        steps.append(step("load", f=rng.choice(mine), how="path"))
                actors.append(steps)
            p = {"actors": actors}
            if na > 1:
                p["switches"] = gen.random_switches(rng, na, 60)
            phases.append(p)
        return {"env": env, "phases": phases}

    def op_write(self, ctx, st):
        with harness_code(ctx):
            os.chdir(ctx.root)
        params = Parameters.from_mapping(build({"ns": st["tree"]}))
        p = os.path.join(ctx.root, st["to"])
        how = st["how"]
        if how == "sink":
            key = ("sink", st["to"])
            if key not in ctx.v or not st["dup"]:
                ctx.v[key] = CharSink.to_file(p)
            sink = ctx.v[key]
        elif how == "string":
            sink = ctx.v.setdefault("string", CharSink.to_string())
        elif how == "nowhere":
            sink = CharSink.to_nowhere()
        else:
            sink = Path(p) if how == "path" else p if how == "str" else st["to"]
        before = json.dumps(picture_any(params))
        w = ctx.v.setdefault("writer", YAMLParametersWriter())
        try:
            w.write(params, sink)
        finally:
            same = json.dumps(picture_any(params)) == before
            if not same:
                return {"changed": True}
        return {}

    def op_load(self, ctx, st):
        loader = ctx.v.setdefault("loader", YAMLParametersLoader())
        if st["how"] == "string":
            if "string" not in ctx.v or ctx.v["string"].last_string_written is None:
                return {"skip": True}
            return {"p": picture(loader.load_string(ctx.v["string"].last_string_written))}
        if st["how"] == "nowhere":
            return {"skip": True}
        with harness_code(ctx):
            if not os.path.exists(os.path.join(ctx.root, st["f"])):
                return {"skip": True}
        return {"p": picture(loader.load(os.path.join(ctx.root, st["f"])))}

    def variants(self, rng, sc, h, tier):
        out = []
        if not h.ops:
            return out
        wr = [o for o in h.ops if o.cls in ("WRITE", "CLOSE")]
        for _ in range(5 if tier == "quick" else 12):
            fs = []
            for _ in range(rng.choice([1, 1, 2])):
                fs.append(gen.place_fault(rng, wr if wr and rng.random() < 0.6 else h.ops, ["ERR", "ERR", "SHORT", "EINTR", "SIGINT", "QUOTA", "CRASH_BEFORE", "CRASH_AFTER", "CRASH_TORN"]))
            v = gen.with_faults(sc, [f for f in fs if f])
            for p in v["phases"]:
                if len(p["actors"]) > 1 and rng.random() < 0.5:
                    p["switches"] = gen.random_switches(rng, 2, 60)
            out.append(v)
        return out

    def check(self, sc, h):
        pr = h.extra.setdefault("probes", {})
        state = {}  # file -> tree of the last completed write, or "?" when unknown
        for pi, ph in enumerate(sc["phases"]):
            for ai, steps in enumerate(ph["actors"]):
                string = None
                # the disk is shared: once limited, any writer may find it full
                quota = any(f["kind"] == "QUOTA" and n for q in range(pi + 1) for f, n in zip(sc["phases"][q].get("faults", ()), h.fault_fired[q]))
                hard = [(f, n) for f, n in zip(ph.get("faults", ()), h.fault_fired[pi]) if n and f["kind"] not in ("SHORT", "EINTR") and f["actor"] == ai]
                for st in steps:
                    # a fault can be felt from the step it is placed in on
                    faulted = quota or any(f["step"] == st["id"] or f.get("count", 1) > 1 and f["step"] <= st["id"] for f, _ in hard)
                    ev = h.end_of(st["id"])
                    key = st.get("to") or st["f"]
                    if st["op"] == "write":
                        tofile = st["how"] not in ("string", "nowhere")
                        if ev is None:
                            if (pi, ai) not in h.crashed:
                                return [("lost-step", f"step {st['id']} did not finish")]
                            if tofile:
                                state[key] = "?"
                            string = "?"
                            break
                        if ev["v"] and ev["v"].get("changed"):
                            return [("changed", "writing changed the parameters which were written")]
                        if ev["e"] is None:
                            pr["write ok"] = pr.get("write ok", 0) + 1
                            if has_bad({"ns": st["tree"]}):
                                return [("not-refused", f"writing a value which is no parameter value succeeded: {show(st['tree'])}")]
                            if tofile:
                                for o in h.ops:
                                    if o.step == st["id"] and o.phase == pi and o.actor == ai and o.cls in ("WRITE", "CLOSE") and o.kind == "ERR" and o.err != 4 and o.path.endswith(os.path.basename(key)):
                                        return [("swallowed", f"writing {key} reported success although {o.cls} failed with errno {o.err}")]
                                state[key] = st["tree"]
                            elif st["how"] == "string":
                                string = st["tree"]
                        else:
                            pr["write failed"] = pr.get("write failed", 0) + 1
                            if tofile:
                                state[key] = "?"
                            elif st["how"] == "string":
                                string = "?"
                            if not faulted and not has_bad({"ns": st["tree"]}):
                                return [("raised", f"write raised {ev['e']['type']}: {ev['e']['msg']} {ev['e']['chain']} with no fault")]
                    else:
                        if ev is None:
                            if (pi, ai) not in h.crashed:
                                return [("lost-step", f"step {st['id']} did not finish")]
                            break
                        if ev["v"] and ev["v"].get("skip"):
                            if st["how"] not in ("string", "nowhere") and isinstance(state.get(key), list):
                                return [("lost", f"{key} does not exist although it was written")]
                            continue
                        want = string if st["how"] == "string" else state.get(key)
                        if ev["e"] is not None:
                            pr["load failed"] = pr.get("load failed", 0) + 1
                            if want != "?" and want is not None and not faulted:
                                return [("raised-load", f"loading what was written raised {ev['e']['type']}: {ev['e']['msg'][:200]} {ev['e']['chain']} with no fault; written {show(want)}")]
                            continue
                        if want is None or want == "?":
                            continue
                        pr["load ok"] = pr.get("load ok", 0) + 1
                        exp = expect({"ns": want})
                        if json.dumps(ev["v"]["p"]) != json.dumps(exp):
                            return [("wrong", f"{key}: written {show(exp, 500)}, loaded {show(ev['v']['p'], 500)}")]
        return []


def picture_any(p):
    """like picture, but for the tree being written, with the types and identities of its leaves"""
    if isinstance(p, Parameters):
        return {"P": [[k, picture_any(v)] for k, v in p._data.items()]}
    if isinstance(p, dict):
        return {"D": [[k, picture_any(v)] for k, v in p.items()]}
    if isinstance(p, (list, tuple)):
        return [type(p).__name__] + [picture_any(v) for v in p]
    return type(p).__name__ if type(p) is object else repr(p)


PROP = C13()
