"""C12: loading parameter files with includes, references, context and environment."""
import copy
import json
import os
import re
from pathlib import Path

import gen
from core import Prop, harness_code
from props.common import attempt, show

from vistautils.parameters import Parameters, YAMLParametersLoader

REF = re.compile(r"%([\w.\-]+)%")
NAMES = ["a", "b", "c", "dd", "path", "x1", "x-y", "Path", "n_1", "z"]
SPACES = ["ns", "m", "deep"]
ENVS = {"VS_ONE": "one", "VS_TWO": "two words", "VS_EMPTY": "", "a": "env-a", "ns": "env-ns", "VS_REF": "%a%", "VS_UNI": "\u00e9", "dd": "env-dd"}
STRS = ["plain", "", "two words", "\u00e9t\u00e9", "\u65e5\u672c", "a:b", "# no comment", "- x", "50%", "%", "100% of", "% a %", "yes", "1", "null", "tab\there", "line\nbreak",
        "'q'", '"dq"', "{x}", "[1]", "*star", "&and", "!tag", "back\\slash", " lead", "trail ", "a, b"]


class Bad(Exception):
    pass


# ---- the reference model; parameters are ordered lists of [key, value], a namespace is {"ns": [...]} ----
def get(tree, dotted):
    parts = dotted.split(".")
    for i, p in enumerate(parts):
        for k, v in tree:
            if k == p:
                break
        else:
            return None
        if i == len(parts) - 1:
            return v
        if not isinstance(v, dict):
            raise Bad("leaf used as a namespace")
        tree = v["ns"]


def unify(old, new):
    out = []
    nk = dict((k, v) for k, v in new)
    for k, v in old:
        if k in nk:
            n = nk[k]
            if isinstance(v, dict) != isinstance(n, dict):
                raise Bad("parameter and namespace")
            out.append([k, {"ns": unify(v["ns"], n["ns"])} if isinstance(v, dict) else n])
        else:
            out.append([k, v])
    ok = {k for k, _ in old}
    return out + [[k, v] for k, v in new if k not in ok]


def interpolate(own, merged, env):
    state = {}

    def lookup(name):
        v = get(own, name)
        if v is not None:
            return resolve(name, v)
        v = get(merged, name)
        if v is not None:
            return v
        if name in env and name not in [k for k, _ in merged]:
            return env[name]
        raise Bad(f"unknown {name}")

    def resolve(name, v):
        if isinstance(v, dict):
            return {"ns": [[k, resolve(f"{name}.{k}" if name else k, x)] for k, x in v["ns"]]}
        if not isinstance(v, str):
            return v
        if state.get(name) == "busy":
            raise Bad("cycle")
        if name in state:
            return state[name][0]
        state[name] = "busy"
        m = REF.fullmatch(v)
        if m:
            r = lookup(m.group(1))
        else:
            def sub(m):
                x = lookup(m.group(1))
                if not isinstance(x, str):
                    raise Bad("not a string")
                return x
            r = REF.sub(sub, v)
        state[name] = (r,)
        return r
    return [[k, resolve(k, v)] for k, v in own]


def model_load(files, rel, ctx, env, depth=0):
    if depth > 60:
        raise Bad("include cycle")
    f = files.get(rel)
    if f is None or "raw" in f:
        raise Bad(f"cannot load {rel}")
    merged = ctx
    for inc in f["inc"]:
        merged = unify(merged, model_load(files, os.path.normpath(os.path.join(os.path.dirname(rel), inc)) if not inc.startswith("/") else inc[1:], merged, env, depth + 1))
    return unify(merged, interpolate(f["data"], merged, env))


def to_yaml(rng, f, root):
    """own emitter, in several styles"""
    flow = f["style"] == "flow"
    out = []

    def scalar(v):
        if isinstance(v, str):
            return json.dumps(v, ensure_ascii=False)
        if isinstance(v, bool):
            return "true" if v else "false"
        if isinstance(v, list):
            return "[" + ", ".join(scalar(x) for x in v) + "]"
        if isinstance(v, dict) and "ns" in v:
            return "{" + ", ".join(f"{json.dumps(k)}: {scalar(x)}" for k, x in v["ns"]) + "}"
        return repr(v)

    def block(t, ind):
        for k, v in t:
            if isinstance(v, dict) and not flow and v["ns"]:
                out.append(f"{ind}{k}:")
                block(v["ns"], ind + "  ")
            else:
                out.append(f"{ind}{k}: {scalar(v)}")
    inc = [(root + i if i.startswith("/") else i) for i in f["inc"]]
    if f["style"] == "late":
        block(f["data"], "")
    if inc:
        if flow:
            out.append("_includes: " + json.dumps(inc))
        else:
            out.append("_includes:")
            out.extend("  - " + json.dumps(i) for i in inc)
    if f["style"] != "late":
        block(f["data"], "")
    if not out:
        out.append("{}")
    if f["style"] == "comments":
        out = [x for line in out for x in (line, "# a comment: %a%")]
    if f["style"] == "crlf":
        return "\r\n".join(out) + "\r\n"
    return "\n".join(out) + ("\n" if f["style"] != "nonl" else "")


class C12(Prop):
    id = "C12"
    keep_ops = ("put",)

    def gen_files(self, rng):
        files = {}
        names = ["main.params"]
        for i in range(rng.choice([0, 1, 1, 2, 3, 5])):
            names.append(rng.choice(["inc", "inc", "", "inc/sub", "other dir", "\u00e9", "$VS_ONE", "~", "${a}x"]) + f"/f{i}.params")
        names = [n.lstrip("/") for n in names]
        for i in reversed(range(len(names))):
            n = names[i]
            incs = []
            for j in range(i + 1, len(names)):
                if rng.random() < (0.6 if i == 0 else 0.35):
                    rel = os.path.relpath(names[j], os.path.dirname(n) or ".")
                    incs.append("/" + names[j] if rng.random() < 0.15 else "./" + rel if rng.random() < 0.1 else rel)
            rng.shuffle(incs)
            if incs and rng.random() < 0.15:
                # the same file again, after others: it overrides them
                incs.append(rng.choice(incs))
            if rng.random() < 0.012:
                incs.append("no/such.params")
            if rng.random() < 0.006:
                # a cycle (usually); first, so that little is loaded each time round
                incs.insert(0, "/" + rng.choice(names))
            files[n] = {"inc": incs, "data": self.gen_data(rng), "style": rng.choice(["block", "block", "flow", "late", "comments", "crlf", "nonl"])}
        r = rng.random()
        if r < 0.07:
            files[rng.choice(names)] = {"raw": rng.choice(["a: 1\n---\nb: 2\n", "a: 1\n...\n---\n{}\n", "# only a comment\n", "null\n", "BYTES", "BYTES2", "5\n",
                                                           "a: [1, 2\n", "- x\n- y\n", "", "just text", "1: x\n", "a: {1: 2}\n", "a.b: 1\n", "_includes: 5\n", "a: \u0001\n", "a: b: c\n", "\tx: 1\n", "BYTES", "DIR"])}
        return files

    def gen_data(self, rng):
        out = []
        used = rng.sample(NAMES, rng.choice([0, 1, 2, 3, 5]))
        spaces = rng.sample(SPACES, rng.choice([0, 0, 1, 2]))
        for k in used:
            out.append([k, self.gen_value(rng)])
        for s in spaces:
            sub = [[k, self.gen_value(rng)] for k in rng.sample(NAMES, rng.choice([0, 1, 2]))]
            if rng.random() < 0.3:
                sub.append(["inner", {"ns": [[k, self.gen_value(rng)] for k in rng.sample(NAMES, 2)]}])
            out.append([s, {"ns": sub}])
        if rng.random() < 0.02:
            out.append([rng.choice(SPACES), "leaf"])
        rng.shuffle(out)
        seen = set()
        return [x for x in out if not (x[0] in seen or seen.add(x[0]))]

    def gen_value(self, rng):
        r = rng.random()
        if r < 0.4:
            def ref():
                x = rng.random()
                if x < 0.03:
                    return "%nothing%"
                if x < 0.15:
                    return "%" + rng.choice(sorted(ENVS)) + "%"
                if x < 0.35:
                    return "%" + rng.choice(SPACES) + "." + rng.choice(NAMES) + "%"
                if x < 0.38:
                    return "%" + rng.choice(SPACES) + "%"
                return "%" + rng.choice(NAMES) + "%"
            f = rng.random()
            if f < 0.5:
                return ref()
            if f < 0.85:
                return rng.choice(["pre ", "", "/", "%"]) .replace("%", "5% ") + ref() + rng.choice(["", "/x", " post"])
            return rng.choice(["/", " and ", "", "-"]).join(ref() for _ in range(rng.choice([2, 2, 2, 3, 3, 5])))
        if r < 0.7:
            return rng.choice(STRS)
        if r < 0.85:
            return rng.choice([0, 1, -5, 2 ** 40, 1.5, -0.25, True, False, 0.0])
        return [rng.choice([rng.choice(STRS), 3, True, 2.5, [1, "x"]]) for _ in range(rng.choice([0, 1, 3]))]

    def sanitize(self, rng, files, ctx, env):
        """removes most references which cannot be resolved, so that most loads succeed"""
        def names_of(t, pre=""):
            for k, v in t:
                yield pre + k, v
                if isinstance(v, dict):
                    yield from names_of(v["ns"], pre + k + ".")
        if rng.random() < 0.12:
            return
        for _ in range(60):
            try:
                model_load(files, "main.params", ctx, env)
                return
            except Bad as e:
                cand = []
                for n, f in files.items():
                    if "raw" in f:
                        return
                    for path, v in list(names_of(f["data"])):
                        if isinstance(v, str) and REF.search(v):
                            cand.append((n, path))
                if not cand or "include" in str(e) or "load" in str(e) or rng.random() < 0.01:
                    return
                # give up a random reference
                n, path = rng.choice(cand)
                t = files[n]["data"]
                parts = path.split(".")
                for p in parts[:-1]:
                    t = next(v for k, v in t if k == p)["ns"]
                for kv in t:
                    if kv[0] == parts[-1]:
                        kv[1] = rng.choice(STRS + [7])

    def spoil(self, rng, files):
        """a single reference which cannot be honoured, in files which are otherwise good"""
        f = files[rng.choice(sorted(files))]
        if "raw" in f:
            return
        trees = [f["data"]] + [v["ns"] for _, v in f["data"] if isinstance(v, dict)]
        t, have = rng.choice(trees), {k for x in trees for k, _ in x}
        free = [n for n in NAMES if n not in have]
        rng.shuffle(free)
        if len(free) < 2:
            return
        pre = next((k + "." for k, v in f["data"] if isinstance(v, dict) and v["ns"] is t), "")
        kind = rng.choice(["nonstring", "nonstring", "nonstring", "unknown", "namespace", "through", "cycle"])
        text = rng.choice(["%s tail", "head %s", "<%s>", "%s%%"])
        if kind == "nonstring":
            t += [[free[0], rng.choice([True, False, 0, 1, -3, 2.5, [], ["x"], 10 ** 20])], [free[1], text % f"%{pre}{free[0]}%"]]
        elif kind == "unknown":
            t += [[free[0], rng.choice([text, "%s"]) % f"%{pre}{free[1]}%"]]
        elif kind == "namespace":
            t += [[free[0], {"ns": [[free[1], "x"]]}], [free[1], text % f"%{pre}{free[0]}%"]]
        elif kind == "through":
            t += [[free[0], rng.choice(["abc", 5, ["sub"]])], [free[1], "%" + pre + free[0] + ".sub%"]]
        else:
            t += [[free[0], f"%{pre}{free[1]}%"], [free[1], rng.choice([text, "%s"]) % f"%{pre}{free[0]}%"]]
        rng.shuffle(t)

    def cases(self, rng, tier):
        env = gen.benign_env(rng, 0.4)
        files = self.gen_files(rng)
        evs = dict(rng.sample(sorted(ENVS.items()), rng.choice([0, 2, 4])))
        if rng.random() < 0.15:
            evs[rng.choice(["VS.DOT", "BASH_FUNC_x%%", "VS-DASH", "with space", "a.b"])] = "odd"
        ctx = self.gen_data(rng) if rng.random() < 0.3 else None
        if ctx:
            ctx = [[k, v] for k, v in ctx]
        use_env = rng.random() < 0.8
        self.sanitize(rng, files, ctx or [], evs if use_env else {})
        if rng.random() < 0.15:
            self.spoil(rng, files)
        phases = []
        sid = [0]

        def step(op, **k):
            sid[0] += 1
            return dict(id=sid[0], op=op, **k)
        cfg = dict(env=evs, ctx=ctx, how=rng.choice(["path", "path", "str", "string"]), use_env=use_env, dep=rng.random() < 0.3, file="main.params")
        if rng.random() < 0.35:
            # a working directory elsewhere, with files of the same names which nothing includes
            cfg["cwd"] = "decoy"
        steps = [step("put", files=files), step("load", **cfg)]
        cur = files
        for _ in range(rng.choice([0, 0, 1, 2])):
            cur = copy.deepcopy(cur)
            if not cur:
                break
            n = rng.choice(sorted(cur))
            if rng.random() < 0.1:
                del cur[n]
                put = step("put", files={n: None})
            else:
                inc = cur[n].get("inc", [])
                cur[n] = {"inc": inc if rng.random() < 0.7 else inc[1:], "data": self.gen_data(rng), "style": "block"}
                self.sanitize(rng, cur, ctx or [], evs if use_env else {})
                put = step("put", files=copy.deepcopy(cur))
            steps += [put, step("load", **dict(cfg, file="main.params" if rng.random() < 0.8 else n))]
        if rng.random() < 0.3:
            steps.append(step("load", **cfg))
        phases.append({"actors": [steps]})
        env["maxops"] = 400000     # include cycles end when Python's stack does
        return {"env": env, "phases": phases}

    def op_put(self, ctx, st):
        with harness_code(ctx):
            for rel, f in st["files"].items():
                p = os.path.join(ctx.root, rel)
                if f is None:
                    if os.path.isfile(p):
                        os.unlink(p)
                    continue
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if f.get("raw") == "DIR":
                    os.makedirs(p, exist_ok=True)
                    continue
                if os.path.isdir(p):
                    os.rmdir(p)
                if f.get("raw") == "BYTES":
                    b = b"a: caf\xe9\n"
                elif f.get("raw") == "BYTES2":
                    b = b"a: 1\n# caf\xc3\nb: 2\n"
                elif "raw" in f:
                    b = f["raw"].encode()
                else:
                    b = to_yaml(None, f, ctx.root).encode()
                with open(p, "wb") as o:
                    o.write(b)

    @staticmethod
    def to_params(t):
        def conv(v):
            return {k: conv(x) for k, x in v["ns"]} if isinstance(v, dict) else v
        return Parameters.from_mapping({k: conv(v) for k, v in t})

    @staticmethod
    def picture(p):
        def f(x):
            if isinstance(x, Parameters) or hasattr(x, "items"):
                items = x._data.items() if isinstance(x, Parameters) else x.items()
                return {"ns": [[k, f(v)] for k, v in items]}
            if isinstance(x, (list, tuple)):
                return [f(v) for v in x]
            return x
        return f(p)["ns"]

    def op_load(self, ctx, st):
        with harness_code(ctx):
            os.chdir(ctx.root)
            if st.get("cwd"):
                for f in ctx.sc["phases"][0]["actors"][0][0]["files"].values():
                    for inc in f.get("inc", ()):
                        p = os.path.normpath(os.path.join(ctx.root, st["cwd"], inc))
                        if inc.startswith("/") or not p.startswith(os.path.join(ctx.root, st["cwd"]) + "/") or os.path.exists(p):
                            continue
                        os.makedirs(os.path.dirname(p), exist_ok=True)
                        with open(p, "w") as o:
                            o.write("decoy: 1\na: decoy\n")
                os.makedirs(st["cwd"], exist_ok=True)
                os.chdir(st["cwd"])
        saved = dict(os.environ)
        for k, v in st["env"].items():
            os.environ[k] = v
        try:
            key = ("loader", st["use_env"])
            if key not in ctx.v:
                ctx.v[key] = YAMLParametersLoader() if st["use_env"] else YAMLParametersLoader(interpolate_environmental_variables=False)
            loader = ctx.v[key]
            kw = {}
            args = []
            c = None
            if st["ctx"] is not None:
                c = self.to_params(st["ctx"])
                if st["dep"] and st["how"] != "string":
                    args = [c]
                else:
                    kw["included_context"] = c
            p = os.path.join(ctx.root, st["file"])
            if st["how"] == "string":
                try:
                    with harness_code(ctx):
                        text = open(p, encoding="utf-8", newline="").read()
                except (OSError, ValueError):
                    return {"skip": True}
                r = loader.load_string(text, **kw)
            else:
                r = loader.load(p if st["how"] == "str" else Path(p), *args, **kw)
            out = {"p": self.picture(r)}
            if c is not None:
                out["ctx_same"] = self.picture(c) == st["ctx"]
            return out
        finally:
            os.environ.clear()
            os.environ.update(saved)

    def variants(self, rng, sc, h, tier):
        out = []
        pool = h.ops
        rd = [o for o in pool if o.cls == "READ"]
        if not pool:
            return out
        for _ in range(5 if tier == "quick" else 12):
            fs = []
            for _ in range(rng.choice([1, 1, 2])):
                fs.append(gen.place_fault(rng, rd if rd and rng.random() < 0.6 else pool, ["ERR", "ERR", "ERR", "SHORT", "EINTR", "SIGINT"]))
            out.append(gen.with_faults(sc, [f for f in fs if f]))
        return out

    def check(self, sc, h):
        files = {}
        pr = h.extra.setdefault("probes", {})
        ph = sc["phases"][0]
        faulted = {}
        for f, n in zip(ph.get("faults", ()), h.fault_fired[0]):
            if n and f["kind"] not in ("SHORT", "EINTR"):
                for o in ph["actors"][0]:
                    # a repeated failure goes on into later steps
                    if o["id"] == f["step"] or (f.get("count", 1) > 1 and o["id"] > f["step"]):
                        faulted[o["id"]] = True
        for st in ph["actors"][0]:
            ev = h.end_of(st["id"])
            if ev is None:
                return [("lost-step", f"step {st['id']} did not finish")]
            if st["op"] == "put":
                for k, v in st["files"].items():
                    if v is None:
                        files.pop(k, None)
                    else:
                        files[k] = v
                continue
            if ev["v"] and ev["v"].get("skip"):
                continue
            env = dict({"PATH": "?"}, **st["env"]) if st["use_env"] else {}
            try:
                if st["how"] == "string" and any(not i.startswith("/") for i in files.get(st["file"], {}).get("inc", ())):
                    raise Bad("relative include in a string")
                want = model_load(files, st["file"], st["ctx"] or [], env)
                err = None
            except Bad as e:
                want, err = None, str(e)
            e = ev["e"]
            k = "load ok" if e is None else "load failed"
            pr[k] = pr.get(k, 0) + 1
            if e is None:
                if err:
                    return [("not-refused", f"loading {st['file']} succeeded although: {err}; gave {show(ev['v'])}")]
                got = ev["v"]["p"]
                if json.dumps(got) != json.dumps(want):
                    return [("wrong", f"loading {st['file']} ({st['how']}) gave {show(got, 600)}, expected {show(want, 600)}")]
                if ev["v"].get("ctx_same") is False:
                    return [("context-changed", "the context given to load was modified")]
            elif not err and not faulted.get(st["id"]):
                return [("raised", f"loading {st['file']} raised {e['type']}: {e['msg']} {e['chain']} with no fault")]
        return []


PROP = C12()
