"""C14: parameters naming directories and files."""
import os
from pathlib import Path

import gen
from core import Prop, harness_code
from props.common import show

from vistautils.io_utils import is_empty_directory
from vistautils.parameters import Parameters

COMP = ["a", "b", "c", ".hid", "sp ace", "\u00e9", "n.d", "-x", "long" * 20]
KINDS = ["creatable_directory", "creatable_empty_directory", "creatable_file", "existing_file", "existing_directory"]


def snapshot(root):
    out = {}
    def walk(d, rel):
        for n in sorted(os.listdir(d)):
            p = os.path.join(d, n)
            r = f"{rel}/{n}" if rel else n
            if os.path.islink(p):
                out[r] = ["link", os.readlink(p).replace(root, "ROOT")]
            elif os.path.isdir(p):
                out[r] = ["dir", os.stat(p).st_mode & 0o777]
                walk(p, r)
            elif os.path.isfile(p):
                out[r] = ["file", open(p, "rb").read().decode("latin-1")]
            else:
                out[r] = ["other"]
    walk(root, "")
    return out


class C14(Prop):
    id = "C14"
    keep_ops = ("layout",)

    def layout(self, rng):
        """entries as [path, kind, extra], parents first"""
        dirs = [""]
        out = []
        names = set()
        if rng.random() < 0.25:     # a directory holding a single thing
            one = rng.choice([[".hid", "file", ""], [".hid", "dir"], ["a", "dir"], ["a", "fifo"], ["a", "link", "missing"], ["__pycache__", "dir"], ["lost+found", "dir"], ["a~", "file", "x"], ["Thumbs.db", "file", "x"]])
            out += [["b", "dir"], ["b/" + one[0]] + one[1:]]
            names.update(e[0] for e in out)
            dirs.append("b")
        for i in range(rng.choice([0, 1, 3, 5, 9])):
            d = rng.choice(dirs)
            p = os.path.join(d, rng.choice(COMP))
            if p in names:
                continue
            names.add(p)
            r = rng.random()
            if r < 0.55:
                out.append([p, "dir"])
                dirs.append(p)
            elif r < 0.8:
                out.append([p, "file", rng.choice(["", "content", "x" * 5000])])
            elif r < 0.85:
                out.append([p, "fifo"])
            else:
                t = rng.choice(sorted(names) + ["missing", "a", p])
                rel = os.path.relpath(t, d or ".")
                out.append([p, "link", rel if rng.random() < 0.7 else "/" + t])
        return out

    def some_path(self, rng, lay):
        pool = [e[0] for e in lay] or ["a"]
        r = rng.random()
        if r < 0.4:
            p = rng.choice(pool)
        elif r < 0.75:
            p = os.path.join(rng.choice(pool + [""]), *[rng.choice(COMP) for _ in range(rng.choice([1, 1, 2, 4]))])
        else:
            p = os.path.join(*[rng.choice(COMP) for _ in range(rng.choice([1, 2, 3, 6]))])
        r = rng.random()
        if r < 0.06:
            p = p + "/"
        elif r < 0.1:
            p = "./" + p
        elif r < 0.14:
            p = p.replace("/", "//", 1)
        elif r < 0.18:
            p = p + "/x/.."
        return p if rng.random() < 0.4 else "/" + p

    def cases(self, rng, tier):
        env = gen.benign_env(rng, 0.5)
        sid = [0]

        def step(op, **k):
            sid[0] += 1
            return dict(id=sid[0], op=op, **k)
        if rng.random() < 0.6:
            lay = self.layout(rng)
            steps = [step("layout", entries=lay)]
            for _ in range(rng.choice([1, 2, 3, 5])):
                p = self.some_path(rng, lay)
                r = rng.random()
                k = rng.choice(KINDS)
                s = step("ask", kind=k, p=p, opt=rng.random() < 0.4, absent=rng.random() < 0.06, ns=rng.choice(["", "", "ns.", "a.b."]), delete=k == "creatable_empty_directory" and rng.random() < 0.5)
                if r < 0.02:
                    s["p"] = rng.choice([7, True, ["x"]])
                steps.append(s)
                if rng.random() < 0.15 and isinstance(s["p"], str):
                    steps.append(step("isempty", p=s["p"]))
                if rng.random() < 0.25:
                    steps.append(dict(s, id=sid[0] + 1))
                    sid[0] += 1
                if rng.random() < 0.3 and isinstance(s["p"], str):
                    steps.append(step("layout", entries=[[os.path.normpath(s["p"].strip("/")) + "/" + rng.choice(COMP), "file", "new"]]))
            phases = [{"actors": [steps]}]
            if rng.random() < 0.3:
                # the same questions in another process afterwards
                phases.append({"actors": [[dict(s, id=s["id"] + 1000) for s in steps if s["op"] == "ask"]]})
            return {"env": env, "phases": phases}
        na = rng.choice([2, 2, 3])
        lay = self.layout(rng) if rng.random() < 0.4 else []
        lay = [e for e in lay if e[1] in ("dir", "file")]
        base = [os.path.join(*[rng.choice(COMP) for _ in range(rng.choice([1, 2, 4]))]) for _ in range(2)]
        actors = []
        for a in range(na):
            steps = []
            for _ in range(rng.choice([1, 2, 3])):
                k = rng.choice(["creatable_directory", "creatable_directory", "creatable_file", "creatable_empty_directory"])
                b = rng.choice(base)
                if k == "creatable_directory":
                    p = os.path.join(b, rng.choice(["", "sub", "sub/deep"]))
                elif k == "creatable_file":
                    p = os.path.join(b, rng.choice(["f.txt", "sub/g.txt", f"own{a}/h.txt"]))
                else:
                    p = os.path.join(b, rng.choice(["e1", "sub/e2"]))
                steps.append(step("ask", kind=k, p=p if rng.random() < 0.5 else "/" + p, opt=rng.random() < 0.3, absent=False, ns="", delete=False, fill=k == "creatable_empty_directory" and rng.random() < 0.3))
            actors.append(steps)
        first = {"actors": [[step("layout", entries=lay)]]}
        ph = {"actors": actors, "switches": gen.random_switches(rng, na, 60), "first": rng.randrange(na)}
        return {"env": env, "phases": [first, ph]}

    def op_layout(self, ctx, st):
        with harness_code(ctx):
            for e in st["entries"]:
                p = os.path.join(ctx.root, e[0])
                try:
                    if os.path.lexists(p):
                        continue
                    if e[1] == "dir":
                        os.mkdir(p)
                    elif e[1] == "file":
                        with open(p, "x") as f:
                            f.write(e[2])
                    elif e[1] == "fifo":
                        os.mkfifo(p)
                    elif e[1] == "link":
                        os.symlink(ctx.root + e[2] if e[2].startswith("/") else e[2], p)
                except OSError:
                    pass
        return {}

    def op_isempty(self, ctx, st):
        with harness_code(ctx):
            os.chdir(ctx.root)
            p = ctx.root + st["p"] if st["p"].startswith("/") else st["p"]
            want = os.path.isdir(p) and not os.listdir(p)
        return {"r": is_empty_directory(Path(p)), "want": want}

    def op_ask(self, ctx, st):
        multi = len(ctx.sc["phases"][ctx.phase]["actors"]) > 1
        rel = lambda s: s.replace(ctx.root, "ROOT")
        out = {}
        with harness_code(ctx):
            os.chdir(ctx.root)
            val = st["p"]
            if isinstance(val, str):
                if val.startswith("/"):
                    val = ctx.root + val
                full = os.path.join(ctx.root, val)
                try:
                    real = os.path.realpath(full)
                    pre = {"real": rel(real), "dir": os.path.isdir(full), "file": os.path.isfile(full), "exists": os.path.exists(full), "loop": False}
                    try:
                        os.stat(full)
                    except OSError as e:
                        pre["loop"] = e.errno == 40
                    if not pre["loop"]:
                        # the normal form is what counts: a file followed by "/" or "x/.." is still that file
                        pre.update(dir=os.path.isdir(real), file=os.path.isfile(real), exists=os.path.exists(real))
                        pre["empty"] = pre["dir"] and not os.listdir(real)
                        d = os.path.dirname(real)
                        while not os.path.lexists(d):
                            d = os.path.dirname(d)
                        pre["makeable"] = os.path.isdir(d)
                        d2 = real
                        while not os.path.lexists(d2):
                            d2 = os.path.dirname(d2)
                        pre["self_makeable"] = os.path.isdir(d2)
                    out["pre"] = pre
                except OSError:
                    out["pre"] = {"loop": True}
            name = st["ns"] + "p"
            tree = {} if st["absent"] else {"p": val}
            for n in reversed(st["ns"].split(".")[:-1]):
                tree = {n: tree, "other": 1}
            params = Parameters.from_mapping(tree)
            if not multi:
                out["before"] = snapshot(ctx.root)
        f = getattr(params, ("optional_" if st["opt"] else "") + st["kind"])
        try:
            r = f(name, delete=True) if st["delete"] else f(name)
        except BaseException as e:
            with harness_code(ctx):
                ctx.v["last"] = None
                if not multi:
                    out["after"] = snapshot(ctx.root)
                ctx.v.setdefault("raised", {})[st["id"]] = out
            if isinstance(e, Exception):
                from core import describe_exc
                out["exc"] = describe_exc(e)
                e.__traceback__ = None
                return out
            raise
        with harness_code(ctx):
            if not multi:
                out["after"] = snapshot(ctx.root)
            if r is None:
                out["r"] = None
                return out
            out["r"] = rel(str(r))
            out["type"] = isinstance(r, Path)
            out["abs"] = os.path.isabs(str(r))
            out["isdir"] = os.path.isdir(r)
            out["isfile"] = os.path.isfile(r)
            out["parent"] = os.path.isdir(os.path.dirname(str(r)))
            if out["isdir"]:
                out["list"] = sorted(os.listdir(r))[:5]
            if isinstance(st["p"], str):
                out["same"] = rel(os.path.realpath(str(r))) == out["pre"].get("real")
            d = str(r) if st["kind"] != "creatable_file" else os.path.dirname(str(r))
            if st["kind"].startswith("creatable"):
                try:
                    t = os.path.join(d, ".probe")
                    open(t, "w").close()
                    os.unlink(t)
                    out["usable"] = True
                except OSError as e:
                    out["usable"] = str(e)
        if st.get("fill"):
            with open(os.path.join(r, f"data{ctx.actor}"), "w") as f:
                f.write("data")
        return out

    def variants(self, rng, sc, h, tier):
        out = []
        multi = len(sc["phases"][-1]["actors"]) > 1
        pool = [o for o in h.ops if o.step]
        mut = [o for o in pool if o.cls in gen.MUTATING or o.cls in ("OPENDIR", "READDIR")]
        for _ in range(6 if tier == "quick" else 14):
            fs = []
            if pool and not (multi and rng.random() < 0.5):
                for _ in range(rng.choice([1, 1, 2])):
                    fs.append(gen.place_fault(rng, mut if mut and rng.random() < 0.6 else pool, ["ERR", "ERR", "ERR", "SIGINT", "CRASH_BEFORE", "CRASH_AFTER"]))
            v = gen.with_faults(sc, [f for f in fs if f])
            if multi:
                p = v["phases"][-1]
                p["switches"] = gen.random_switches(rng, len(p["actors"]), max(4, len(pool)))
                p["first"] = rng.randrange(len(p["actors"]))
            elif not any(fs):
                continue
            out.append(v)
        return out

    def check(self, sc, h):
        pr = h.extra.setdefault("probes", {})
        for pi, ph in enumerate(sc["phases"]):
            multi = len(ph["actors"]) > 1
            filled = {os.path.normpath(st["p"].lstrip("/")) for steps in ph["actors"] for st in steps if st.get("fill")}
            fired = [f for f, n in zip(ph.get("faults", ()), h.fault_fired[pi]) if n]
            for ai, steps in enumerate(ph["actors"]):
                for st in steps:
                    if st["op"] == "isempty":
                        ev = h.end_of(st["id"])
                        faulted = any(f["actor"] == ai and (f["step"] == st["id"] or f.get("count", 1) > 1 and f["step"] <= st["id"]) for f in fired)
                        if ev is None or faulted and (ev["e"] or not ev["v"]["r"]):
                            continue
                        if ev["e"]:
                            return [("raised", f"is_empty_directory({st['p']!r}) raised {ev['e']['type']}: {ev['e']['msg']}")]
                        if bool(ev["v"]["r"]) != ev["v"]["want"]:
                            return [("wrong", f"is_empty_directory({st['p']!r}) is {ev['v']['r']}")]
                        continue
                    if st["op"] != "ask":
                        continue
                    ev = h.end_of(st["id"])
                    if ev is None:
                        if (pi, ai) not in h.crashed:
                            return [("lost-step", f"step {st['id']} did not finish")]
                        break
                    faulted = any(f["actor"] == ai and (f["step"] == st["id"] or f.get("count", 1) > 1 and f["step"] <= st["id"]) for f in fired)
                    if ev["e"] is not None:
                        if not faulted:
                            return [("raised", f"{st['kind']} raised {ev['e']['type']}: {ev['e']['msg']}")]
                        continue
                    bad = self.judge(st, ev["v"], faulted, multi, filled, multi and self.others_filled(h, pi, ai, st, ev["v"]))
                    if bad and bad[0] == "not-empty" and multi and not self.was_filled(h, pi, ai, st, ev["v"]):
                        bad = None
                    k = st["kind"] + (" refused" if "exc" in ev["v"] else " ok")
                    pr[k] = pr.get(k, 0) + 1
                    if bad:
                        return [(bad[0], f"{'optional_' if st['opt'] else ''}{st['kind']}({show(st['p'])}{', delete' if st['delete'] else ''}): {bad[1]}")]
        return []

    @staticmethod
    def others_filled(h, pi, ai, st, v):
        """had another process put a file into the directory before this step ended?"""
        ops = [(i, o) for i, o in enumerate(h.ops) if o.phase == pi]
        last = max([i for i, o in ops if o.actor == ai and o.step == st["id"]], default=-1)
        real = ((v.get("pre") or {}).get("real") or "")[5:]
        return any(i < last and o.actor != ai and o.cls == "OPEN_W" and o.ret >= 0 and os.path.dirname(o.path) == real for i, o in ops)

    @staticmethod
    def was_filled(h, pi, ai, st, v):
        """was a file in the directory already when this step looked into it (or created it) for the last time?"""
        ops = [(i, o) for i, o in enumerate(h.ops) if o.phase == pi]
        mine = [(i, o) for i, o in ops if o.actor == ai and o.step == st["id"]]
        looks = [i for i, o in mine if o.cls in ("OPENDIR", "MKDIR")]
        at = max(looks) if looks else max([i for i, _ in mine], default=-1)
        return any(i < at and o.cls == "OPEN_W" and o.ret >= 0 and os.path.basename(o.path) in v["list"] and os.path.dirname(o.path) == v["r"][5:] for i, o in ops)

    def judge(self, st, v, faulted, multi, filled=(), really_filled=False):
        k = st["kind"]
        exc = v.get("exc")
        pre = v.get("pre")
        # --- what may have changed
        real = pre.get("real", "") if pre else ""
        if not multi:
            b, a = v["before"], v["after"]
            home = real[5:] if real.startswith("ROOT/") else None
            for p in b:
                if a.get(p) != b[p]:
                    inside = home is not None and (p == home or p.startswith(home + "/"))
                    if not (k == "creatable_empty_directory" and st["delete"] and inside and p not in a and pre["dir"]):
                        return "destroyed", f"{p} was {show(b[p])}, is now {show(a.get(p))}"
            for p in a:
                if p not in b:
                    t = home if k != "creatable_file" or home is None else os.path.dirname(home)
                    if not (t is not None and k.startswith("creatable") and a[p][0] == "dir" and (t == p or t.startswith(p + "/"))):
                        return "created", f"{p} ({a[p][0]}) was created"
            if (st["absent"] or k.startswith("existing")) and a != b:
                return "created", "the file system was changed"
        # --- the answer
        if st["absent"]:
            if st["opt"]:
                return None if exc is None and v["r"] is None else ("absent", f"an absent optional parameter gave {show(exc or v['r'])}")
            return None if exc and "ParameterError" in exc["mro"] else ("absent", f"an absent parameter gave {show(exc or v.get('r'))}")
        if pre is None:
            return None if exc else ("not-refused", f"a value which is no string gave {show(v['r'])}")
        if pre.get("loop"):
            return None if exc or k == "creatable_file" else ("not-refused", f"a circular link gave {show(v['r'])}")
        if k == "existing_file":
            want = pre["file"]
        elif k == "existing_directory":
            want = pre["dir"]
        elif k == "creatable_directory":
            want = pre["dir"] or pre["self_makeable"]
        elif k == "creatable_file":
            want = pre["makeable"]
        else:
            want = (pre["dir"] and (pre["empty"] or st["delete"])) or (not pre["exists"] and pre["self_makeable"])
        if exc:
            if k == "creatable_empty_directory" and "ParameterError" in exc["mro"] and os.path.normpath(real[5:]) in filled and really_filled:
                return None
            if want and not faulted:
                return "raised", f"raised {exc['type']}: {exc['msg']} {exc['chain']} with no fault"
            if not faulted and (k.startswith("existing") or pre["exists"] and k == "creatable_empty_directory") and "ParameterError" not in exc["mro"]:
                return "error-type", f"refused with {exc['type']}: {exc['msg']} instead of a ParameterError"
            return None
        if not want and not multi:
            return "not-refused", f"gave {show(v['r'])} although the path is {show(pre)}"
        if v["r"] is None:
            return "wrong", "gave None"
        if not v["type"] or not v["abs"] or not v["same"]:
            return "wrong", f"gave {show(v['r'])} for {real}"
        if not faulted and v["r"] != real:
            return "wrong", f"gave {show(v['r'])} instead of {real}"
        if k == "existing_file" and not v["isfile"] or k in ("existing_directory", "creatable_directory", "creatable_empty_directory") and not v["isdir"] or k == "creatable_file" and not v["parent"]:
            return "unusable", f"gave {show(v['r'])}, which does not exist as such"
        if k == "creatable_empty_directory" and v["list"]:
            return "not-empty", f"gave a directory holding {v['list']}"
        if v.get("usable", True) is not True:
            return "unusable", f"gave {show(v['r'])}, in which nothing can be created: {v['usable']}"
        return None


PROP = C14()
