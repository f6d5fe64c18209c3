"""C11: checkpoints recorded and queried by several workers, with crashes and resets."""
import os
from pathlib import Path

import gen
from core import Prop, harness_code
from props.common import SKIP, show, skipped

from vistautils.checkpoints import Checkpoints

NAMES = ["a", "b", "A", "ab", "a.tmp", "a b", " a", "a ", ".hidden", "~", "task-1", "task-10", "task_1", "\u00e9", "e\u0301", "\u65e5\u672c", "100%", "{x}", "#",
         "con", "x" * 200, "x" * 201, "..a", "a..", "-rf", "*", "?", "a\\b", "q'", 'q"', "\n", "a\tb", "1", "01", "None", "_", "__init__", "a.partial", "a.lock"]


class C11(Prop):
    id = "C11"
    keep_ops = ("mk",)

    def cases(self, rng, tier):
        env = gen.benign_env(rng, 0.2)
        if rng.random() < 0.3:
            env["clock"] = rng.choice([-1200000000, 1200000000, -86400, 3600])
        sid = [0]

        def step(op, **k):
            sid[0] += 1
            return dict(id=sid[0], op=op, **k)
        names = rng.sample(NAMES, rng.choice([1, 2, 3, 5]))
        loc = rng.choice(["cp", "cp", "deep/er/cp", "link", "\u00e9 cp"])

        def how():
            return rng.choice(["path", "path", "str", "slash", "rel", "dots"])
        phases = [{"actors": [[step("mk", loc=loc, there=rng.choice([None, None, [], names[:1], names]))]]}]
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            na = rng.choice([1, 1, 2, 2, 3])
            acts = []
            for _ in range(na):
                a = [step("open", how=how(), loc=loc)]
                for _ in range(rng.choice([1, 2, 4, 7])):
                    r = rng.random()
                    n = rng.choice(names)
                    if r < 0.45:
                        a.append(step("set", n=n))
                    elif r < 0.9:
                        a.append(step("has", n=n))
                    elif r < 0.94:
                        a.append(step("open", how=how(), loc=loc))
                    elif r < 0.97:
                        a.append(step("badtype", n=rng.choice([5, None, ["a"]]), what=rng.choice(["set", "has"])))
                    else:
                        a.append(step("reset"))
                acts.append(a)
            phases.append({"actors": acts, "first": rng.randrange(na), "switches": gen.random_switches(rng, na, 12 * na)})
            if rng.random() < 0.3:
                phases[-1]["clock"] = rng.choice([-86400 * 365, -3600, 3600, 86400 * 3650])
            if rng.random() < 0.25:
                phases.append({"actors": [[step("open", how=how(), loc=loc), step("reset")] + [step("has", n=n) for n in names[:2]] + [step("set", n=names[0])]]})
        phases.append({"actors": [[step("open", how="path", loc=loc)] + [step("has", n=n) for n in names] + [step("has", n="never recorded"), step("outside")]]})
        if rng.random() < 0.4:
            phases.append({"actors": [[step("open", how="path", loc=loc), step("reset")] + [step("has", n=n) for n in names]
                                      + [step("set", n=names[0]), step("has", n=names[0]), step("outside")]]})
        return {"env": env, "phases": phases}

    def op_mk(self, ctx, st):
        with harness_code(ctx):
            R = ctx.root
            os.makedirs(R + "/beside/d")
            for p in ("/beside/a", "/beside/d/b", "/a", "/b"):
                with open(R + p, "w") as f:
                    f.write("keep " + p)
            if st["loc"] == "link":
                os.mkdir(R + "/real")
                os.symlink("real", R + "/link")
            if st["there"] is not None:
                d = os.path.join(R, st["loc"])
                os.makedirs(d, exist_ok=True)
                for n in st["there"]:
                    open(os.path.join(d, n), "w").close()

    def op_open(self, ctx, st):
        p = os.path.join(ctx.root, st["loc"])
        d = {"path": lambda: Path(p), "str": lambda: p, "slash": lambda: p + "/", "rel": lambda: st["loc"],
             "dots": lambda: os.path.join(ctx.root, "beside", "..", st["loc"])}[st["how"]]()
        ctx.v.pop("c", None)
        ctx.v["c"] = Checkpoints.from_directory(d)
        return True

    def op_set(self, ctx, st):
        if "c" not in ctx.v:
            return SKIP
        ctx.v["c"].set(st["n"])

    def op_has(self, ctx, st):
        if "c" not in ctx.v:
            return SKIP
        return st["n"] in ctx.v["c"]

    def op_badtype(self, ctx, st):
        if "c" not in ctx.v:
            return SKIP
        if st["what"] == "set":
            ctx.v["c"].set(st["n"])
        else:
            return st["n"] in ctx.v["c"]

    def op_reset(self, ctx, st):
        if "c" not in ctx.v:
            return SKIP
        ctx.v["c"].reset_all()

    def op_outside(self, ctx, st):
        with harness_code(ctx):
            R = ctx.root
            out = {}
            for p in ("/beside/a", "/beside/d/b", "/a", "/b"):
                try:
                    out[p] = open(R + p).read()
                except OSError as e:
                    out[p] = str(e)
            return {"ok": all(v == "keep " + k for k, v in out.items()), "top": sorted(os.listdir(R))}

    def variants(self, rng, sc, h, tier):
        out = []
        ids = {st["id"] for ph in sc["phases"][1:] for a in ph["actors"] for st in a if st["op"] in ("open", "set", "has", "reset")}
        pool = [o for o in h.ops if o.step in ids]
        resets = {st["id"] for ph in sc["phases"][1:] for a in ph["actors"] for st in a if st["op"] == "reset"}
        rp = [o for o in pool if o.step in resets]
        for _ in range(6 if tier == "quick" else 12):
            fs = []
            for _ in range(rng.choice([0, 1, 1, 2])):
                p = rp if rp and rng.random() < 0.4 else pool
                if p:
                    fs.append(gen.place_fault(rng, p, ["ERR", "ERR", "CRASH_BEFORE", "CRASH_AFTER", "SIGINT", "CLOCK"]))
            s = gen.with_faults(sc, [f for f in fs if f])
            for ph in s["phases"]:
                na = len(ph["actors"])
                if na > 1:
                    ph["switches"] = gen.random_switches(rng, na, 14 * na)
                    ph["first"] = rng.randrange(na)
            out.append(s)
        return out

    def check(self, sc, h):
        state = {}          # name -> True / False / None (unknown)
        default = False     # of names not in state
        pr = h.extra.setdefault("probes", {})
        for pi, ph in enumerate(sc["phases"]):
            hard = any(n and f["kind"] not in ("SHORT", "EINTR", "CLOCK") for f, n in zip(ph.get("faults", ()), h.fault_fired[pi]))
            if pi == 0:
                for n in ph["actors"][0][0]["there"] or ():
                    state[n] = True
                continue
            steps = {st["id"]: (ai, st) for ai, a in enumerate(ph["actors"]) for st in a}
            evs = [e for e in h.events if e["p"] == pi]
            single = len(ph["actors"]) == 1
            ops = {}
            for e in evs:
                o = ops.setdefault(e["s"], {"b": None, "e": None})
                o["b" if e["k"] == "begin" else "e"] = e
            for s, (ai, st) in steps.items():
                if s in ops and ops[s]["e"] is None and not h.crashed.get((pi, ai)):
                    return [("lost-step", f"step {s} did not finish")]
                if s in ops and ops[s]["e"] is not None:
                    ev = ops[s]["e"]
                    if ev["e"] and not hard and st["op"] != "badtype":
                        if st["op"] == "reset" and sc["phases"][0]["actors"][0][0]["loc"] == "link":
                            continue
                        if not single and any("reset" in (steps[x][1]["op"], st["op"]) and steps[x][0] != ai and not (o["e"] and self.precedes(o["e"], ops[s]["b"])) and not self.precedes(ev, o["b"]) for x, o in ops.items()):
                            continue        # while another worker resets, an operation may fail, visibly
                        return [("raised", f"{st['op']} {st.get('n', '')!r} raised {ev['e']['type']}: {ev['e']['msg']} with no fault")]
                    if st["op"] == "badtype" and not ev["e"] and not skipped(ev):
                        return [("not-refused", f"{st['what']} accepted {st['n']!r}")]
                    if st["op"] == "outside" and not ev["v"]["ok"]:
                        return [("outside", f"something outside the directory was changed: {ev['v']}")]
            if single:
                for e in evs:
                    if e["k"] == "begin":
                        st = steps[e["s"]][1]
                        if ops[e["s"]]["e"] is None:      # crashed within
                            self.maybe(st, state)
                            if st["op"] == "reset":
                                default = False
                        continue
                    st = steps[e["s"]][1]
                    if skipped(e):
                        continue
                    if st["op"] == "set":
                        state[st["n"]] = True if e["e"] is None else (True if state.get(st["n"]) else None)
                    elif st["op"] == "reset":
                        if e["e"] is None:
                            state = {}
                        else:
                            self.maybe(st, state)
                    elif st["op"] == "has" and e["e"] is None:
                        w = state.get(st["n"], default)
                        pr[f"has {w}"] = pr.get(f"has {w}", 0) + 1
                        if w is not None and e["v"] is not w:
                            return [("wrong-answer", f"checkpoint {st['n']!r} is reported {'done' if e['v'] else 'not done'} but was {'recorded' if w else 'never recorded'}")]
                        state[st["n"]] = e["v"]
                continue
            # several workers: judged by real-time order of non-overlapping calls
            def begun(op, n=None):
                return [o for x, o in ops.items() if steps[x][1]["op"] == op and (n is None or steps[x][1]["n"] == n) and not (o["e"] and skipped(o["e"]))]

            def done(l, v=None):
                return [o for o in l if o["e"] is not None and o["e"]["e"] is None and (v is None or o["e"]["v"] is v)]

            def overtaken(o, others, by=None):
                """may one of the others have taken effect after o (None: the start of the phase), and before `by` ended?"""
                return any((o is None or x["e"] is None or not self.precedes(x["e"], o["b"])) and (by is None or not self.precedes(by["e"], x["b"])) for x in others)
            resets = begun("reset")
            after = {}
            for n in sorted({st["n"] for _, st in steps.values() if st["op"] in ("set", "has")} | set(state)):
                sets, w = begun("set", n), state.get(n, default)
                yes = done(sets) + done(begun("has", n), True)
                no = done(resets) + done(begun("has", n), False)
                for o in done(begun("has", n)):
                    pr["concurrent has"] = pr.get("concurrent has", 0) + 1
                    ai = o["b"]["a"]
                    if not o["e"]["v"]:
                        for x in ([None] if w is True else []) + [x for x in yes if self.precedes(x["e"], o["b"])]:
                            if not overtaken(x, resets, o):
                                return [("wrong-answer", f"checkpoint {n!r} is reported not done by worker {ai} although it was recorded or reported done before")]
                    else:
                        for x in ([None] if w is False else []) + [x for x in no if self.precedes(x["e"], o["b"])]:
                            if not overtaken(x, sets, o):
                                return [("wrong-answer", f"checkpoint {n!r} is reported done to worker {ai} but was never recorded" + (" since a reset or a query which said so" if x else ""))]
                if any(not overtaken(x, resets) for x in ([None] if w is True else []) + yes):
                    after[n] = True
                elif any(not overtaken(x, sets) for x in ([None] if w is False else []) + no):
                    after[n] = False
                else:
                    after[n] = None
            state = after
        return []

    @staticmethod
    def precedes(a, b):
        if a["a"] == b["a"]:
            return a["q"] < b["q"]
        return a["g"] < b["g"]

    @staticmethod
    def maybe(st, state):
        if st["op"] == "set":
            if state.get(st["n"]) is not True:
                state[st["n"]] = None
        elif st["op"] == "reset":
            for n in state:
                if state[n]:
                    state[n] = None


PROP = C11()
