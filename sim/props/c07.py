"""C07: linear sources over tar archives."""
import os
from pathlib import Path

import corrupt
import gen
from core import Prop, describe_exc, harness_code
from props.common import show, tok
from props.zipcommon import Boom

from vistautils.key_value import KeyValueLinearSource

KEYF = {
    "id": lambda n: n, "base": lambda n: n.rsplit("/", 1)[-1], "pre": lambda n: "k:" + n, "drop_txt": lambda n: None if n.endswith(".txt") else n,
    "const": lambda n: "same", "below": lambda n: n.partition("/")[2], "first": lambda n: n[0] if n[0] != "d" else None,
}
NAMEF = {"all": lambda n: True, "txt": lambda n: n.endswith(".txt"), "none": lambda n: False, "notd": lambda n: not n.startswith("d"), "long": lambda n: len(n) > 6}
FILT = {"all": lambda k: True, "none": lambda k: False, "odd": lambda k: len(k) % 2 == 1, "a": lambda k: "a" in k}
NAMES = ["a", "b.txt", "d/c", "d/e.txt", "é.txt", "d/日本/f", "./g.txt", "h h", "z" * 120, "d/" + "y" * 99 + ".txt", "k0", "k1", "__keys", "empty"]


def failing(f, n):
    c = [0]

    def g(x):
        c[0] += 1
        if c[0] == n:
            raise Boom("callback failed")
        return f(x)
    return g


class C07(Prop):
    id = "C07"

    def cases(self, rng, tier):
        env = gen.benign_env(rng, 0.4)
        text = rng.random() < 0.4
        members = []
        big = rng.choice([0.02, 0.08, 0.5])
        names = rng.sample(NAMES, rng.choice([0, 1, 2, 4, 6, 9]))
        if names and rng.random() < 0.25:
            names.append(rng.choice(names))         # an entry of the same name again
        if rng.random() < 0.5:
            members.append({"name": "d", "type": "dir"})
        for n in names:
            r = rng.random()
            if r < 0.1:
                members.append({"name": n + ".lnk", "type": "sym", "to": n})
            if r > 0.95 and members and members[-1].get("type", "file") == "file":
                members.append({"name": n + ".hard", "type": "lnk", "to": members[-1]["name"]})
            if 0.1 < r < 0.15:
                members.append({"name": n + ".fifo", "type": "fifo"})
            m = {"name": n, "v": gen.value_desc(rng, not text, big)}
            if text and rng.random() < 0.95:
                m["enc"] = "utf-8"
            members.append(corrupt.regular_kind(rng, m))
        lots = gen.many(rng)
        if lots:
            members = [dict({"name": n, "v": gen.small_desc(rng)}, **({"enc": "utf-8"} if text else {})) for n in lots]
        comp = rng.choice(["gz", "gz", "gz", "gz", "none", "bz2", "xz"])
        fix = {"do": "tgz", "path": "in.tgz", "members": members, "comp": comp, "format": rng.choice(["pax", "pax", "gnu"]), "level": rng.choice([0, 1, 6])}
        phases = []
        for i in range(rng.choice([1, 1, 2])):
            st = {"id": i + 1, "op": "walk", "text": text, "view": rng.choice([0, 0, 1, 2]), "keyf": rng.choice(list(KEYF) + ["id"] * 3),
                  "namef": rng.choice(list(NAMEF) + ["all"] * 5), "rounds": []}
            if st["keyf"] == "first" and any(n == "" for n in names):
                st["keyf"] = "id"
            if rng.random() < 0.1:
                st["boom"] = [rng.choice(["keyf", "namef", "filter", "view"]), rng.randrange(1, 5)]
            for _ in range(rng.choice([1, 1, 2])):
                n = rng.choice([1, 1, 2, 2, 3])
                if rng.random() < 0.35:
                    n = max(n, 2)       # one after the other: does a failure spoil what comes after it?
                    mv = [[j, 1000] for j in range(n)]
                else:
                    mv = [[rng.randrange(n), rng.choice([1, 1, 2, 100])] for _ in range(rng.choice([0, 1, 3, 8]))] + [[j, 1000] for j in range(n) if rng.random() < 0.8]
                if st["rounds"] and rng.random() < 0.35:
                    # the archive is replaced while nobody has it open
                    ms = [dict(m) for m in members if rng.random() < 0.6]
                    for m in ms:
                        if "v" in m and rng.random() < 0.5:
                            m["v"] = gen.value_desc(rng, not text, big)
                    if rng.random() < 0.5:
                        ms.reverse()
                    ms = [m for i, m in enumerate(ms) if m.get("type") != "lnk" or any(x["name"] == m["to"] for x in ms[:i])]
                    st["rounds"].append({"swap": dict(fix, members=ms)})
                else:
                    st["rounds"].append({})
                st["rounds"][-1].update({"filters": [rng.choice(["all", "all", "all", "odd", "a", "none"]) for _ in range(n)], "moves": mv})
            phases.append({"actors": [[st]]})
        phases[0]["pre"] = [fix]
        return {"env": env, "phases": phases}

    def op_walk(self, ctx, st):
        kw = {}
        boom = st.get("boom", ["", 0])
        kf, nf = KEYF[st["keyf"]], NAMEF[st["namef"]]
        if boom[0] == "keyf":
            kf = failing(kf, boom[1])
        if boom[0] == "namef":
            nf = failing(nf, boom[1])
        if st["keyf"] != "id" or boom[0] == "keyf":
            kw["key_function"] = kf
        if st["namef"] != "all" or boom[0] == "namef":
            kw["name_filter"] = nf
        make = KeyValueLinearSource.str_linear_source_from_tar_gz if st["text"] else KeyValueLinearSource.byte_linear_source_from_tar_gz
        src = make(Path(os.path.join(ctx.root, "in.tgz")), **kw)
        calls = [0]
        for _ in range(st["view"]):
            def view(k, v):
                calls[0] += 1
                if boom[0] == "view" and calls[0] == boom[1]:
                    raise Boom("callback failed")
                return v
            src = KeyValueLinearSource.interpret_values(src, view)
        out = []
        for rd in st["rounds"]:
            r = {"enter": None, "its": []}
            out.append(r)
            if rd.get("swap"):
                with harness_code(ctx):
                    corrupt.make_archive("tgz", os.path.join(ctx.root, "in.tgz"), rd["swap"])
            try:
                src.__enter__()
            except BaseException as e:
                r["enter"] = describe_exc(e)
                continue
            its = []
            for f in rd["filters"]:
                fn = FILT[f]
                if boom[0] == "filter":
                    fn = failing(fn, boom[1])
                its.append([src.items(fn) if f != "all" or boom[0] == "filter" else src.items(), [], None])
            r["its"] = [[i[1], i[2]] for i in its]
            for j, n in rd["moves"]:
                it = its[j]
                for _ in range(n):
                    if it[2] is not None:
                        break
                    try:
                        k, v = next(it[0])
                        it[1].append([k, tok(v)])
                    except StopIteration:
                        it[2] = "end"
                    except BaseException as e:
                        it[2] = describe_exc(e)
            r["its"] = [[i[1], i[2]] for i in its]
            try:
                src.__exit__(None, None, None)
            except BaseException as e:
                r["exit"] = describe_exc(e)
        return out

    def variants(self, rng, sc, h, tier):
        import copy
        out = []
        fix = sc["phases"][0]["pre"][0]
        pool = [o for o in h.ops]
        rd = [o for o in pool if o.cls == "READ"]
        for _ in range(6 if tier == "quick" else 12):
            s, fs = copy.deepcopy(sc), []
            what = rng.choice(["err", "err", "cut", "cut", "cut", "flip", "flip", "benign", "mix"])
            if what in ("err", "mix") and pool:
                fs.append(gen.place_fault(rng, rd if rd and rng.random() < 0.8 else pool, ["ERR", "ERR", "ERR", "SIGINT"]))
                if fs[0] and rng.random() < 0.3:
                    fs[0]["count"] = 1000
            if what in ("benign", "mix") and rd:
                fs.append(gen.place_fault(rng, rd, ["SHORT", "EINTR"]))
            if what in ("cut", "mix") and fix["comp"] != "none":
                k = rng.choice([rng.randrange(1 << 30), rng.randrange(0, 600), -rng.randrange(1, 60), -rng.randrange(1, 600)])
                s["phases"][rng.randrange(len(s["phases"]))].setdefault("pre", []).append({"do": "truncate", "path": "in.tgz", "keep": k})
            if what == "flip" and fix["comp"] != "none":
                s["phases"][rng.randrange(len(s["phases"]))].setdefault("pre", []).append(
                    {"do": "flip", "path": "in.tgz", "at": [[rng.randrange(20, 1 << 30), rng.randrange(8)]]})
            fs = [f for f in fs if f]
            s = gen.with_faults(s, fs)
            out.append(s)
        return out

    def check(self, sc, h):
        cut = flip = False
        for pi, ph in enumerate(sc["phases"]):
            for c in ph.get("pre", ()):
                if c["do"] == "tgz":
                    fix = c
                elif c["do"] == "flip":
                    flip = True
                else:
                    cut = True
            hard = [f for f, n in zip(ph.get("faults", ()), h.fault_fired[pi]) if n and f["kind"] in ("ERR", "SIGINT")]
            st = ph["actors"][0][0]
            ev = h.end_of(st["id"])
            if ev is None or ev["e"]:
                return [("walk-broken", f"{ev and ev['e']}")]
            v = self.judge(st, ev["v"], fix, cut or flip, bool(hard), flip)
            if v:
                return [v]
            for rd in st["rounds"]:
                if rd.get("swap"):
                    fix, cut, flip = rd["swap"], False, False
        return []

    @staticmethod
    def entries(st, fix):
        base = []
        for m in fix["members"]:
            if m.get("type", "file") == "file" and NAMEF[st["namef"]](m["name"]):
                k = KEYF[st["keyf"]](m["name"])
                if k is not None:
                    base.append((k, corrupt.member_bytes(m)))
        return base

    def judge(self, st, out, fix, cut, hard, flip):
        may = cut or hard
        base = self.entries(st, fix)
        boom = bool(st.get("boom"))
        for ri, (rd, r) in enumerate(zip(st["rounds"], out)):
            if rd.get("swap"):
                base = self.entries(st, rd["swap"])
                may, flip = hard, False
            if r["enter"]:
                if not may:
                    return "enter-raised", f"round {ri}: {r['enter']['type']}: {r['enter']['msg']} with no fault"
                continue
            if r.get("exit") and not hard:
                return "exit-raised", f"round {ri}: {r['exit']['type']}: {r['exit']['msg']} with no fault"
            for fi, (f, (got, end)) in enumerate(zip(rd["filters"], r["its"])):
                want, bad = [], False
                for k, b in base:
                    if FILT[f](k):
                        if st["text"]:
                            try:
                                b = b.decode("utf-8")
                            except UnicodeDecodeError:
                                bad = True
                                break
                        want.append([k, tok(b)])
                where = f"round {ri} iterator {fi}"
                if flip and end != "end":
                    # the checksum is at the end of the compressed data
                    continue
                if got != want[:len(got)]:
                    i = next((i for i, g in enumerate(got) if i >= len(want) or g != want[i]), 0)
                    return "pair-wrong", f"{where}: pair {i} is {got[i] if i < len(got) else None}, expected {want[i] if i < len(want) else 'no more'}"
                if end == "end" and (len(got) < len(want) or bad):
                    return "ended-early", f"{where}: ended normally after {len(got)} of {len(want)} pairs"
                if isinstance(end, dict):
                    if boom and "Boom" in end["chain"]:
                        continue
                    if bad and len(got) == len(want) and "UnicodeDecodeError" in end["chain"]:
                        continue
                    if not may:
                        return "raised", f"{where}: {end['type']}: {end['msg']} after {len(got)} pairs with no fault"
        return None


PROP = C07()
