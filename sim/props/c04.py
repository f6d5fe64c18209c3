"""C04: directory stores and their file maps."""
import copy
import os
import shutil
from pathlib import Path

import gen
from core import Prop, harness_code
from props.common import SKIP, ok, show, skipped, tok
from props.zipcommon import Boom, FILTERS, check_exact, read_store

from vistautils.io_utils import CharSource, read_doc_id_to_file_map
from vistautils.key_value import (KeyValueSource, byte_key_value_linear_source_from_params, byte_key_value_sink_from_params,
                                  byte_key_value_source_from_params, char_key_value_linear_source_from_params,
                                  char_key_value_sink_from_params, char_key_value_source_from_params)
from vistautils.parameters import Parameters

SURROGATE = "ok \ud800 bad"


def make_source(ctx, st):
    index = os.path.join(ctx.root, st["path"], "_index")
    if st.get("rel"):
        index = os.path.relpath(index, os.getcwd())
    b, via = st["binary"], st["via"]
    direct = KeyValueSource.binary_from_doc_id_to_file_map if b else KeyValueSource.from_doc_id_to_file_map
    if via == "path":
        return direct(Path(index))
    if via == "str":
        return direct(index)
    if via == "mapping":
        return KeyValueSource.from_path_mapping(read_doc_id_to_file_map(CharSource.from_file(index)))
    if via == "charsource":
        return direct(CharSource.from_file(index))
    ns = {"path": index}
    ns["type"] = "file-map"
    p = Parameters.from_mapping({st.get("ns") or "input": ns})
    f = {("linear", True): byte_key_value_linear_source_from_params, ("linear", False): char_key_value_linear_source_from_params,
         ("params", True): byte_key_value_source_from_params, ("params", False): char_key_value_source_from_params}[(via, b)]
    if st.get("ns"):
        return f(p, input_namespace=st["ns"])
    return f(p)


class C04(Prop):
    id = "C04"

    def cases(self, rng, tier):
        env = gen.benign_env(rng, 0.3)
        binary = rng.random() < 0.5
        keys = gen.file_keys(rng, rng.choice([1, 2, 3, 5, 8]))
        d = rng.choice(["store", "a/b/store", "st ore", "störe"])
        cfg = dict(path=d, binary=binary)
        sid = [0]

        def step(op, **k):
            sid[0] += 1
            return dict(id=sid[0], op=op, **k)
        phases = []
        hard = rng.sample(gen.HARD_FILES, rng.choice([1, 1, 2])) if rng.random() < 0.2 else []
        for s in range(rng.choice([1, 1, 1, 2])):
            steps = [step("mkdir", path=d)]
            steps.append(step("mkdir", path="elsewhere"))
            rel = rng.random() < 0.3
            if rel:
                steps.append(step("chdir", path=rng.choice(["", "elsewhere"])))
            steps.append(step("d_new", rel=rel, typed=rng.choice(["file-map", "file-map", "directory"]), ns=rng.choice([None, None, "out"]), **cfg))
            steps.append(step("d_enter"))
            seq = list(keys)
            rng.shuffle(seq)
            if rng.random() < 0.4:
                seq += rng.sample(keys, rng.randrange(1, len(keys) + 1))
            for k in seq:
                r = rng.random()
                extra = {"bad": rng.choice(["type", "surrogate"]), "sur": rng.choice([SURROGATE, "caf\udce9"])} if r < 0.07 else {}
                steps.append(step("d_put", key=k, value=gen.value_desc(rng, binary, 0.04), binary=binary, setitem=rng.random() < 0.2, **extra))
            for k in hard:
                at = rng.randrange(max(i for i, x in enumerate(steps) if x["op"] == "d_enter") + 1, len(steps) + 1)
                steps.insert(at, step("d_put", key=k, value=gen.value_desc(rng, binary, 0), binary=binary))
            steps.append(step("d_exit", exc=rng.random() < 0.15))
            if rng.random() < 0.15:
                # the same sink again, once the user has emptied the directory
                steps += [step("wipe", path=d), step("d_enter")]
                for k in rng.sample(keys, rng.randrange(0, len(keys) + 1)):
                    steps.append(step("d_put", key=k, value=gen.value_desc(rng, binary, 0.04), binary=binary))
                steps.append(step("d_exit"))
            phases.append({"actors": [steps]})
        reads = []
        for _ in range(rng.choice([1, 1, 2])):
            if rng.random() < 0.3:
                reads.append(step("chdir", path=rng.choice(["", "elsewhere"])))
            via = rng.choice(["path", "path", "str", "charsource", "params", "linear"] + ([] if binary else ["mapping"]))
            what = ["items", "filter"] if via == "linear" else ["keys", "items", "getitem", "get", "absent", "filter"]
            reads.append(step("d_read", via=via, rel=rng.random() < 0.2, what=what, keys=keys + hard, absent=["absent!", "k", ""],
                              ns=rng.choice([None, None, "in2"]), filter=rng.choice(list(FILTERS)), **cfg))
        phases.append({"actors": [reads]})
        if rng.random() < 0.1:
            # somebody deletes the file of one value
            reads.insert(rng.randrange(len(reads)), step("vanish", path=d, key=rng.choice(keys)))
        return {"env": env, "phases": phases}

    # ---- operations ----
    def op_mkdir(self, ctx, st):
        os.makedirs(os.path.join(ctx.root, st["path"]), exist_ok=True)

    def op_chdir(self, ctx, st):
        os.chdir(os.path.join(ctx.root, st["path"]))

    def op_d_new(self, ctx, st):
        path = os.path.join(ctx.root, st["path"])
        if st["rel"]:
            path = os.path.relpath(path, os.getcwd())
        ns = {"path": path}
        ns["type"] = st["typed"]
        name = st.get("ns") or "output"
        f = byte_key_value_sink_from_params if st["binary"] else char_key_value_sink_from_params
        kw = {"output_namespace": name} if st.get("ns") else {}
        ctx.v["sink"] = f(Parameters.from_mapping({name: ns}), **kw)

    def op_d_enter(self, ctx, st):
        if "sink" not in ctx.v:
            return SKIP
        ctx.v["sink"].__enter__()
        ctx.v["in"] = True

    def op_d_put(self, ctx, st):
        if "in" not in ctx.v:
            return SKIP
        v = gen.value(st["value"], st["binary"])
        if st.get("bad"):
            v = 17 if st["bad"] == "type" or st["binary"] else st.get("sur", SURROGATE)
        if st.get("setitem"):
            ctx.v["sink"][st["key"]] = v
        else:
            ctx.v["sink"].put(st["key"], v)

    def op_wipe(self, ctx, st):
        if "in" in ctx.v:
            return SKIP
        with harness_code(ctx):
            p = os.path.join(ctx.root, st["path"])
            if os.path.isdir(p):
                shutil.rmtree(p)
            os.makedirs(p)

    def op_vanish(self, ctx, st):
        with harness_code(ctx):
            p = os.path.join(ctx.root, st["path"], st["key"])
            if not os.path.isfile(p) or os.path.islink(p):
                return SKIP
            os.unlink(p)

    def op_d_exit(self, ctx, st):
        if ctx.v.pop("in", None) is None:
            return SKIP
        e = Boom("caller failed") if st.get("exc") else None
        return {"ret": bool(ctx.v["sink"].__exit__(type(e) if e else None, e, None))}

    def op_d_read(self, ctx, st):
        from core import describe_exc
        try:
            src = make_source(ctx, st)
        except BaseException as e:
            return {"make": ["exc", describe_exc(e)]}
        return read_store(ctx, st, src)

    # ---- faults ----
    def variants(self, rng, sc, h, tier):
        out = []
        last = len(sc["phases"]) - 1
        work = {st["id"] for ph in sc["phases"] for st in ph["actors"][0] if st["op"].startswith("d_")}
        ends = {st["id"] for ph in sc["phases"] for st in ph["actors"][0] if st["op"] == "d_exit"}
        w = [o for o in h.ops if o.phase < last and o.step in work]
        we = [o for o in w if o.step in ends]
        r = [o for o in h.ops if o.phase == last and o.step in work]
        for _ in range(6 if tier == "quick" else 10):
            fs = []
            what = rng.choice(["crash", "crash", "werr", "werr", "readerr", "mix", "lost"])
            pool = we if we and rng.random() < 0.5 else w
            if what in ("crash", "mix"):
                fs.append(gen.place_fault(rng, pool, ["CRASH_BEFORE", "CRASH_AFTER", "CRASH_TORN", "CRASH_TORN"]))
            if what == "werr" or (what == "mix" and rng.random() < 0.5):
                for _ in range(rng.choice([1, 1, 2])):
                    fs.append(gen.place_fault(rng, pool, ["ERR", "ERR", "QUOTA", "SIGINT"]))
            if what == "lost":
                fs.append(gen.place_fault(rng, pool, ["SHORT", "EINTR"]))
                fs.append(gen.place_fault(rng, w, ["ERR"]))
            if what in ("readerr", "mix"):
                fs.append(gen.place_fault(rng, r, ["ERR", "ERR", "SHORT", "EINTR"]))
            fs = [f for f in fs if f]
            if fs:
                out.append(gen.with_faults(sc, fs))
        return out

    # ---- oracle ----
    def check(self, sc, h):
        model = None          # exact content of the store, or None
        files = {}            # key -> tokens its file may hold
        dirty = set()         # keys whose file may hold anything (a failed put over it)
        put_keys = set()
        gone = set()          # keys whose files somebody deleted
        partial = None        # a session which did not close successfully
        for pi, ph in enumerate(sc["phases"]):
            hard = [f for f, n in zip(ph.get("faults", ()), h.fault_fired[pi]) if n and f["kind"] not in ("SHORT", "EINTR", "CLOCK")]
            entered = False
            sess = {}
            odd = False
            for st in ph["actors"][0]:
                op, ev = st["op"], h.end_of(st["id"])
                if ev is None:
                    if not h.crashed.get((pi, 0)):
                        return [("lost-step", f"step {st['id']} did not finish")]
                    if op == "d_put" and h.begun(st["id"]) and entered:
                        dirty.add(st["key"])
                    if op == "d_exit" and h.begun(st["id"]) and entered:
                        partial, model = dict(sess), None
                    continue
                if skipped(ev):
                    continue
                e = ev["e"]
                if op == "mkdir" or op == "chdir":
                    if e:
                        return []
                elif op == "wipe":
                    entered, model, partial = False, None, None
                    files, dirty, put_keys, sess = {}, set(), set(), {}
                elif op == "d_new":
                    if e and not hard and any(x["op"] == "mkdir" and x["path"] == st["path"] for x in ph["actors"][0]):
                        return [("sink-raised", f"making the sink raised {e['type']}: {e['msg']}")]
                elif op == "d_enter":
                    if e:
                        if not hard and model is None and partial is None:
                            return [("enter-raised", f"entering raised {e['type']}: {e['msg']}")]
                    else:
                        entered, model, partial = True, None, None
                        files, dirty, put_keys, sess = {}, set(), set(), {}
                elif op == "d_put":
                    bad = bool(st.get("bad"))
                    if e is None:
                        if bad:
                            return [("bad-put-accepted", f"put of a value of the wrong type for {st['key']!r} was accepted")]
                        t = tok(gen.value(st["value"], st["binary"]))
                        odd = odd or st["key"] in gen.HARD_FILES
                        sess[st["key"]] = t
                        dirty.discard(st["key"])
                        put_keys.add(st["key"])
                    else:
                        if st["key"] in gen.HARD_FILES and not hard:
                            continue      # refused: nothing may have changed
                        if not bad and not hard:
                            return [("put-raised", f"put({st['key']!r}) raised {e['type']}: {e['msg']} with no fault")]
                        dirty.add(st["key"])
                        if "KeyboardInterrupt" in e["chain"] and not bad:
                            put_keys.add(st["key"])   # may have taken effect
                            files.setdefault(st["key"], []).append(tok(gen.value(st["value"], st["binary"])))
                elif op == "d_exit":
                    if e is None:
                        if ev["v"]["ret"]:
                            return [("exit-swallows", "leaving the sink swallows the caller's exception")]
                        model = dict(sess)
                    else:
                        if not hard and not odd:
                            return [("exit-raised", f"leaving the sink raised {e['type']}: {e['msg']} with no fault")]
                        partial, model = dict(sess), None
                elif op == "vanish":
                    gone.add(st["key"])
                elif op == "d_read":
                    if gone:
                        v = self.judge_gone(ev["v"], st, model, gone) if not e and not hard and model is not None and not dirty and set(model) == put_keys else None
                        if v:
                            return v
                        continue
                    if e:
                        return [("read-broken", f"{e['type']}: {e['msg']}")]
                    v = self.judge(ev["v"], st, model, partial, put_keys, dirty, files, hard)
                    if v:
                        return v
            if entered and h.crashed.get((pi, 0)) and model is None and partial is None:
                partial = dict(sess)
        return []

    def judge_gone(self, out, st, model, gone):
        """values whose files were deleted are reported as lost, not passed over; the others are still there"""
        if not (set(model) & gone) or not ok(out["make"]) or not ok(out["enter"]):
            return None
        if "keys" in out and ok(out["keys"]) and out["keys"][1] is not None and set(out["keys"][1]) != set(model):
            return [("loss-unlisted", f"keys() is {sorted(out['keys'][1])!r:.300} once the files of {sorted(gone)!r} were deleted")]
        it, got = out["items"]
        if it == "ok":
            return [("loss-passed-over", f"items() ended normally with {[k for k, _ in got]!r:.300} though the files of {sorted(gone)!r} were deleted")]
        for k, t in got:
            if k in gone or t != model.get(k):
                return [("value-wrong", f"items() gave {k!r} -> {t}, put {model.get(k)}")]
        for what in ("getitem", "get"):
            for k, r in out.get(what, ()):
                if k in gone:
                    if ok(r) or "KeyError" in r[1]["mro"]:
                        return [("loss-denied", f"{what}({k!r}) gave {show(r)} though it was put and its file deleted")]
                elif k in model and not (ok(r) and r[1] == model[k]):
                    return [("value-wrong", f"{what}({k!r}) gave {show(r)}, put {model[k]}")]
        return None

    def judge(self, out, st, model, partial, put_keys, dirty, files, hard):
        maybe = put_keys - set(model or partial or ())
        if model is not None and not hard and not (set(model) & dirty) and not maybe:
            return check_exact(out, model, st, st["via"])
        want = model if model is not None else partial
        for stage in ("make", "enter"):
            if not ok(out[stage]):
                if model is not None and not hard:
                    return [("unreadable", f"{stage} raised {out[stage][1]['type']}: {out[stage][1]['msg']}")]
                return []
        if want is None:
            # no session ever got as far as putting anything
            want = {}
        listed = None
        if "keys" in out and ok(out["keys"]) and out["keys"][1] is not None:
            listed = set(out["keys"][1])
            bad = listed - set(want) - maybe
            if bad:
                return [("listing-invented", f"keys() lists {sorted(bad)!r:.300}, which were not put")]
            if model is not None and set(model) - listed:
                return [("listing-short", f"keys() misses {sorted(set(model) - listed)!r:.300}")]
        elif "keys" in out and not ok(out["keys"]) and not hard:
            return [("keys-raised", f"{out['keys'][1]['type']}: {out['keys'][1]['msg']}")]

        def wrong(k, t):
            if k not in want and k not in maybe:
                return "of a key which was not put"
            if k in dirty:
                return None
            if k in want and t != want[k]:
                return f"instead of {want[k]}"
            return None
        it, got = out["items"]
        gk = [k for k, _ in got]
        if len(set(gk)) != len(gk):
            return [("items-duplicated", f"items() repeats a key: {gk!r:.300}")]
        for k, t in got:
            w = wrong(k, t)
            if w:
                return [("value-wrong", f"items() gave {k!r} -> {t} {w}")]
        if it == "ok":
            if listed is not None and set(gk) != listed:
                return [("items-incomplete", f"items() ended normally with {sorted(gk)!r:.300}, keys() has {sorted(listed)!r:.300}")]
            if model is not None and set(model) - set(gk):
                return [("items-incomplete", f"items() ended normally without {sorted(set(model) - set(gk))!r:.300}")]
        elif not hard and not dirty:
            return [("items-raised", f"{it[1]['type']}: {it[1]['msg']}")]
        for what in ("getitem", "get"):
            for k, r in out.get(what, ()):
                if ok(r) and r[1] != ["none"]:
                    w = wrong(k, r[1])
                    if w:
                        return [("value-wrong", f"{what}({k!r}) gave {r[1]} {w}")]
                elif model is not None and k in model and (ok(r) or "KeyError" in r[1]["mro"]):
                    return [("value-denied", f"{what}({k!r}) claims there is no such key")]
        return []


PROP = C04()
