"""C01: zip stores read back exactly what was written, over session histories."""
import gen
from props.common import skipped, tok
from props.zipcommon import FILENAMES, FILTERS, ZipOps, check_exact


class C01(ZipOps):
    id = "C01"

    def cases(self, rng, tier):
        env = gen.benign_env(rng)
        binary = rng.random() < 0.5
        fn = rng.choice(["id", "id", "id"] + list(FILENAMES))
        kf = rng.choice(["default"] * 4 + ["json", "none"])
        via = rng.choice([None, None, "params"]) if fn == "id" and kf == "default" else None
        nsess = rng.choice([1, 1, 2, 2, 3, 4])
        nk = rng.choice([0, 1, 2, 3, 3, 5, 8, 12, 30] + ([150] if rng.random() < 0.1 else []))
        keys = gen.zip_keys(rng, nk + 3)
        absent, keys = keys[:3], keys[3:]
        keys = gen.many(rng, 0.004) or keys
        nk = len(keys)
        path = rng.choice(["s.zip", "s.zip", "store", "sub/x.zip", "sp ace é.zip"])
        sid = [0]

        def step(op, **k):
            sid[0] += 1
            return dict(id=sid[0], op=op, **k)
        phases = []
        cfg = dict(path=path, binary=binary, fn=fn, kf=kf)
        if rng.random() < 0.1:
            cfg["named"] = True
        pre = [{"do": "mkdir", "path": "sub"}] if path.startswith("sub") else []
        # a stale file in the way of an overwriting session is legal
        if rng.random() < 0.1:
            pre.append({"do": "write", "path": path, "v": ["bin", rng.choice([0, 10, 5000]), 3]})
            first_over = True
        else:
            first_over = False
            if rng.random() < 0.1:    # an empty file, as tempfile makes them, is a store without entries
                pre.append({"do": "write", "path": path, "v": ["bin", 0, 3]})
        steps = []
        var = None
        nv = 0
        written = {}
        hard = rng.sample(gen.HARD, rng.choice([1, 1, 2, 4])) if rng.random() < 0.15 else []
        look = [k for k in hard if k != "__keys" or fn != "id"]     # the name of the listing is reserved
        keep = rng.choice([0, 0, 1, 2])
        for s in range(nsess):
            over = True if (s == 0 and first_over) else rng.random() < 0.5
            reuse = var is not None and rng.random() < 0.35
            if via == "params":
                over = True
            if not reuse:
                nv += 1
                var = f"v{nv}"
                steps.append(step("sink_new", var=var, overwrite=over, explicit=rng.random() < 0.3, via=via, **cfg))
                over_cur = over
            steps.append(step("sink_enter", var=var))
            if over_cur:
                written = {}
            pool = [k for k in keys if k not in written]
            ks = rng.sample(pool, rng.randrange(0, len(pool) + 1)) if s < nsess - 1 else pool
            for k in ks:
                steps.append(step("put", var=var, key=k, value=gen.value_desc(rng, binary, 0.05 if nk < 30 else 0), binary=binary,
                                  setitem=rng.random() < 0.3))
                written[k] = True
                if rng.random() < 0.15:
                    bad = rng.choice(["dup", "dup", "nokey", "noval"])
                    if bad == "dup":
                        # keys recorded nowhere can only be recognised within a session
                        dk = rng.choice(sorted(written)) if kf != "none" else k
                        steps.append(step("put", var=var, key=dk, value=gen.value_desc(rng, binary, 0), binary=binary, expect="reject"))
                    else:
                        steps.append(step("put", var=var, key=rng.choice(absent), value=["a", 5, 1], binary=binary, expect="reject", **{bad: True}))
            for k in hard:
                if rng.random() < 0.7 and not (kf == "none" and k in written):
                    written[k] = True
                    at = rng.randrange(max(i for i, x in enumerate(steps) if x["op"] == "sink_enter") + 1, len(steps) + 1)
                    steps.insert(at, step("put", var=var, key=k, value=gen.value_desc(rng, binary, 0), binary=binary))
            steps.append(step("sink_exit", var=var))
            if rng.random() < (0.8 if keep else 0.35) or s == nsess - 1:
                steps.append(step("read", keys=sorted(keys) + look, absent=absent, filter=rng.choice(list(FILTERS)),
                                  via=rng.choice([None, via, "linear" if via else None]), **cfg))
                if keep:
                    steps[-1].update(keep="s", via=via if keep == 2 else None)
                if rng.random() < 0.3:
                    # same question from a fresh process
                    phases.append({"actors": [steps]})
                    steps, var = [], None
                    steps.append(step("read", keys=sorted(keys) + look, absent=absent, filter=rng.choice(list(FILTERS)), **cfg))
        if rng.random() < 0.3 and keys and not hard:
            # another store is written by the same process at the same time
            ocfg = dict(cfg, path="other.zip")
            extra = [step("sink_new", var="other", overwrite=rng.random() < 0.5, **ocfg), step("sink_enter", var="other")]
            for k in rng.sample(keys, rng.randrange(1, min(len(keys), 6) + 1)):
                extra.append(step("put", var="other", key=k, value=gen.value_desc(rng, binary, 0.02), binary=binary))
            extra += [step("sink_exit", var="other"), step("read", keys=sorted(keys), absent=absent, filter=rng.choice(list(FILTERS)), **ocfg)]
            at = sorted(rng.randrange(len(steps) + 1) for _ in extra)
            for i, x in reversed(list(zip(at, extra))):
                steps.insert(i, x)
        phases.append({"actors": [steps]})
        phases[0]["pre"] = pre
        return {"env": env, "phases": phases}

    def variants(self, rng, sc, h, tier):
        out = []
        for _ in range(2 if tier == "quick" else 4):
            fs = []
            for _ in range(rng.choice([1, 2, 4])):
                f = gen.place_fault(rng, h.ops, ["SHORT", "EINTR", "CLOCK"])
                if f:
                    fs.append(f)
            if fs:
                out.append(gen.with_faults(sc, fs))
        return out

    def check(self, sc, h):
        v = []
        models = {}           # path -> its content
        live = {}             # var -> [overwrite, path, within a session]
        for ph in sc["phases"]:
            for st in ph["actors"][0]:
                ev = h.end_of(st["id"])
                if ev is None:
                    v.append(("lost-step", f"step {st['id']} {st['op']} did not finish"))
                    return v
                if skipped(ev):
                    continue
                op = st["op"]
                e = ev["e"]
                if op == "sink_new":
                    if e:
                        v.append(("make-raised", f"making the sink raised {e['type']}: {e['msg']}"))
                        return v
                    live[st["var"]] = [st.get("overwrite", True), st["path"], False]
                elif op == "sink_enter":
                    if e:
                        v.append(("enter-raised", f"entering the sink raised {e['type']}: {e['msg']}"))
                        return v
                    if live[st["var"]][0] or live[st["var"]][1] not in models:
                        models[live[st["var"]][1]] = {}
                    live[st["var"]][2] = True
                elif op == "put":
                    if not live[st["var"]][2]:
                        if not e:
                            v.append(("put-outside", "put outside a session was accepted"))
                        continue
                    model = models[live[st["var"]][1]]
                    reject = st.get("nokey") or st.get("noval") or st["key"] in model
                    if reject:
                        if not e:
                            v.append(("bad-put-accepted", f"put of {'missing key/value' if st.get('nokey') or st.get('noval') else 'repeated key ' + repr(st['key'])} was accepted"))
                            return v
                    elif e and st["key"] in gen.HARD:
                        pass
                    elif e:
                        v.append(("put-raised", f"put({st['key']!r}) raised {e['type']}: {e['msg']}"))
                        return v
                    else:
                        model[st["key"]] = tok(gen.value(st["value"], st["binary"]))
                elif op == "sink_exit":
                    live[st["var"]][2] = False
                    if e:
                        v.append(("close-raised", f"leaving the sink raised {e['type']}: {e['msg']}"))
                        return v
                elif op == "read":
                    if e:
                        v.append(("read-raised", f"{e['type']}: {e['msg']}"))
                        return v
                    if st["path"] in models and not any(l[2] and l[1] == st["path"] for l in live.values()):
                        v += check_exact(ev["v"], models[st["path"]], st, f"step {st['id']}")
                        if v:
                            return v
        return v


PROP = C01()
