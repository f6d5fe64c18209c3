"""C02: failed puts leave a zip store consistent."""
import gen
from props.common import ok, skipped, tok
from props.zipcommon import FILENAMES, ZipOps


class C02(ZipOps):
    id = "C02"

    def cases(self, rng, tier):
        env = gen.benign_env(rng, 0.15)
        binary = rng.random() < 0.5
        fn = rng.choice(["id", "id"] + list(FILENAMES))
        kf = rng.choice(["default"] * 5 + ["json"])
        cfg = dict(path="s.zip", binary=binary, fn=fn, kf=kf)
        keys = gen.zip_keys(rng, rng.choice([2, 3, 4, 6]))
        sid = [0]

        def step(op, **k):
            sid[0] += 1
            return dict(id=sid[0], op=op, **k)

        def val():
            return gen.value_desc(rng, binary, 0.08)
        phases = []
        nsess = rng.choice([1, 1, 2, 3])
        have = []
        hard = []
        for s in range(nsess):
            over = rng.random() < (0.8 if s == 0 else 0.35)
            if over:
                have = []
            var = f"v{s}"
            failing = rng.sample(keys, 1) if rng.random() < 0.3 else []
            steps = [step("sink_new", var=var, overwrite=over, failing_fn=failing, **cfg), step("sink_enter", var=var)]
            for _ in range(rng.choice([1, 2, 3, 5])):
                k = rng.choice(keys)
                if rng.random() < 0.06:
                    k = rng.choice(gen.HARD)
                    if k not in hard:
                        hard.append(k)
                r = rng.random()
                extra = {}
                if r < 0.06:
                    extra = {"nokey": True}
                elif r < 0.12:
                    extra = {"noval": True}
                elif r < 0.18:
                    extra = {"badval": rng.choice(["int", "list", "obj"])}
                v = val()
                steps.append(step("put", var=var, key=k, value=v, binary=binary, **extra))
                if rng.random() < 0.3:
                    # the same key again, as after a failure
                    steps.append(step("put", var=var, key=k, value=v if rng.random() < 0.5 else val(), binary=binary))
            steps.append(step("sink_exit", var=var, exc=rng.random() < 0.2))
            if rng.random() < 0.25:
                # the session is over: another put has nowhere to go
                steps.append(step("put", var=var, key="late", value=val(), binary=binary))
            steps.append(step("fds"))
            phases.append({"actors": [steps]})
            phases.append({"actors": [[step("read", keys=keys + ["late"] + [k for k in hard if k != "__keys" or fn != "id" or kf != "default"], what=["keys", "items", "getitem", "get"], session=s, **cfg)]]})
        return {"env": env, "phases": phases}

    def op_fds(self, ctx, st):
        return ctx.open_fds()

    def variants(self, rng, sc, h, tier):
        out = []
        want = [o for o in h.ops if o.phase % 2 == 0]
        if rng.random() < 0.7:
            # most faults inside puts
            puts = {st["id"] for ph in sc["phases"] for st in ph["actors"][0] if st["op"] == "put"}
            w = [o for o in want if o.step in puts]
            want = w or want
        for _ in range(5 if tier == "quick" else 8):
            fs = []
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                f = gen.place_fault(rng, want, ["ERR", "ERR", "QUOTA", "SIGINT", "ERR"])
                if f:
                    fs.append(f)
            if rng.random() < 0.05:
                # archives cannot hold times before 1980 or after 2107
                f = gen.place_fault(rng, want, ["CLOCK"])
                if f:
                    f["arg"] = rng.choice([-1700000000, 3000000000])
                    fs.append(f)
            if fs:
                out.append(gen.with_faults(sc, fs))
        return out

    def check(self, sc, h):
        store = None        # what the path must hold: key -> token; None when unknown
        exists = False      # something has been written at the path by a closed session
        maybe = {}          # keys of interrupted puts: may or may not be there
        tried = {}          # values offered by failed puts
        for pi, ph in enumerate(sc["phases"]):
            steps = ph["actors"][0]
            hits = sum(h.fault_fired[pi]) if h.fault_fired[pi] else 0
            for ph2, ff in zip(sc["phases"][:pi], h.fault_fired):
                # a changed clock stays changed, a full disk may stay full
                hits += sum(n for f, n in zip(ph2.get("faults", ()), ff) if f["kind"] == "CLOCK")
            acked, entered, closed, over, failing = {}, False, False, True, set()
            if steps and steps[0]["op"] != "read":
                smaybe, stried = {}, {}
            for st in steps:
                ev = h.end_of(st["id"])
                if ev is None:
                    return [("lost-step", f"step {st['id']} {st['op']} did not finish")]
                if skipped(ev):
                    continue
                e, op = ev["e"], st["op"]
                if op == "sink_new":
                    if e:
                        return [] if hits else [("make-raised", f"making the sink raised {e['type']}: {e['msg']} with no fault")]
                    over = st["overwrite"]
                    failing = set(st.get("failing_fn") or ())
                elif op == "sink_enter":
                    if e:
                        if not hits:
                            if not over and exists and store is None:
                                continue    # what is there may be no archive at all
                            return [("enter-raised", f"entering raised {e['type']}: {e['msg']} with no fault")]
                        if over:
                            store, exists = None, True
                        elif not exists:
                            store, exists = None, True
                    else:
                        entered = True
                        if over or (not exists):
                            store, maybe, tried = {}, {}, {}
                        exists = True
                elif op == "put":
                    if not entered or closed:
                        if not e:
                            return [("put-outside", "a put outside a session was accepted")]
                        continue
                    k = st["key"]
                    bad = bool(st.get("nokey") or st.get("noval") or st.get("badval"))
                    must_reject = bad or k in acked or (store is not None and k in store)
                    if k in failing:
                        # the naming function fails once, but is it called for a put which is rejected anyway?
                        if must_reject:
                            smaybe.setdefault(k, None)
                        must_reject = True
                        failing.discard(k)
                    t = None if bad else tok(gen.value(st["value"], st["binary"]))
                    known = store is not None and k not in maybe and k not in smaybe
                    if e is None:
                        if must_reject:
                            return [("bad-put-accepted", f"step {st['id']}: put of {k!r} should have been rejected")]
                        acked[k] = t
                    else:
                        if not must_reject and not hits and known and k not in gen.HARD:
                            return [("put-raised", f"put({k!r}) raised {e['type']}: {e['msg']} with no fault")]
                        if t is not None and k not in acked and not (store and k in store):
                            stried.setdefault(k, []).append(t)
                            if "KeyboardInterrupt" in e["chain"]:
                                smaybe[k] = t
                            elif smaybe.get(k, 1) is None:
                                del smaybe[k]
                elif op == "sink_exit":
                    closed = True
                    if e and not hits:
                        return [("close-raised", f"leaving the sink raised {e['type']}: {e['msg']} with no fault")]
                    if not e and ev["v"]["ret"]:
                        return [("exit-swallows", "leaving the sink swallows the caller's exception")]
                    if e:
                        store = None
                    elif store is not None:
                        store = dict(store)
                        store.update(acked)
                        maybe = {k: t for k, t in {**maybe, **smaybe}.items() if k not in store}
                        for k, ts in stried.items():
                            tried.setdefault(k, []).extend(ts)
                elif op == "fds":
                    if ev["v"] and ev["v"][0] and (closed or not entered) and not h.fired.get("SIGINT"):
                        return [("archive-left-open", f"after the session ended {ev['v'][0]} descriptor(s) are still open: {ev['v'][1].strip()}")]
                elif op == "read":
                    if e:
                        return [("read-raised", f"{e['type']}: {e['msg']}")]
                    if store is None:
                        continue
                    out = ev["v"]
                    for stage in ("make", "enter"):
                        if not ok(out[stage]):
                            return [("closed-store-unreadable", f"close succeeded but opening raised {out[stage][1]['type']}: {out[stage][1]['msg']}")]
                    r = out["keys"]
                    if not ok(r) or r[1] is None:
                        return [("keys-unreadable", f"close succeeded but keys() gave {r}")]
                    ks = set(r[1])
                    if len(ks) != len(r[1]):
                        return [("keys-duplicated", f"keys() lists a key twice: {r[1]!r:.300}")]
                    extra = ks - set(store) - set(maybe)
                    missing = set(store) - ks
                    if extra:
                        return [("failed-key-listed", f"keys() lists {sorted(extra)!r}, whose put failed or never happened")]
                    if missing:
                        return [("acked-key-missing", f"keys() misses {sorted(missing)!r}, whose put succeeded")]
                    it, got = out["items"]
                    if it != "ok":
                        return [("items-raised", f"items() raised {it[1]['type']}: {it[1]['msg']}")]
                    if sorted(k for k, _ in got) != sorted(ks):
                        return [("items-keys-wrong", f"items() gave {[k for k, _ in got]!r:.300}, keys() {sorted(ks)!r:.300}")]
                    for k, t in got:
                        if (t != store[k]) if k in store else (t not in tried.get(k, ())):
                            return [("value-wrong", f"items() gave {k!r} -> {t}, put {store.get(k)}")]
                    for what in ("getitem", "get"):
                        for k, r in out[what]:
                            if k in store:
                                if r != ["ok", store[k]]:
                                    return [("value-wrong", f"{what}({k!r}) gave {r}, put {store[k]}")]
                            elif ok(r) and r[1] != ["none"] and r[1] not in tried.get(k, []):
                                return [("failed-put-wrong-value", f"{what}({k!r}) gave {r[1]}, which was never put")]
                    # an interrupted put that took effect is part of the store from now on
                    for k in ks - set(store):
                        store[k] = dict(map(tuple, [(a, tuple(b)) for a, b in got]))[k]
                        store[k] = list(store[k])
                    maybe = {}
        return []


PROP = C02()
