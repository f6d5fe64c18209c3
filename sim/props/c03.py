"""C03: crashes, damage and concurrent readers never make a zip store give wrong data."""
import copy

import corrupt
import gen
from props.common import ok, skipped, tok
from props.zipcommon import ZipOps, directory, read_store

WHAT = ["keys", "items", "getitem", "get", "getd"]


class C03(ZipOps):
    id = "C03"

    def cases(self, rng, tier):
        env = gen.benign_env(rng, 0.12)
        binary = rng.random() < 0.5
        cfg = dict(path="s.zip", binary=binary, fn=rng.choice(["id", "id", "prefix", "hash", "suffix"]), kf=rng.choice(["default"] * 5 + ["json"]))
        keys = gen.zip_keys(rng, rng.choice([2, 3, 4, 6]))
        sid = [0]

        def step(op, **k):
            sid[0] += 1
            return dict(id=sid[0], op=op, **k)

        def read(**k):
            what = list(WHAT)
            if rng.random() < 0.3:
                rng.shuffle(what)
            return step("read", keys=keys, what=what, **cfg, **k)

        def session(over):
            var = f"v{sid[0]}"
            st = [step("sink_new", var=var, overwrite=over, **cfg), step("sink_enter", var=var)]
            ks = [k for k in keys if over or k not in used]
            for k in rng.sample(ks, rng.randrange(0, len(ks) + 1) if rng.random() < 0.4 else len(ks) * 2 // 3 if ks else 0):
                st.append(step("put", var=var, key=k, value=gen.value_desc(rng, binary, 0.06), binary=binary))
                used.add(k)
            st.append(step("sink_exit", var=var))
            return st
        used = set()
        phases = []
        for s in range(rng.choice([1, 2, 2, 3])):
            over = s == 0 or rng.random() < 0.5
            if over:
                used = set()
            if s and rng.random() < 0.4:
                n = rng.choice([1, 1, 2])
                ph = {"actors": [session(over)] + [[read() for _ in range(rng.choice([1, 2]))] for _ in range(n)]}
                ph["switches"] = gen.random_switches(rng, n + 1, 70)
                ph["first"] = rng.randrange(n + 1)
                phases.append(ph)
            else:
                phases.append({"actors": [session(over)]})
            phases.append({"actors": [[read()]]})
        if rng.random() < 0.6:
            used = set()
            phases.append({"actors": [session(True)]})
            phases.append({"actors": [[read()]]})
        return {"env": env, "phases": phases}

    def op_read(self, ctx, st):
        out = read_store(ctx, st)
        out["dir"] = directory(ctx, st)
        return out

    @staticmethod
    def kind(ph):
        ops = {st["op"] for a in ph["actors"] for st in a}
        return "mixed" if "read" in ops and "sink_new" in ops else "read" if "read" in ops else "write"

    def variants(self, rng, sc, h, tier):
        out = []
        kinds = [self.kind(p) for p in sc["phases"]]
        w = [i for i, k in enumerate(kinds) if k != "read"]
        r = [i for i, k in enumerate(kinds) if k == "read"]
        for _ in range(6 if tier == "quick" else 10):
            s = copy.deepcopy(sc)
            fs = []
            what = rng.choice(["crash", "crash", "crash", "corrupt", "corrupt", "readerr", "lost", "werr", "mix", "sched"])
            if what in ("crash", "mix", "werr", "lost"):
                pi = rng.choice(w)
                ops = [o for o in h.ops if o.phase == pi and o.actor == 0]
                kk = {"crash": ["CRASH_BEFORE", "CRASH_AFTER", "CRASH_TORN", "CRASH_TORN"], "mix": ["CRASH_TORN", "ERR", "QUOTA"],
                      "werr": ["ERR", "QUOTA"], "lost": ["LOST"]}[what]
                for _ in range(1 if what in ("crash",) else rng.choice([1, 1, 2])):
                    f = gen.place_fault(rng, ops, kk)
                    if f:
                        fs.append(f)
            if what in ("corrupt", "mix"):
                # damage between phases: before a reader or before an appending session
                pi = rng.choice(r + [i for i in w if i and not sc["phases"][i]["actors"][0][0]["overwrite"]])
                s["phases"][pi].setdefault("pre", []).append(corrupt.random_corruption(rng, "s.zip"))
            if what in ("readerr", "mix"):
                pi = rng.choice(r)
                f = gen.place_fault(rng, [o for o in h.ops if o.phase == pi], ["ERR", "ERR", "SHORT", "EINTR"])
                if f:
                    fs.append(f)
            if what == "sched":
                mixed = [i for i, k in enumerate(kinds) if k == "mixed"]
                if not mixed:
                    continue
                pi = rng.choice(mixed)
                s["phases"][pi]["switches"] = gen.random_switches(rng, len(sc["phases"][pi]["actors"]), h.gseqs[pi])
                s["phases"][pi]["first"] = rng.randrange(len(sc["phases"][pi]["actors"]))
            s = gen.with_faults(s, fs)
            out.append(s)
        return out

    def check(self, sc, h):
        ever = {}                     # key -> tokens ever offered for it
        listings = set()              # listings a completed session may have left
        exact, damaged, exists = None, False, False
        gens = set()                  # listings any session left in the archive since it was last created
        for pi, ph in enumerate(sc["phases"]):
            kind = self.kind(ph)
            fired = [f["kind"] for f, n in zip(ph.get("faults", ()), h.fault_fired[pi]) if n]
            if ph.get("pre"):
                damaged, exact = True, None
            before = set(listings)
            if exact is None:
                before.add(frozenset())       # what earlier sessions left may be an archive without a listing
            if kind != "read":
                for st in ph["actors"][0]:
                    if st["op"] == "put":
                        t = tok(gen.value(st["value"], st["binary"]))
                        ever.setdefault(st["key"], [])
                        if t not in ever[st["key"]]:
                            ever[st["key"]].append(t)
                r = self.write_phase(h, pi, ph, fired, exact, listings, damaged, exists)
                if isinstance(r, str):
                    return [("write-raised", r)]
                exact, listings, damaged, exists, pend = r
                if any(st["op"] == "sink_new" and st["overwrite"] for st in ph["actors"][0]):
                    gens = set()
                gens |= listings | pend
                before |= listings | pend
            for ai, steps in enumerate(ph["actors"]):
                for st in steps:
                    if st["op"] != "read":
                        continue
                    ev = h.end_of(st["id"])
                    if ev is None:
                        if (pi, ai) in h.crashed:
                            continue
                        return [("lost-step", f"read step {st['id']} did not finish")]
                    if ev["e"]:
                        return [("read-broken", f"{ev['e']['type']}: {ev['e']['msg']}")]
                    possible = listings if kind == "read" else before
                    if damaged:
                        # an older listing still inside the archive may be the only one left
                        possible = possible | gens
                    v = self.judge(ev["v"], st, ever, possible, exact if kind == "read" else None,
                                   bool(set(fired) - {"SHORT", "EINTR"}) or kind == "mixed", damaged or kind == "mixed",
                                   self.surely(ev["v"], kind, possible, damaged, fired))
                    if v:
                        return [(v[0], f"phase {pi} step {st['id']}: {v[1]}")]
        return []

    def write_phase(self, h, pi, ph, fired, exact, listings, damaged, exists):
        """advances the model over one session; returns the new state or an error"""
        steps = ph["actors"][0]
        hard = set(fired) - {"SHORT", "EINTR", "CLOCK"}
        over, entered, completed, exit_begun = True, False, False, False
        touched = False
        acked = {}
        offered = {}
        for st in steps:
            op = st["op"]
            if op == "read":
                continue
            ev = h.end_of(st["id"])
            if not h.begun(st["id"]):
                continue
            if ev is not None and skipped(ev):
                continue
            e = ev and ev["e"]
            if op == "sink_new":
                over = st["overwrite"]
                if e and not hard and not damaged:
                    return f"making the sink raised {e['type']}: {e['msg']} with no fault"
            elif op == "sink_enter":
                touched = True
                if ev and not e:
                    entered = True
                elif ev and not hard and not damaged and (over or not exists or exact is not None):
                    return f"entering the sink raised {e['type']}: {e['msg']} with no fault"
            elif op == "put":
                t = tok(gen.value(st["value"], st["binary"]))
                offered[st["key"]] = t
                if ev and not e and entered:
                    acked[st["key"]] = t
                elif ev and e and entered and not hard and exact is not None:
                    return f"put({st['key']!r}) raised {e['type']}: {e['msg']} with no fault"
            elif op == "sink_exit":
                exit_begun = True
                if ev and not e and entered:
                    completed = True
                elif ev and e and entered and not hard and not damaged:
                    return f"leaving the sink raised {e['type']}: {e['msg']} with no fault"
        pend = set()
        # a session that could not be closed may have left an archive without a listing
        base = {frozenset()} if over or not exists else listings if exact is not None else listings | {frozenset()}
        for b in base:
            pend.add(frozenset(b | set(acked)))
        lost = "LOST" in hard
        if completed:
            if over or not exists:
                exact, listings, damaged, exists = dict(acked), {frozenset(acked)}, False, True
            elif exact is not None:
                exact = {**exact, **acked}
                listings = {frozenset(exact)}
            else:
                listings = set(pend) | (listings if damaged else set())
            if lost:
                exact, damaged = None, True
                listings = listings | pend | {frozenset()} | base
        elif touched:
            exists_after = True
            if entered or over or (hard and not exists):
                exact = None
                if exit_begun:
                    listings = listings | pend
            elif not over and exists:
                # an appending session which could not start must not have touched anything
                if any(k in hard for k in ("LOST",)):
                    exact = None
            exists = exists_after
            if lost:
                damaged = True
        return exact, listings, damaged, exists, pend

    @staticmethod
    def surely(out, kind, possible, damaged, fired):
        """keys whose values the store must not deny to hold, whatever became of their bytes"""
        if kind == "read":
            # the archive stood still: its directory says which members there are
            return set(out.get("dir") or ())
        if damaged or set(fired) - {"SHORT", "EINTR", "CLOCK"} or not possible:
            return set()
        return set(frozenset.intersection(*possible))

    def judge(self, out, st, ever, listings, exact, read_fault, damaged, held):
        may_fail = read_fault or damaged or exact is None
        for stage in ("make", "enter"):
            if not ok(out[stage]):
                if may_fail:
                    return None
                return "unreadable", f"opening raised {out[stage][1]['type']}: {out[stage][1]['msg']}"
        if "exit" in out and not ok(out["exit"]) and not read_fault:
            return "exit-raised", f"leaving the source raised {out['exit'][1]['type']}: {out['exit'][1]['msg']}"
        r = out["keys"]
        listed = None
        if not ok(r):
            if not may_fail:
                return "keys-raised", f"keys() raised {r[1]['type']}: {r[1]['msg']}"
        elif r[1] is None:
            if exact is not None and not damaged:
                return "listing-lost", "keys() is None though a completed session wrote a listing"
        else:
            listed = frozenset(r[1])
            if len(r[1]) != len(listed):
                return "keys-duplicated", f"keys() lists a key twice: {r[1]!r:.300}"
            if exact is not None:
                if listed != frozenset(exact):
                    return "listing-wrong", f"keys() gave {sorted(listed)!r:.300}, expected {sorted(exact)!r:.300}"
            elif listed not in listings:
                return "listing-invented", (f"keys() gave {sorted(listed)!r:.300}, which no session completed; possible are "
                                            f"{sorted(map(sorted, listings))!r:.400}")
        it, got = out["items"]
        gk = [k for k, _ in got]
        if len(set(gk)) != len(gk):
            return "items-duplicated", f"items() gave a key twice: {gk!r:.300}"
        for k, t in got:
            if (t != exact.get(k)) if exact is not None else (t not in ever.get(k, ())):
                return "value-wrong", f"items() gave {k!r} -> {t}, which was never put" if exact is None else f"items() gave {k!r} -> {t}, put {exact.get(k)}"
        if it == "ok":
            if listed is None:
                if ok(r):
                    return "items-without-listing", "items() ended normally though there is no listing"
            elif frozenset(gk) != listed:
                return "items-incomplete", f"items() ended normally with {sorted(gk)!r:.300} but keys() lists {sorted(listed)!r:.300}"
        elif not may_fail:
            return "items-raised", f"items() raised {it[1]['type']}: {it[1]['msg']}"
        for what in ("getitem", "get", "getd"):
            for k, r in out[what]:
                if k in held and (r == ["ok", ["none"]] or (not ok(r) and "KeyError" in r[1]["mro"])):
                    return "value-denied", f"{what}({k!r}) claims there is no such key, but the archive has it: {r!r:.200}"
                if exact is not None:
                    want = exact.get(k)
                    if want is None:
                        if ok(r) and r[1] != ["none"]:
                            return "value-invented", f"{what}({k!r}) gave {r[1]} though the store does not hold it"
                    elif r != ["ok", want]:
                        if ok(r) and r[1] != ["none"]:
                            return "value-wrong", f"{what}({k!r}) gave {r[1]}, put {want}"
                        if ok(r) or "KeyError" in r[1]["mro"]:
                            if not damaged:
                                return "value-denied", f"{what}({k!r}) claims there is no such key"
                        elif not may_fail:
                            return "value-unreadable", f"{what}({k!r}) raised {r[1]['type']}: {r[1]['msg']}"
                elif ok(r) and r[1] != ["none"] and r[1] not in ever.get(k, ()):
                    return "value-wrong", f"{what}({k!r}) gave {r[1]}, which was never put"
        return None


PROP = C03()
