"""Shrinks a failing scenario while the same class of violation persists."""
import copy
import time

import gen


def minimise(world, prop, sc, viol, budget=45):
    from worker import run_one
    cls = viol[0][0]
    best, bviol = sc, viol
    end = time.monotonic() + budget
    runs = 0

    def attempt(cand):
        nonlocal best, bviol, runs
        if time.monotonic() > end:
            return False
        keep = getattr(prop, "keep_ops", ())
        if keep:
            ids = lambda s: sorted(st["id"] for ph in s["phases"] for a in ph["actors"] for st in a if st["op"] in keep)
            if ids(cand) != ids(sc):
                return False
        runs += 1
        try:
            _, v = run_one(world, prop, cand)
        except Exception:
            return False
        v = [x for x in v if x[0] == cls]
        if v:
            best, bviol = cand, v
            return True
        return False

    def lists(s):
        """paths of lists whose elements may be dropped"""
        out = []
        for pi, ph in enumerate(s["phases"]):
            out += [(pi, k) for k in ("faults", "switches", "pre") if ph.get(k)]
        return out

    # does it need the simulator's benign noise?
    for k in ("sr", "sw", "ei", "dirseed", "clock", "loc"):
        if best.get("env", {}).get(k):
            c = copy.deepcopy(best)
            c["env"][k] = 0
            attempt(c)
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for pi, k in lists(best):
            n = len(best["phases"][pi][k])
            size = max(1, n // 2)
            while size >= 1:
                i = 0
                while i < len(best["phases"][pi][k]):
                    c = copy.deepcopy(best)
                    del c["phases"][pi][k][i:i + size]
                    if attempt(c):
                        progress = True
                    else:
                        i += size
                if time.monotonic() > end:
                    break
                size //= 2
        for pi in range(len(best["phases"])):
            for ai in range(len(best["phases"][pi]["actors"])):
                size = max(1, len(best["phases"][pi]["actors"][ai]) // 2)
                while size >= 1:
                    i = 0
                    while i < len(best["phases"][pi]["actors"][ai]):
                        c = copy.deepcopy(best)
                        del c["phases"][pi]["actors"][ai][i:i + size]
                        if attempt(c):
                            progress = True
                        else:
                            i += size
                    if time.monotonic() > end:
                        break
                    size //= 2
        # values: smaller sizes, plainer kinds
        def walk(o, path=()):
            if isinstance(o, list):
                if len(o) == 3 and type(o[1]) is int and type(o[2]) is int and o[0] in gen.BYTE_KINDS + gen.TEXT_KINDS:
                    yield path
                else:
                    for i, x in enumerate(o):
                        yield from walk(x, path + (i,))
            elif isinstance(o, dict):
                for k in sorted(o):
                    if k not in ("env", "faults", "switches"):
                        yield from walk(o[k], path + (k,))

        def at(o, path):
            for p in path:
                o = o[p]
            return o
        for path in list(walk(best["phases"], ("phases",)))[:60]:
            try:
                cur = at(best, path)
            except (KeyError, IndexError):
                continue
            for n in (0, 5, 64, cur[1] // 2):
                if n < cur[1]:
                    c = copy.deepcopy(best)
                    at(c, path)[1] = n
                    if attempt(c):
                        progress = True
                        break
            try:
                cur = at(best, path)
            except (KeyError, IndexError):
                continue
            if cur[0] != "a":
                c = copy.deepcopy(best)
                at(c, path)[0] = "a"
                if attempt(c):
                    progress = True
        if hasattr(prop, "shrink"):
            for c in prop.shrink(best):
                if attempt(c):
                    progress = True
                    break
    return best, bviol, runs
