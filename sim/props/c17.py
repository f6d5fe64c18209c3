"""C17: adapters over streams.  The whole scenario is one step: a scheduler interleaves producers and consumers."""
import collections
import hashlib
import itertools
import json

import gen
from core import Prop, harness_code

from vistautils.collection_utils import get_only
from vistautils.iter_utils import drop, non_none, only, windowed
from vistautils.iterutils import tile_with_pairs

BUDGET = 20000


class Boom(Exception):
    pass


class BoomBase(BaseException):
    pass


class Endless(Exception):
    """nothing but missing values, for ever"""


class Plain:
    pass


class Falsy:
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Equal:
    """claims to be equal to everything"""
    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False
    __hash__ = None


class Unequal:
    def __eq__(self, o):
        return False

    def __ne__(self, o):
        return True
    __hash__ = None


class Touchy:
    def __eq__(self, o):
        raise AssertionError("compared")
    __ne__ = __lt__ = __bool__ = __eq__
    __hash__ = None


class Stoppy(list):
    """a sequence as an element"""


KINDS = {"p": Plain, "f": Falsy, "e": Equal, "u": Unequal, "t": Touchy, "s": Stoppy}


def make(kind):
    if kind == "n":
        return None
    if kind == "z":
        return float("0.0")
    if kind == "N":
        return float("nan")
    return KINDS[kind]()


FAILS = {"Boom": Boom, "BoomBase": BoomBase, "KeyboardInterrupt": KeyboardInterrupt, "OSError": OSError, "ValueError": ValueError, "LookupError": LookupError, "GeneratorExit": GeneratorExit, "RuntimeError": RuntimeError}


# ---- the reference: pull machines over a shared list of tokens; a pull gives ["v", x], ["end"] or ["fail"] ----
class MBase:
    def __init__(self, src, reads):
        self.s, self.i, self.dead, self.reads = src, 0, False, reads

    def pull(self):
        self.reads[0] += 1
        if self.dead:
            return ["end"]
        s = self.s
        if s["fail"] is not None and self.i == s["fail"]:
            self.dead = True
            return ["fail"]
        if s["inf"]:
            self.i += 1
            return ["v", (self.i - 1) % len(s["toks"])] if s["toks"] else ["v", 0]
        if self.i >= len(s["toks"]):
            self.dead = True
            return ["end"]
        self.i += 1
        return ["v", self.i - 1]


class MAd:
    def __init__(self, up):
        self.up, self.dead = up, False

    def pull(self):
        if self.dead:
            return ["end"]
        r = self.next()
        if r[0] != "v":
            self.dead = True
        return r


class MDrop(MAd):
    def __init__(self, up, n):
        super().__init__(up)
        self.n = n

    def next(self):
        while self.n:
            r = self.up.pull()
            if r[0] != "v":
                return r
            self.n -= 1
        return self.up.pull()


class MNonNone(MAd):
    def __init__(self, up, kinds):
        super().__init__(up)
        self.kinds = kinds

    def next(self):
        for n in itertools.count():
            if n > 5000:
                raise Endless
            r = self.up.pull()
            if r[0] != "v" or not (isinstance(r[1], int) and self.kinds[r[1]] == "n"):
                return r


class MWin(MAd):
    def __init__(self, up, w, partial):
        super().__init__(up)
        self.w, self.partial, self.win, self.ended = w, partial, None, False

    def next(self):
        if self.ended:
            self.win = self.win[1:]
            return ["v", self.win] if self.win else ["end"]
        if self.win is None:
            win = []
            while len(win) < self.w:
                r = self.up.pull()
                if r[0] == "fail":
                    return r
                if r[0] == "end":
                    if self.partial and win:
                        # a short first window; only what is left of it follows
                        self.win = win
                        self.short = True
                        return ["v", win]
                    return ["end"]
                win.append(r[1])
            self.win = win
            return ["v", win]
        r = self.up.pull()
        if r[0] == "fail":
            return r
        if r[0] == "end":
            if not self.partial:
                return r
            self.ended = True
            self.win = self.win[1:]
            return ["v", self.win] if self.win else ["end"]
        self.win = (self.win + [r[1]])[-self.w:]
        return ["v", self.win]


class C17(Prop):
    id = "C17"

    def interesting(self, sc, h):
        return True

    def cases(self, rng, tier):
        n = rng.choice([0, 1, 1, 2, 3, 5, 8, 20]) if rng.random() < 0.97 else 1500
        toks = [rng.choice("pppppnnfzNeuts") for _ in range(n)]
        kind = rng.choice(["list", "list", "iterable", "iterable", "iterator", "iterator", "generator", "getitem", "tuple", "deque"])
        src = {"kind": kind, "toks": toks, "inf": kind in ("iterable", "iterator", "generator") and rng.random() < 0.15 and n > 0,
               "fail": rng.choice([0, 1, n // 2, max(0, n - 1), n, n + 3]) if kind in ("iterable", "iterator", "generator", "getitem") and rng.random() < 0.3 else None, "exc": rng.choice(sorted(FAILS))}
        chain = []
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
            r = rng.random()
            if r < 0.3:
                chain.append(["drop", rng.choice([0, 0, 1, 2, 3, n, n + 1, 1000])])
            elif r < 0.75:
                chain.append(["windowed", rng.choice([1, 1, 2, 2, 3, 5, max(1, n), n + 1, 1000]), rng.random() < 0.5])
            elif r < 0.85:
                chain.append(["tile"])
            elif not any(c[0] in ("windowed", "tile") for c in chain):
                chain.append(["non_none"])
        size = 1
        for c in chain:
            if c[0] == "windowed":
                c[1] = max(1, min(c[1], 1500 // size))
            size *= {"windowed": c[1] if c[0] == "windowed" else 1, "tile": 2}.get(c[0], 1)
        sched = []
        consumers = 1
        sched.append(["new"])
        long = rng.random() < 0.1
        for _ in range(rng.choice([4, 10, 25, 60]) if not long else 400):
            r = rng.random()
            if r < 0.07 and consumers < 4:
                sched.append(["new"])
                consumers += 1
            elif r < 0.75:
                sched.append(["next", rng.randrange(consumers)])
            elif r < 0.82 and kind in ("list", "iterable", "iterator", "generator", "getitem"):
                sched.append(["grow", rng.choice("pnft")])
            elif r < 0.86:
                sched.append([rng.choice(["only", "get_only"])])
            elif r < 0.89:
                sched.append(["close", rng.randrange(consumers)])
            elif r < 0.93:
                sched.append(["drain", rng.randrange(consumers)])
            else:
                sched += [["next", rng.randrange(consumers)]] * rng.choice([2, 5, 10])
        if any(c[0] == "windowed" and c[1] > 100 for c in chain):
            sched = sched[:20]
            consumers = max(1, sum(1 for a in sched if a[0] == "new"))
        if rng.random() < 0.7:
            sched += [["drain", c] for c in range(consumers)]
        bad = rng.choice([None] * 30 + [["drop", -1], ["windowed", 0, False], ["windowed", -3, True]])
        return {"env": {"bseed": 0, "rseed": 1, "dirseed": 0, "op_us": 1000}, "phases": [{"actors": [[{"id": 1, "op": "run", "src": src, "chain": chain, "sched": sched, "bad": bad}]]}]}

    def variants(self, rng, sc, h, tier):
        """the same stream with other interleavings and producer failures"""
        out = []
        st = sc["phases"][0]["actors"][0][0]
        for _ in range(3 if tier == "quick" else 6):
            v = json.loads(json.dumps(sc))
            s = v["phases"][0]["actors"][0][0]
            if rng.random() < 0.6 and s["src"]["kind"] in ("iterable", "iterator", "generator", "getitem"):
                n = len(s["src"]["toks"])
                s["src"]["fail"] = rng.randrange(n + 1)
                s["src"]["exc"] = rng.choice(sorted(FAILS))
            x = s["sched"][1:]
            rng.shuffle(x)
            c = 1
            y = [["new"]]
            for a in x:
                if a[0] == "new":
                    c += 1
                elif a[0] in ("next", "close", "drain"):
                    a = [a[0], a[1] % c]
                y.append(a)
            s["sched"] = y
            out.append(v)
        return out

    def shrink(self, sc):
        """smaller schedules, streams and chains"""
        st = sc["phases"][0]["actors"][0][0]

        def w(**k):
            v = json.loads(json.dumps(sc))
            v["phases"][0]["actors"][0][0].update(k)
            return v
        s = st["sched"]
        step = max(1, len(s) // 2)
        while step:
            for i in range(1, len(s), step):
                yield w(sched=s[:i] + s[i + step:])
            step //= 2
        if len(st["chain"]) > 1:
            for i in range(len(st["chain"])):
                yield w(chain=st["chain"][:i] + st["chain"][i + 1:])
        t = st["src"]["toks"]
        step = max(1, len(t) // 2)
        while step:
            for i in range(0, len(t), step):
                yield w(src=dict(st["src"], toks=t[:i] + t[i + step:]))
            step //= 2

    def op_run(self, ctx, st):
        src = st["src"]
        objs = [make(k) for k in src["toks"]]
        ids = {id(o): i for i, o in enumerate(objs) if o is not None}
        boom = FAILS[src["exc"]]("made by the producer")
        reads = [0]
        again = [0]
        start = [0]
        shown = []

        def fetch(i, state):
            """element i for one base iterator; raises StopIteration at the end"""
            if state["dead"]:
                # asking again is harmless, so it does not count as reading ahead; but it must come to an end
                again[0] += 1
                if again[0] > 50 * BUDGET:
                    raise MemoryError("the producer was asked without end")
                raise StopIteration
            reads[0] += 1
            if reads[0] - start[0] > BUDGET:
                raise MemoryError("the producer was read without end")
            if src["fail"] is not None and i == src["fail"]:
                state["dead"] = True
                raise boom
            if src["inf"]:
                return objs[i % len(objs)]
            if i >= len(objs):
                state["dead"] = True
                raise StopIteration
            return objs[i]

        class It:
            def __init__(self):
                self.i, self.state = 0, {"dead": False}

            def __iter__(self):
                return self

            def __next__(self):
                r = fetch(self.i, self.state)
                self.i += 1
                return r

        class Able:
            def __iter__(self):
                return It()

        class GetItem:
            def __getitem__(self, i):
                if src["fail"] is not None and i == src["fail"]:
                    raise boom
                return objs[i]

        def generator():
            i, state = 0, {"dead": False}
            while True:
                try:
                    x = fetch(i, state)
                except StopIteration:
                    return
                i += 1
                yield x
        kind = src["kind"]
        it = {"list": lambda: objs, "tuple": lambda: tuple(objs), "deque": lambda: collections.deque(objs), "iterable": Able, "iterator": It, "generator": generator, "getitem": GetItem}[kind]()
        counted = kind in ("iterable", "iterator", "generator")
        keep = [objs]

        def token(x):
            if x is None:
                return "None"
            if type(x) is tuple:
                return [token(y) for y in x]
            return ids.get(id(x), "alien " + type(x).__name__)

        def attempt(f):
            try:
                return ["v", token(f())]
            except StopIteration:
                return ["end"]
            except BaseException as e:
                r = ["fail"] if e is boom else ["exc", type(e).__name__, str(e)[:80]]
                e.__traceback__ = None
                return r
        if st["bad"]:
            try:
                drop(it, st["bad"][1]) if st["bad"][0] == "drop" else windowed(it, st["bad"][1], partial_windows=st["bad"][2])
                shown.append(["bad", "accepted"])
            except ValueError:
                shown.append(["bad", "refused"])
            except BaseException as e:
                shown.append(["bad", type(e).__name__])
        ad = it
        for c in st["chain"]:
            if c[0] == "drop":
                ad = drop(ad, c[1])
            elif c[0] == "windowed":
                ad = windowed(ad, c[1], partial_windows=c[2]) if c[2] else windowed(ad, c[1])
            elif c[0] == "tile":
                ad = tile_with_pairs(ad)
            else:
                ad = non_none(ad)
            keep.append(ad)
        shown.append(["made", reads[0] if counted else None])
        cons = []
        one_shot = hasattr(ad, "__next__")
        for a in st["sched"]:
            before = start[0] = reads[0]
            if a[0] == "new":
                if not cons or not one_shot:
                    cons.append(iter(ad))
                r = ["new"]
            elif a[0] == "grow":
                if kind not in ("tuple", "deque") and len(objs) < 5000:
                    o = make(a[1])
                    objs.append(o)
                    if o is not None:
                        ids[id(o)] = len(objs) - 1
                r = ["grow"]
            elif a[0] in ("only", "get_only"):
                r = attempt(lambda: (only if a[0] == "only" else get_only)(ad))
            else:
                c = cons[a[1] % len(cons)]
                if a[0] == "next":
                    r = attempt(lambda: next(c))
                elif a[0] == "close":
                    # only generators can be closed; the others ignore it here
                    r = ["close"]
                else:
                    r = []
                    for _ in range(15):
                        x = attempt(lambda: next(c))
                        r.append(x)
                        if x[0] != "v":
                            break
            shown.append([a, r, reads[0] - before if counted else None])
        return {"shown": shown}

    def check(self, sc, h):
        try:
            return self.judge(sc, h)
        except Endless:
            return []

    def judge(self, sc, h):
        st = sc["phases"][0]["actors"][0][0]
        ev = h.end_of(1)
        pr = h.extra.setdefault("probes", {})
        h.extra["hash"] = int.from_bytes(hashlib.sha1(json.dumps([st, ev["v"] if ev else 0]).encode()).digest()[:8], "big")
        if ev is None or ev["e"]:
            return [("failed", f"making the adapters or iterators failed: {ev and ev['e']}")]
        shown = list(ev["v"]["shown"])
        src = dict(st["src"], toks=list(st["src"]["toks"]))
        counted = src["kind"] in ("iterable", "iterator", "generator")
        reads = [0]
        if st["bad"]:
            b = shown.pop(0)
            if b[1] != "refused":
                return [("bad-argument", f"{st['bad']} was {b[1]} instead of raising a ValueError")]
        if shown.pop(0)[1]:
            return [("eager", f"making {st['chain']} read from the producer already")]
        one_shot_base = src["kind"] in ("iterator", "generator")
        shared = {}

        def machine():
            m = shared.setdefault("base", MBase(src, reads)) if one_shot_base else MBase(src, reads)
            one = one_shot_base
            for i, c in enumerate(st["chain"]):
                if c[0] == "non_none":
                    one = True
                    if not one_shot_base and "nn" not in shared:
                        shared["base"] = m
                if one and i in shared:
                    m = shared[i]
                    continue
                if c[0] == "drop":
                    m = MDrop(m, c[1])
                elif c[0] == "non_none":
                    m = MNonNone(m, src["toks"])
                else:
                    m = MWin(m, c[1] if c[0] == "windowed" else 2, c[0] == "windowed" and c[2])
                if one:
                    shared[i] = m
            return m
        one_shot = one_shot_base or any(c[0] == "non_none" for c in st["chain"])
        cons = []

        def tok(r):
            if r[0] != "v":
                return r

            def f(x):
                if isinstance(x, list):
                    return [f(y) for y in x]
                return "None" if src["toks"][x] == "n" else x
            return ["v", f(r[1])]
        last = None
        failed = set()  # consumers which were told of the failure: what follows for them is undefined
        for n, (a, got, took) in enumerate(shown):
            reads[0] = 0
            if one_shot and failed:
                break
            if a[0] == "new":
                if not cons or not one_shot:
                    cons.append(machine())
                continue
            if a[0] == "grow":
                if src["kind"] not in ("tuple", "deque") and len(src["toks"]) < 5000:
                    src["toks"].append(a[1])
                continue
            if a[0] == "close":
                continue
            if a[0] in ("only", "get_only"):
                m = machine()
                r1 = m.pull()
                if r1[0] == "v":
                    r2 = m.pull()
                    want = tok(r1) if r2[0] == "end" else ["fail"] if r2[0] == "fail" else ["exc", "ValueError"]
                else:
                    want = ["fail"] if r1[0] == "fail" else ["exc", "ValueError"]
                pr[a[0]] = pr.get(a[0], 0) + 1
                if a[0] == "only" or want[0] != "exc":
                    ok = got[:2] == want[:2] if want[0] == "exc" else got == want
                else:
                    ok = got[0] == "exc" and got[1] == "ValueError"
                if want[0] == "fail":
                    failed.add("only")
                if not ok:
                    return [("only", f"action {n}: {a[0]} over {st['chain']} gave {got}, expected {want}")]
            else:
                ci = a[1] % len(cons)
                if ci in failed:
                    continue
                m = cons[ci]
                if a[0] == "next":
                    want = tok(m.pull())
                else:
                    want = []
                    for _ in range(15):
                        want.append(tok(m.pull()))
                        if want[-1][0] != "v":
                            break
                for w in (want,) if a[0] == "next" else want:
                    k = {"v": "elements", "end": "ends", "fail": "producer failures"}[w[0]]
                    pr[k] = pr.get(k, 0) + 1
                    if w[0] == "fail":
                        h.fired["PRODUCER_FAILURE"] = h.fired.get("PRODUCER_FAILURE", 0) + 1
                if last is not None and last != ci:
                    h.fired["CONSUMER_SWITCH"] = h.fired.get("CONSUMER_SWITCH", 0) + 1
                last = ci
                if (want if a[0] == "next" else want[-1])[0] == "fail":
                    failed.add(ci)
                if got != want:
                    return [("wrong", f"action {n} {a} over {st['chain']} of {src['kind']}: got {str(got)[:300]}, expected {str(want)[:300]}")]
            if counted and took > reads[0]:
                return [("ahead", f"action {n} {a} over {st['chain']}: read {took} times from the producer where {reads[0]} are needed")]
        return []


PROP = C17()
