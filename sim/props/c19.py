"""C19: the tool which shows the text at given offsets of a file."""
import io
import os
import sys

import gen
from core import Prop, harness_code
from props.common import show

from vistautils.scripts import text_at_offsets

KINDS = gen.TEXT_KINDS + ["u", "ast", "crlf", "sep", "bom"]


class C19(Prop):
    id = "C19"
    keep_ops = ("put",)

    def cases(self, rng, tier):
        env = gen.benign_env(rng, 0.7)
        sid = [0]

        def step(op, **k):
            sid[0] += 1
            return dict(id=sid[0], op=op, **k)
        steps = []
        for _ in range(rng.choice([1, 1, 2])):
            v = gen.value_desc(rng, False, 0.1, KINDS)
            name = rng.choice(["f.txt", "sub dir/\u00e9.txt", "-dash", "x"])
            steps.append(step("put", name=name, v=v, bad=rng.random() < 0.06, missing=rng.random() < 0.03))
            n = v[1]
            for _ in range(rng.choice([1, 2, 3, 5])):
                r = rng.random()
                edge = [0, 1, n - 1, n, n // 2, 8191, 8192, 8193, 65535, 65536]
                s = rng.choice(edge) if rng.random() < 0.4 else rng.randrange(0, max(1, n))
                e = rng.choice(edge) if rng.random() < 0.4 else s + rng.choice([1, 1, 2, 7, 100, 9000])
                if r < 0.08:
                    s, e = rng.choice([(n + 5, n + 9), (5, 3), (0, n + 1), (3, 3)])
                steps.append(step("show", name=name, s=max(0, s), e=max(0, e), rel=rng.random() < 0.5))
        return {"env": env, "phases": [{"actors": [steps]}]}

    def text(self, put):
        return gen.text(put["v"])

    def op_put(self, ctx, st):
        with harness_code(ctx):
            p = os.path.join(ctx.root, st["name"])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if os.path.exists(p):
                os.unlink(p)
            if st["missing"]:
                return {}
            b = self.text(st).encode("utf-8")
            if st["bad"]:
                b = b[:len(b) // 2] + b"\xff\xc3" + b[len(b) // 2:]
            with open(p, "wb") as f:
                f.write(b)
        return {}

    def op_show(self, ctx, st):
        old, out = (sys.argv, sys.stdout), io.StringIO(newline="")
        path = os.path.join(ctx.root, st["name"])
        with harness_code(ctx):
            os.chdir(ctx.root)
        sys.argv = ["text_at_offsets.py", "./" + st["name"] if st["rel"] else path, str(st["s"]), str(st["e"])]
        sys.stdout = out
        try:
            text_at_offsets.main()
        except SystemExit as e:
            if e.code not in (0, None):
                raise RuntimeError(f"exit status {e.code}") from None
        finally:
            sys.argv, sys.stdout = old
        return {"out": out.getvalue()}

    def variants(self, rng, sc, h, tier):
        out = []
        rd = [o for o in h.ops if o.cls == "READ"]
        for _ in range(5 if tier == "quick" else 10):
            fs = []
            for _ in range(rng.choice([1, 1, 2])):
                pool = rd if rd and rng.random() < 0.7 else h.ops
                if pool:
                    fs.append(gen.place_fault(rng, pool, ["ERR", "ERR", "SHORT", "EINTR", "SIGINT"]))
            fs = [f for f in fs if f]
            if fs:
                out.append(gen.with_faults(sc, fs))
        return out

    def check(self, sc, h):
        pr = h.extra.setdefault("probes", {})
        ph = sc["phases"][0]
        fired = [f for f, n in zip(ph.get("faults", ()), h.fault_fired[0]) if n and f["kind"] not in ("SHORT", "EINTR")]
        files = {}
        for st in ph["actors"][0]:
            ev = h.end_of(st["id"])
            if ev is None:
                return [("lost-step", f"step {st['id']} did not finish")]
            if st["op"] == "put":
                files[st["name"]] = st
                continue
            put = files.get(st["name"])
            faulted = any(f["step"] == st["id"] or f.get("count", 1) > 1 and f["step"] <= st["id"] for f in fired)
            k = "shown" if ev["e"] is None else "failed"
            pr[k] = pr.get(k, 0) + 1
            if put is None or put["missing"] or put["bad"]:
                if ev["e"] is None:
                    return [("not-refused", f"a file which {'is not text' if put and put['bad'] else 'does not exist'} gave {show(ev['v']['out'])}")]
                continue
            t = self.text(put)
            inside = 0 <= st["s"] < st["e"] <= len(t)
            if ev["e"] is not None:
                if not faulted and inside:
                    return [("raised", f"[{st['s']}:{st['e']}) of {len(t)} characters raised {ev['e']['type']}: {ev['e']['msg']}")]
                continue
            got = ev["v"]["out"]
            if inside:
                if got != t[st["s"]:st["e"]] + "\n":
                    return [("wrong", f"[{st['s']}:{st['e']}) of {len(t)} characters of kind {put['v'][0]} gave {show(got)} instead of {show(t[st['s']:st['e']])}")]
            else:
                pr["out of bounds"] = pr.get("out of bounds", 0) + 1
                if got == t[st["s"]:st["e"]] + "\n":
                    return [("not-reported", f"[{st['s']}:{st['e']}) is out of bounds of {len(t)} characters, but only {show(got)} was printed")]
        return []


PROP = C19()
