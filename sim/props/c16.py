"""C16: programs started from a parameter file."""
import io
import json
import logging
import os
import sys

import gen
from core import Prop, harness_code, describe_exc
from props import c12
from props.c12 import Bad, ENVS, NAMES, SPACES, get, model_load, unify
from props.common import show

from vistautils.parameters import ParameterError, Parameters
from vistautils.parameters_only_entrypoint import parameters_only_entry_point

LEVELS = {"CRITICAL": 50, "FATAL": 50, "ERROR": 40, "WARNING": 30, "WARN": 30, "INFO": 20, "DEBUG": 10}
INI = """[loggers]
keys=root

[handlers]
keys=h

[formatters]
keys=f

[logger_root]
level={level}
handlers=h

[handler_h]
class={cls}
level=NOTSET
formatter=f
args={args}

[formatter_f]
format=%(levelname)s %(message)s
"""


class Own(Exception):
    pass


def pairs_to_tree(pairs):
    """the tree meant by overrides; raises Bad if they contradict each other"""
    out = []
    for k, v in pairs:
        parts = k.split(".")
        t = out
        for p in parts[:-1]:
            for kv in t:
                if kv[0] == p:
                    if not isinstance(kv[1], dict):
                        raise Bad("contradictory overrides")
                    t = kv[1]["ns"]
                    break
            else:
                n = {"ns": []}
                t.append([p, n])
                t = n["ns"]
        for kv in t:
            if kv[0] == parts[-1]:
                if isinstance(kv[1], dict):
                    raise Bad("contradictory overrides")
                kv[1] = v
                break
        else:
            t.append([parts[-1], v])
    return out


class C16(Prop):
    id = "C16"
    keep_ops = ("put",)

    def cases(self, rng, tier):
        g = c12.PROP
        env = gen.benign_env(rng, 0.4)
        phases = []
        sid = [0]

        def step(op, **k):
            sid[0] += 1
            return dict(id=sid[0], op=op, **k)
        files = g.gen_files(rng)
        evs = dict(rng.sample(sorted(ENVS.items()), rng.choice([0, 2, 4])))
        r = rng.random()
        ini = None
        lg = None
        if r < 0.3:
            lg = [["root_level", rng.choice(list(LEVELS) * 5 + ["info", "TRACE", "", 10])]]
        elif r < 0.5:
            lg = [["config_file", "@ROOT@/log.ini"]]
            if rng.random() < 0.3:
                lg.append(["root_level", "DEBUG"])
            ini = {"level": rng.choice(list(LEVELS)), "cls": rng.choice(["StreamHandler", "FileHandler", "FileHandler"]), "bad": rng.choice([None] * 16 + ["missing", "empty", "cut", "garbage", "bytes", "dir", "level", "nolog"])}
        if lg:
            names = [n for n in sorted(files) if "raw" not in files[n]]
            if names:
                files[rng.choice(names + ["main.params"] if "main.params" in names else names)]["data"].append(["logging", {"ns": lg}])
        if rng.random() < 0.9:
            g.sanitize(rng, files, [], evs)
        put = step("put", files=files, ini=ini)
        steps = [put]
        for _ in range(rng.choice([1, 1, 2])):
            explicit = None
            if rng.random() < 0.2:
                explicit = [[k, v] for k, v in g.gen_data(rng)]
                if lg:
                    explicit = [x for x in explicit if x[0] != "logging"] + [["logging", {"ns": lg}]]
            over = []
            for _ in range(rng.choice([0, 0, 1, 2, 4])):
                k = rng.choice(NAMES + ["new"]) if rng.random() < 0.55 else rng.choice(SPACES + ["fresh"]) + "." + rng.choice(NAMES + ["inner.a"])
                over.append([k, rng.choice(["v", "7", "true", "", "a b", "\u00e9", "%a%", "x.y", "[1]"])])
            if rng.random() < 0.05:
                over.append([rng.choice(SPACES), "leaf"])
            if rng.random() < 0.03:
                over.append(["", "x"])
            if rng.random() < 0.06:
                over.append(["logging.root_level", rng.choice(["DEBUG", "ERROR", "NOPE"])])
            steps.append(step("run", explicit=explicit, over=over, early=rng.random() < 0.4, bad_args=rng.choice([None] * 36 + ["none", "extra", "half", "option"]), env=evs, name=rng.choice(["prog", None]),
                              usage=rng.choice([None, "does things"]), prog=rng.choice(["return", "return", "return", "io", "io", "raise", "raise_io", "raise_param", "exit", "exit0", "interrupt", "value"]),
                              out=rng.choice(["file", "mem"]), prior=rng.choice([None, None, 10, 35, 50])))
        actors = [steps]
        phases = [{"actors": actors}]
        if rng.random() < 0.15:
            # two programs started at the same time with the same files
            other = [dict(s, id=s["id"] + 500) for s in steps if s["op"] == "run"]
            phases = [{"actors": [[put]]}, {"actors": [steps[1:], other], "switches": gen.random_switches(rng, 2, 60)}]
        env["maxops"] = 400000     # include cycles end when Python's stack does
        return {"env": env, "phases": phases}

    def op_put(self, ctx, st):
        with harness_code(ctx):
            c12.PROP.op_put(ctx, st)
            for rel in st["files"]:
                p = os.path.join(ctx.root, rel)
                if os.path.isfile(p):
                    b = open(p, "rb").read().replace(b"@ROOT@", ctx.root.encode())
                    open(p, "wb").write(b)
            i = st.get("ini")
            if i:
                p = os.path.join(ctx.root, "log.ini")
                t = INI.format(level=i["level"], cls=i["cls"], args="(sys.stdout,)" if i["cls"] == "StreamHandler" else f"({ctx.root + ('/no/such/dir' if i['bad'] == 'nolog' else '') + '/log.txt'!r},)")
                if i["bad"] == "missing":
                    return
                if i["bad"] == "dir":
                    os.mkdir(p)
                    return
                b = {"empty": b"", "cut": t.encode()[:len(t) // 2], "garbage": b"hello\nworld\n", "bytes": t.encode() + b"# \xff\xfe\n", "level": t.replace("level=" + i["level"], "level=LOUD").encode()}.get(i["bad"], t.encode())
                open(p, "wb").write(b)

    def op_run(self, ctx, st):
        calls = []
        raised = []

        def picture(p):
            return json.loads(json.dumps(c12.PROP.picture(p)).replace(json.dumps(ctx.root)[1:-1], "@ROOT@"))

        def program(params):
            with harness_code(ctx):
                calls.append({"params": picture(params), "level": logging.getLogger().level, "type": isinstance(params, Parameters), "done": False, "shown": None})
                if isinstance(sys.stdout, io.StringIO):
                    lv = logging.getLogger().level
                    for n, x in ((lv, "AT-THE-LEVEL"), (lv - 1, "BELOW-THE-LEVEL")):
                        logging.getLogger(f"vs.program{st['id']}").log(n, x)
                    t = sys.stdout.getvalue() + sys.stderr.getvalue()
                    calls[-1]["shown"] = ["AT-THE-LEVEL" in t, "BELOW-THE-LEVEL" in t]
                if len(calls) > 5:
                    raise Own("called again and again")
            kind = st["prog"]
            if kind == "io":
                with open(os.path.join(ctx.root, f"result{ctx.actor}"), "w") as f:
                    f.write("done")
            elif kind != "return" and kind != "value":
                e = {"raise": Own("own"), "raise_io": OSError(5, "own"), "raise_param": ParameterError("own"), "exit": SystemExit(3), "exit0": SystemExit(0), "interrupt": KeyboardInterrupt("own")}[kind]
                raised.append(e)
                raise e
            calls[-1]["done"] = True
            return 5 if kind == "value" else None

        with harness_code(ctx):
            saved = dict(os.environ), sys.argv, sys.stdout, sys.stderr
            os.environ.update(st["env"])
            os.chdir(ctx.root)
            root = logging.getLogger()
            for hd in list(root.handlers):
                root.removeHandler(hd)
            root.setLevel(st.get("prior") or 35)
            if st.get("prior"):
                # the program runs in a process in which something else has configured logging
                root.addHandler(logging.NullHandler())
            explicit = None
            if st["explicit"] is not None:
                explicit = c12.PROP.to_params(json.loads(json.dumps(st["explicit"]).replace("@ROOT@", json.dumps(ctx.root)[1:-1])))
            a = [] if explicit is not None else [os.path.join(ctx.root, "main.params")]
            pp = [x for k, v in st["over"] for x in ("-p", k, v)]
            a = pp + a if st["early"] else a + pp
            b = st["bad_args"]
            if b == "none":
                a = a + ["-p"] if explicit is not None else pp
            elif b == "extra":
                a = a + ["surplus"]
            elif b == "half":
                a = a + ["-p", "a"]
            elif b == "option":
                a = a + ["--unknown"]
            sys.argv = ["prog"] + a
            sys.stderr = io.StringIO()
            sys.stdout = io.StringIO()
        out = {"calls": calls}
        try:
            if st["out"] == "file":
                sys.stdout = open(os.path.join(ctx.root, f"out{ctx.actor}.txt"), "w")
            parameters_only_entry_point(program, st["usage"], parameters=explicit, program_name=st["name"])
            out["exc"] = None
        except BaseException as e:
            out["exc"] = describe_exc(e)
            out["own"] = bool(raised) and e is raised[0]
            e.__traceback__ = None
        finally:
            with harness_code(ctx):
                os.environ.clear()
                os.environ.update(saved[0])
                sys.argv = saved[1]
                try:
                    sys.stdout.close()
                except OSError:
                    pass
                sys.stdout, sys.stderr = saved[2:]
                raised.clear()
        return out

    def variants(self, rng, sc, h, tier):
        out = []
        pool = [o for o in h.ops if o.step]
        if not pool:
            return out
        rd = [o for o in pool if o.cls in ("READ", "OPEN_R")]
        for _ in range(6 if tier == "quick" else 14):
            fs = []
            for _ in range(rng.choice([1, 1, 2])):
                fs.append(gen.place_fault(rng, rd if rd and rng.random() < 0.5 else pool, ["ERR", "ERR", "ERR", "SHORT", "EINTR", "SIGINT", "CRASH_BEFORE"]))
            v = gen.with_faults(sc, [f for f in fs if f])
            if len(v["phases"]) > 1:
                v["phases"][1]["switches"] = gen.random_switches(rng, 2, 100)
            out.append(v)
        return out

    def expect(self, put, st):
        if st["bad_args"] and not (st["bad_args"] == "none" and False):
            raise Bad("wrong arguments")
        files = put["files"] if put else {}
        env = dict({"PATH": "?"}, **st["env"])
        base = [list(x) for x in st["explicit"]] if st["explicit"] is not None else model_load(files, "main.params", [], env)
        if any(not k for k, _ in st["over"]):
            raise Bad("empty name")
        tree = unify(base, pairs_to_tree(st["over"]))
        ns = dict((k, v) for k, v in tree).get("logging")
        level = 20
        if isinstance(ns, dict):
            lg = dict((k, v) for k, v in ns["ns"])
            if "config_file" in lg:
                ini = put.get("ini") if put else None
                if not ini or ini["bad"] not in (None,):
                    if ini and ini["bad"] == "nolog" and ini["cls"] == "StreamHandler":
                        pass
                    else:
                        raise Bad("logging cannot be configured")
                level = LEVELS[ini["level"]]
            elif "root_level" in lg:
                if lg["root_level"] not in LEVELS:
                    raise Bad("no such level")
                level = LEVELS[lg["root_level"]]
        elif ns is not None:
            pass
        return tree, level

    def check(self, sc, h):
        pr = h.extra.setdefault("probes", {})
        put = None
        for pi, ph in enumerate(sc["phases"]):
            fired = [f for f, n in zip(ph.get("faults", ()), h.fault_fired[pi]) if n and f["kind"] not in ("SHORT", "EINTR")]
            for ai, steps in enumerate(ph["actors"]):
                for st in steps:
                    ev = h.end_of(st["id"])
                    if ev is None:
                        if (pi, ai) not in h.crashed:
                            return [("lost-step", f"step {st['id']} did not finish")]
                        break
                    if st["op"] == "put":
                        put = st
                        continue
                    mine = [f for f in fired if f["actor"] == ai and (f["step"] == st["id"] or f.get("count", 1) > 1 and f["step"] <= st["id"])]
                    sig = any(f["kind"] == "SIGINT" for f in mine)
                    if ev["e"] is not None:
                        if not sig:
                            return [("harness", f"step raised {ev['e']}")]
                        continue
                    if any(sc["env"].get("loc") or ()) and put and (put.get("ini") or {}).get("bad") == "bytes":
                        continue      # the standard library reads this file in the locale's character set, in which it may be text
                    v = ev["v"]
                    calls, exc = v["calls"], v["exc"]
                    if len(calls) > 1:
                        return [("called-twice", f"the program was called {len(calls)} times")]
                    k = "called" if calls else "not called"
                    pr[k] = pr.get(k, 0) + 1
                    try:
                        want, level = self.expect(put, st)
                    except Bad as e:
                        if "contradictory" in str(e):
                            continue  # -p a.b 1 -p a 2: undefined
                        if calls:
                            return [("not-refused", f"the program was called although: {e}; with {show(calls[0]['params'], 400)}")]
                        if exc is None:
                            return [("silent", f"the program was not called ({e}) and the caller saw no error")]
                        if st["bad_args"] and exc["type"] != "SystemExit" and not mine:
                            return [("bad-args", f"wrong arguments gave {exc}")]
                        continue
                    if not calls:
                        if exc is None:
                            return [("silent", "the program was not called and the caller saw no error")]
                        if not mine:
                            return [("not-called", f"the program was not called: {exc['type']}: {exc['msg'][:300]} {exc['chain']} with no fault")]
                        continue
                    c = calls[0]
                    if json.dumps(c["params"]) != json.dumps(want) or not c["type"]:
                        return [("wrong", f"the program was called with {show(c['params'], 500)}, expected {show(want, 500)}")]
                    if c["level"] != level and not any(f["kind"] == "ERR" for f in mine):
                        return [("logging", f"the level of the root logger was {c['level']} instead of {level}")]
                    lg = dict((k, v) for k, v in want).get("logging")
                    if c["shown"] and not mine and not (isinstance(lg, dict) and "config_file" in dict((k, v) for k, v in lg["ns"])):
                        pr["log messages"] = pr.get("log messages", 0) + 1
                        if c["shown"] != [True, False]:
                            return [("logging", f"a message at the level {level} was {'' if c['shown'][0] else 'not '}shown, and one below it was {'' if c['shown'][1] else 'not '}shown")]
                    if c["done"] and exc is not None and not sig:
                        return [("raised", f"the program returned but the caller saw {exc}")]
                    if not c["done"] and st["prog"] != "io":
                        if exc is None or not v["own"] and not sig:
                            return [("exception", f"the exception of the program reached the caller as {exc}")]
                    if not c["done"] and exc is None:
                        return [("exception", "the program failed but the caller saw no error")]
        return []


PROP = C16()
