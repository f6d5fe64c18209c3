"""Operations on zip-backed stores, executed inside actors through the public API."""
import hashlib
import json
import os
import zipfile
from pathlib import Path
from typing import AbstractSet, Optional

import gen
from core import Prop, harness_code
from props.common import SKIP, attempt, ok, tok

from vistautils.key_value import (KeyValueSink, KeyValueSource, byte_key_value_sink_from_params,
                                  byte_key_value_source_from_params, char_key_value_sink_from_params,
                                  char_key_value_source_from_params, byte_key_value_linear_source_from_params,
                                  char_key_value_linear_source_from_params)
from vistautils.parameters import Parameters

# ways of naming members: injective functions of the key
FILENAMES = {
    "id": None,
    "prefix": lambda k: "data/" + k,
    "suffix": lambda k: k + ".txt",
    "hash": lambda k: hashlib.sha1(k.encode("utf-8")).hexdigest(),
    "rev": lambda k: k[::-1] + "_",
}


def json_keys_in(zf) -> Optional[AbstractSet[str]]:
    try:
        return frozenset(json.loads(zf.read("meta/keys.json").decode("utf-8")))
    except KeyError:
        return None


def json_keys_out(zf, keys) -> None:
    zf.writestr("meta/keys.json", json.dumps(sorted(keys)))


def sink_kwargs(st):
    kw = {}
    if FILENAMES[st.get("fn", "id")]:
        kw["filename_function"] = FILENAMES[st["fn"]]
    kf = st.get("kf", "default")
    if kf == "json":
        kw["keys_in_function"] = json_keys_in
        kw["keys_out_function"] = json_keys_out
    elif kf == "none":
        kw["keys_in_function"] = None
        kw["keys_out_function"] = None
    return kw


def source_kwargs(st):
    kw = {}
    if FILENAMES[st.get("fn", "id")]:
        kw["filename_function"] = FILENAMES[st["fn"]]
    kf = st.get("kf", "default")
    if kf == "json":
        kw["keys_function"] = json_keys_in
    elif kf == "none":
        kw["keys_function"] = None
    return kw


class Boom(Exception):
    """raised by callbacks of the harness"""


def make_sink(ctx, st):
    path = Path(os.path.join(ctx.root, st["path"]))
    b = st["binary"]
    if st.get("via") == "params":
        p = Parameters.from_mapping({"output": {"type": "zip", "path": str(path)}})
        return (byte_key_value_sink_from_params if b else char_key_value_sink_from_params)(p)
    if st.get("named") and not st.get("failing_fn"):
        # a factory of the caller's own, known by name in the context it passes, in a namespace it chooses
        def stores_of_mine(params):
            return make_sink(ctx, dict(st, named=False, path=params.string("where")))
        p = Parameters.from_mapping({"dest": {"type": "stores_of_mine", "where": st["path"]}})
        return (byte_key_value_sink_from_params if b else char_key_value_sink_from_params)(
            p, output_namespace="dest", eval_context={"stores_of_mine": stores_of_mine})
    kw = sink_kwargs(st)
    if not st.get("overwrite", True):
        kw["overwrite"] = False
    elif st.get("explicit"):
        kw["overwrite"] = True
    if st.get("failing_fn"):
        inner = kw.get("filename_function") or (lambda k: k)
        bad = set(st["failing_fn"])

        def fn(k):
            if k in bad:
                bad.discard(k)
                raise Boom("naming function failed")
            return inner(k)
        kw["filename_function"] = fn
    return (KeyValueSink.zip_bytes_sink if b else KeyValueSink.zip_character_sink)(path, **kw)


def make_source(ctx, st):
    path = Path(os.path.join(ctx.root, st["path"]))
    b = st["binary"]
    via = st.get("via")
    if st.get("named"):
        def stores_of_mine(params):
            return make_source(ctx, dict(st, named=False, via=None, path=params.string("where")))
        p = Parameters.from_mapping({"origin": {"type": "stores_of_mine", "where": st["path"]}})
        kw = dict(input_namespace="origin", eval_context={"stores_of_mine": stores_of_mine})
        if via == "linear":
            return (byte_key_value_linear_source_from_params if b else char_key_value_linear_source_from_params)(p, **kw)
        return (byte_key_value_source_from_params if b else char_key_value_source_from_params)(p, **kw)
    if via in ("params", "linear"):
        p = Parameters.from_mapping({"input": {"type": "zip", "path": str(path)}})
        if via == "linear":
            return (byte_key_value_linear_source_from_params if b else char_key_value_linear_source_from_params)(p)
        return (byte_key_value_source_from_params if b else char_key_value_source_from_params)(p)
    return (KeyValueSource.zip_bytes_source if b else KeyValueSource.zip_character_source)(path, **source_kwargs(st))


FILTERS = {
    "all": lambda k: True, "none": lambda k: False, "odd": lambda k: len(k) % 2 == 1, "a": lambda k: "a" in k,
    "early": lambda k: k < "h",
}


_DEFAULT = object()


def directory(ctx, st):
    """the keys whose members the archive's own directory lists, as plain zipfile sees it; None if unreadable"""
    fn = FILENAMES[st.get("fn", "id")] or (lambda k: k)
    with harness_code(ctx):
        try:
            with zipfile.ZipFile(os.path.join(ctx.root, st["path"])) as z:
                names = set(z.namelist())
        except Exception:
            return None
    return [k for k in st["keys"] if fn(k) in names]


class ZipOps(Prop):
    def op_sink_new(self, ctx, st):
        ctx.v[st["var"]] = make_sink(ctx, st)

    def op_sink_enter(self, ctx, st):
        s = ctx.v.get(st["var"])
        if s is None:
            return SKIP
        r = s.__enter__()
        ctx.v[st["var"] + ".in"] = r
        return {"self": r is s}

    def op_put(self, ctx, st):
        s = ctx.v.get(st["var"])
        if s is None:
            return SKIP
        key = None if st.get("nokey") else st["key"]
        val = None if st.get("noval") else ({"int": 7, "list": [b"x"], "obj": object()}[st["badval"]] if st.get("badval")
                                            else gen.value(st["value"], st["binary"]))
        if st.get("setitem"):
            s[key] = val
        else:
            s.put(key, val)

    def op_sink_exit(self, ctx, st):
        s = ctx.v.get(st["var"])
        if s is None or st["var"] + ".in" not in ctx.v:
            return SKIP
        del ctx.v[st["var"] + ".in"]
        if st.get("exc"):
            e = Boom("caller failed")
            return {"ret": bool(s.__exit__(type(e), e, None))}
        return {"ret": bool(s.__exit__(None, None, None))}

    def op_session(self, ctx, st):
        """a whole with-block; the first failing put ends it"""
        done = []
        self.notes = done
        with make_sink(ctx, st) as s:
            for k, v in st["puts"]:
                s.put(k, gen.value(v, st["binary"]))
                done.append(k)
        return done

    def op_read(self, ctx, st):
        # "keep": the same source object is opened again for later questions
        name, src = st.get("keep"), None
        if name:
            src = ctx.v.get("source " + name)
            if src is None:
                r = attempt(make_source, ctx, st)
                if ok(r):
                    src = ctx.v["source " + name] = r[1]
        return read_store(ctx, st, src)

    def op_mkdir(self, ctx, st):
        os.makedirs(os.path.join(ctx.root, st["path"]), exist_ok=True)


def read_store(ctx, st, src=None):
    """Everything a user can ask of a source, each call judged on its own."""
    out = {}
    r = attempt(make_source, ctx, st) if src is None else ["ok", src]
    out["make"] = r if not ok(r) else ["ok"]
    if not ok(r):
        return out
    src = r[1]
    r = attempt(src.__enter__)
    out["enter"] = r if not ok(r) else ["ok"]
    if not ok(r):
        return out
    s = r[1]
    binary = st["binary"]
    for what in st.get("what", ["keys", "items", "getitem", "get", "absent", "filter"]):
        if what == "keys":
            r = attempt(s.keys)
            out["keys"] = ["ok", None if r[1] is None else list(r[1])] if ok(r) else r
        elif what == "items":
            got = []

            def it():
                for k, v in s.items():
                    got.append([k, tok(v)])
            r = attempt(it)
            out["items"] = [r[0] if ok(r) else r, got]
        elif what == "filter":
            got, asked = [], []
            f = FILTERS[st.get("filter", "odd")]

            def it2():
                for k, v in s.items(key_filter=lambda k: (asked.append(k), f(k))[1]):
                    got.append([k, tok(v)])
            r = attempt(it2)
            out["filter"] = [r[0] if ok(r) else r, got]
        elif what == "getitem":
            out["getitem"] = []
            for k in st["keys"]:
                r = attempt(lambda: tok(s[k]))
                out["getitem"].append([k, r])
        elif what == "get":
            out["get"] = []
            for k in st["keys"]:
                r = attempt(lambda: tok(s.get(k)))
                out["get"].append([k, r])
        elif what == "getd":
            # a default which no store holds
            out["getd"] = []
            for k in st["keys"]:
                def ask():
                    x = s.get(k, _DEFAULT) if len(k) % 2 else s.get(k, _default=_DEFAULT)
                    return ["none"] if x is _DEFAULT else tok(x)
                out["getd"].append([k, attempt(ask)])
        elif what == "absent":
            out["absent"] = []
            for k in st.get("absent", ()):
                d = b"dflt" if binary else "dflt"
                out["absent"].append([k, attempt(lambda: tok(s[k])), attempt(lambda: tok(s.get(k))),
                                      attempt(lambda: s.get(k, d) == d), attempt(lambda: s.get(k, _default=d) == d)])
    r = attempt(src.__exit__, None, None, None)
    out["exit"] = ["ok", bool(r[1])] if ok(r) else r
    return out


def check_exact(out, model, st, where):
    """strict oracle: `model` is dict key -> token"""
    v = []

    def bad(cls, msg):
        v.append((cls, f"{where}: {msg}"))
    for stage in ("make", "enter"):
        if stage in out and not ok(out[stage]):
            bad("read-open-failed", f"{stage} raised {out[stage][1]['type']}: {out[stage][1]['msg']}")
            return v
    nokeys = st.get("kf") == "none"
    if "keys" in out:
        r = out["keys"]
        if not ok(r):
            bad("keys-raised", f"keys() raised {r[1]['type']}: {r[1]['msg']}")
        elif nokeys:
            if r[1] is not None:
                bad("keys-wrong", f"keys() without a listing gave {r[1]!r}")
        elif r[1] is None:
            bad("keys-wrong", "keys() is None though a listing was written")
        elif sorted(r[1]) != sorted(model):
            bad("keys-wrong", f"keys() gave {sorted(r[1])!r:.300}, expected {sorted(model)!r:.300}")
    if not nokeys:
        for what, want in (("items", model), ("filter", None)):
            if what not in out:
                continue
            if what == "filter":
                f = FILTERS[st.get("filter", "odd")]
                want = {k: t for k, t in model.items() if f(k)}
            r, got = out[what]
            if r != "ok":
                bad("items-raised", f"{what} iteration raised {r[1]['type']}: {r[1]['msg']} after {len(got)} items")
            elif sorted(k for k, _ in got) != sorted(want):
                bad("items-keys-wrong", f"{what} gave keys {[k for k, _ in got]!r:.300}, expected {sorted(want)!r:.300}")
            else:
                for k, t in got:
                    if t != want[k]:
                        bad("items-value-wrong", f"{what} gave {k!r} -> {t}, expected {want[k]}")
                        break
    elif "items" in out and out["items"][0] == "ok":
        bad("items-without-keys", "items() of a source without a key listing returned normally")
    for what in ("getitem", "get"):
        for k, r in out.get(what, ()):
            want = model.get(k)
            if want is None:
                continue
            if not ok(r):
                bad(what + "-raised", f"{what}({k!r}) raised {r[1]['type']}: {r[1]['msg']}")
            elif r[1] != want:
                bad(what + "-wrong", f"{what}({k!r}) gave {r[1]}, expected {want}")
    for k, r1, r2, r3, r4 in out.get("absent", ()):
        if k in model:
            continue
        if ok(r1):
            bad("absent-found", f"[{k!r}] of an absent key gave {r1[1]}")
        elif "KeyError" not in r1[1]["mro"]:
            bad("absent-error", f"[{k!r}] of an absent key raised {r1[1]['type']}: {r1[1]['msg']}")
        if r2 != ["ok", ["none"]]:
            bad("absent-get", f"get({k!r}) of an absent key gave {r2}")
        for r in (r3, r4):
            if r != ["ok", True]:
                bad("absent-default", f"get({k!r}, default) of an absent key gave {r}")
    if "exit" in out:
        if not ok(out["exit"]):
            bad("exit-raised", f"leaving the source raised {out['exit'][1]['type']}: {out['exit'][1]['msg']}")
        elif out["exit"][1]:
            bad("exit-swallows", "leaving the source returned a true value (would swallow exceptions)")
    return v
