"""Helpers shared by the property modules (harness side of the operations)."""
import hashlib

from core import describe_exc


def tok(v):
    """compact, comparable token of a value"""
    if isinstance(v, str):
        b = v.encode("utf-8", "surrogatepass")
        return ["s", len(v), hashlib.sha1(b).hexdigest()[:16]]
    if isinstance(v, (bytes, bytearray)):
        return ["b", len(v), hashlib.sha1(bytes(v)).hexdigest()[:16]]
    if v is None:
        return ["none"]
    return ["obj", type(v).__name__, repr(v)[:200]]


def attempt(f, *a, **k):
    """["ok", value] or ["exc", description]"""
    try:
        return ["ok", f(*a, **k)]
    except BaseException as e:  # the oracle judges what was raised
        d = describe_exc(e)
        e.__traceback__ = None
        return ["exc", d]


def ok(r):
    return r[0] == "ok"


def exc_name(r):
    return r[1]["type"] if r[0] == "exc" else None


def dup(xs):
    seen, out = set(), []
    for x in xs:
        if x in seen:
            out.append(x)
        seen.add(x)
    return out


def show(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


class Handle(Exception):
    pass


SKIP = {"skip": True}


def skipped(ev):
    return isinstance(ev.get("v"), dict) and ev["v"].get("skip")
