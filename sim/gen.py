"""Deterministic generators: values, keys, environments, fault placement."""
import errno
import random

SIZES = [0, 0, 1, 2, 3, 7, 31, 100, 100, 300, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16385,
         32768, 65535, 65536, 65537]
BIG = [131071, 131072, 131073, 200001, 262145, 400003]
TEXT_KINDS = ["a", "a", "u", "cr", "crlf", "sep", "bom", "nl", "ctl", "one", "tab", "sp", "ast", "json", "comb"]
BYTE_KINDS = ["bin", "bin", "a", "zero", "crlf", "ff", "u"]


def rng_for(*parts):
    return random.Random("|".join(str(p) for p in parts))


def locales(rng):
    """character sets of the locales of the simulated processes, in turn; "" is UTF-8"""
    if rng.random() < 0.75:
        return None
    return [rng.choice(["", "ISO-8859-1", "ANSI_X3.4-1968", "CP1252"]) for _ in range(rng.choice([1, 1, 2]))]


_UNITS = {
    "a": "line {s} of text\n", "u": "é{s}ü日本—", "cr": "x{s}\ry\r\nz\n\rw", "crlf": "row {s}\r\n",
    "sep": "p{s}\u2028q\u2029r\x85s\x0bt\x0cu\x1cv\x1dw", "bom": "\ufeff{s}\ufeff", "nl": "\n\n{s}\n",
    "ctl": "\x00{s}\x01\x1b\x7f", "one": "{s}.", "tab": "{s}\tcol\t", "sp": "  {s}  ",
    "ast": "😀{s}𝔘", "json": "{{\"k{s}\": [%d, '%s', 50%%]}}",
    # normalisation and case conversion change all of these
    "comb": "e\u0301{s}\u00e9A\u030a\ufb01\u1100\u1161\u0130\u00df\u2126\u00b2",
    "ff": "{s}", "bin": "{s}", "zero": "{s}",
}


def text(desc):
    kind, n, salt = desc
    if kind == "lit":
        return salt
    if n == 0:
        return ""
    unit = _UNITS[kind].replace("{s}", format(salt, "x")).replace("{{", "{").replace("}}", "}")
    return (unit * (n // len(unit) + 1))[:n]


def data(desc):
    kind, n, salt = desc
    if kind == "hex":
        return bytes.fromhex(salt)
    if kind == "lit":
        return salt.encode("utf-8")
    if n == 0:
        return b""
    if kind == "bin":
        return random.Random(salt).randbytes(n)
    if kind == "zero":
        return ((b"\0" * 29 + b"%x" % salt) * (n // 30 + 1))[:n]
    if kind == "ff":
        return ((b"\xff\xfe\x80" + b"%x" % salt) * (n // 4 + 1))[:n]
    return text([kind, n, salt]).encode("utf-8")[:n]


def value(desc, binary):
    return data(desc) if binary else text(desc)


def size(rng, big=0.04):
    r = rng.random()
    if r < big:
        # beyond a megabyte only now and then
        return rng.choice(BIG) if rng.random() < 0.97 else rng.choice([(1 << 20) + 1, 2500003])
    if r < 0.55:
        return rng.choice(SIZES[:11])
    if r < 0.62:
        return rng.randrange(0, 70000)
    return rng.choice(SIZES)


def value_desc(rng, binary, big=0.04, kinds=None):
    kinds = kinds or (BYTE_KINDS if binary else TEXT_KINDS)
    return [rng.choice(kinds), size(rng, big), rng.randrange(1, 1 << 30)]


# names which are easily confused with each other
NEAR = ["key", "Key", "KEY", "kEy", "key ", "key.txt", "key.TXT", "ke", "keys", "\u00e9", "e\u0301", "\u00c9", "ss", "\u00df", "K", "k", "\u212a",
        "1", "01", "1.0", "a/b", "a//b", "a/./b", "a\\b", "b", "a"]


def zip_keys(rng, n, extra=()):
    pool = list(extra)
    base = ["\ufeffk", "k0", "k1", "k2", "a", "ab", "abc", "A", "Key", "key", "KEY", "é", "é", "日本語", "ключ", "😀",
            "a/b", "a/b/c.txt", "dir/", "/abs", "..", "../up", ".", "a b", " lead", "trail ", "x.tar.gz", "0", "00", "1",
            "10", "_keys", "__keys2", "__KEYS", "__keys/x", "back\\slash", "per%cent", "100%", "{brace}", "q'uote", 'dq"',
            "c,omma", "se;mi", "u\u2028sep", "nb\u00a0sp", "doc_id:1", "NYT_ENG_20130501.0001", "-dash", "*", "?", "$HOME",
            "ß", "ss", "İ", "ı", "K", "Å", "Å", "a" * 60, "b" * 250, "None", "False", "a\u0301", "á", "#hash", "~"]
    mode = rng.random()
    if mode < 0.25:
        pool += [f"doc{i:03d}" for i in range(n)]
    elif mode < 0.35:
        pool += [f"d{i % 3}/f{i}.txt" for i in range(n)]
    elif mode < 0.5:
        pool += rng.sample(NEAR, min(len(NEAR), n))
    else:
        pool += rng.sample(base, min(len(base), n))
    i = 0
    rng.shuffle(pool)
    out = []
    for k in pool:
        if k not in out:
            out.append(k)
    while len(out) < n:
        out.append(f"x{i}")
        i += 1
    return out[:n]


# keys which a store may refuse, but must not lose, alter or confuse once it accepted them
HARD = ["", "", "a\nb", "\n", "k0\n", "k0\0x", "k0\0", "\0", "__keys", "__keys", "\ud800", "l" * 70000, "a\rb", "\x85", "a\x0bb", "a\x1cb"]

HARD_FILES = ["_index", "_index", "_index.partial", "_index.partial_", "./k0", "k0/", "k0//", "d/../k0", "d//x", "d/./x", ".", "", "..", "../up", " k0", "k0 ",
              "a ", "k0\t", "k0\tx", "k0\n", "a\nb", "a\rb", "\x85k", "k0\u2003", "k0\0", "f" * 300, "\ud800", "_index/x"]


def file_keys(rng, n):
    """legal relative file names (no two conflicting as file/directory), not the index"""
    base = ["k0", "k1", "a", "ab", "abc", "A", "Key", "key", "é", "日本語", "ключ", "😀", "d/x", "d/y", "d/e/z.txt", "d2/x", "d2/f/g/h",
            "a b", "x.tar.gz", "0", "00", "1", "10", "_index2", "index", "_indexes/i", "per%cent", "{brace}", "q'uote", "c,omma",
            "u\u2028sep", "doc_id:1", "-dash", "*", "ß", "ss", "a\u0301x", "áx", "#hash", "~", "b" * 200, ".hidden", "dot.", "back\\slash",
            "None", "x.txt", "x.txt.bak"]
    mode = rng.random()
    if mode < 0.3:
        out = [f"doc{i:03d}" for i in range(n)]
        rng.shuffle(out)
        return out
    if mode < 0.45:
        near = [x for x in NEAR if "a/" not in x and x != "key "]
        return rng.sample(near, min(n, len(near)))
    return rng.sample(base, min(n, len(base)))


def many(rng, p=0.012):
    """names of many small entries, in a few runs only (beyond any plausible limit on their number)"""
    if rng.random() >= p:
        return None
    long = "long name " * 20 if rng.random() < 0.3 else ""
    return [f"{long}m{i}" for i in range(300 if long else rng.choice([300, 1100, 1100]))]


def small_desc(rng):
    return ["a", rng.choice([0, 1, 3, 20]), rng.randrange(1, 1 << 30)]


# ---- environments ----
def benign_env(rng, strength=0.5):
    """swarm style: each benign disturbance is on in some runs only"""
    env = {"bseed": rng.randrange(1, 1 << 40), "rseed": rng.randrange(1, 1 << 40), "dirseed": 0, "op_us": rng.choice([1, 1000, 1000, 250000])}
    if rng.random() < strength:
        env["sr"] = rng.choice([0, 100, 400, 900])
    if rng.random() < strength:
        env["sw"] = rng.choice([0, 100, 400, 800])
    if rng.random() < strength:
        env["ei"] = rng.choice([0, 50, 200])
    if rng.random() < strength:
        env["dirseed"] = rng.randrange(1, 1 << 40)
    if rng.random() < 0.2:
        # between 1981 and 2096: legal times
        env["clock"] = rng.choice([-1200000000, -86400, 3600, 86400 * 400, 1200000000])
    return env


# ---- fault placement ----
ERRS = {
    "OPEN_R": [errno.EIO, errno.EACCES, errno.EMFILE, errno.ENOENT, errno.ESTALE],
    "OPEN_W": [errno.EIO, errno.EACCES, errno.EMFILE, errno.ENOSPC, errno.EROFS],
    "READ": [errno.EIO, errno.ESTALE],
    "WRITE": [errno.EIO, errno.ENOSPC, errno.EDQUOT, errno.EFBIG],
    "TRUNC": [errno.EIO], "CLOSE": [errno.EIO, errno.ENOSPC, errno.EDQUOT],
    "STAT": [errno.EIO, errno.EACCES], "MKDIR": [errno.EIO, errno.ENOSPC, errno.EACCES, errno.EROFS],
    "RMDIR": [errno.EIO, errno.EBUSY, errno.EACCES], "UNLINK": [errno.EIO, errno.EACCES, errno.EBUSY],
    "RENAME": [errno.EIO, errno.ENOSPC, errno.EACCES], "LINK": [errno.EIO], "OPENDIR": [errno.EIO, errno.EACCES, errno.EMFILE],
    "READDIR": [errno.EIO], "UTIME": [errno.EIO, errno.EACCES], "CHMOD": [errno.EPERM], "FSYNC": [errno.EIO],
    "READLINK": [errno.EIO], "COPY": [errno.EIO],
}
MUTATING = {"OPEN_W", "WRITE", "TRUNC", "CLOSE", "MKDIR", "RMDIR", "UNLINK", "RENAME", "LINK", "UTIME", "CHMOD", "FSYNC"}


def place_fault(rng, ops, kinds, classes=None):
    """one fault at a call seen in `ops` (already filtered to where faults are wanted)"""
    byc = {}
    for o in ops:
        if classes is None or o.cls in classes:
            byc.setdefault(o.cls, []).append(o)
    if not byc:
        return None
    for _ in range(20):
        kind = rng.choice(kinds)
        cand = sorted(byc)
        if kind in ("SHORT", "EINTR"):
            cand = [c for c in cand if c in ("READ", "WRITE")]
        elif kind in ("CRASH_TORN", "LOST", "QUOTA"):
            cand = [c for c in cand if c == "WRITE"]
        elif kind in ("CRASH_BEFORE", "CRASH_AFTER"):
            cand = [c for c in cand if c in MUTATING] or cand
        if not cand:
            continue
        # half of the time weigh writes/closes up: they create in-flight state
        c = rng.choice(cand)
        lst = byc[c]
        o = rng.choice(lst) if rng.random() < 0.8 else rng.choice([lst[0], lst[-1]])
        f = {"phase": o.phase, "actor": o.actor, "step": o.step, "nth": o.nth, "cls": [o.cls], "kind": kind, "count": 1}
        if kind == "ERR":
            f["arg"] = rng.choice(ERRS[o.cls])
            r = rng.random()
            if r < 0.15:
                f["count"] = rng.choice([2, 3, 1000])
            if r > 0.9 and o.cls in ("WRITE", "OPEN_W", "CLOSE"):
                f["cls"] = ["WRITE", "OPEN_W", "TRUNC", "MKDIR"]
                f["arg"] = errno.ENOSPC
                f["count"] = 1000
                if o.cls not in f["cls"]:
                    f["cls"].append(o.cls)
        elif kind in ("SHORT",):
            f["arg"] = rng.choice([1, 2, 3, max(1, o.arg // 2), max(1, o.arg - 1)])
            f["count"] = rng.choice([1, 1, 3, 50])
        elif kind == "EINTR":
            f["count"] = rng.choice([1, 2, 5])
        elif kind == "CRASH_TORN":
            f["arg"] = rng.choice([0, 1, 2, 4, max(0, o.arg // 2), max(0, o.arg - 1), rng.randrange(0, max(1, o.arg))])
        elif kind == "QUOTA":
            f["arg"] = rng.choice([0, 1, 10, max(0, o.arg // 2), max(0, o.arg - 1), o.arg + 5, rng.randrange(0, 4096)])
            f["count"] = rng.choice([1, 1, 2, 1000])
        elif kind == "CLOCK":
            f["arg"] = rng.choice([-3600, 3600, -86400 * 365, 86400 * 365 * 10])
            f["cls"] = []
        return f
    return None


def with_faults(sc, faults):
    """copy of the scenario with faults placed in their phases"""
    import copy
    s = copy.deepcopy(sc)
    for f in faults:
        f = dict(f)
        ph = s["phases"][f.pop("phase")]
        ph.setdefault("faults", []).append(f)
    return s


def random_switches(rng, nactors, est_ops, k=None):
    if nactors < 2:
        return []
    if k is None:
        k = rng.choice([0, 1, 2, 3, 4, 6, 8, 12, 24, 60])
    k = min(k, 400)
    return sorted([rng.randrange(1, max(2, est_ops + 2)), rng.randrange(nactors)] for _ in range(k))
