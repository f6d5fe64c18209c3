"""At-rest damage applied between phases by the harness (never through the simulated calls)."""
import os


def apply_corruption(world, c, h):
    k = c["do"]
    p = world.path(c["path"])
    def fired(n):
        h.fired[n] = h.fired.get(n, 0) + 1
    if k == "write":
        import gen
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(gen.data(c["v"]))
        return
    if k in ("gz", "tgz", "zip"):
        make_archive(k, p, c)
        return
    if k == "mkdir":
        os.makedirs(p, exist_ok=True)
        return
    if not os.path.isfile(p):
        return
    n = os.path.getsize(p)
    if k == "flip":
        if n == 0:
            return
        with open(p, "r+b") as f:
            for pos, bit in c["at"]:
                pos = pos % n
                f.seek(pos)
                b = f.read(1)
                f.seek(pos)
                f.write(bytes([b[0] ^ (1 << bit)]))
        fired("BITFLIP")
    elif k == "truncate":
        with open(p, "r+b") as f:
            f.truncate(max(min(n, c.get("min", 0)), c["keep"] % (n + 1) if c["keep"] >= 0 else max(0, n + c["keep"])))
        fired("TRUNCATE")
    elif k == "zero":
        if n == 0:
            return
        with open(p, "r+b") as f:
            pos = c["pos"] % n
            f.seek(pos)
            f.write(b"\0" * min(c["len"], n - pos))
        fired("ZEROBLOCK")
    elif k == "append":
        with open(p, "ab") as f:
            f.write(b"\xa5" * c["len"])
        fired("GARBAGE_TAIL")
    elif k == "remove":
        os.unlink(p)
        fired("REMOVED")
    else:
        raise ValueError(k)


def random_corruption(rng, path):
    r = rng.random()
    if r < 0.4:
        n = rng.choice([1, 1, 1, 2, 8])
        return {"do": "flip", "path": path, "at": [[rng.randrange(1 << 30), rng.randrange(8)] for _ in range(n)]}
    if r < 0.75:
        return {"do": "truncate", "path": path, "keep": rng.choice([rng.randrange(1 << 30), -rng.randrange(1, 200), rng.randrange(0, 100)])}
    if r < 0.9:
        # not 5..63 bytes: such a hole can blank exactly the checksum and the sizes of a directory
        # entry, which is a well-formed entry for an empty member
        return {"do": "zero", "path": path, "pos": rng.randrange(1 << 30), "len": rng.choice([1, 2, 4, 64, 512, 4096])}
    return {"do": "append", "path": path, "len": rng.choice([1, 22, 100, 4096])}


def member_bytes(m):
    """content of one fixture member: {"v": desc} bytes, or {"v": desc, "enc": e} encoded text"""
    import gen
    b = gen.text(m["v"]).encode(m["enc"]) if m.get("enc") else gen.data(m["v"])
    return b"\0" * HOLE + b if m.get("reg") == "sparse" else b


HOLE = 700      # bytes missing at the start of sparse members


def regular_kind(rng, m):
    """tar knows several kinds of regular files, which different programs write"""
    if not m["name"].endswith("/") and rng.random() < 0.12:
        m["reg"] = rng.choice(["areg", "cont", "sparse"])
    return m


def sparse_header(ti, n):
    """an old-style GNU sparse member: a hole, then the n stored bytes"""
    import tarfile
    ti.type, ti.size = tarfile.GNUTYPE_SPARSE, n
    buf = bytearray(ti.tobuf(tarfile.GNU_FORMAT))
    h = len(buf) - 512
    buf[h + 386:h + 410] = b"%011o\0%011o\0" % (HOLE, n)
    buf[h + 483:h + 495] = b"%011o\0" % (HOLE + n)
    buf[h + 148:h + 156] = b" " * 8
    buf[h + 148:h + 156] = b"%06o\0 " % sum(buf[h:])
    return bytes(buf)


def make_archive(kind, p, c):
    """fixtures, with fixed times so that equal scenarios give equal bytes"""
    import gzip
    import io
    import tarfile
    import zipfile
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if kind == "gz":
        raw = member_bytes(c)
        parts = c.get("parts", 1)
        with open(p, "wb") as f:
            for i in range(parts):
                f.write(gzip.compress(raw[len(raw) * i // parts:len(raw) * (i + 1) // parts], c.get("level", 6), mtime=0))
        return
    if kind == "zip":
        with zipfile.ZipFile(p, "w", c.get("method", zipfile.ZIP_STORED)) as z:
            for m in c["members"]:
                zi = zipfile.ZipInfo(m["name"], (1990, 1, 1, 0, 0, 0))
                zi.compress_type = m.get("method", zipfile.ZIP_STORED)
                z.writestr(zi, member_bytes(m))
            if c.get("comment"):
                z.comment = b"c" * c["comment"]
        return
    buf = io.BytesIO()
    fmt = {"pax": tarfile.PAX_FORMAT, "gnu": tarfile.GNU_FORMAT, "ustar": tarfile.USTAR_FORMAT}[c.get("format", "pax")]
    with tarfile.open(fileobj=buf, mode="w", format=fmt) as t:
        for m in c["members"]:
            ti = tarfile.TarInfo(m["name"])
            ti.mtime = 0
            typ = m.get("type", "file")
            if typ == "file":
                b = member_bytes(m)
                ti.size = len(b)
                if m.get("reg") == "sparse":
                    b = b[HOLE:]
                    raw = sparse_header(ti, len(b)) + b + b"\0" * (-len(b) % 512)
                    t.fileobj.write(raw)
                    t.offset += len(raw)
                    continue
                ti.type = {"areg": tarfile.AREGTYPE, "cont": tarfile.CONTTYPE}.get(m.get("reg"), ti.type)
                t.addfile(ti, io.BytesIO(b))
            else:
                ti.type = {"dir": tarfile.DIRTYPE, "sym": tarfile.SYMTYPE, "lnk": tarfile.LNKTYPE, "fifo": tarfile.FIFOTYPE}[typ]
                if typ in ("sym", "lnk"):
                    ti.linkname = m["to"]
                ti.mode = 0o755
                t.addfile(ti)
    raw = buf.getvalue()
    comp = c.get("comp", "gz")
    if comp == "gz":
        raw = gzip.compress(raw, c.get("level", 6), mtime=0)
    elif comp == "bz2":
        import bz2
        raw = bz2.compress(raw)
    elif comp == "xz":
        import lzma
        raw = lzma.compress(raw)
    with open(p, "wb") as f:
        f.write(raw)
