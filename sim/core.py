"""Simulator kernel: executes one scenario under the preloaded shim and returns its history.

A scenario is JSON: {"prop", "env", "phases": [{"actors": [[step, ...], ...], "faults",
"switches", "pre", "clock"}]}.  Its execution is a pure function of the scenario and of the
code under test.
"""
import ctypes
import gc
import os
import pickle
import random
import select
import shutil
import signal
import stat
import struct
import sys
import traceback

CLS = ["OPEN_R", "OPEN_W", "READ", "WRITE", "TRUNC", "CLOSE", "STAT", "MKDIR", "RMDIR",
       "UNLINK", "RENAME", "LINK", "OPENDIR", "READDIR", "UTIME", "CHMOD", "FSYNC",
       "READLINK", "COPY"]
CLSI = {n: i for i, n in enumerate(CLS)}
KIND = ["NONE", "ERR", "SHORT", "EINTR", "SIGINT", "CRASH_BEFORE", "CRASH_AFTER", "CRASH_TORN",
        "LOST", "CLOCK", "QUOTA", "QUOTA_HIT", "BENIGN_SHORT", "BENIGN_EINTR", "BENIGN_DIR",
        "SWITCH"]
KINDI = {n: i for i, n in enumerate(KIND)}
CRASHES = ("CRASH_BEFORE", "CRASH_AFTER", "CRASH_TORN")
ALLMASK = (1 << len(CLS)) - 1
ENTRY = struct.Struct("iiiiiiqqIi")  # struct ent


class HarnessError(Exception):
    pass


_real_hash = hash


def own_hash_seed(salt):
    """Each simulated process has its own string hashing, as real ones do: what the library
    computes with hash() of a text differs between processes (dictionaries are unaffected)."""
    import builtins
    pre, bpre = str(salt) + "/", (str(salt) + "/").encode()

    def hash(x):
        t = type(x)
        if t is str or t is bytes or t is tuple:
            f = sys._getframe(1)
            if f.f_globals.get("__name__", "").startswith("vistautils") and f.f_code.co_name not in ("__hash__", "__eq__"):
                return _real_hash(pre + x if t is str else bpre + x if t is bytes else (pre,) + x)
        return _real_hash(x)
    builtins.hash = hash




class Lib:
    def __init__(self):
        L = self.L = ctypes.CDLL(None)
        if not hasattr(L, "sim_init"):
            raise HarnessError("shim not preloaded")
        L.sim_hash.restype = ctypes.c_uint64
        L.sim_now.restype = ctypes.c_int64
        L.sim_adv.restype = ctypes.c_int64
        for n in ("sim_ops", "sim_gseq", "sim_switches", "sim_fired", "sim_nt"):
            getattr(L, n).restype = ctypes.c_long
        L.sim_trace.restype = ctypes.c_void_p
        L.sim_pb.restype = ctypes.c_void_p
        L.sim_esc.restype = ctypes.c_char_p
        L.sim_env.argtypes = [ctypes.c_uint64, ctypes.c_int, ctypes.c_int, ctypes.c_int,
                              ctypes.c_uint64, ctypes.c_uint64, ctypes.c_long, ctypes.c_long]
        L.sim_fault.argtypes = [ctypes.c_int] * 5 + [ctypes.c_long, ctypes.c_int]
        L.sim_switch.argtypes = [ctypes.c_long, ctypes.c_int]
        L.sim_codeset.argtypes = [ctypes.c_char_p]
        L.sim_clock_jump.argtypes = [ctypes.c_long]
        if L.sim_init() != 0:
            raise HarnessError("sim_init failed")


class Op:
    """One traced call."""
    __slots__ = ("phase", "actor", "step", "cls", "nth", "arg", "ret", "err", "kind", "path")

    def __repr__(self):
        return (f"p{self.phase} a{self.actor} s{self.step}#{self.nth} {self.cls} {self.path} "
                f"arg={self.arg} ret={self.ret} err={self.err}"
                + (f" [{self.kind}]" if self.kind != "NONE" else ""))


class History:
    """events: list of dicts in global order; ops: lazily decoded trace."""

    def __init__(self):
        self.events = []
        self.hash = 0
        self.fired = {}
        self.fault_fired = []
        self.crashed = {}
        self.aborted = {}
        self.escapes = []
        self.hung = None
        self.nops = 0
        self.sim_ns = 0
        self.switches = 0
        self.extra = {}
        self.raw = b""
        self.paths = b""
        self.bounds = []
        self.gseqs = []
        self._ops = None

    @property
    def ops(self):
        if self._ops is None:
            out = []
            n = len(self.raw) // ENTRY.size
            b = 0
            for i in range(n):
                while b < len(self.bounds) and self.bounds[b] <= i:
                    b += 1
                v = ENTRY.unpack_from(self.raw, i * ENTRY.size)
                o = Op()
                o.phase = b - 1
                o.actor, o.step, c, o.nth, k, o.err, o.arg, o.ret = v[:8]
                o.cls = CLS[c]
                o.kind = KIND[k]
                po = v[9]
                o.path = self.paths[po:self.paths.index(b"\0", po)].decode("utf-8", "replace") if po >= 0 else "?"
                out.append(o)
            self._ops = out
        return self._ops

    def ends(self, phase=None, actor=None):
        return [e for e in self.events if e["k"] == "end" and (phase is None or e["p"] == phase)
                and (actor is None or e["a"] == actor)]

    def end_of(self, step_id):
        for e in self.events:
            if e["k"] == "end" and e["s"] == step_id:
                return e
        return None

    def begun(self, step_id):
        return any(e["k"] == "begin" and e["s"] == step_id for e in self.events)

    def hard_fired(self):
        """kinds of non-benign faults which fired"""
        return {k for k, n in self.fired.items() if n and k not in
                ("SHORT", "EINTR", "BENIGN_SHORT", "BENIGN_EINTR", "BENIGN_DIR", "SWITCH", "CLOCK", "QUOTA")}


class Ctx:
    """What a step sees inside an actor."""

    def __init__(self, root, lib, actor, phase, sc):
        self.root = root
        self.lib = lib
        self.actor = actor
        self.phase = phase
        self.sc = sc
        self.v = {}
        self.notes = []

    def open_fds(self):
        b = ctypes.create_string_buffer(8192)
        n = self.lib.L.sim_open_fds(b, 8192)
        return n, b.value.decode("utf-8", "replace")


class harness_code:
    """Calls made inside are not simulated (used by callbacks belonging to the harness)."""

    def __init__(self, ctx):
        self.L = ctx.lib.L

    def __enter__(self):
        self.nested = self.L.sim_pause()

    def __exit__(self, *a):
        if not self.nested:
            self.L.sim_resume()


def die_with_parent(ppid):
    """nothing started here outlives the process which started it"""
    ctypes.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)
    if os.getppid() != ppid:
        os._exit(79)


def _touch():  # a Python call: pending signals are raised at its entry
    return None


def describe_exc(e):
    chain = []
    c = e
    while c is not None and len(chain) < 6:
        chain.append(type(c).__name__)
        c = c.__cause__ or c.__context__
    errno_ = None
    c = e
    n = 0
    while c is not None and n < 8:
        if isinstance(c, OSError) and c.errno is not None:
            errno_ = c.errno
        c = c.__cause__ or c.__context__
        n += 1
    return {"type": type(e).__name__, "mro": [t.__name__ for t in type(e).__mro__],
            "msg": str(e)[:300], "chain": chain, "errno": errno_}


class World:
    def __init__(self, base):
        self.lib = Lib()
        self.base = base
        # fixed-length root: paths written into files have the same length in every run
        self.root = os.path.join(base, "r")
        self.keep_root = False
        self.timeout = 30.0
        # errors of the harness itself stay visible when actors are silenced
        self.err = os.dup(2)
        self.mfds = [os.memfd_create(f"ev{i}") for i in range(8)]
        self.runs = 0

    # -- harness-side file helpers (never simulated) --
    def path(self, rel):
        return os.path.join(self.root, rel)

    def wipe(self):
        if os.path.lexists(self.root):
            for dp, dn, _ in os.walk(self.root):
                for d in dn:
                    p = os.path.join(dp, d)
                    if not os.path.islink(p):
                        try:
                            os.chmod(p, 0o755)
                        except OSError:
                            pass
            shutil.rmtree(self.root)
        os.makedirs(self.root)

    def execute(self, sc, prop, want_trace=True):
        L = self.lib.L
        self.runs += 1
        self.wipe()
        os.chdir(self.root)
        L.sim_reset(self.root.encode())
        env = sc.get("env", {})
        L.sim_env(env.get("bseed", 1), env.get("sr", 0), env.get("sw", 0), env.get("ei", 0),
                  env.get("dirseed", 0), env.get("rseed", 7), env.get("op_us", 1000),
                  env.get("maxops", 60000))
        if env.get("clock"):
            L.sim_clock_jump(env["clock"])
        h = History()
        h.fired_list = []
        for pi, ph in enumerate(sc["phases"]):
            for c in ph.get("pre", ()):
                prop.pre(self, sc, c, h)
            if ph.get("clock"):
                L.sim_clock_jump(ph["clock"])
                h.fired["CLOCK"] = h.fired.get("CLOCK", 0) + 1
            h.bounds.append(L.sim_nt())
            actors = ph["actors"]
            if not actors:
                continue
            n = len(actors)
            L.sim_phase(n, ph.get("first", 0) % n)
            fids = []
            for f in ph.get("faults", ()):
                mask = sum(1 << CLSI[c] for c in f["cls"]) if f.get("cls") else ALLMASK
                fids.append(L.sim_fault(f.get("actor", 0), f["step"], f["nth"], mask, KINDI[f["kind"]],
                                        f.get("arg", 0), f.get("count", 1)))
            for s, to in sorted(ph.get("switches", ())):
                L.sim_switch(s, to)
            self._run_actors(pi, actors, sc, prop, h)
            if h.hung:
                break
            h.fault_fired.append([L.sim_fault_fired(i) for i in fids])
            h.gseqs.append(L.sim_gseq())
            for i in range(n):
                if L.sim_crashed(i):
                    h.crashed[(pi, i)] = True
                if L.sim_aborted(i):
                    h.aborted[(pi, i)] = True
            h.switches += L.sim_switches()
        h.hash = L.sim_hash()
        h.sim_ns = L.sim_adv()
        for i, k in enumerate(KIND):
            c = L.sim_fired(i)
            if c and i:
                h.fired[k] = h.fired.get(k, 0) + c
        h.escapes = [L.sim_esc(i).decode("utf-8", "replace") for i in range(min(8, L.sim_nesc()))]
        h.nops = L.sim_nt()
        if want_trace and h.nops:
            h.raw = ctypes.string_at(L.sim_trace(), h.nops * ENTRY.size)
            last = ENTRY.unpack_from(h.raw, (h.nops - 1) * ENTRY.size)[9]
            h.paths = ctypes.string_at(L.sim_pb(), max(0, last) + 600)
        prop.after(self, sc, h)
        os.chdir(self.base)
        return h

    def _run_actors(self, pi, actors, sc, prop, h):
        L = self.lib.L
        pids = []
        sys.stdout.flush()
        for ai, steps in enumerate(actors):
            mfd = self.mfds[ai]
            os.ftruncate(mfd, 0)
            os.lseek(mfd, 0, os.SEEK_SET)
            me = os.getpid()
            pid = os.fork()
            if pid == 0:
                code = 70
                try:
                    die_with_parent(me)
                    self._actor(pi, ai, steps, sc, prop, mfd)
                    code = 0
                except BaseException:
                    os.write(self.err, traceback.format_exc().encode())
                finally:
                    os._exit(code)
            pids.append(pid)
        pend = dict(enumerate(pids))
        status = {}
        for ai, pid in list(pend.items()):
            fd = os.pidfd_open(pid)
            try:
                r, _, _ = select.select([fd], [], [], self.timeout)
            finally:
                os.close(fd)
            if not r:
                for p in pids:
                    try:
                        os.kill(p, signal.SIGKILL)
                    except OSError:
                        pass
                for p in pids:
                    try:
                        os.waitpid(p, 0)
                    except OSError:
                        pass
                h.hung = [pi, ai]
                for i in range(len(pids)):
                    L.sim_actor_gone(i)
                return
            _, st = os.waitpid(pid, 0)
            status[ai] = st
            L.sim_actor_gone(ai)
        for ai in range(len(actors)):
            st = status[ai]
            c = os.waitstatus_to_exitcode(st)
            if c not in (0, 77, 78):
                raise HarnessError(f"actor {ai} of phase {pi} exited with {c}")
        evs = []
        for ai in range(len(actors)):
            mfd = self.mfds[ai]
            size = os.fstat(mfd).st_size
            data = os.pread(mfd, size, 0) if size else b""
            while len(data) < size:
                data += os.pread(mfd, size - len(data), len(data))
            o = 0
            while o + 4 <= len(data):
                (ln,) = struct.unpack_from("<I", data, o)
                if o + 4 + ln > len(data):
                    break
                evs.append(pickle.loads(data[o + 4:o + 4 + ln]))
                o += 4 + ln
        evs.sort(key=lambda e: (e["g"], e["q"]))
        h.events.extend(evs)

    def _actor(self, pi, ai, steps, sc, prop, mfd):
        L = self.lib.L
        gc.disable()
        random.seed(f"{sc.get('env', {}).get('rseed', 7)}-{pi}-{ai}")
        ctx = Ctx(self.root, self.lib, ai, pi, sc)
        if not sc.get("show"):
            # keep program output away from the check's own
            dn = os.open("/dev/null", os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            os.close(dn)
        q = 0
        own_hash_seed(f"{sc.get('env', {}).get('rseed', 7)}-{pi}-{ai}")
        L.sim_actor_start(ai)
        locs = sc.get("env", {}).get("loc")
        if locs:    # each process has its own locale
            L.sim_codeset(locs[(pi + ai) % len(locs)].encode())
        prop.actor_start(ctx)

        def emit(ev):
            nonlocal q
            ev.update(p=pi, a=ai, g=L.sim_gseq(), q=q)
            q += 1
            b = pickle.dumps(ev)
            b = struct.pack("<I", len(b)) + b
            while b:
                b = b[os.write(mfd, b):]

        for st in steps:
            sid = st["id"]
            emit({"k": "begin", "s": sid, "op": st["op"]})
            fn = getattr(prop, "op_" + st["op"], None)
            if fn is None:
                raise HarnessError("unknown op " + st["op"])
            L.sim_step(sid)
            val = exc = None
            keep = None
            try:
                try:
                    L.sim_resume()
                    val = fn(ctx, st)
                    L.sim_pause()
                    _touch()
                except BaseException as e:
                    L.sim_pause()
                    exc = describe_exc(e)
                    keep = e
                    _touch()
            except BaseException as e:
                L.sim_pause()
                exc = describe_exc(e)
                keep = e
            ev = {"k": "end", "s": sid, "op": st["op"], "v": val, "e": exc}
            prop.step_end(ctx, st, ev)
            if keep is not None:
                # frames are released here, at a point the simulator knows
                L.sim_resume()
                try:
                    keep.__traceback__ = None
                    keep = None
                    _touch()
                except BaseException:
                    pass
                L.sim_pause()
            emit(ev)
        L.sim_resume()
        try:
            ctx.v.clear()
            gc.collect()
        except BaseException:
            pass
        L.sim_pause()
        L.sim_actor_end()


class Prop:
    """Base class of the property checks."""
    id = "?"
    quick_cases = 400
    thorough_cases = 20000
    components_real = ["vistautils (unmodified, from /repo)", "CPython io/zipfile/tarfile/gzip/pathlib/shutil", "kernel tmpfs holding the bytes"]
    components_stub = ["result of each system call (errors, partial completion, order, crash)", "process scheduler between actors", "clock", "getrandom", "directory order"]

    # --- to be provided ---
    def cases(self, rng, tier):
        """one scenario without faults"""
        raise NotImplementedError

    def check(self, sc, h):
        """list of (class, message)"""
        raise NotImplementedError

    def on_abort(self, sc, h):
        """an actor exceeded the cap on simulated calls"""
        return [("no-progress", f"more than {sc.get('env', {}).get('maxops', 60000)} simulated calls")]

    def variants(self, rng, sc, h, tier):
        """fault variants of a clean scenario, from its trace"""
        return []

    # --- hooks with defaults ---
    def pre(self, world, sc, c, h):
        from corrupt import apply_corruption
        apply_corruption(world, c, h)

    def after(self, world, sc, h):
        pass

    def actor_start(self, ctx):
        pass

    def step_end(self, ctx, st, ev):
        pass

    def interesting(self, sc, h):
        """a run counts as non-trivial if it injected something or interleaved or wrote/read data"""
        return h.nops > 0
