/* Deterministic system-call level simulator for the vistautils checks.
 *
 * Preloaded into the Python workers.  A process is an "actor" once sim_actor_start(id)
 * was called in it; in every other process all calls pass straight through.
 * For an actor, each libc call on a path/descriptor below ctl->root passes gate():
 * schedule (who holds the baton), clock, fault plan, trace.  Everything here is a
 * pure function of the plan and of the calls made.
 */
#define _GNU_SOURCE
#include <langinfo.h>
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXA 8
#define MAXF 64
#define MAXSW 512
#define MAXT 120000
#define MAXFD 4096
#define PATHLEN 512

enum { C_OPEN_R, C_OPEN_W, C_READ, C_WRITE, C_TRUNC, C_CLOSE, C_STAT, C_MKDIR, C_RMDIR,
       C_UNLINK, C_RENAME, C_LINK, C_OPENDIR, C_READDIR, C_UTIME, C_CHMOD, C_FSYNC,
       C_READLINK, C_COPY, C_NUM };

enum { K_NONE, K_ERR, K_SHORT, K_EINTR, K_SIGINT, K_CRASH_BEFORE, K_CRASH_AFTER,
       K_CRASH_TORN, K_LOST, K_CLOCK, K_QUOTA, K_QUOTA_HIT, K_BENIGN_SHORT, K_BENIGN_EINTR,
       K_BENIGN_DIR, K_STALL, K_NUM };

struct fault { int actor, step, nth, mask, kind, count; long arg; int active, fired; };
struct actor { int state; int step; int nth; long ops; int crashed; int aborted; };
struct ent { int actor, step, cls, nth, kind, err; long arg, ret; uint32_t phash; int pathoff; };

struct ctl {
  int enabled;
  char root[256]; int rootlen;
  int turn; int nactors;
  struct actor a[MAXA];
  long gseq;
  int nsw, swi; struct { long seq; int to; } sw[MAXSW]; long switches_done;
  int nf; struct fault f[MAXF];
  long bytes_written, quota; int quota_left;
  int64_t now_ns, op_ns, adv_ns;
  uint64_t brng; int b_short_r, b_short_w, b_eintr; uint64_t dirseed;
  uint64_t rrng;
  long fired[K_NUM];
  long nt; long toverflow; uint64_t hash; long maxops;
  int nesc; char esc[8][PATHLEN];
  long npb; 
  struct ent t[MAXT];
  char pb[8 << 20];
};

static struct ctl *ctl;
static int me = -1;
static short fdt[MAXFD];           /* 1 = tracked */
static char *fdpath[MAXFD];        /* relative path of tracked descriptors */
static int paused;                 /* harness code inside an actor */

#define REAL(ret, name, ...) \
  typedef ret (*T_##name)(__VA_ARGS__); \
  static T_##name p_##name; \
  static inline T_##name g_##name(void) { if (!p_##name) p_##name = (T_##name)dlsym(RTLD_NEXT, #name); return p_##name; }

REAL(int, open64, const char *, int, ...)
REAL(int, openat64, int, const char *, int, ...)
REAL(ssize_t, read, int, void *, size_t)
REAL(ssize_t, readv, int, const struct iovec *, int)
REAL(ssize_t, pread64, int, void *, size_t, off64_t)
REAL(ssize_t, write, int, const void *, size_t)
REAL(ssize_t, writev, int, const struct iovec *, int)
REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t)
REAL(int, ftruncate64, int, off64_t)
REAL(int, truncate64, const char *, off64_t)
REAL(int, close, int)
REAL(int, dup, int)
REAL(int, dup2, int, int)
REAL(int, dup3, int, int, int)
REAL(int, fcntl64, int, int, ...)
REAL(int, stat64, const char *, struct stat64 *)
REAL(int, lstat64, const char *, struct stat64 *)
REAL(int, fstat64, int, struct stat64 *)
REAL(int, fstatat64, int, const char *, struct stat64 *, int)
REAL(int, access, const char *, int)
REAL(int, faccessat, int, const char *, int, int)
REAL(int, mkdir, const char *, mode_t)
REAL(int, mkdirat, int, const char *, mode_t)
REAL(int, rmdir, const char *)
REAL(int, unlink, const char *)
REAL(int, unlinkat, int, const char *, int)
REAL(int, rename, const char *, const char *)
REAL(int, renameat, int, const char *, int, const char *)
REAL(int, link, const char *, const char *)
REAL(int, linkat, int, const char *, int, const char *, int)
REAL(int, symlink, const char *, const char *)
REAL(int, symlinkat, const char *, int, const char *)
REAL(int, utimensat, int, const char *, const struct timespec *, int)
REAL(int, futimens, int, const struct timespec *)
REAL(int, chmod, const char *, mode_t)
REAL(int, fchmod, int, mode_t)
REAL(int, fchmodat, int, const char *, mode_t, int)
REAL(int, chown, const char *, uid_t, gid_t)
REAL(int, lchown, const char *, uid_t, gid_t)
REAL(int, fchown, int, uid_t, gid_t)
REAL(int, fchownat, int, const char *, uid_t, gid_t, int)
REAL(int, mknod, const char *, mode_t, dev_t)
REAL(int, mkfifo, const char *, mode_t)
REAL(ssize_t, sendfile64, int, int, off64_t *, size_t)
REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned)
REAL(int, fsync, int)
REAL(int, fdatasync, int)
REAL(ssize_t, readlink, const char *, char *, size_t)
REAL(ssize_t, readlinkat, int, const char *, char *, size_t)
REAL(DIR *, opendir, const char *)
REAL(DIR *, fdopendir, int)
REAL(struct dirent64 *, readdir64, DIR *)
REAL(void, rewinddir, DIR *)
REAL(int, closedir, DIR *)
REAL(int, clock_gettime, clockid_t, struct timespec *)
REAL(time_t, time, time_t *)
REAL(int, gettimeofday, struct timeval *, void *)
REAL(int, clock_nanosleep, clockid_t, int, const struct timespec *, struct timespec *)
REAL(int, nanosleep, const struct timespec *, struct timespec *)
REAL(ssize_t, getrandom, void *, size_t, unsigned)
REAL(int, kill, pid_t, int)
REAL(char *, nl_langinfo, nl_item)

static inline int on(void) { return me >= 0 && ctl && ctl->enabled && !paused; }

static uint64_t xs(uint64_t *s) {
  uint64_t z = (*s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

static void fwait(int *p, int v) { syscall(SYS_futex, p, FUTEX_WAIT, v, NULL, NULL, 0); }
static void fwake(int *p) { syscall(SYS_futex, p, FUTEX_WAKE, 1000, NULL, NULL, 0); }

static void wait_turn(void) {
  int t;
  while ((t = __atomic_load_n(&ctl->turn, __ATOMIC_SEQ_CST)) != me) fwait(&ctl->turn, t);
}
static void pass_to(int to) {
  __atomic_store_n(&ctl->turn, to, __ATOMIC_SEQ_CST);
  fwake(&ctl->turn);
}
static void pass_any(void) {
  for (int i = 1; i <= ctl->nactors; i++) {
    int j = (me + i) % ctl->nactors;
    if (ctl->a[j].state == 1) { pass_to(j); return; }
  }
  pass_to(-2);
}

static void die(void) {
  ctl->a[me].state = 2;
  ctl->a[me].crashed = 1;
  pass_any();
  syscall(SYS_exit_group, 77);
}

/* ---- path handling ---- */
static int normalise(const char *base, const char *path, char *out, size_t n) {
  char tmp[PATH_MAX * 2];
  if (path[0] == '/') { if (snprintf(tmp, sizeof tmp, "%s", path) >= (int)sizeof tmp) return -1; }
  else if (snprintf(tmp, sizeof tmp, "%s/%s", base, path) >= (int)sizeof tmp) return -1;
  size_t o = 0; out[0] = 0;
  char *p = tmp;
  while (*p) {
    while (*p == '/') p++;
    if (!*p) break;
    char *e = p; while (*e && *e != '/') e++;
    size_t l = e - p;
    if (l == 1 && p[0] == '.') {}
    else if (l == 2 && p[0] == '.' && p[1] == '.') { while (o > 0 && out[--o] != '/') {} out[o] = 0; }
    else { if (o + l + 2 > n) return -1; out[o++] = '/'; memcpy(out + o, p, l); o += l; out[o] = 0; }
    p = e;
  }
  if (o == 0) { out[0] = '/'; out[1] = 0; }
  return 0;
}

/* returns relative path inside root, or NULL; abs gets the absolute path */
static const char *rel(int dirfd, const char *path, char *abs, size_t n) {
  char base[PATH_MAX]; base[0] = 0;
  if (!path) return NULL;
  if (path[0] != '/') {
    if (dirfd == AT_FDCWD) { if (syscall(SYS_getcwd, base, sizeof base) < 0) strcpy(base, "/"); }
    else {
      char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
      ssize_t r = syscall(SYS_readlink, l, base, sizeof base - 1);
      if (r < 0) r = 0;
      base[r] = 0;
    }
  }
  if (normalise(base, path, abs, n) < 0) return NULL;
  if (!strncmp(abs, ctl->root, ctl->rootlen) && (abs[ctl->rootlen] == '/' || !abs[ctl->rootlen]))
    return abs[ctl->rootlen] ? abs + ctl->rootlen + 1 : ".";
  return NULL;
}

static void escape(const char *what, const char *abs) {
  if (ctl->nesc < 8) snprintf(ctl->esc[ctl->nesc], PATHLEN, "%s %s", what, abs);
  ctl->nesc++;
}

static uint32_t fnv(uint32_t h, const void *d, size_t n) {
  const unsigned char *p = d;
  while (n--) { h ^= *p++; h *= 16777619u; }
  return h;
}

struct dec { int kind; long arg; long slot; int cls; };

static void rec(struct dec *d, long ret, int err) {
  if (d->slot < 0) return;
  struct ent *e = &ctl->t[d->slot];
  e->ret = ret; e->err = err; e->kind = d->kind;
  long v[6] = { e->actor, e->step, e->cls, e->arg, ret, err * 100 + d->kind };
  uint64_t h = ctl->hash;
  for (int i = 0; i < 6; i++) { h ^= (uint64_t)v[i]; h *= 1099511628211ULL; h ^= h >> 29; }
  h ^= e->phash; h *= 1099511628211ULL; h ^= h >> 31;
  ctl->hash = h;
}

/* every tracked call comes through here */
static void gate_(int cls, const char *path, long arg, struct dec *d);
static void gate(int cls, const char *path, long arg, struct dec *d) {
  int e = errno; /* waiting for a turn must not leave a trace in it */
  gate_(cls, path, arg, d);
  errno = e;
}
static void gate_(int cls, const char *path, long arg, struct dec *d) {
  d->kind = K_NONE; d->arg = 0; d->cls = cls; d->slot = -1;
  ctl->gseq++;
  ctl->now_ns += ctl->op_ns; ctl->adv_ns += ctl->op_ns;
  while (ctl->swi < ctl->nsw && ctl->sw[ctl->swi].seq <= ctl->gseq) {
    int to = ctl->sw[ctl->swi].to; ctl->swi++;
    if (to != me && to >= 0 && to < ctl->nactors && ctl->a[to].state == 1) {
      ctl->switches_done++; ctl->fired[K_STALL]++;
      pass_to(to);
      wait_turn();
    }
  }
  struct actor *a = &ctl->a[me];
  a->nth++; a->ops++;
  if (ctl->maxops && a->ops > ctl->maxops) { a->aborted = 1; a->state = 2; pass_any(); syscall(SYS_exit_group, 78); }
  for (int i = 0; i < ctl->nf; i++) {
    struct fault *f = &ctl->f[i];
    if (f->actor != me) continue;
    if (!f->active) {
      if (f->count <= 0 || f->step != a->step || a->nth < f->nth) continue;
      if (!(f->mask & (1 << cls))) continue;
      f->active = 1;
    }
    if (f->count <= 0 || !(f->mask & (1 << cls))) continue;
    if (f->kind == K_CLOCK) { ctl->now_ns += (int64_t)f->arg * 1000000000LL; f->count = 0; f->fired++; ctl->fired[K_CLOCK]++; continue; }
    if (f->kind == K_QUOTA) { ctl->quota = ctl->bytes_written + f->arg; ctl->quota_left = f->count; f->count = 0; f->fired++; ctl->fired[K_QUOTA]++; continue; }
    f->count--; f->fired++;
    ctl->fired[f->kind]++;
    d->kind = f->kind; d->arg = f->arg;
    break;
  }
  if (d->kind == K_NONE) {
    if (cls == C_READ && ctl->b_short_r && arg > 1 && (int)(xs(&ctl->brng) % 1000) < ctl->b_short_r) {
      d->kind = K_BENIGN_SHORT; d->arg = 1 + xs(&ctl->brng) % (arg < 70000 ? arg : 70000); ctl->fired[K_BENIGN_SHORT]++;
    } else if (cls == C_WRITE && ctl->b_short_w && arg > 1 && (int)(xs(&ctl->brng) % 1000) < ctl->b_short_w) {
      d->kind = K_BENIGN_SHORT; d->arg = 1 + xs(&ctl->brng) % arg; ctl->fired[K_BENIGN_SHORT]++;
    } else if ((cls == C_READ || cls == C_WRITE || cls == C_OPEN_R) && ctl->b_eintr && (int)(xs(&ctl->brng) % 1000) < ctl->b_eintr) {
      d->kind = K_BENIGN_EINTR; ctl->fired[K_BENIGN_EINTR]++;
    }
  }
  if (ctl->nt < MAXT) {
    struct ent *e = &ctl->t[d->slot = ctl->nt++];
    size_t l = strlen(path);
    e->actor = me; e->step = a->step; e->cls = cls; e->nth = a->nth; e->arg = arg; e->ret = 0; e->err = 0; e->kind = d->kind;
    e->phash = fnv(2166136261u, path, l); e->pathoff = -1;
    if (ctl->npb + (long)l + 1 < (long)sizeof ctl->pb) { e->pathoff = ctl->npb; memcpy(ctl->pb + ctl->npb, path, l + 1); ctl->npb += l + 1; }
  } else ctl->toverflow++;
  if (d->kind == K_CRASH_BEFORE || (d->kind == K_CRASH_TORN && cls != C_WRITE)) { rec(d, -1, 0); die(); }
  if (d->kind == K_SIGINT) raise(SIGINT);
}

static int failing(struct dec *d) {
  if (d->kind == K_ERR) { rec(d, -1, (int)d->arg); errno = (int)d->arg; return 1; }
  if ((d->kind == K_EINTR || d->kind == K_BENIGN_EINTR) && (d->cls == C_READ || d->cls == C_WRITE || d->cls == C_OPEN_R || d->cls == C_OPEN_W || d->cls == C_TRUNC)) {
    rec(d, -1, EINTR); errno = EINTR; return 1; }
  return 0;
}
static void after(struct dec *d, long ret) {
  int e = errno;
  rec(d, ret < 0 ? -1 : ret, ret < 0 ? e : 0);
  if (d->kind == K_CRASH_AFTER) die();
  errno = e;
}

static void track(int fd, const char *path) {
  if (fd >= 0 && fd < MAXFD) { free(fdpath[fd]); fdpath[fd] = strdup(path); fdt[fd] = 1; }
}
static void untrack(int fd) { if (fd >= 0 && fd < MAXFD) { fdt[fd] = 0; } }
static inline int tracked(int fd) { return fd >= 0 && fd < MAXFD && fdt[fd]; }

/* ---- interposed calls ---- */
static int is_w(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  if (on() && path) {
    char abs[PATH_MAX]; const char *r = rel(dirfd, path, abs, sizeof abs);
    if (r) {
      struct dec d; gate(is_w(flags) ? C_OPEN_W : C_OPEN_R, r, flags & (O_ACCMODE | O_CREAT | O_TRUNC | O_APPEND | O_EXCL | O_DIRECTORY), &d);
      if (failing(&d)) return -1;
      int fd = g_openat64()(dirfd, path, flags, mode);
      if (fd >= 0) track(fd, r);
      after(&d, fd < 0 ? -1 : 0);
      return fd;
    }
    if (is_w(flags) && strcmp(abs, "/dev/null")) { escape("open-for-write", abs); errno = EACCES; return -1; }
  }
  return g_openat64()(dirfd, path, flags, mode);
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int openat(int dfd, const char *path, int flags, ...) { MODE return do_open(dfd, path, flags, mode); }
int openat64(int dfd, const char *path, int flags, ...) { MODE return do_open(dfd, path, flags, mode); }
int __open_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags, 0); }
int __open64_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags, 0); }
int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }

ssize_t read(int fd, void *buf, size_t n) {
  if (!tracked(fd) || !on()) return g_read()(fd, buf, n);
  struct dec d; gate(C_READ, fdpath[fd], (long)n, &d);
  if (failing(&d)) return -1;
  if ((d.kind == K_SHORT || d.kind == K_BENIGN_SHORT) && d.arg > 0 && (size_t)d.arg < n) n = d.arg;
  ssize_t r = g_read()(fd, buf, n);
  after(&d, r);
  return r;
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  if (!tracked(fd) || !on()) return g_readv()(fd, v, c);
  struct dec d; gate(C_READ, fdpath[fd], c, &d);
  if (failing(&d)) return -1;
  ssize_t r = g_readv()(fd, v, c); after(&d, r); return r;
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t o) {
  if (!tracked(fd) || !on()) return g_pread64()(fd, buf, n, o);
  struct dec d; gate(C_READ, fdpath[fd], (long)n, &d);
  if (failing(&d)) return -1;
  if ((d.kind == K_SHORT || d.kind == K_BENIGN_SHORT) && d.arg > 0 && (size_t)d.arg < n) n = d.arg;
  ssize_t r = g_pread64()(fd, buf, n, o); after(&d, r); return r;
}
ssize_t pread(int fd, void *buf, size_t n, off_t o) { return pread64(fd, buf, n, o); }

static ssize_t do_write(int fd, const void *buf, size_t n, int isp, off64_t off) {
  struct dec d; gate(C_WRITE, fdpath[fd], (long)n, &d);
  if (failing(&d)) return -1;
  if ((d.kind == K_SHORT || d.kind == K_BENIGN_SHORT) && d.arg > 0 && (size_t)d.arg < n) n = d.arg;
  if (ctl->quota >= 0 && ctl->bytes_written + (long)n > ctl->quota) {
    long room = ctl->quota - ctl->bytes_written;
    if (room <= 0) {
      ctl->fired[K_QUOTA_HIT]++;
      if (--ctl->quota_left <= 0) ctl->quota = -1;
      d.kind = K_QUOTA_HIT; rec(&d, -1, ENOSPC); errno = ENOSPC; return -1;
    }
    n = room;
  }
  if (d.kind == K_CRASH_TORN) {
    size_t k = (size_t)d.arg < n ? (size_t)d.arg : (n ? n - 1 : 0);
    if (k) { if (isp) g_pwrite64()(fd, buf, k, off); else g_write()(fd, buf, k); }
    rec(&d, (long)k, 0); die();
  }
  ssize_t r;
  if (d.kind == K_LOST) {
    char *z = calloc(1, n ? n : 1);
    r = isp ? g_pwrite64()(fd, z, n, off) : g_write()(fd, z, n);
    free(z);
  } else r = isp ? g_pwrite64()(fd, buf, n, off) : g_write()(fd, buf, n);
  if (r > 0) ctl->bytes_written += r;
  after(&d, r);
  return r;
}
ssize_t write(int fd, const void *buf, size_t n) {
  if (!tracked(fd) || !on()) return g_write()(fd, buf, n);
  return do_write(fd, buf, n, 0, 0);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) {
  if (!tracked(fd) || !on()) return g_pwrite64()(fd, buf, n, o);
  return do_write(fd, buf, n, 1, o);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) { return pwrite64(fd, buf, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!tracked(fd) || !on()) return g_writev()(fd, v, c);
  size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
  char *b = malloc(n ? n : 1), *p = b;
  for (int i = 0; i < c; i++) { memcpy(p, v[i].iov_base, v[i].iov_len); p += v[i].iov_len; }
  ssize_t r = do_write(fd, b, n, 0, 0); int e = errno; free(b); errno = e; return r;
}
int ftruncate64(int fd, off64_t l) {
  if (!tracked(fd) || !on()) return g_ftruncate64()(fd, l);
  struct dec d; gate(C_TRUNC, fdpath[fd], (long)l, &d);
  if (failing(&d)) return -1;
  int r = g_ftruncate64()(fd, l); after(&d, r); return r;
}
int ftruncate(int fd, off_t l) { return ftruncate64(fd, l); }

int close(int fd) {
  if (!tracked(fd)) return g_close()(fd);
  if (!on()) { untrack(fd); return g_close()(fd); }
  struct dec d; gate(C_CLOSE, fdpath[fd], 0, &d);
  untrack(fd);
  int r = g_close()(fd);
  if (d.kind == K_ERR) { rec(&d, -1, (int)d.arg); errno = (int)d.arg; return -1; }
  after(&d, r); return r;
}
int dup(int fd) { int r = g_dup()(fd); if (r >= 0 && tracked(fd)) track(r, fdpath[fd]); return r; }
int dup2(int a, int b) { int r = g_dup2()(a, b); if (r >= 0 && a != b) { untrack(b); if (tracked(a)) track(b, fdpath[a]); } return r; }
int dup3(int a, int b, int f) { int r = g_dup3()(a, b, f); if (r >= 0) { untrack(b); if (tracked(a)) track(b, fdpath[a]); } return r; }
static int do_fcntl(int fd, int cmd, long arg) {
  int r = g_fcntl64()(fd, cmd, arg);
  if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0 && tracked(fd)) track(r, fdpath[fd]);
  return r;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }

/* generic wrapper: class, dirfd, path, mutating?, call */
#define PATHOP(cls, dfd, path, mut, name, call) do { \
    if (on() && (path)) { \
      char abs_[PATH_MAX]; const char *r_ = rel((dfd), (path), abs_, sizeof abs_); \
      if (r_) { struct dec d_; gate(cls, r_, 0, &d_); if (failing(&d_)) return -1; \
        long x_ = (call); after(&d_, x_ < 0 ? -1 : ((cls) == C_READLINK ? x_ : 0)); return x_; } \
      if (mut) { escape(name, abs_); errno = EACCES; return -1; } \
    } return (call); } while (0)
#define FDOP(cls, fd, call) do { \
    if (tracked(fd) && on()) { struct dec d_; gate(cls, fdpath[fd], 0, &d_); if (failing(&d_)) return -1; \
      long x_ = (call); after(&d_, x_); return x_; } return (call); } while (0)

int truncate64(const char *p, off64_t l) { PATHOP(C_TRUNC, AT_FDCWD, p, 1, "truncate", g_truncate64()(p, l)); }
int truncate(const char *p, off_t l) { return truncate64(p, l); }
int stat64(const char *p, struct stat64 *s) { PATHOP(C_STAT, AT_FDCWD, p, 0, "", g_stat64()(p, s)); }
int stat(const char *p, struct stat *s) { return stat64(p, (struct stat64 *)s); }
int lstat64(const char *p, struct stat64 *s) { PATHOP(C_STAT, AT_FDCWD, p, 0, "", g_lstat64()(p, s)); }
int lstat(const char *p, struct stat *s) { return lstat64(p, (struct stat64 *)s); }
int fstat64(int fd, struct stat64 *s) { FDOP(C_STAT, fd, g_fstat64()(fd, s)); }
int fstat(int fd, struct stat *s) { return fstat64(fd, (struct stat64 *)s); }
int fstatat64(int dfd, const char *p, struct stat64 *s, int f) {
  if (p && !*p) FDOP(C_STAT, dfd, g_fstatat64()(dfd, p, s, f));
  PATHOP(C_STAT, dfd, p, 0, "", g_fstatat64()(dfd, p, s, f)); }
int fstatat(int dfd, const char *p, struct stat *s, int f) { return fstatat64(dfd, p, (struct stat64 *)s, f); }
int access(const char *p, int m) { PATHOP(C_STAT, AT_FDCWD, p, 0, "", g_access()(p, m)); }
int faccessat(int d, const char *p, int m, int f) { PATHOP(C_STAT, d, p, 0, "", g_faccessat()(d, p, m, f)); }
int mkdir(const char *p, mode_t m) { PATHOP(C_MKDIR, AT_FDCWD, p, 1, "mkdir", g_mkdir()(p, m)); }
int mkdirat(int d, const char *p, mode_t m) { PATHOP(C_MKDIR, d, p, 1, "mkdir", g_mkdirat()(d, p, m)); }
int rmdir(const char *p) { PATHOP(C_RMDIR, AT_FDCWD, p, 1, "rmdir", g_rmdir()(p)); }
int unlink(const char *p) { PATHOP(C_UNLINK, AT_FDCWD, p, 1, "unlink", g_unlink()(p)); }
int remove(const char *p) { PATHOP(C_UNLINK, AT_FDCWD, p, 1, "remove", g_unlink()(p)); }
int unlinkat(int d, const char *p, int f) { PATHOP((f & AT_REMOVEDIR) ? C_RMDIR : C_UNLINK, d, p, 1, "unlink", g_unlinkat()(d, p, f)); }

static int two(int cls, int d1, const char *a, int d2, const char *b, const char *name, int mutsrc, struct dec *d) {
  /* 1 = gated ok, 0 = not ours, -1 = fail */
  char x[PATH_MAX], y[PATH_MAX];
  const char *ra = rel(d1, a, x, sizeof x), *rb = rel(d2, b, y, sizeof y);
  if (!rb || (mutsrc && !ra)) { escape(name, rb ? x : y); errno = EACCES; return -1; }
  gate(cls, rb, 0, d);
  return failing(d) ? -1 : 1;
}
#define TWOOP(cls, d1, a, d2, b, name, ms, call) do { if (on()) { struct dec d_; if (two(cls, d1, a, d2, b, name, ms, &d_) < 0) return -1; \
    long x_ = (call); after(&d_, x_); return x_; } return (call); } while (0)
int rename(const char *a, const char *b) { TWOOP(C_RENAME, AT_FDCWD, a, AT_FDCWD, b, "rename", 1, g_rename()(a, b)); }
int renameat(int d1, const char *a, int d2, const char *b) { TWOOP(C_RENAME, d1, a, d2, b, "rename", 1, g_renameat()(d1, a, d2, b)); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { TWOOP(C_RENAME, d1, a, d2, b, "rename", 1, syscall(SYS_renameat2, d1, a, d2, b, f)); }
int link(const char *a, const char *b) { TWOOP(C_LINK, AT_FDCWD, a, AT_FDCWD, b, "link", 0, g_link()(a, b)); }
int linkat(int d1, const char *a, int d2, const char *b, int f) { TWOOP(C_LINK, d1, a, d2, b, "link", 0, g_linkat()(d1, a, d2, b, f)); }
int symlink(const char *a, const char *b) { PATHOP(C_LINK, AT_FDCWD, b, 1, "symlink", g_symlink()(a, b)); }
int symlinkat(const char *a, int d, const char *b) { PATHOP(C_LINK, d, b, 1, "symlink", g_symlinkat()(a, d, b)); }
int utimensat(int d, const char *p, const struct timespec t[2], int f) { if (!p) FDOP(C_UTIME, d, g_utimensat()(d, p, t, f)); PATHOP(C_UTIME, d, p, 1, "utime", g_utimensat()(d, p, t, f)); }
int futimens(int fd, const struct timespec t[2]) { FDOP(C_UTIME, fd, g_futimens()(fd, t)); }
int chmod(const char *p, mode_t m) { PATHOP(C_CHMOD, AT_FDCWD, p, 1, "chmod", g_chmod()(p, m)); }
int fchmod(int fd, mode_t m) { FDOP(C_CHMOD, fd, g_fchmod()(fd, m)); }
int fchmodat(int d, const char *p, mode_t m, int f) { PATHOP(C_CHMOD, d, p, 1, "chmod", g_fchmodat()(d, p, m, f)); }
int chown(const char *p, uid_t u, gid_t g) { PATHOP(C_CHMOD, AT_FDCWD, p, 1, "chown", g_chown()(p, u, g)); }
int lchown(const char *p, uid_t u, gid_t g) { PATHOP(C_CHMOD, AT_FDCWD, p, 1, "chown", g_lchown()(p, u, g)); }
int fchown(int fd, uid_t u, gid_t g) { FDOP(C_CHMOD, fd, g_fchown()(fd, u, g)); }
int fchownat(int d, const char *p, uid_t u, gid_t g, int f) { PATHOP(C_CHMOD, d, p, 1, "chown", g_fchownat()(d, p, u, g, f)); }
int mknod(const char *p, mode_t m, dev_t v) { PATHOP(C_OPEN_W, AT_FDCWD, p, 1, "mknod", g_mknod()(p, m, v)); }
int mkfifo(const char *p, mode_t m) { PATHOP(C_OPEN_W, AT_FDCWD, p, 1, "mkfifo", g_mkfifo()(p, m)); }
int fsync(int fd) { FDOP(C_FSYNC, fd, g_fsync()(fd)); }
int fdatasync(int fd) { FDOP(C_FSYNC, fd, g_fdatasync()(fd)); }
ssize_t readlink(const char *p, char *b, size_t n) { PATHOP(C_READLINK, AT_FDCWD, p, 0, "", g_readlink()(p, b, n)); }
ssize_t readlinkat(int d, const char *p, char *b, size_t n) { PATHOP(C_READLINK, d, p, 0, "", g_readlinkat()(d, p, b, n)); }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
  if (on() && (tracked(o) || tracked(i))) { errno = EINVAL; return -1; } /* force the read/write path */
  return g_sendfile64()(o, i, off, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f) {
  if (on() && (tracked(o) || tracked(i))) { errno = EINVAL; return -1; }
  return g_copy_file_range()(i, a, o, b, n, f);
}

/* ---- directories: whole listing taken at opendir, sorted, then permuted by seed ---- */
#define MAXD 64
static struct dlist { DIR *d; struct dirent64 *e; int n, i; char path[PATHLEN]; } dl[MAXD];
static struct dlist *finddl(DIR *d) { for (int i = 0; i < MAXD; i++) if (dl[i].d == d) return &dl[i]; return NULL; }
static int cmpd(const void *a, const void *b) { return strcmp(((const struct dirent64 *)a)->d_name, ((const struct dirent64 *)b)->d_name); }
static void filldl(DIR *D, const char *r) {
  struct dlist *l = NULL;
  for (int i = 0; i < MAXD; i++) if (!dl[i].d) { l = &dl[i]; break; }
  if (!l) return;
  l->d = D; l->n = l->i = 0; int cap = 16; l->e = malloc(cap * sizeof *l->e);
  snprintf(l->path, PATHLEN, "%s", r);
  struct dirent64 *e;
  while ((e = g_readdir64()(D))) {
    if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
    if (l->n == cap) { cap *= 2; l->e = realloc(l->e, cap * sizeof *l->e); }
    memset(&l->e[l->n], 0, sizeof *e);
    memcpy(&l->e[l->n], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e); l->n++;
  }
  qsort(l->e, l->n, sizeof *l->e, cmpd);
  if (ctl->dirseed && l->n > 1) {
    uint64_t s = ctl->dirseed; for (const char *q = r; *q; q++) s = s * 1000003 + (unsigned char)*q;
    for (int i = l->n - 1; i > 0; i--) { int j = xs(&s) % (i + 1); struct dirent64 t = l->e[i]; l->e[i] = l->e[j]; l->e[j] = t; }
    ctl->fired[K_BENIGN_DIR]++;
  }
}
DIR *opendir(const char *p) {
  if (on()) {
    char abs[PATH_MAX]; const char *r = rel(AT_FDCWD, p, abs, sizeof abs);
    if (r) {
      struct dec d; gate(C_OPENDIR, r, 0, &d);
      if (d.kind == K_ERR) { rec(&d, -1, (int)d.arg); errno = (int)d.arg; return NULL; }
      DIR *D = g_opendir()(p);
      if (D) { track(dirfd(D), r); filldl(D, r); }
      after(&d, D ? 0 : -1);
      return D;
    }
  }
  return g_opendir()(p);
}
DIR *fdopendir(int fd) {
  if (on() && tracked(fd)) {
    struct dec d; gate(C_OPENDIR, fdpath[fd], 0, &d);
    if (d.kind == K_ERR) { rec(&d, -1, (int)d.arg); errno = (int)d.arg; return NULL; }
    DIR *D = g_fdopendir()(fd);
    if (D) filldl(D, fdpath[fd]);
    after(&d, D ? 0 : -1);
    return D;
  }
  return g_fdopendir()(fd);
}
struct dirent64 *readdir64(DIR *D) {
  struct dlist *l = finddl(D);
  if (!l) return g_readdir64()(D);
  if (on()) {
    struct dec d; gate(C_READDIR, l->path, l->i, &d);
    if (d.kind == K_ERR) { rec(&d, -1, (int)d.arg); errno = (int)d.arg; return NULL; }
    after(&d, l->i < l->n ? 1 : 0);
  }
  if (l->i < l->n) return &l->e[l->i++];
  return NULL;
}
struct dirent *readdir(DIR *D) { return (struct dirent *)readdir64(D); }
void rewinddir(DIR *D) { struct dlist *l = finddl(D); if (l) l->i = 0; g_rewinddir()(D); }
int closedir(DIR *D) {
  struct dlist *l = finddl(D);
  int fd = dirfd(D);
  if (l) { free(l->e); l->d = NULL; l->e = NULL; }
  untrack(fd);
  return g_closedir()(D);
}

/* ---- clock, randomness, signals ---- */
int clock_gettime(clockid_t c, struct timespec *t) {
  if (!on()) return g_clock_gettime()(c, t);
  int64_t n = ctl->now_ns;
  t->tv_sec = n / 1000000000LL; t->tv_nsec = n % 1000000000LL;
  if (t->tv_nsec < 0) { t->tv_nsec += 1000000000LL; t->tv_sec--; }
  return 0;
}
time_t time(time_t *p) {
  if (!on()) return g_time()(p);
  time_t v = ctl->now_ns / 1000000000LL; if (p) *p = v; return v;
}
int gettimeofday(struct timeval *tv, void *tz) {
  if (!on()) return g_gettimeofday()(tv, tz);
  tv->tv_sec = ctl->now_ns / 1000000000LL; tv->tv_usec = (ctl->now_ns % 1000000000LL) / 1000; return 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *r, struct timespec *m) {
  if (!on()) return g_clock_nanosleep()(c, f, r, m);
  int64_t v = (int64_t)r->tv_sec * 1000000000LL + r->tv_nsec;
  if (f & TIMER_ABSTIME) { if (v > ctl->now_ns) { ctl->adv_ns += v - ctl->now_ns; ctl->now_ns = v; } } else { ctl->now_ns += v; ctl->adv_ns += v; }
  return 0;
}
int nanosleep(const struct timespec *r, struct timespec *m) {
  if (!on()) return g_nanosleep()(r, m);
  ctl->now_ns += (int64_t)r->tv_sec * 1000000000LL + r->tv_nsec; ctl->adv_ns += (int64_t)r->tv_sec * 1000000000LL + r->tv_nsec; return 0;
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (!on()) return g_getrandom()(b, n, f);
  unsigned char *p = b; for (size_t i = 0; i < n; i++) p[i] = (unsigned char)xs(&ctl->rrng);
  return n;
}
int kill(pid_t p, int s) {
  if (me >= 0 && p != getpid()) { if (ctl) escape("kill", ""); errno = EPERM; return -1; }
  return g_kill()(p, s);
}

/* ---- control interface (ctypes) ---- */
int sim_init(void) {
  if (ctl) return 0;
  ctl = mmap(NULL, sizeof *ctl, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (ctl == MAP_FAILED) { ctl = NULL; return -1; }
  memset(ctl, 0, offsetof(struct ctl, t));
  ctl->quota = -1;
  return 0;
}
void sim_reset(const char *root) {
  memset(ctl, 0, offsetof(struct ctl, t));
  snprintf(ctl->root, sizeof ctl->root, "%s", root); ctl->rootlen = strlen(ctl->root);
  ctl->quota = -1; ctl->turn = -1; ctl->op_ns = 1000000; ctl->hash = 1469598103934665603ULL;
  ctl->now_ns = 1700000000LL * 1000000000LL;
  ctl->enabled = 1;
}
/* a phase: fresh actors, switches and faults; clock, trace and counters continue */
void sim_phase(int nactors, int first) {
  ctl->nactors = nactors; ctl->turn = first; ctl->gseq = 0; ctl->nsw = ctl->swi = 0; ctl->nf = 0; ctl->quota = -1;
  memset(ctl->a, 0, sizeof ctl->a);
  for (int i = 0; i < nactors; i++) { ctl->a[i].state = 1; ctl->a[i].step = -1; }
}
void sim_env(uint64_t bseed, int sr, int sw, int ei, uint64_t dirseed, uint64_t rseed, long op_us, long maxops) {
  ctl->brng = bseed; ctl->b_short_r = sr; ctl->b_short_w = sw; ctl->b_eintr = ei; ctl->dirseed = dirseed; ctl->rrng = rseed;
  ctl->op_ns = op_us * 1000LL; ctl->maxops = maxops;
}
/* the character set of the locale of this process; NULL: the real one */
static char codeset[32];
void sim_codeset(const char *c) { snprintf(codeset, sizeof codeset, "%s", c ? c : ""); }
char *nl_langinfo(nl_item i) { return i == CODESET && codeset[0] ? codeset : g_nl_langinfo()(i); }
void sim_clock_jump(long s) { ctl->now_ns += (int64_t)s * 1000000000LL; }
int sim_fault(int actor, int step, int nth, int mask, int kind, long arg, int count) {
  if (ctl->nf >= MAXF) return -1;
  ctl->f[ctl->nf++] = (struct fault){ actor, step, nth, mask, kind, count, arg, 0, 0 };
  return ctl->nf - 1;
}
int sim_fault_fired(int i) { return ctl->f[i].fired; }
int sim_switch(long seq, int to) { if (ctl->nsw >= MAXSW) return -1; ctl->sw[ctl->nsw].seq = seq; ctl->sw[ctl->nsw].to = to; ctl->nsw++; return 0; }
void sim_actor_start(int id) {
  for (int i = 0; i < MAXFD; i++) fdt[i] = 0;
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  me = id; paused = 1; wait_turn();
}
void sim_actor_end(void) { paused = 1; ctl->a[me].state = 2; pass_any(); }
void sim_step(int step) { ctl->a[me].step = step; ctl->a[me].nth = 0; }
void sim_resume(void) { paused = 0; }
int sim_pause(void) { int p = paused; paused = 1; return p; }
/* an actor may yield at harness level too (operation granularity) */
int sim_open_fds(char *out, int n) {
  int c = 0, o = 0; out[0] = 0;
  for (int i = 0; i < MAXFD; i++) if (fdt[i]) {
    c++; int l = strlen(fdpath[i]);
    if (o + l + 2 < n) { memcpy(out + o, fdpath[i], l); o += l; out[o++] = '\n'; out[o] = 0; }
  }
  return c;
}
/* runs in parent: an actor died without going through the shim */
void sim_actor_gone(int id) { if (ctl->a[id].state == 1) { ctl->a[id].state = 2; if (ctl->turn == id) { me = id; pass_any(); me = -1; } } }
int sim_crashed(int id) { return ctl->a[id].crashed; }
int sim_aborted(int id) { return ctl->a[id].aborted; }
long sim_ops(int id) { return ctl->a[id].ops; }
long sim_gseq(void) { return ctl->gseq; }
long sim_switches(void) { return ctl->switches_done; }
uint64_t sim_hash(void) { return ctl->hash; }
int64_t sim_now(void) { return ctl->now_ns; }
int64_t sim_adv(void) { return ctl->adv_ns; }
long sim_fired(int k) { return ctl->fired[k]; }
long sim_nt(void) { return ctl->nt; }
void *sim_trace(void) { return ctl->t; }
char *sim_pb(void) { return ctl->pb; }
int sim_nesc(void) { return ctl->nesc; }
char *sim_esc(int i) { return ctl->esc[i]; }
int sim_me(void) { return me; }
