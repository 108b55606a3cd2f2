/* simio: the libc seam of the simulator.
 *
 * Preloaded into the process that runs the real sorcha code.  Until simio_activate() is called it only
 * virtualises entropy and clocks (from SIMIO_ENTROPY / SIMIO_CLOCK); afterwards every file-system call on a
 * path under `root` is announced to the scheduler over a SEQPACKET socket and executed only when, and how,
 * the scheduler answers: proceed, fail with errno, transfer fewer bytes, die before / during / after the call.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/select.h>
#include <sys/random.h>
#include <sys/sendfile.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { OP_OPEN = 1, OP_READ, OP_WRITE, OP_FSYNC, OP_TRUNC, OP_RENAME, OP_UNLINK, OP_MKDIR, OP_RMDIR, OP_STAT,
       OP_LISTDIR, OP_LOCK, OP_SLEEP, OP_CLOSE, OP_META, OP_LINK, OP_CHOICE, OP_NOTE, OP_COPY };
enum { A_GO = 0, A_ERR = 1, A_SHORT = 2, A_KILL = 3, A_TORN = 4, A_KILL_AFTER = 5 };

struct req { uint32_t op, flags; int64_t size, off; int32_t err; uint32_t tid; char path[1200]; };
struct rep { int32_t action, err; int64_t n; int64_t now, wall_off; };

static int active = 0, ctl = -1;
static char root[PATH_MAX];
static size_t rootlen = 0;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static __thread int inside = 0;

#define NFD 4096
static char *fdpath[NFD];

static int vclock = 0;
static int64_t now_ns = 0, mono_base = 0, wall_off = 0;   /* wall clock = now_ns + wall_off; monotonic = now_ns - mono_base */
static int ventropy = 0;
static uint64_t ent = 0;
static int vpid = 0;

#define REAL(ret, name, args) static ret (*real_##name) args; \
    static ret (*get_##name(void)) args { if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name); return real_##name; }

static uint64_t splitmix(uint64_t *s) {
    uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

__attribute__((constructor)) static void simio_init(void) {
    char *e = getenv("SIMIO_ENTROPY");
    if (e) { ventropy = 1; ent = strtoull(e, 0, 10); }
    e = getenv("SIMIO_CLOCK");
    if (e) { vclock = 1; now_ns = strtoll(e, 0, 10); mono_base = now_ns - 1000000000000ll; }
}

void simio_activate(int fd, const char *r, uint64_t entropy, int64_t clock_ns, int pid) {
    ctl = fd; strncpy(root, r, sizeof root - 1); rootlen = strlen(root);
    ent = entropy; ventropy = 1; now_ns = clock_ns; mono_base = now_ns - 1000000000000ll; vclock = 1; vpid = pid;
    active = 1;
}
void simio_deactivate(void) { active = 0; }
int simio_active(void) { return active; }

static void die(void) { for (;;) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); syscall(SYS_exit_group, 137); } }

static struct rep ask(uint32_t op, uint32_t flags, const char *path, const char *path2, int64_t size, int64_t off) {
    struct req q; struct rep r; memset(&q, 0, offsetof(struct req, path)); memset(&r, 0, sizeof r);
    q.op = op; q.flags = flags; q.size = size; q.off = off; q.err = 0; q.tid = (uint32_t)syscall(SYS_gettid);
    size_t l = 0;
    if (path) { l = strlen(path); if (l > 590) l = 590; memcpy(q.path, path, l); }
    q.path[l++] = 0;
    if (path2) { size_t m = strlen(path2); if (m > 590) m = 590; memcpy(q.path + l, path2, m); l += m; q.path[l++] = 0; }
    pthread_mutex_lock(&mu);
    ssize_t k;
    do k = syscall(SYS_sendto, ctl, &q, offsetof(struct req, path) + l, 0, NULL, 0); while (k < 0 && errno == EINTR);
    if (k < 0) die();
    do k = syscall(SYS_recvfrom, ctl, &r, sizeof r, 0, NULL, NULL); while (k < 0 && errno == EINTR);
    if (k != (ssize_t)sizeof r) die();
    if (r.now > now_ns) now_ns = r.now;
    wall_off = r.wall_off;
    pthread_mutex_unlock(&mu);
    if (r.action == A_KILL) die();
    return r;
}
static void after(struct rep r) { if (r.action == A_TORN || r.action == A_KILL_AFTER) die(); }

/* used by the Python layer: one decision in [0,n) taken by the scheduler */
int64_t simio_choice(const char *what, int64_t n) { if (!active) return 0; return ask(OP_CHOICE, 0, what, NULL, n, 0).n; }
void simio_note(const char *what) { if (active) ask(OP_NOTE, 0, what, NULL, 0, 0); }
int64_t simio_now(void) { return now_ns + wall_off; }
void simio_advance(int64_t ns) { if (active) ask(OP_SLEEP, 0, "", NULL, ns, 0); }

/* ---- path tracking ---- */
static int norm(int dirfd, const char *p, char *out) { /* absolute path, lexically normalised; 1 if under root */
    char buf[PATH_MAX * 2];
    if (!active || !p || inside) return 0;
    if (p[0] == '/') { strncpy(buf, p, sizeof buf - 1); buf[sizeof buf - 1] = 0; }
    else {
        char cwd[PATH_MAX];
        if (dirfd == AT_FDCWD) { if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) return 0; }
        else if (dirfd >= 0 && dirfd < NFD && fdpath[dirfd]) { snprintf(cwd, sizeof cwd, "%s%s%s", root, fdpath[dirfd][0] ? "/" : "", fdpath[dirfd]); }
        else return 0;
        snprintf(buf, sizeof buf, "%s/%s", cwd, p);
    }
    size_t o = 0; char *s = buf;
    while (*s) {
        while (*s == '/') s++;
        if (!*s) break;
        char *e = s; while (*e && *e != '/') e++;
        size_t n = e - s;
        if (n == 1 && s[0] == '.') { s = e; continue; }
        if (n == 2 && s[0] == '.' && s[1] == '.') { while (o > 0 && out[--o] != '/'); s = e; continue; }
        if (o + n + 2 >= PATH_MAX) return 0;
        out[o++] = '/'; memcpy(out + o, s, n); o += n; s = e;
    }
    out[o] = 0;
    if (strncmp(out, root, rootlen) || (out[rootlen] && out[rootlen] != '/')) return 0;
    return 1;
}
static const char *rel(const char *abs) { const char *p = abs + rootlen; while (*p == '/') p++; return p; }
static void track(int fd, const char *relp) { if (fd >= 0 && fd < NFD) { free(fdpath[fd]); fdpath[fd] = relp ? strdup(relp) : NULL; } }
static char *tracked(int fd) { return (active && !inside && fd >= 0 && fd < NFD) ? fdpath[fd] : NULL; }

/* ---- open / close ---- */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    char abs[PATH_MAX];
    if (!norm(dirfd, path, abs)) return (int)syscall(SYS_openat, dirfd, path, flags, mode) ;
    struct rep r = ask(OP_OPEN, (uint32_t)flags, rel(abs), NULL, 0, 0);
    if (r.action == A_ERR) { errno = r.err; return -1; }
    long fd = syscall(SYS_openat, dirfd, path, flags, mode);
    int e = errno;
    if (fd >= 0) track((int)fd, rel(abs));
    after(r);
    errno = e;
    return (int)fd;
}
#define MODE va_list ap; mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { MODE return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODE return do_open(d, path, flags, mode); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return creat(path, mode); }

REAL(int, close, (int))
int close(int fd) {
    char *p = tracked(fd);
    if (!p) { if (fd >= 0 && fd < NFD && fdpath[fd] && !inside) track(fd, NULL); return get_close()(fd); }
    struct rep r = ask(OP_CLOSE, 0, p, NULL, 0, 0);
    track(fd, NULL);
    int k = get_close()(fd);
    after(r);
    if (r.action == A_ERR) { errno = r.err; return -1; }
    return k;
}
static void dupd(int a, int b) { if (active && a >= 0 && a < NFD && b >= 0) track(b, fdpath[a]); }
REAL(int, dup, (int))
int dup(int a) { int b = get_dup()(a); dupd(a, b); return b; }
REAL(int, dup2, (int, int))
int dup2(int a, int b) { int c = get_dup2()(a, b); if (c >= 0) dupd(a, c); return c; }
REAL(int, dup3, (int, int, int))
int dup3(int a, int b, int f) { int c = get_dup3()(a, b, f); if (c >= 0) dupd(a, c); return c; }

/* ---- read / write ---- */
#define XFER(opc, off_, call_full, call_n) \
    char *p = tracked(fd); \
    if (!p) return call_full; \
    struct rep r = ask(opc, 0, p, NULL, (int64_t)n, off_); \
    if (r.action == A_ERR) { errno = r.err; return -1; } \
    if (r.action == A_SHORT || r.action == A_TORN) { if ((int64_t)n > r.n) n = (size_t)r.n; } \
    ssize_t k = (n || r.action != A_TORN) ? call_n : 0; int e = errno; after(r); errno = e; return k;

ssize_t read(int fd, void *b, size_t n) { XFER(OP_READ, -1, syscall(SYS_read, fd, b, n), syscall(SYS_read, fd, b, n)) }
ssize_t __read_chk(int fd, void *b, size_t n, size_t bl) { (void)bl; return read(fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { XFER(OP_READ, o, syscall(SYS_pread64, fd, b, n, o), syscall(SYS_pread64, fd, b, n, o)) }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { XFER(OP_READ, o, syscall(SYS_pread64, fd, b, n, o), syscall(SYS_pread64, fd, b, n, o)) }
ssize_t write(int fd, const void *b, size_t n) { XFER(OP_WRITE, -1, syscall(SYS_write, fd, b, n), syscall(SYS_write, fd, b, n)) }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { XFER(OP_WRITE, o, syscall(SYS_pwrite64, fd, b, n, o), syscall(SYS_pwrite64, fd, b, n, o)) }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { XFER(OP_WRITE, o, syscall(SYS_pwrite64, fd, b, n, o), syscall(SYS_pwrite64, fd, b, n, o)) }
static ssize_t wv(int fd, const struct iovec *v, int c, off_t o) { /* tracked gather write: flattened so that it can be cut anywhere */
    size_t t = 0; for (int i = 0; i < c; i++) t += v[i].iov_len;
    char *m = malloc(t ? t : 1); size_t q = 0;
    for (int i = 0; i < c; i++) { memcpy(m + q, v[i].iov_base, v[i].iov_len); q += v[i].iov_len; }
    ssize_t k = o < 0 ? write(fd, m, t) : pwrite(fd, m, t, o);
    int e = errno; free(m); errno = e; return k;
}
REAL(ssize_t, writev, (int, const struct iovec *, int))
ssize_t writev(int fd, const struct iovec *v, int c) { return tracked(fd) ? wv(fd, v, c, -1) : get_writev()(fd, v, c); }
REAL(ssize_t, pwritev, (int, const struct iovec *, int, off_t))
ssize_t pwritev(int fd, const struct iovec *v, int c, off_t o) { return tracked(fd) ? wv(fd, v, c, o) : get_pwritev()(fd, v, c, o); }

static ssize_t do_copy(int out, int in, size_t n, ssize_t (*f)(int, int, size_t)) {
    char *p = tracked(out), *pi = tracked(in);
    if (!p && !pi) return f(out, in, n);
    struct rep r = ask(OP_COPY, 0, p ? p : "", pi ? pi : "", (int64_t)n, -1);
    if (r.action == A_ERR) { errno = r.err; return -1; }
    if (r.action == A_SHORT || r.action == A_TORN) { if ((int64_t)n > r.n) n = (size_t)r.n; }
    ssize_t k = n ? f(out, in, n) : 0; int e = errno; after(r); errno = e; return k;
}
static __thread off64_t *sf_off;
static ssize_t sf(int o, int i, size_t n) { return syscall(SYS_sendfile, o, i, sf_off, n); }
ssize_t sendfile(int o, int i, off_t *off, size_t n) { sf_off = (off64_t *)off; return do_copy(o, i, n, sf); }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { sf_off = off; return do_copy(o, i, n, sf); }
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned f) {
    if (!tracked(i) && !tracked(o)) return syscall(SYS_copy_file_range, i, oi, o, oo, n, f);
    errno = EXDEV; return -1;                 /* legal answer: the caller falls back to sendfile / read+write */
}

/* ---- the rest of the namespace ---- */
#define SIMPLE(opc, flags_, path, p2, size, call) { \
    struct rep r = ask(opc, flags_, path, p2, size, 0); \
    if (r.action == A_ERR) { errno = r.err; return -1; } \
    int k = (call); int e = errno; after(r); errno = e; return k; }
#define FDOP(name, opc, args, callargs, size) \
    REAL(int, name, args) \
    int name args { char *p = tracked(fd); if (!p) return get_##name() callargs; SIMPLE(opc, 0, p, NULL, size, get_##name() callargs) }
FDOP(fsync, OP_FSYNC, (int fd), (fd), 0)
FDOP(fdatasync, OP_FSYNC, (int fd), (fd), 0)
FDOP(ftruncate, OP_TRUNC, (int fd, off_t l), (fd, l), l)
FDOP(ftruncate64, OP_TRUNC, (int fd, off64_t l), (fd, l), l)
FDOP(fchmod, OP_META, (int fd, mode_t m), (fd, m), 0)
int posix_fallocate(int fd, off_t o, off_t l) { char *p = tracked(fd); if (!p) { long k = syscall(SYS_fallocate, fd, 0, o, l); return k < 0 ? errno : 0; }
    struct rep r = ask(OP_TRUNC, 0, p, NULL, o + l, 0); if (r.action == A_ERR) return r.err; long k = syscall(SYS_fallocate, fd, 0, o, l); after(r); return k < 0 ? errno : 0; }
int posix_fallocate64(int fd, off64_t o, off64_t l) { return posix_fallocate(fd, o, l); }

#define PATHOP(name, opc, args, callargs, D, P) \
    REAL(int, name, args) \
    int name args { char abs[PATH_MAX]; if (!norm(D, P, abs)) return get_##name() callargs; SIMPLE(opc, 0, rel(abs), NULL, 0, get_##name() callargs) }
PATHOP(unlink, OP_UNLINK, (const char *p), (p), AT_FDCWD, p)
PATHOP(remove, OP_UNLINK, (const char *p), (p), AT_FDCWD, p)
PATHOP(unlinkat, OP_UNLINK, (int d, const char *p, int f), (d, p, f), d, p)
PATHOP(mkdir, OP_MKDIR, (const char *p, mode_t m), (p, m), AT_FDCWD, p)
PATHOP(mkdirat, OP_MKDIR, (int d, const char *p, mode_t m), (d, p, m), d, p)
PATHOP(rmdir, OP_RMDIR, (const char *p), (p), AT_FDCWD, p)
PATHOP(truncate, OP_TRUNC, (const char *p, off_t l), (p, l), AT_FDCWD, p)
PATHOP(chmod, OP_META, (const char *p, mode_t m), (p, m), AT_FDCWD, p)
PATHOP(fchmodat, OP_META, (int d, const char *p, mode_t m, int f), (d, p, m, f), d, p)
PATHOP(utimensat, OP_META, (int d, const char *p, const struct timespec t[2], int f), (d, p, t, f), d, p)
PATHOP(access, OP_STAT, (const char *p, int m), (p, m), AT_FDCWD, p)
PATHOP(faccessat, OP_STAT, (int d, const char *p, int m, int f), (d, p, m, f), d, p)
PATHOP(stat, OP_STAT, (const char *p, struct stat *s), (p, s), AT_FDCWD, p)
PATHOP(stat64, OP_STAT, (const char *p, struct stat64 *s), (p, s), AT_FDCWD, p)
PATHOP(lstat, OP_STAT, (const char *p, struct stat *s), (p, s), AT_FDCWD, p)
PATHOP(lstat64, OP_STAT, (const char *p, struct stat64 *s), (p, s), AT_FDCWD, p)
PATHOP(fstatat, OP_STAT, (int d, const char *p, struct stat *s, int f), (d, p, s, f), d, p)
PATHOP(fstatat64, OP_STAT, (int d, const char *p, struct stat64 *s, int f), (d, p, s, f), d, p)
PATHOP(statx, OP_STAT, (int d, const char *p, int f, unsigned m, struct statx *s), (d, p, f, m, s), d, p)

static int do_rename(int d1, const char *a, int d2, const char *b, unsigned fl, uint32_t opc) {
    char x[PATH_MAX], y[PATH_MAX]; int t1 = norm(d1, a, x), t2 = norm(d2, b, y);
#define CALL (opc == OP_RENAME ? (int)syscall(SYS_renameat2, d1, a, d2, b, fl) : (int)syscall(SYS_linkat, d1, a, d2, b, (int)fl))
    if (!t1 && !t2) return CALL;
    SIMPLE(opc, fl, t1 ? rel(x) : "", t2 ? rel(y) : "", 0, CALL)
}
int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0, OP_RENAME); }
int renameat(int d, const char *a, int d2, const char *b) { return do_rename(d, a, d2, b, 0, OP_RENAME); }
int renameat2(int d, const char *a, int d2, const char *b, unsigned f) { return do_rename(d, a, d2, b, f, OP_RENAME); }
int link(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0, OP_LINK); }
int linkat(int d, const char *a, int d2, const char *b, int f) { return do_rename(d, a, d2, b, (unsigned)f, OP_LINK); }
REAL(int, symlink, (const char *, const char *))
int symlink(const char *t, const char *p) { char x[PATH_MAX]; if (!norm(AT_FDCWD, p, x)) return get_symlink()(t, p); SIMPLE(OP_LINK, 1, rel(x), NULL, 0, get_symlink()(t, p)) }

/* ---- directory listing: order is chosen by the scheduler ---- */
struct fdir { uint64_t magic; DIR *d; struct dirent64 *ent; int n, i; struct fdir *next; };
#define NDIR 64
static struct fdir *dirs[NDIR];
REAL(DIR *, opendir, (const char *))
REAL(DIR *, fdopendir, (int))
REAL(struct dirent64 *, readdir64, (DIR *))
REAL(int, closedir, (DIR *))
REAL(void, rewinddir, (DIR *))
static int cmp(const void *a, const void *b) { return strcmp(((const struct dirent64 *)a)->d_name, ((const struct dirent64 *)b)->d_name); }
static DIR *wrapdir(DIR *d, uint64_t seed) {
    if (!d) return d;
    int cap = 64, n = 0; struct dirent64 *v = malloc(cap * sizeof *v), *e;
    while ((e = get_readdir64()(d))) { if (n == cap) v = realloc(v, (cap *= 2) * sizeof *v); size_t l = e->d_reclen < sizeof *v ? e->d_reclen : sizeof *v; memset(&v[n], 0, sizeof *v); memcpy(&v[n++], e, l); }
    qsort(v, n, sizeof *v, cmp);
    if (seed) for (int i = n - 1; i > 0; i--) { int j = (int)(splitmix(&seed) % (uint64_t)(i + 1)); struct dirent64 t = v[i]; v[i] = v[j]; v[j] = t; }
    struct fdir *f = calloc(1, sizeof *f); f->d = d; f->ent = v; f->n = n;
    pthread_mutex_lock(&mu);
    for (int i = 0; i < NDIR; i++) if (!dirs[i]) { dirs[i] = f; f = NULL; break; }
    pthread_mutex_unlock(&mu);
    if (f) { free(v); free(f); get_rewinddir()(d); }
    return d;
}
static struct fdir *find(DIR *d) { for (int i = 0; i < NDIR; i++) if (dirs[i] && dirs[i]->d == d) return dirs[i]; return NULL; }
DIR *opendir(const char *p) {
    char abs[PATH_MAX]; if (!norm(AT_FDCWD, p, abs)) return get_opendir()(p);
    struct rep r = ask(OP_LISTDIR, 0, rel(abs), NULL, 0, 0);
    if (r.action == A_ERR) { errno = r.err; return NULL; }
    return wrapdir(get_opendir()(p), (uint64_t)r.n);
}
DIR *fdopendir(int fd) {
    char *p = tracked(fd); if (!p) return get_fdopendir()(fd);
    struct rep r = ask(OP_LISTDIR, 0, p, NULL, 0, 0);
    if (r.action == A_ERR) { errno = r.err; return NULL; }
    return wrapdir(get_fdopendir()(fd), (uint64_t)r.n);
}
struct dirent64 *readdir64(DIR *d) { struct fdir *f = active ? find(d) : NULL; if (!f) return get_readdir64()(d); return f->i < f->n ? &f->ent[f->i++] : NULL; }
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
void rewinddir(DIR *d) { struct fdir *f = active ? find(d) : NULL; if (f) f->i = 0; get_rewinddir()(d); }
int closedir(DIR *d) {
    struct fdir *f = active ? find(d) : NULL;
    if (f) { pthread_mutex_lock(&mu); for (int i = 0; i < NDIR; i++) if (dirs[i] == f) dirs[i] = NULL; pthread_mutex_unlock(&mu); free(f->ent); free(f);
             int fd = dirfd(d); if (fd >= 0) track(fd, NULL); }
    return get_closedir()(d);
}

/* ---- locks: never block in the kernel; waiting is a scheduling decision ---- */
REAL(int, flock, (int, int))
int flock(int fd, int op) {
    char *p = tracked(fd); if (!p) return get_flock()(fd, op);
    for (;;) {
        struct rep r = ask(OP_LOCK, (uint32_t)op, p, NULL, 0, 0);
        if (r.action == A_ERR) { errno = r.err; return -1; }
        int k = get_flock()(fd, op | LOCK_NB); int e = errno; after(r); errno = e;
        if (k == 0 || e != EWOULDBLOCK || (op & LOCK_NB)) return k;
        ask(OP_SLEEP, 1, p, NULL, 1000000, 0);
    }
}
REAL(int, fcntl, (int, int, ...))
static int do_fcntl(int fd, int cmd, void *arg) {
    int (*f)(int, int, ...) = get_fcntl();
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) { int b = f(fd, cmd, arg); dupd(fd, b); return b; }
    char *p = tracked(fd);
    if (p && (cmd == F_SETLK || cmd == F_SETLKW || cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW)) {
        int nb = cmd == F_SETLKW ? F_SETLK : cmd == F_OFD_SETLKW ? F_OFD_SETLK : cmd;
        struct flock *l = arg;
        for (;;) {
            struct rep r = ask(OP_LOCK, (uint32_t)(l->l_type | 16), p, NULL, l->l_start, l->l_len);
            if (r.action == A_ERR) { errno = r.err; return -1; }
            int k = f(fd, nb, arg); int e = errno; after(r); errno = e;
            if (k == 0 || (e != EAGAIN && e != EACCES) || nb == cmd) return k;
            ask(OP_SLEEP, 1, p, NULL, 1000000, 0);
        }
    }
    return f(fd, cmd, arg);
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap); return do_fcntl(fd, cmd, a); }

/* ---- time ---- */
static int64_t tick(void) { return now_ns += 1000; }
REAL(int, clock_gettime, (clockid_t, struct timespec *))
int clock_gettime(clockid_t c, struct timespec *t) {
    if (!vclock) return (int)syscall(SYS_clock_gettime, c, t);
    int64_t v = tick();
    if (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE) { v -= mono_base; if (v < 0) v = 0; } else v += wall_off;
    t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
    (void)tz; if (!vclock) return (int)syscall(SYS_gettimeofday, tv, NULL);
    int64_t v = tick() + wall_off; tv->tv_sec = v / 1000000000; tv->tv_usec = v % 1000000000 / 1000; return 0;
}
time_t time(time_t *t) {
    int64_t v; if (!vclock) { struct timespec s; syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); v = s.tv_sec; } else v = (tick() + wall_off) / 1000000000;
    if (t) *t = v; return v;
}
REAL(int, nanosleep, (const struct timespec *, struct timespec *))
int nanosleep(const struct timespec *a, struct timespec *b) {
    if (!active) return get_nanosleep()(a, b);
    ask(OP_SLEEP, 0, "", NULL, (int64_t)a->tv_sec * 1000000000 + a->tv_nsec, 0);
    if (b) b->tv_sec = b->tv_nsec = 0; return 0;
}
REAL(int, clock_nanosleep, (clockid_t, int, const struct timespec *, struct timespec *))
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
    if (!active) return get_clock_nanosleep()(c, fl, a, b);
    int64_t d = (int64_t)a->tv_sec * 1000000000 + a->tv_nsec;
    if (fl & TIMER_ABSTIME) { int64_t v = now_ns; if (c != CLOCK_REALTIME) v -= mono_base; else v += wall_off; d -= v; if (d < 0) d = 0; }
    ask(OP_SLEEP, 0, "", NULL, d, 0);
    if (b) b->tv_sec = b->tv_nsec = 0; return 0;
}
int usleep(useconds_t u) { struct timespec t = { u / 1000000, (long)(u % 1000000) * 1000 }; return nanosleep(&t, NULL); }
unsigned sleep(unsigned s) { struct timespec t = { s, 0 }; nanosleep(&t, NULL); return 0; }
REAL(int, select, (int, fd_set *, fd_set *, fd_set *, struct timeval *))
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) {
    if (active && t && n == 0) { struct timespec s = { t->tv_sec, t->tv_usec * 1000 }; return nanosleep(&s, NULL); }
    return get_select()(n, r, w, e, t);
}

/* ---- entropy and identity ---- */
static void fill(void *b, size_t n) {
    unsigned char *p = b; pthread_mutex_lock(&mu);
    while (n) { uint64_t v = splitmix(&ent); size_t k = n < 8 ? n : 8; memcpy(p, &v, k); p += k; n -= k; }
    pthread_mutex_unlock(&mu);
}
ssize_t getrandom(void *b, size_t n, unsigned f) { if (!ventropy) return syscall(SYS_getrandom, b, n, f); fill(b, n); return (ssize_t)n; }
int getentropy(void *b, size_t n) { if (!ventropy) return syscall(SYS_getrandom, b, n, 0) == (long)n ? 0 : -1; fill(b, n); return 0; }
pid_t getpid(void) { return vpid ? vpid : (pid_t)syscall(SYS_getpid); }
