/* LD_PRELOAD shim: hands every file-system call that posy makes below $VERIF_ROOT to the
   harness (a Unix socket, $VERIF_SOCK), which decides whether the call goes ahead, fails,
   is cut short, or is the last thing the process ever does. Blocking locks become polls
   that the harness schedules. Only active in the executable $VERIF_EXE.
   $VERIF_CLOCK: a file with a number of seconds (int64) added to the real-time clock.
   $VERIF_NOSLEEP: sleeps return at once.                                                 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

static int active, gate_reads, nosleep;
static char root[PATH_MAX];
static size_t rootlen;
static const char *sockpath;
static volatile int64_t *clockoff;
static pid_t owner;
static __thread int conn = -1;
static __thread int busy;

#define REAL(name) ({ static __typeof__(&name) f; if (!f) f = (__typeof__(&name))dlsym(RTLD_NEXT, #name); f; })

__attribute__((constructor)) static void init(void) {
    char exe[PATH_MAX];
    const char *want = getenv("VERIF_EXE");
    ssize_t n = syscall(SYS_readlink, "/proc/self/exe", exe, sizeof exe - 1);
    if (n <= 0 || !want) return;
    exe[n] = 0;
    if (strcmp(exe, want)) return;
    owner = getpid();
    nosleep = getenv("VERIF_NOSLEEP") != NULL;
    const char *c = getenv("VERIF_CLOCK");
    if (c) {
        int fd = syscall(SYS_openat, AT_FDCWD, c, O_RDONLY | O_CLOEXEC, 0);
        if (fd >= 0) {
            void *p = mmap(NULL, 4096, PROT_READ, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) clockoff = p;
            syscall(SYS_close, fd);
        }
    }
    const char *r = getenv("VERIF_ROOT");
    sockpath = getenv("VERIF_SOCK");
    if (r && sockpath && strlen(r) < sizeof root) {
        strcpy(root, r);
        rootlen = strlen(root);
        gate_reads = getenv("VERIF_READS") != NULL;
        active = 1;
    }
}

static void die(int rc) { syscall(SYS_exit_group, rc); __builtin_unreachable(); }

static void tell(const char *s, size_t n) {
    while (n) {
        ssize_t k = syscall(SYS_write, conn, s, n);
        if (k < 0) { if (errno == EINTR) continue; die(99); }
        s += k; n -= k;
    }
}

static void hear(char *buf, size_t n) {
    size_t i = 0;
    for (;;) {
        char c;
        ssize_t k = syscall(SYS_read, conn, &c, 1);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) die(99);
        if (c == '\n') break;
        if (i + 1 < n) buf[i++] = c;
    }
    buf[i] = 0;
}

static void dial(void) {
    if (conn >= 0) return;
    int s = syscall(SYS_socket, AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
    /* out of the way of the descriptors that the program gets to see */
    conn = syscall(SYS_fcntl, s, F_DUPFD_CLOEXEC, 700);
    syscall(SYS_close, s);
    struct sockaddr_un a = { .sun_family = AF_UNIX };
    strncpy(a.sun_path, sockpath, sizeof a.sun_path - 1);
    if (syscall(SYS_connect, conn, &a, sizeof a) < 0) die(98);
    char b[64];
    tell(b, snprintf(b, sizeof b, "H\t%d\t%ld\n", getpid(), (long)syscall(SYS_gettid)));
}

static int under(const char *p) { return !strncmp(p, root, rootlen) && (p[rootlen] == '/' || !p[rootlen]); }

/* the absolute path of p at directory dfd, textually */
static int locate(int dfd, const char *p, char *out) {
    if (!p) return 0;
    if (p[0] == '/') { if (strlen(p) >= PATH_MAX) return 0; strcpy(out, p); return 1; }
    char link[64], base[PATH_MAX];
    ssize_t n;
    if (dfd == AT_FDCWD) n = syscall(SYS_readlink, "/proc/self/cwd", base, sizeof base - 1);
    else { snprintf(link, sizeof link, "/proc/self/fd/%d", dfd); n = syscall(SYS_readlink, link, base, sizeof base - 1); }
    if (n <= 0) return 0;
    base[n] = 0;
    if (n + strlen(p) + 2 >= PATH_MAX) return 0;
    sprintf(out, "%s%s%s", base, *p ? "/" : "", p);
    return 1;
}

static int fdpath(int fd, char *out) {
    char link[64];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = syscall(SYS_readlink, link, out, PATH_MAX - 1);
    if (n <= 0) return 0;
    out[n] = 0;
    return 1;
}

static unsigned long ino_at(int dfd, const char *p, int flags) {
    struct stat st;
    return syscall(SYS_newfstatat, dfd, p, &st, flags) == 0 ? st.st_ino : 0;
}

static void clean(char *d, size_t n, const char *s) {
    size_t i = 0;
    for (; *s && i + 1 < n; s++) d[i++] = (unsigned char)*s < 32 ? '?' : *s;
    d[i] = 0;
}

/* Asks; returns the verdict's letter, with its number in *num. */
static char ask(const char *op, long a, const char *p1, const char *p2, unsigned long ino, const void *data, size_t len, long *num) {
    static const char hex[] = "0123456789abcdef";
    char c1[PATH_MAX], c2[PATH_MAX], h[1025] = "", b[2 * PATH_MAX + 1400], v[64];
    int saved = errno;
    dial();
    clean(c1, sizeof c1, p1 ? p1 : "");
    clean(c2, sizeof c2, p2 ? p2 : "");
    if (data) {
        size_t k = len < 512 ? len : 512;
        for (size_t i = 0; i < k; i++) { h[2 * i] = hex[((unsigned char *)data)[i] >> 4]; h[2 * i + 1] = hex[((unsigned char *)data)[i] & 15]; }
        h[2 * k] = 0;
    }
    int n = snprintf(b, sizeof b, "Q\t%s\t%ld\t%s\t%s\t%lu\t%zu\t%s\n", op, a, c1, c2, ino, len, h);
    tell(b, n);
    hear(v, sizeof v);
    *num = v[0] ? atol(v + 1) : 0;
    if (v[0] == 'D') die(3);
    errno = saved;
    return v[0];
}

static void report(long r, unsigned long ino) {
    int e = errno;
    char b[96];
    tell(b, snprintf(b, sizeof b, "R\t%ld\t%d\t%lu\n", r, r < 0 ? e : 0, ino));
    errno = e;
}

static int on(void) { return active && !busy && getpid() == owner; }

#define SIMPLE(op, a, p1, p2, ino, expr) ({ \
    long num_, r_; busy = 1; \
    char v_ = ask(op, a, p1, p2, ino, NULL, 0, &num_); \
    if (v_ == 'E') { errno = num_; r_ = -1; } else r_ = (expr); \
    report(r_, 0); if (v_ == 'K') die(3); busy = 0; r_; })

static int do_open(int dfd, const char *p, int flags, mode_t mode) {
    char full[PATH_MAX];
    if (!on() || !locate(dfd, p, full) || !under(full) || (flags & O_PATH)) return syscall(SYS_openat, dfd, p, flags, mode);
    long num;
    busy = 1;
    char v = ask("open", flags, full, "", ino_at(AT_FDCWD, full, 0), NULL, 0, &num);
    int r;
    if (v == 'E') { errno = num; r = -1; }
    else r = syscall(SYS_openat, dfd, p, flags, mode);
    int e = errno;
    unsigned long ino = 0;
    struct stat st;
    if (r >= 0 && syscall(SYS_fstat, r, &st) == 0) ino = st.st_ino;
    errno = e;
    report(r, ino);
    if (v == 'K') die(3);
    busy = 0;
    return r;
}

int open(const char *p, int flags, ...) {
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    return do_open(AT_FDCWD, p, flags, m);
}
int open64(const char *p, int flags, ...) {
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    return do_open(AT_FDCWD, p, flags | O_LARGEFILE, m);
}
int openat(int d, const char *p, int flags, ...) {
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    return do_open(d, p, flags, m);
}
int openat64(int d, const char *p, int flags, ...) {
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    return do_open(d, p, flags | O_LARGEFILE, m);
}

/* is fd a regular file or directory below the root? */
static int mine(int fd, char *full, unsigned long *ino) {
    if (!on() || fd < 0) return 0;
    int saved = errno;
    struct stat st;
    int ok = syscall(SYS_fstat, fd, &st) == 0 && (S_ISREG(st.st_mode) || S_ISDIR(st.st_mode)) && fdpath(fd, full) && under(full);
    if (ok) *ino = st.st_ino;
    errno = saved;
    return ok;
}

static ssize_t do_write(const char *op, int fd, const void *buf, size_t n, off_t at) {
    char full[PATH_MAX];
    unsigned long ino;
    if (!mine(fd, full, &ino)) return at < 0 ? syscall(SYS_write, fd, buf, n) : syscall(SYS_pwrite64, fd, buf, n, at);
    long num;
    busy = 1;
    off_t pos = at < 0 ? syscall(SYS_lseek, fd, 0, SEEK_CUR) : at;
    char v = ask(op, pos, full, "", ino, buf, n, &num);
    size_t k = n;
    if ((v == 'T' || v == 'S') && (size_t)num < n) k = num;
    ssize_t r;
    if (v == 'E') { errno = num; r = -1; }
    else r = at < 0 ? syscall(SYS_write, fd, buf, k) : syscall(SYS_pwrite64, fd, buf, k, at);
    report(r, ino);
    if (v == 'T' || v == 'K') die(3);
    busy = 0;
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write("write", fd, b, n, -1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write("write", fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write("write", fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int n) {
    char full[PATH_MAX];
    unsigned long ino;
    if (!mine(fd, full, &ino)) return syscall(SYS_writev, fd, v, n);
    for (int i = 0; i < n; i++) if (v[i].iov_len) return do_write("write", fd, v[i].iov_base, v[i].iov_len, -1);
    return 0;
}

ssize_t read(int fd, void *b, size_t n) {
    char full[PATH_MAX];
    unsigned long ino;
    if (!active || !gate_reads || !mine(fd, full, &ino)) return syscall(SYS_read, fd, b, n);
    long num;
    busy = 1;
    off_t pos = syscall(SYS_lseek, fd, 0, SEEK_CUR);
    char v = ask("read", pos, full, "", ino, NULL, n, &num);
    ssize_t r;
    if (v == 'E') { errno = num; r = -1; }
    else r = syscall(SYS_read, fd, b, v == 'S' && (size_t)num < n ? (size_t)num : n);
    report(r, ino);
    busy = 0;
    return r;
}

#define FDOP(op, a, expr) \
    char full[PATH_MAX]; unsigned long ino; \
    if (!mine(fd, full, &ino)) return (expr); \
    return SIMPLE(op, a, full, "", ino, expr)

int fsync(int fd) { FDOP("fsync", 0, syscall(SYS_fsync, fd)); }
int fdatasync(int fd) { FDOP("fsync", 1, syscall(SYS_fdatasync, fd)); }
int ftruncate(int fd, off_t n) { FDOP("ftruncate", n, syscall(SYS_ftruncate, fd, n)); }
int ftruncate64(int fd, off64_t n) { FDOP("ftruncate", n, syscall(SYS_ftruncate, fd, n)); }
int fchmod(int fd, mode_t m) { FDOP("chmod", m, syscall(SYS_fchmod, fd, m)); }
int close(int fd) {
    if (conn >= 0 && fd == conn) return 0;
    FDOP("close", fd, syscall(SYS_close, fd));
}

int flock(int fd, int how) {
    char full[PATH_MAX];
    unsigned long ino;
    if (!mine(fd, full, &ino)) return syscall(SYS_flock, fd, how);
    long num;
    busy = 1;
    char v = ask(how & LOCK_UN ? "unlock" : how & LOCK_NB ? "trylock" : "lock", how, full, "", ino, NULL, fd, &num);
    long r;
    for (;;) {
        if (v == 'E') { errno = num; r = -1; break; }
        r = syscall(SYS_flock, fd, how | LOCK_NB);
        if (r == 0 || errno != EWOULDBLOCK || (how & (LOCK_NB | LOCK_UN))) break;
        v = ask("blocked", how, full, "", ino, NULL, fd, &num);
    }
    report(r, ino);
    if (v == 'K') die(3);
    busy = 0;
    return r;
}

#define PATHOP(op, a, dfd, p, expr) \
    char full[PATH_MAX]; \
    if (!on() || !locate(dfd, p, full) || !under(full)) return (expr); \
    return SIMPLE(op, a, full, "", ino_at(AT_FDCWD, full, AT_SYMLINK_NOFOLLOW), expr)
#define PATHOP2(op, a, d1, p1, d2, p2, expr) \
    char f1[PATH_MAX], f2[PATH_MAX]; \
    if (!on() || !locate(d1, p1, f1) || !locate(d2, p2, f2) || !(under(f1) || under(f2))) return (expr); \
    return SIMPLE(op, a, f1, f2, ino_at(AT_FDCWD, f1, AT_SYMLINK_NOFOLLOW), expr)

int unlink(const char *p) { PATHOP("unlink", 0, AT_FDCWD, p, syscall(SYS_unlink, p)); }
int rmdir(const char *p) { PATHOP("rmdir", 0, AT_FDCWD, p, syscall(SYS_rmdir, p)); }
int unlinkat(int d, const char *p, int fl) { PATHOP(fl & AT_REMOVEDIR ? "rmdir" : "unlink", 0, d, p, syscall(SYS_unlinkat, d, p, fl)); }
int mkdir(const char *p, mode_t m) { PATHOP("mkdir", m, AT_FDCWD, p, syscall(SYS_mkdir, p, m)); }
int mkdirat(int d, const char *p, mode_t m) { PATHOP("mkdir", m, d, p, syscall(SYS_mkdirat, d, p, m)); }
int chmod(const char *p, mode_t m) { PATHOP("chmod", m, AT_FDCWD, p, syscall(SYS_chmod, p, m)); }
int truncate(const char *p, off_t n) { PATHOP("truncate", n, AT_FDCWD, p, syscall(SYS_truncate, p, n)); }
int truncate64(const char *p, off64_t n) { PATHOP("truncate", n, AT_FDCWD, p, syscall(SYS_truncate, p, n)); }
int rename(const char *a, const char *b) { PATHOP2("rename", 0, AT_FDCWD, a, AT_FDCWD, b, syscall(SYS_rename, a, b)); }
int renameat(int d, const char *a, int e, const char *b) { PATHOP2("rename", 0, d, a, e, b, syscall(SYS_renameat, d, a, e, b)); }
int renameat2(int d, const char *a, int e, const char *b, unsigned fl) { PATHOP2("rename", fl, d, a, e, b, syscall(SYS_renameat2, d, a, e, b, fl)); }
int link(const char *a, const char *b) { PATHOP2("link", 0, AT_FDCWD, a, AT_FDCWD, b, syscall(SYS_link, a, b)); }
int linkat(int d, const char *a, int e, const char *b, int fl) { PATHOP2("link", 0, d, a, e, b, syscall(SYS_linkat, d, a, e, b, fl)); }
int symlink(const char *t, const char *p) { PATHOP("symlink", 0, AT_FDCWD, p, syscall(SYS_symlink, t, p)); }
int symlinkat(const char *t, int d, const char *p) { PATHOP("symlink", 0, d, p, syscall(SYS_symlinkat, t, d, p)); }

DIR *opendir(const char *p) {
    char full[PATH_MAX];
    if (on() && gate_reads && locate(AT_FDCWD, p, full) && under(full)) {
        long num;
        busy = 1;
        ask("opendir", 0, full, "", 0, NULL, 0, &num);
        DIR *d = REAL(opendir)(p);
        report(d ? 0 : -1, 0);
        busy = 0;
        return d;
    }
    return REAL(opendir)(p);
}

static int statgate(int dfd, const char *p, long (*f)(int, const char *, int, void *), int flags, void *st) {
    char full[PATH_MAX];
    if (!(on() && gate_reads && p && *p && locate(dfd, p, full) && under(full))) return f(dfd, p, flags, st);
    return SIMPLE("stat", flags, full, "", ino_at(AT_FDCWD, full, 0), f(dfd, p, flags, st));
}
static long real_stat(int d, const char *p, int fl, void *st) { return syscall(SYS_newfstatat, d, p, st, fl); }
int stat64(const char *p, struct stat64 *st) { return statgate(AT_FDCWD, p, real_stat, 0, st); }
int lstat64(const char *p, struct stat64 *st) { return statgate(AT_FDCWD, p, real_stat, AT_SYMLINK_NOFOLLOW, st); }
static __thread unsigned statx_mask;
static long real_statx(int d, const char *p, int fl, void *st) { return syscall(SYS_statx, d, p, fl, statx_mask, st); }
int statx(int d, const char *p, int fl, unsigned mask, struct statx *st) {
    statx_mask = mask;
    return statgate(d, p, real_statx, fl, st);
}

/* copies go through read and write, so that they can be cut short */
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned fl) {
    char full[PATH_MAX];
    unsigned long ino;
    if (!mine(out, full, &ino)) return syscall(SYS_copy_file_range, in, oi, out, oo, n, fl);
    errno = ENOSYS;
    return -1;
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) {
    char full[PATH_MAX];
    unsigned long ino;
    if (!mine(out, full, &ino)) return syscall(SYS_sendfile, out, in, o, n);
    errno = ENOSYS;
    return -1;
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) { return sendfile64(out, in, o, n); }

int clock_gettime(clockid_t c, struct timespec *t) {
    int r = syscall(SYS_clock_gettime, c, t);
    if (r == 0 && clockoff && c == CLOCK_REALTIME) t->tv_sec += *clockoff;
    return r;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
    if (nosleep) return 0;
    return syscall(SYS_nanosleep, a, b);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
    if (nosleep) return 0;
    return syscall(SYS_clock_nanosleep, c, fl, a, b) ? errno : 0;
}
