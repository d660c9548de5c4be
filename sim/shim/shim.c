/* Simulation seam: loaded with LD_PRELOAD into the unmodified burn_fm binary.
 *
 * Every call of the C library that reaches a file, a directory, the console,
 * the clock, the random source or the process identity is turned into one
 * message to the simulator, which owns the file system, the clock, the
 * randomness and every fault, and which answers (or never answers: a crash).
 * Nothing here decides anything. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <time.h>
#include <unistd.h>

#define CHANNEL 900     /* message channel to the simulator */
#define VFD 1000        /* descriptors from here on belong to the simulator */

enum {
    OP_HELLO = 0, OP_OPEN = 1, OP_READ, OP_WRITE, OP_CLOSE, OP_FSTAT, OP_STAT, OP_LSEEK,
    OP_FTRUNCATE, OP_FSYNC, OP_RENAME, OP_UNLINK, OP_MKDIR, OP_RMDIR, OP_LINK,
    OP_SYMLINK, OP_READLINK, OP_ACCESS, OP_GETCWD, OP_CHDIR, OP_READDIR, OP_PREAD,
    OP_PWRITE, OP_CHMOD, OP_TRUNCATE, OP_CLOCK, OP_RANDOM, OP_GETPID, OP_SLEEP,
    OP_CONSOLE, OP_DUP, OP_REALPATH, OP_LOCK, OP_TIMES, OP_UNSUPPORTED
};

struct req { uint32_t op, len; int64_t a, b, c; };
struct rep { int64_t ret; int32_t err; uint32_t len; };

static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static int ready;
static int console_sync;
static uint64_t machine;

static ssize_t raw_read(int fd, void *p, size_t n) { return syscall(SYS_read, fd, p, n); }
static ssize_t raw_write(int fd, const void *p, size_t n) { return syscall(SYS_write, fd, p, n); }

static void die(void) { syscall(SYS_exit_group, 97); }

static void put(const void *p, size_t n) {
    const char *c = p;
    while (n) {
        ssize_t k = raw_write(CHANNEL, c, n);
        if (k < 0) { if (errno == EINTR) continue; die(); }
        c += k; n -= k;
    }
}
static void get(void *p, size_t n) {
    char *c = p;
    while (n) {
        ssize_t k = raw_read(CHANNEL, c, n);
        if (k < 0) { if (errno == EINTR) continue; die(); }
        if (k == 0) die();
        c += k; n -= k;
    }
}

/* One exchange. Returns the result, sets errno, fills out (at most cap bytes). */
static int64_t call2(uint32_t op, int64_t a, int64_t b, int64_t c, const void *p1, size_t n1,
                     const void *p2, size_t n2, void *out, size_t cap, int oneway) {
    struct req q = { op, (uint32_t)(n1 + n2), a, b, c };
    struct rep r = { 0, 0, 0 };
    pthread_mutex_lock(&lock);
    if (n1 + n2 <= 4000) {
        char buf[4096];
        memcpy(buf, &q, sizeof q);
        if (n1) memcpy(buf + sizeof q, p1, n1);
        if (n2) memcpy(buf + sizeof q + n1, p2, n2);
        put(buf, sizeof q + n1 + n2);
    } else {
        put(&q, sizeof q);
        if (n1) put(p1, n1);
        if (n2) put(p2, n2);
    }
    if (!oneway) {
        get(&r, sizeof r);
        size_t n = r.len < cap ? r.len : cap;
        if (n) get(out, n);
        size_t left = r.len - n;
        char sink[512];
        while (left) { size_t k = left < sizeof sink ? left : sizeof sink; get(sink, k); left -= k; }
    }
    pthread_mutex_unlock(&lock);
    if (r.err) { errno = r.err; return -1; }
    return r.ret;
}
static int64_t call(uint32_t op, int64_t a, int64_t b, int64_t c, const void *p, size_t n, void *out, size_t cap) {
    return call2(op, a, b, c, p, n, NULL, 0, out, cap, 0);
}
static int64_t callp(uint32_t op, int64_t a, int64_t b, int64_t c, const char *path) {
    return call(op, a, b, c, path, strlen(path), NULL, 0);
}
static int64_t call2p(uint32_t op, int64_t a, const char *p, const char *q) {
    return call2(op, a, (int64_t)strlen(p), 0, p, strlen(p), q, strlen(q), NULL, 0, 0);
}

__attribute__((constructor)) static void init(void) {
    struct rlimit cpu = { 6, 8 }, as = { 1500ull << 20, 1500ull << 20 }, core = { 0, 0 };
    const char *e = getenv("SIM_CONSOLE");
    const char *m = getenv("SIM_AS_MB");
    const char *s = getenv("SIM_CPU_S");
    const char *w = getenv("SIM_MACHINE");
    if (!getenv("SIM_ON")) return;
    if (w) machine = strtoull(w, NULL, 10);
    console_sync = e && *e == '1';
    if (m) as.rlim_cur = as.rlim_max = (rlim_t)atoll(m) << 20;
    if (s) { cpu.rlim_cur = (rlim_t)atoll(s); cpu.rlim_max = cpu.rlim_cur + 2; }
    syscall(SYS_dup3, 0, CHANNEL, O_CLOEXEC);
    int null = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0);
    if (null >= 0) {
        syscall(SYS_dup3, null, 0, 0);
        syscall(SYS_dup3, null, 1, 0);
        syscall(SYS_dup3, null, 2, 0);
        if (null > 2) syscall(SYS_close, null);
    }
    setrlimit(RLIMIT_CPU, &cpu);
    setrlimit(RLIMIT_AS, &as);
    setrlimit(RLIMIT_CORE, &core);
    unsetenv("LD_PRELOAD"); unsetenv("SIM_ON"); unsetenv("SIM_CONSOLE"); unsetenv("SIM_AS_MB"); unsetenv("SIM_CPU_S"); unsetenv("SIM_MACHINE");
    if (machine) {
        /* Where the heap and later mappings lie. The simulator has switched off the kernel's own choice. */
        syscall(SYS_mmap, NULL, 4096 * (1 + (machine >> 8) % 300), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0L);
        if (sbrk(4096 * (intptr_t)((machine >> 20) % 200)) == (void *)-1) errno = 0;
        volatile char *waste = malloc(16 * (1 + (machine >> 32) % 500));
        if (waste) *waste = 1;
    }
    ready = 1;
    call(OP_HELLO, 0, 0, 0, NULL, 0, NULL, 0);
}

#define REAL(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))

/* ---- the machine ---- */
static long cpus(void) { return 1 + (long)(machine >> 44) % 8; }
int sched_getaffinity(pid_t pid, size_t size, cpu_set_t *set) {
    if (!machine) return REAL(sched_getaffinity)(pid, size, set);
    memset(set, 0, size);
    for (long i = 0; i < cpus() && (size_t)i < size * 8; i++) CPU_SET_S(i, size, set);
    return 0;
}
long sysconf(int name) {
    if (machine && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return cpus();
    return REAL(sysconf)(name);
}
uid_t getuid(void) { return machine & 1 ? 1000 : 0; }
uid_t geteuid(void) { return machine & 1 ? 1000 : 0; }
gid_t getgid(void) { return machine & 1 ? 1000 : 0; }
gid_t getegid(void) { return machine & 1 ? 1000 : 0; }
int uname(struct utsname *u) {
    int r = REAL(uname)(u);
    if (machine) snprintf(u->nodename, sizeof u->nodename, "simhost%d", (int)(machine >> 4 & 15));
    return r;
}

/* ---- files ---- */
/* A path below an open directory is asked for by way of its descriptor. */
#define AT(d, p) char at_##p[PATH_MAX + 32]; p = below(d, p, at_##p, sizeof at_##p)
static const char *below(int d, const char *p, char *buf, size_t n) {
    const char *volatile q = p;
    if (!q || *q == '/' || d < VFD) return p;
    snprintf(buf, n, "/proc/self/fd/%d/%s", d, p);
    return buf;
}
static int sim_open(int dirfd, const char *path, int flags, int mode) {
    AT(dirfd, path);
    return (int)callp(OP_OPEN, flags, mode, 0, path);
}
#define MODE(flags) int mode = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }

int open(const char *path, int flags, ...) { MODE(flags)
    if (!ready) return syscall(SYS_openat, AT_FDCWD, path, flags, mode);
    return sim_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE(flags)
    if (!ready) return syscall(SYS_openat, AT_FDCWD, path, flags, mode);
    return sim_open(AT_FDCWD, path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { MODE(flags)
    if (!ready) return syscall(SYS_openat, d, path, flags, mode);
    return sim_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODE(flags)
    if (!ready) return syscall(SYS_openat, d, path, flags, mode);
    return sim_open(d, path, flags, mode); }
int creat(const char *path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return creat(path, mode); }

ssize_t read(int fd, void *buf, size_t n) {
    if (!ready || (fd >= 0 && fd < VFD && fd != 0)) return raw_read(fd, buf, n);
    if (fd == 0) return 0;
    return call(OP_READ, fd, n, 0, NULL, 0, buf, n);
}
ssize_t write(int fd, const void *buf, size_t n) {
    if (ready && (fd == 1 || fd == 2)) {
        int sync = console_sync && fd == 1;
        if (n > (1u << 24)) n = 1u << 24;
        int64_t r = call2(OP_CONSOLE, fd, n, sync, buf, n, NULL, 0, NULL, 0, !sync);
        return sync ? r : (ssize_t)n;
    }
    if (!ready || fd < VFD) return raw_write(fd, buf, n);
    if (n > (1u << 24)) n = 1u << 24;
    return call(OP_WRITE, fd, n, 0, buf, n, NULL, 0);
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t off) {
    if (!ready || fd < VFD) return syscall(SYS_pread64, fd, buf, n, off);
    return call(OP_PREAD, fd, n, off, NULL, 0, buf, n);
}
ssize_t pread(int fd, void *buf, size_t n, off_t off) { return pread64(fd, buf, n, off); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) {
    if (!ready || fd < VFD) return syscall(SYS_pwrite64, fd, buf, n, off);
    if (n > (1u << 24)) n = 1u << 24;
    return call(OP_PWRITE, fd, n, off, buf, n, NULL, 0);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) { return pwrite64(fd, buf, n, off); }
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!ready || (fd < VFD && fd != 0)) return syscall(SYS_readv, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!ready || (fd < VFD && fd != 1 && fd != 2)) return syscall(SYS_writev, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
int close(int fd) {
    if (!ready || fd < VFD) { if (fd == CHANNEL) return 0; return syscall(SYS_close, fd); }
    return (int)call(OP_CLOSE, fd, 0, 0, NULL, 0, NULL, 0);
}
off64_t lseek64(int fd, off64_t off, int whence) {
    if (!ready || fd < VFD) return syscall(SYS_lseek, fd, off, whence);
    return call(OP_LSEEK, fd, off, whence, NULL, 0, NULL, 0);
}
off_t lseek(int fd, off_t off, int whence) { return lseek64(fd, off, whence); }
int ftruncate64(int fd, off64_t len) {
    if (!ready || fd < VFD) return syscall(SYS_ftruncate, fd, len);
    return (int)call(OP_FTRUNCATE, fd, len, 0, NULL, 0, NULL, 0);
}
int ftruncate(int fd, off_t len) { return ftruncate64(fd, len); }
int truncate64(const char *p, off64_t len) {
    if (!ready) return syscall(SYS_truncate, p, len);
    return (int)callp(OP_TRUNCATE, len, 0, 0, p);
}
int truncate(const char *p, off_t len) { return truncate64(p, len); }
int fsync(int fd) {
    if (!ready || fd < VFD) return syscall(SYS_fsync, fd);
    return (int)call(OP_FSYNC, fd, 1, 0, NULL, 0, NULL, 0);
}
int fdatasync(int fd) {
    if (!ready || fd < VFD) return syscall(SYS_fdatasync, fd);
    return (int)call(OP_FSYNC, fd, 0, 0, NULL, 0, NULL, 0);
}
int syncfs(int fd) { return fsync(fd); }
void sync(void) { if (ready) call(OP_FSYNC, -1, 1, 0, NULL, 0, NULL, 0); }
int sync_file_range(int fd, off64_t o, off64_t n, unsigned f) { (void)o; (void)n; (void)f; if (ready && fd >= VFD) return 0; errno = EINVAL; return -1; }
int fallocate64(int fd, int m, off64_t o, off64_t n) { (void)m; (void)o; (void)n; if (ready && fd >= VFD) { errno = EOPNOTSUPP; return -1; } return syscall(SYS_fallocate, fd, m, o, n); }
int fallocate(int fd, int m, off_t o, off_t n) { return fallocate64(fd, m, o, n); }
int posix_fallocate64(int fd, off64_t o, off64_t n) { (void)fd; (void)o; (void)n; return EOPNOTSUPP; }
int posix_fallocate(int fd, off_t o, off_t n) { (void)fd; (void)o; (void)n; return EOPNOTSUPP; }
int posix_fadvise64(int fd, off64_t o, off64_t n, int a) { (void)fd; (void)o; (void)n; (void)a; return 0; }
int posix_fadvise(int fd, off_t o, off_t n, int a) { (void)fd; (void)o; (void)n; (void)a; return 0; }
int flock(int fd, int op) {
    if (!ready || fd < VFD) return syscall(SYS_flock, fd, op);
    return (int)call(OP_LOCK, fd, op, 0, NULL, 0, NULL, 0);
}

ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
    if (ready && (a >= VFD || b >= VFD)) { errno = ENOSYS; return -1; }
    return syscall(SYS_copy_file_range, a, x, b, y, n, f);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    if (ready && (o >= VFD || i >= VFD)) { errno = ENOSYS; return -1; }
    return syscall(SYS_sendfile, o, i, off, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, (off64_t *)off, n); }
ssize_t splice(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
    if (ready) { errno = EINVAL; return -1; }
    return syscall(SYS_splice, a, x, b, y, n, f);
}

/* ---- metadata ---- */
struct meta { uint64_t ino, size; uint32_t mode, nlink; int64_t mtime_s, mtime_ns; };

static void to_stat(const struct meta *m, struct stat64 *s) {
    memset(s, 0, sizeof *s);
    s->st_dev = 77; s->st_ino = m->ino; s->st_mode = m->mode; s->st_nlink = m->nlink;
    s->st_size = m->size; s->st_blksize = 4096; s->st_blocks = (m->size + 511) / 512;
    s->st_mtim.tv_sec = s->st_ctim.tv_sec = s->st_atim.tv_sec = m->mtime_s;
    s->st_mtim.tv_nsec = s->st_ctim.tv_nsec = s->st_atim.tv_nsec = m->mtime_ns;
}
static int meta_fd(int fd, struct meta *m) { return (int)call(OP_FSTAT, fd, 0, 0, NULL, 0, m, sizeof *m); }
static int meta_path(const char *p, int follow, struct meta *m) {
    return (int)call(OP_STAT, follow, 0, 0, p, strlen(p), m, sizeof *m);
}
int fstat64(int fd, struct stat64 *s) {
    struct meta m;
    if (!ready || fd < VFD) return syscall(SYS_fstat, fd, s);
    if (meta_fd(fd, &m) < 0) return -1;
    to_stat(&m, s); return 0;
}
int fstat(int fd, struct stat *s) { return fstat64(fd, (struct stat64 *)s); }
int stat64(const char *p, struct stat64 *s) {
    struct meta m;
    if (!ready) return syscall(SYS_newfstatat, AT_FDCWD, p, s, 0);
    if (meta_path(p, 1, &m) < 0) return -1;
    to_stat(&m, s); return 0;
}
int stat(const char *p, struct stat *s) { return stat64(p, (struct stat64 *)s); }
int lstat64(const char *p, struct stat64 *s) {
    struct meta m;
    if (!ready) return syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW);
    if (meta_path(p, 0, &m) < 0) return -1;
    to_stat(&m, s); return 0;
}
int lstat(const char *p, struct stat *s) { return lstat64(p, (struct stat64 *)s); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) {
    if (!ready) return syscall(SYS_newfstatat, d, p, s, f);
    if ((f & AT_EMPTY_PATH) && !*p) return fstat64(d, s);
    AT(d, p);
    return (f & AT_SYMLINK_NOFOLLOW) ? lstat64(p, s) : stat64(p, s);
}
int fstatat(int d, const char *p, struct stat *s, int f) { return fstatat64(d, p, (struct stat64 *)s, f); }
int statx(int d, const char *p, int f, unsigned mask, struct statx *x) {
    struct meta m;
    char at[PATH_MAX + 32];
    if (!ready) return syscall(SYS_statx, d, p, f, mask, x);
    /* The standard library asks with null pointers whether there is a statx; the declared attribute must not remove the test. */
    const char *volatile vp = p; struct statx *volatile vx = x;
    if (!vp || !vx) { errno = EFAULT; return -1; }
    if ((f & AT_EMPTY_PATH) && !*p) {
        if (d < VFD && d != AT_FDCWD) return syscall(SYS_statx, d, p, f, mask, x);
        if (d == AT_FDCWD) { if (meta_path(".", 1, &m) < 0) return -1; }
        else if (meta_fd(d, &m) < 0) return -1;
    } else if (p = below(d, p, at, sizeof at), meta_path(p, !(f & AT_SYMLINK_NOFOLLOW), &m) < 0) return -1;
    memset(x, 0, sizeof *x);
    x->stx_mask = STATX_BASIC_STATS; x->stx_blksize = 4096; x->stx_nlink = m.nlink;
    x->stx_mode = (uint16_t)m.mode; x->stx_ino = m.ino; x->stx_size = m.size;
    x->stx_blocks = (m.size + 511) / 512;
    x->stx_mtime.tv_sec = x->stx_ctime.tv_sec = x->stx_atime.tv_sec = m.mtime_s;
    x->stx_mtime.tv_nsec = x->stx_ctime.tv_nsec = x->stx_atime.tv_nsec = (uint32_t)m.mtime_ns;
    return 0;
}
int access(const char *p, int mode) { if (!ready) return syscall(SYS_access, p, mode); return (int)callp(OP_ACCESS, mode, 0, 0, p); }
int faccessat(int d, const char *p, int mode, int f) { AT(d, p); (void)f; return access(p, mode); }
int chmod(const char *p, mode_t m) { if (!ready) return syscall(SYS_chmod, p, m); return (int)callp(OP_CHMOD, m, 0, 0, p); }
int fchmodat(int d, const char *p, mode_t m, int f) { AT(d, p); (void)f; return chmod(p, m); }
int fchmod(int fd, mode_t m) {
    if (!ready || fd < VFD) return syscall(SYS_fchmod, fd, m);
    return (int)call(OP_CHMOD, m, fd, 0, NULL, 0, NULL, 0);
}
int fchown(int fd, uid_t u, gid_t g) { if (!ready || fd < VFD) return syscall(SYS_fchown, fd, u, g); return 0; }
static int times(int64_t fd, const char *p, const struct timespec t[2]) {
    long s = 0, ns = UTIME_NOW;
    if (t) { s = t[1].tv_sec; ns = t[1].tv_nsec; }
    if (ns == UTIME_OMIT) return 0;
    return (int)call(OP_TIMES, fd, s, ns == UTIME_NOW ? -1 : ns, p, p ? strlen(p) : 0, NULL, 0);
}
int futimens(int fd, const struct timespec t[2]) { if (ready && fd >= VFD) return times(fd, NULL, t); errno = EBADF; return -1; }
int utimensat(int d, const char *p, const struct timespec t[2], int f) {
    const char *volatile q = p;
    (void)f;
    if (!ready) { errno = EINVAL; return -1; }
    if (!q) return futimens(d, t);
    AT(d, p);
    return times(-1, p, t);
}

/* ---- names ---- */
int rename(const char *a, const char *b) { if (!ready) return syscall(SYS_rename, a, b); return (int)call2p(OP_RENAME, 0, a, b); }
int renameat(int x, const char *a, int y, const char *b) { AT(x, a); AT(y, b); return rename(a, b); }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) {
    if (!ready) return syscall(SYS_renameat2, x, a, y, b, f);
    AT(x, a); AT(y, b);
    return (int)call2p(OP_RENAME, f, a, b);
}
int unlink(const char *p) { if (!ready) return syscall(SYS_unlink, p); return (int)callp(OP_UNLINK, 0, 0, 0, p); }
int rmdir(const char *p) { if (!ready) return syscall(SYS_rmdir, p); return (int)callp(OP_RMDIR, 0, 0, 0, p); }
int unlinkat(int d, const char *p, int f) { AT(d, p); return (f & AT_REMOVEDIR) ? rmdir(p) : unlink(p); }
int remove(const char *p) { int r = unlink(p); if (r < 0 && (errno == EISDIR || errno == EPERM)) return rmdir(p); return r; }
int mkdir(const char *p, mode_t m) { if (!ready) return syscall(SYS_mkdir, p, m); return (int)callp(OP_MKDIR, m, 0, 0, p); }
int mkdirat(int d, const char *p, mode_t m) { AT(d, p); return mkdir(p, m); }
int link(const char *a, const char *b) { if (!ready) return syscall(SYS_link, a, b); return (int)call2p(OP_LINK, 0, a, b); }
int linkat(int x, const char *a, int y, const char *b, int f) { (void)f; AT(x, a); AT(y, b); return link(a, b); }
int symlink(const char *a, const char *b) { if (!ready) return syscall(SYS_symlink, a, b); return (int)call2p(OP_SYMLINK, 0, a, b); }
int symlinkat(const char *a, int d, const char *b) { AT(d, b); return symlink(a, b); }
ssize_t readlink(const char *p, char *buf, size_t n) {
    if (!ready) return syscall(SYS_readlink, p, buf, n);
    return call(OP_READLINK, n, 0, 0, p, strlen(p), buf, n);
}
ssize_t readlinkat(int d, const char *p, char *b, size_t n) { AT(d, p); return readlink(p, b, n); }
char *getcwd(char *buf, size_t n) {
    char tmp[PATH_MAX];
    if (!ready) { if (syscall(SYS_getcwd, buf, n) < 0) return NULL; return buf; }
    int64_t r = call(OP_GETCWD, 0, 0, 0, NULL, 0, tmp, sizeof tmp - 1);
    if (r < 0) return NULL;
    tmp[r] = 0;
    if (!buf) return strdup(tmp);
    if ((size_t)r + 1 > n) { errno = ERANGE; return NULL; }
    memcpy(buf, tmp, r + 1); return buf;
}
int chdir(const char *p) { if (!ready) return syscall(SYS_chdir, p); return (int)callp(OP_CHDIR, 0, 0, 0, p); }
char *realpath(const char *p, char *out) {
    char tmp[PATH_MAX];
    if (!ready) return REAL(realpath)(p, out);
    int64_t r = call(OP_REALPATH, 0, 0, 0, p, strlen(p), tmp, sizeof tmp - 1);
    if (r < 0) return NULL;
    tmp[r] = 0;
    if (!out) return strdup(tmp);
    return strcpy(out, tmp);
}

/* ---- directories ---- */
struct simdir { uint64_t magic; int fd; int64_t pos; struct dirent64 ent; };
#define DIRMAGIC 0x53494d4449520001ull
DIR *fdopendir(int fd) {
    if (!ready || fd < VFD) return REAL(fdopendir)(fd);
    struct simdir *d = calloc(1, sizeof *d);
    d->magic = DIRMAGIC; d->fd = fd; return (DIR *)d;
}
DIR *opendir(const char *p) {
    if (!ready) return REAL(opendir)(p);
    int fd = open(p, O_RDONLY | O_DIRECTORY | O_CLOEXEC);
    if (fd < 0) return NULL;
    return fdopendir(fd);
}
struct dirent64 *readdir64(DIR *dir) {
    struct simdir *d = (struct simdir *)dir;
    if (!ready || d->magic != DIRMAGIC) return REAL(readdir64)(dir);
    char name[256];
    int64_t r = call(OP_READDIR, d->fd, d->pos, 0, NULL, 0, name, sizeof name);
    if (r <= 0) return NULL;
    d->pos++;
    d->ent.d_ino = 1000 + d->pos; d->ent.d_off = d->pos; d->ent.d_reclen = sizeof d->ent;
    d->ent.d_type = DT_UNKNOWN;
    memcpy(d->ent.d_name, name, r); d->ent.d_name[r] = 0;
    return &d->ent;
}
struct dirent *readdir(DIR *dir) { return (struct dirent *)readdir64(dir); }
int closedir(DIR *dir) {
    struct simdir *d = (struct simdir *)dir;
    if (!ready || d->magic != DIRMAGIC) return REAL(closedir)(dir);
    int fd = d->fd; free(d); return close(fd);
}
int dirfd(DIR *dir) {
    struct simdir *d = (struct simdir *)dir;
    if (!ready || d->magic != DIRMAGIC) return REAL(dirfd)(dir);
    return d->fd;
}

/* ---- descriptors ---- */
int dup(int fd) {
    if (!ready || fd < VFD) return syscall(SYS_dup, fd);
    return (int)call(OP_DUP, fd, 0, 0, NULL, 0, NULL, 0);
}
static int do_fcntl(int fd, int cmd, long arg) {
    if (!ready || fd < VFD) return syscall(SYS_fcntl, fd, cmd, arg);
    switch (cmd) {
    case F_DUPFD: case F_DUPFD_CLOEXEC: return dup(fd);
    case F_GETFD: return FD_CLOEXEC;
    case F_SETFD: return 0;
    case F_GETFL: return O_RDWR;
    case F_SETFL: return 0;
    case F_SETLK: case F_SETLKW: case F_GETLK: return 0;
    }
    errno = EINVAL; return -1;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int isatty(int fd) { if (ready && (fd >= VFD || fd <= 2)) { errno = ENOTTY; return 0; } return REAL(isatty)(fd); }

/* ---- clock, randomness, identity ---- */
int clock_gettime(clockid_t id, struct timespec *t) {
    if (!ready) return syscall(SYS_clock_gettime, id, t);
    int64_t out[2];
    int real = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI;
    if (call(OP_CLOCK, real, 0, 0, NULL, 0, out, sizeof out) < 0) return -1;
    t->tv_sec = out[0]; t->tv_nsec = out[1]; return 0;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    struct timespec t; (void)tz;
    if (clock_gettime(CLOCK_REALTIME, &t) < 0) return -1;
    tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0;
}
time_t time(time_t *p) {
    struct timespec t;
    if (clock_gettime(CLOCK_REALTIME, &t) < 0) return -1;
    if (p) *p = t.tv_sec;
    return t.tv_sec;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
    if (!ready) return syscall(SYS_nanosleep, a, b);
    return (int)call(OP_SLEEP, a->tv_sec, a->tv_nsec, 0, NULL, 0, NULL, 0);
}
int clock_nanosleep(clockid_t id, int f, const struct timespec *a, struct timespec *b) {
    if (!ready) return syscall(SYS_clock_nanosleep, id, f, a, b) < 0 ? errno : 0;
    call(OP_SLEEP, f ? 0 : a->tv_sec, f ? 0 : a->tv_nsec, 0, NULL, 0, NULL, 0); return 0;
}
int usleep(useconds_t u) { struct timespec t = { u / 1000000, (u % 1000000) * 1000 }; return nanosleep(&t, NULL); }
unsigned sleep(unsigned s) { struct timespec t = { s, 0 }; nanosleep(&t, NULL); return 0; }
ssize_t getrandom(void *buf, size_t n, unsigned f) {
    if (!ready) return syscall(SYS_getrandom, buf, n, f);
    return call(OP_RANDOM, n, 0, 0, NULL, 0, buf, n);
}
int getentropy(void *buf, size_t n) { return getrandom(buf, n, 0) == (ssize_t)n ? 0 : -1; }
pid_t getpid(void) {
    if (!ready) return syscall(SYS_getpid);
    return (pid_t)call(OP_GETPID, 0, 0, 0, NULL, 0, NULL, 0);
}
pid_t getppid(void) { return ready ? 1 + (pid_t)((machine >> 48) % 30000) : syscall(SYS_getppid); }
int gethostname(char *b, size_t n) { snprintf(b, n, "simhost%d", (int)(machine >> 4 & 15)); return 0; }

/* Processes are not part of the simulated world. */
pid_t fork(void) { errno = ENOSYS; return -1; }
pid_t vfork(void) { errno = ENOSYS; return -1; }
