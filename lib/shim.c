/* libpgshim.so: LD_PRELOAD instrumentation of the *unmodified* pgbackrest binary.
 *
 * Everything is driven by a shared control page (PGSHIM_CTL) so that all processes of one command (main, local, remote, async)
 * see one global operation counter, one virtual clock and one log.
 *
 *  PGSHIM_CTL   path of the control page (mmap MAP_SHARED)
 *  PGSHIM_LOG   append-only log of mutating operations under PGSHIM_ROOT (optional)
 *  PGSHIM_ROOT  only operations on paths under this prefix are counted, logged, faulted
 *  PGSHIM_SCHED unix socket of a controlling scheduler (optional): ops on paths that contain PGSHIM_SCHEDMATCH ask for permission
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>
#include <utime.h>

typedef struct Ctl
{
    uint64_t magic;
    volatile int64_t op;            /* mutating op counter */
    volatile int64_t rop;           /* read op counter */
    int64_t faultOp;                /* op number to fault at (0 = none) */
    int64_t faultKind;              /* 1 = errno, 2 = SIGKILL this process, 3 = short write, 4 = SIGKILL process group */
    int64_t faultErr;               /* errno */
    volatile int64_t faultHit;      /* set to 1 when hit */
    int64_t faultSticky;            /* all ops >= faultOp fail */
    int64_t timeOn;                 /* virtual clock enabled */
    volatile int64_t timeUs;        /* virtual clock in us */
    int64_t timeStep;               /* us added by every clock read */
    int64_t rfaultOp;               /* read op number to fault at */
    int64_t rfaultKind;             /* 1 = errno, 3 = short read, 5 = EOF */
    int64_t rfaultErr;
    volatile int64_t rfaultHit;
    char faultOpName[64];           /* restrict fault to ops named (e.g. "fsync"), "" = any */
    char rfaultName[256];           /* operation and path the read fault hit */
    volatile int64_t selOn;         /* completion order of worker processes is chosen: see select() */
    volatile int64_t selPos;
    unsigned char sel[160];         /* choices to make (0 beyond selLen) */
    unsigned char selN[160];        /* number of alternatives at each */
} Ctl;

#define CTL_MAGIC 0x7067627273686d31ULL

static Ctl *ctl;
static char root[1024];
static size_t rootLen;
static const char *logPath;
static int logFd = -1, lockFd = -1;
static pid_t fdPid;
static char schedSock[200];
static char schedMatch[256];
static int schedFd = -1;
static pid_t schedPid;
static __thread int inShim;

#define MAXFD 4096
static char *fdPath[MAXFD];
static unsigned char fdWrite[MAXFD];

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    if (real_##name == NULL) real_##name = dlsym(RTLD_NEXT, #name)

static int rawStat(const char *p, struct stat *st) { return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0); }
static int rawLstat(const char *p, struct stat *st) { return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }

static void __attribute__((constructor)) shimInit(void)
{
    const char *c = getenv("PGSHIM_CTL");
    if (c == NULL)
        return;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, c, O_RDWR | O_CLOEXEC, 0);
    if (fd < 0)
        return;
    Ctl *p = mmap(NULL, sizeof(Ctl), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    syscall(SYS_close, fd);
    if (p == MAP_FAILED || p->magic != CTL_MAGIC)
        return;
    const char *r = getenv("PGSHIM_ROOT");
    if (r != NULL)
    {
        strncpy(root, r, sizeof(root) - 1);
        rootLen = strlen(root);
    }
    logPath = getenv("PGSHIM_LOG");
    if (logPath != NULL)
        logPath = strdup(logPath);
    const char *s = getenv("PGSHIM_SCHED");
    if (s != NULL)
        strncpy(schedSock, s, sizeof(schedSock) - 1);
    s = getenv("PGSHIM_SCHEDMATCH");
    if (s != NULL)
        strncpy(schedMatch, s, sizeof(schedMatch) - 1);
    ctl = p;
}

/* resolve a path to absolute (no symlink resolution) */
static void absPath(const char *path, char *out, size_t n)
{
    if (path[0] == '/')
        snprintf(out, n, "%s", path);
    else
    {
        char cwd[1024];
        if (getcwd(cwd, sizeof(cwd)) == NULL)
            cwd[0] = 0;
        snprintf(out, n, "%s/%s", cwd, path);
    }
}

static int under(const char *abs)
{
    return ctl != NULL && rootLen > 0 && strncmp(abs, root, rootLen) == 0 && (abs[rootLen] == '/' || abs[rootLen] == 0);
}

static void fdCheck(void)
{
    pid_t pid = getpid();
    if (fdPid != pid)
    {
        if (logFd >= 0) syscall(SYS_close, logFd);
        if (lockFd >= 0) syscall(SYS_close, lockFd);
        logFd = lockFd = -1;
        fdPid = pid;
    }
    if (logPath != NULL && logFd < 0)
    {
        logFd = (int)syscall(SYS_openat, AT_FDCWD, logPath, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0666);
        int hi = (int)syscall(SYS_fcntl, logFd, F_DUPFD_CLOEXEC, 800);
        if (hi >= 0) { syscall(SYS_close, logFd); logFd = hi; }
        char l[1100];
        snprintf(l, sizeof(l), "%s.lck", logPath);
        lockFd = (int)syscall(SYS_openat, AT_FDCWD, l, O_RDWR | O_CREAT | O_CLOEXEC, 0666);
        hi = (int)syscall(SYS_fcntl, lockFd, F_DUPFD_CLOEXEC, 800);
        if (hi >= 0) { syscall(SYS_close, lockFd); lockFd = hi; }
    }
}

static void opLock(void)
{
    fdCheck();
    if (lockFd >= 0) syscall(SYS_flock, lockFd, LOCK_EX);
}

static void opUnlock(void)
{
    if (lockFd >= 0) syscall(SYS_flock, lockFd, LOCK_UN);
}

/* log record: header line "op pid ret errno len1 len2 len3 extra\n" then three blobs */
static void opLog(const char *op, long ret, int err, const char *a, size_t al, const char *b, size_t bl, long x, long y)
{
    if (logFd < 0)
        return;
    char h[256];
    int n = snprintf(h, sizeof(h), "%s %d %ld %d %zu %zu %ld %ld %ld\n", op, (int)getpid(), ret, err, al, bl, x, y, (long)ctl->op);
    struct iovec v[3] = {{h, (size_t)n}, {(void *)a, al}, {(void *)b, bl}};
    syscall(SYS_writev, logFd, v, 3);
}

static int schedAsk(const char *op, const char *abs)
{
    if (schedSock[0] == 0 || inShim || (schedMatch[0] != 0 && strstr(abs, schedMatch) == NULL))
        return 0;
    inShim = 1;
    if (schedFd < 0 || schedPid != getpid())
    {
        struct sockaddr_un sa = {.sun_family = AF_UNIX};
        strncpy(sa.sun_path, schedSock, sizeof(sa.sun_path) - 1);
        int s = (int)syscall(SYS_socket, AF_UNIX, SOCK_SEQPACKET | SOCK_CLOEXEC, 0);
        if (s >= 0 && syscall(SYS_connect, s, &sa, sizeof(sa)) == 0)
        {
            int hi = (int)syscall(SYS_fcntl, s, F_DUPFD_CLOEXEC, 800);
            if (hi >= 0) { syscall(SYS_close, s); s = hi; }
            schedFd = s;
            schedPid = getpid();
        }
        else
        {
            if (s >= 0) syscall(SYS_close, s);
            schedFd = -1;
            inShim = 0;
            return 0;
        }
    }
    char m[1400];
    int n = snprintf(m, sizeof(m), "%d %s %s", (int)getpid(), op, abs);
    int res = 0;
    if (syscall(SYS_sendto, schedFd, m, n, MSG_NOSIGNAL, NULL, 0) == n)
    {
        char r[32] = {0};
        long k = syscall(SYS_recvfrom, schedFd, r, sizeof(r) - 1, 0, NULL, NULL);
        if (k > 0)
            res = atoi(r);           /* 0 = proceed, >0 = fail with that errno, -1 = kill */
        if (res < 0)
            kill(getpid(), SIGKILL);
    }
    inShim = 0;
    return res;
}

/* count a mutating op and decide on a fault: 0 = proceed, >0 = errno, -3 = short write */
static int opBegin(const char *op, const char *abs)
{
    int s = schedAsk(op, abs);
    opLock();
    int64_t k = __sync_add_and_fetch(&ctl->op, 1);
    if (s > 0)
        return s;
    if (ctl->faultOp != 0 && (k == ctl->faultOp || (ctl->faultSticky && k >= ctl->faultOp)) &&
        (ctl->faultOpName[0] == 0 || strcmp(ctl->faultOpName, op) == 0))
    {
        ctl->faultHit = 1;
        if (ctl->faultKind == 1) return (int)ctl->faultErr;
        if (ctl->faultKind == 2) kill(getpid(), SIGKILL);
        if (ctl->faultKind == 3) return -3;
        if (ctl->faultKind == 4) { kill(0, SIGKILL); }
    }
    return 0;
}

/* count a non-mutating op (openr, read, stat, opendir, readdir, lseek, close of a written file ...): returns the errno to fail with */
static int ropBegin(const char *op, const char *abs)
{
    int64_t k = __sync_add_and_fetch(&ctl->rop, 1);
    if (ctl->rfaultOp != 0 && k == ctl->rfaultOp && (ctl->rfaultKind == 1 || ctl->rfaultKind == 2))
    {
        ctl->rfaultHit = 1;
        if (ctl->rfaultKind == 2) kill(getpid(), SIGKILL);
        snprintf(ctl->rfaultName, sizeof(ctl->rfaultName), "%s %s", op, abs);
        return (int)ctl->rfaultErr;
    }
    return 0;
}

#define PATHOP(opname, call, pathv, blob, bloblen, x, y) \
    { \
        char ab[1300]; \
        absPath(pathv, ab, sizeof(ab)); \
        if (!under(ab) || inShim) return call; \
        int f = opBegin(opname, ab); \
        if (f > 0) { opLog("FAULT", -1, f, ab, strlen(ab), opname, strlen(opname), 0, 0); opUnlock(); errno = f; return -1; } \
        int r = call; \
        int e = errno; \
        opLog(opname, r, e, ab, strlen(ab), blob, bloblen, x, y); \
        opUnlock(); \
        errno = e; \
        return r; \
    }

static int openCommon(int (*fn)(const char *, int, ...), const char *path, int flags, mode_t mode)
{
    char ab[1300];
    if (ctl == NULL || path == NULL)
        return fn(path, flags, mode);
    absPath(path, ab, sizeof(ab));
    if (!under(ab) || inShim)
        return fn(path, flags, mode);
    int wr = (flags & O_ACCMODE) != O_RDONLY;
    int r, e;
    if (wr)
    {
        struct stat st;
        int existed = rawStat(ab, &st) == 0;
        int f = opBegin("open", ab);
        if (f > 0) { opLog("FAULT", -1, f, ab, strlen(ab), "open", 4, 0, 0); opUnlock(); errno = f; return -1; }
        r = fn(path, flags, mode);
        e = errno;
        opLog("open", r, e, ab, strlen(ab), "", 0, (flags & O_TRUNC) ? 1 : 0, existed ? 0 : 1);
        opUnlock();
    }
    else
    {
        int f = schedAsk("openr", ab);
        if (f == 0) f = ropBegin("openr", ab);
        if (f > 0) { errno = f; return -1; }
        r = fn(path, flags, mode);
        e = errno;
    }
    if (r >= 0 && r < MAXFD)
    {
        free(fdPath[r]);
        fdPath[r] = strdup(ab);
        fdWrite[r] = (unsigned char)wr;
    }
    errno = e;
    return r;
}

int open(const char *path, int flags, ...)
{
    REAL(int, open, const char *, int, ...);
    va_list ap; va_start(ap, flags); mode_t mode = va_arg(ap, mode_t); va_end(ap);
    return openCommon(real_open, path, flags, mode);
}

int open64(const char *path, int flags, ...)
{
    REAL(int, open64, const char *, int, ...);
    va_list ap; va_start(ap, flags); mode_t mode = va_arg(ap, mode_t); va_end(ap);
    return openCommon(real_open64, path, flags, mode);
}

int __open_2(const char *path, int flags)
{
    REAL(int, open64, const char *, int, ...);
    return openCommon(real_open64, path, flags, 0);
}

int __open64_2(const char *path, int flags)
{
    REAL(int, open64, const char *, int, ...);
    return openCommon(real_open64, path, flags, 0);
}

int creat(const char *path, mode_t mode) { return open64(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

int openat(int dfd, const char *path, int flags, ...)
{
    REAL(int, openat, int, const char *, int, ...);
    va_list ap; va_start(ap, flags); mode_t mode = va_arg(ap, mode_t); va_end(ap);
    if (dfd == AT_FDCWD || path[0] == '/')
        return open64(path, flags, mode);
    return real_openat(dfd, path, flags, mode);
}

int close(int fd)
{
    REAL(int, close, int);
    if (fd >= 0 && fd < MAXFD && fdPath[fd] != NULL)
    {
        char *p = fdPath[fd];
        int wr = fdWrite[fd];
        if (wr && !inShim && ctl != NULL)
        {
            schedAsk("close", p);
            opLock();
        }
        fdPath[fd] = NULL;
        int cf = wr && !inShim && ctl != NULL ? ropBegin("close", p) : 0;
        int r = real_close(fd), e = errno;
        if (cf > 0) { r = -1; e = cf; }
        if (wr && !inShim && ctl != NULL)
        {
            opLog("close", fd, r == 0 ? 0 : e, p, strlen(p), "", 0, 0, 0);
            opUnlock();
        }
        free(p);
        errno = e;
        return r;
    }
    return real_close(fd);
}

static const char *fdTracked(int fd, int wr)
{
    if (ctl == NULL || inShim || fd < 0 || fd >= MAXFD || fdPath[fd] == NULL || (wr && !fdWrite[fd]))
        return NULL;
    return fdPath[fd];
}

ssize_t write(int fd, const void *buf, size_t n)
{
    REAL(ssize_t, write, int, const void *, size_t);
    const char *p = fdTracked(fd, 1);
    if (p == NULL)
        return real_write(fd, buf, n);
    int f = opBegin("write", p);
    if (f > 0) { opLog("FAULT", -1, f, p, strlen(p), "write", 5, 0, 0); opUnlock(); errno = f; return -1; }
    size_t m = n;
    if (f == -3) m = n / 2;
    off_t off = (off_t)syscall(SYS_lseek, fd, 0, SEEK_CUR);
    ssize_t r = real_write(fd, buf, m);
    int e = errno;
    if (f == -3) { if (r < 0) r = 0; e = ENOSPC; }
    opLog("write", r, e, p, strlen(p), buf, r > 0 ? (size_t)r : 0, (long)off, fd);
    opUnlock();
    errno = e;
    return r;
}

ssize_t read(int fd, void *buf, size_t n)
{
    REAL(ssize_t, read, int, void *, size_t);
    const char *p = fdTracked(fd, 0);
    if (p == NULL)
        return real_read(fd, buf, n);
    int f = ropBegin("read", p);
    int64_t k = ctl->rop;
    int s = schedAsk("read", p);
    if (s > 0) { errno = s; return -1; }
    if (f > 0) { errno = f; return -1; }
    if (ctl->rfaultOp != 0 && k == ctl->rfaultOp)
    {
        ctl->rfaultHit = 1;
        if (ctl->rfaultKind == 3 && n > 1) n = n / 2;
        if (ctl->rfaultKind == 5) return 0;
    }
    return real_read(fd, buf, n);
}

ssize_t pread64(int fd, void *buf, size_t n, off_t off) { return syscall(SYS_pread64, fd, buf, n, off); }

static int fsyncCommon(int fd, long nr, const char *nm)
{
    const char *p = fdTracked(fd, 0);
    if (p == NULL)
        return (int)syscall(nr, fd);
    int f = opBegin(nm, p);
    if (f > 0) { opLog("FAULT", -1, f, p, strlen(p), nm, strlen(nm), 0, 0); opUnlock(); errno = f; return -1; }
    int r = 0, e = 0;               /* the model decides durability, no need to hit the disk */
    struct stat st;
    fstat(fd, &st);
    opLog("fsync", r, e, p, strlen(p), "", 0, S_ISDIR(st.st_mode) ? 1 : 0, fd);
    opUnlock();
    return r;
}

int fsync(int fd) { return fsyncCommon(fd, SYS_fsync, "fsync"); }
int fdatasync(int fd) { return fsyncCommon(fd, SYS_fdatasync, "fsync"); }

int ftruncate64(int fd, off_t len)
{
    REAL(int, ftruncate64, int, off_t);
    const char *p = fdTracked(fd, 1);
    if (p == NULL)
        return real_ftruncate64(fd, len);
    int f = opBegin("ftruncate", p);
    if (f > 0) { opLog("FAULT", -1, f, p, strlen(p), "ftruncate", 9, 0, 0); opUnlock(); errno = f; return -1; }
    int r = real_ftruncate64(fd, len), e = errno;
    opLog("ftruncate", r, e, p, strlen(p), "", 0, (long)len, fd);
    opUnlock();
    errno = e;
    return r;
}
int ftruncate(int fd, off_t len) { return ftruncate64(fd, len); }

int truncate64(const char *path, off_t len)
{
    REAL(int, truncate64, const char *, off_t);
    PATHOP("truncate", real_truncate64(path, len), path, "", 0, (long)len, 0);
}
int truncate(const char *path, off_t len) { return truncate64(path, len); }

int rename(const char *a, const char *b)
{
    REAL(int, rename, const char *, const char *);
    char bb[1300];
    absPath(b, bb, sizeof(bb));
    PATHOP("rename", real_rename(a, b), a, bb, strlen(bb), 0, 0);
}

int unlink(const char *path)
{
    REAL(int, unlink, const char *);
    PATHOP("unlink", real_unlink(path), path, "", 0, 0, 0);
}

int remove(const char *path)
{
    struct stat st;
    if (rawLstat(path, &st) == 0 && S_ISDIR(st.st_mode))
        return rmdir(path);
    return unlink(path);
}

int rmdir(const char *path)
{
    REAL(int, rmdir, const char *);
    PATHOP("rmdir", real_rmdir(path), path, "", 0, 0, 0);
}

int mkdir(const char *path, mode_t mode)
{
    REAL(int, mkdir, const char *, mode_t);
    PATHOP("mkdir", real_mkdir(path, mode), path, "", 0, (long)mode, 0);
}

int symlink(const char *to, const char *path)
{
    REAL(int, symlink, const char *, const char *);
    PATHOP("symlink", real_symlink(to, path), path, to, strlen(to), 0, 0);
}

int link(const char *from, const char *path)
{
    REAL(int, link, const char *, const char *);
    char bb[1300];
    absPath(from, bb, sizeof(bb));
    PATHOP("link", real_link(from, path), path, bb, strlen(bb), 0, 0);
}

int chmod(const char *path, mode_t mode)
{
    REAL(int, chmod, const char *, mode_t);
    PATHOP("chmod", real_chmod(path, mode), path, "", 0, (long)mode, 0);
}

int chown(const char *path, uid_t u, gid_t g)
{
    REAL(int, chown, const char *, uid_t, gid_t);
    PATHOP("chown", real_chown(path, u, g), path, "", 0, (long)u, (long)g);
}

int lchown(const char *path, uid_t u, gid_t g)
{
    REAL(int, lchown, const char *, uid_t, gid_t);
    PATHOP("chown", real_lchown(path, u, g), path, "", 0, (long)u, (long)g);
}

int utime(const char *path, const struct utimbuf *t)
{
    REAL(int, utime, const char *, const struct utimbuf *);
    PATHOP("utime", real_utime(path, t), path, "", 0, t == NULL ? 0 : (long)t->modtime, 0);
}

int utimes(const char *path, const struct timeval t[2])
{
    REAL(int, utimes, const char *, const struct timeval *);
    PATHOP("utime", real_utimes(path, t), path, "", 0, t == NULL ? 0 : (long)t[1].tv_sec, 0);
}

int utimensat(int dfd, const char *path, const struct timespec t[2], int flags)
{
    REAL(int, utimensat, int, const char *, const struct timespec *, int);
    if ((dfd != AT_FDCWD && path[0] != '/'))
        return real_utimensat(dfd, path, t, flags);
    PATHOP("utime", real_utimensat(dfd, path, t, flags), path, "", 0, t == NULL ? 0 : (long)t[1].tv_sec, 0);
}

int flock(int fd, int op)
{
    REAL(int, flock, int, int);
    const char *p = fdTracked(fd, 0);
    if (p != NULL)
        schedAsk("flock", p);
    return real_flock(fd, op);
}

/* scheduling points only */
static int statAsk(const char *path)
{
    char ab[1300];
    if (ctl == NULL || inShim || path == NULL)
        return 0;
    absPath(path, ab, sizeof(ab));
    if (!under(ab))
        return 0;
    int f = schedSock[0] != 0 ? schedAsk("stat", ab) : 0;
    return f != 0 ? f : ropBegin("stat", ab);
}
int stat(const char *restrict path, struct stat *restrict st)
{
    int f = statAsk(path);
    if (f > 0) { errno = f; return -1; }
    return rawStat(path, st);
}
int lstat(const char *restrict path, struct stat *restrict st)
{
    int f = statAsk(path);
    if (f > 0) { errno = f; return -1; }
    return rawLstat(path, st);
}
int stat64(const char *restrict path, struct stat64 *restrict st) { return stat(path, (struct stat *)st); }
int lstat64(const char *restrict path, struct stat64 *restrict st) { return lstat(path, (struct stat *)st); }

/* directory reading */
#define MAXDIR 64
static struct { DIR *d; char *p; } dirTab[MAXDIR];
DIR *opendir(const char *path)
{
    REAL(DIR *, opendir, const char *);
    char ab[1300];
    if (ctl == NULL || inShim || path == NULL)
        return real_opendir(path);
    absPath(path, ab, sizeof(ab));
    if (!under(ab))
        return real_opendir(path);
    int f = ropBegin("opendir", ab);
    if (f > 0) { errno = f; return NULL; }
    DIR *d = real_opendir(path);
    int e = errno;
    for (int i = 0; d != NULL && i < MAXDIR; i++)
        if (dirTab[i].d == NULL) { dirTab[i].d = d; dirTab[i].p = strdup(ab); break; }
    errno = e;
    return d;
}
int closedir(DIR *d)
{
    REAL(int, closedir, DIR *);
    for (int i = 0; i < MAXDIR; i++)
        if (dirTab[i].d == d) { dirTab[i].d = NULL; free(dirTab[i].p); }
    return real_closedir(d);
}
struct dirent64 *readdir64(DIR *d)
{
    REAL(struct dirent64 *, readdir64, DIR *);
    for (int i = 0; ctl != NULL && !inShim && i < MAXDIR; i++)
        if (dirTab[i].d == d)
        {
            int f = ropBegin("readdir", dirTab[i].p);
            if (f > 0) { errno = f; return NULL; }
            break;
        }
    return real_readdir64(d);
}
ssize_t readlink(const char *restrict path, char *restrict buf, size_t n)
{
    char ab[1300];
    if (ctl != NULL && !inShim)
    {
        absPath(path, ab, sizeof(ab));
        int f = under(ab) ? ropBegin("readlink", ab) : 0;
        if (f > 0) { errno = f; return -1; }
    }
    return syscall(SYS_readlink, path, buf, n);
}
off_t lseek64(int fd, off_t o, int wh)
{
    const char *p = fdTracked(fd, 0);
    int f = p != NULL ? ropBegin("lseek", p) : 0;
    if (f > 0) { errno = f; return -1; }
    return syscall(SYS_lseek, fd, o, wh);
}

/* ------------------------------------------------------------------ virtual clock */
static int64_t vnow(void) { return __sync_add_and_fetch(&ctl->timeUs, ctl->timeStep); }

int gettimeofday(struct timeval *tv, void *tz)
{
    if (ctl == NULL || !ctl->timeOn)
        return (int)syscall(SYS_gettimeofday, tv, tz);
    int64_t t = vnow();
    tv->tv_sec = t / 1000000;
    tv->tv_usec = t % 1000000;
    return 0;
}

time_t time(time_t *out)
{
    time_t t;
    if (ctl == NULL || !ctl->timeOn)
    {
        struct timeval tv;
        syscall(SYS_gettimeofday, &tv, NULL);
        t = tv.tv_sec;
    }
    else
        t = vnow() / 1000000;
    if (out != NULL)
        *out = t;
    return t;
}

int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (ctl == NULL || !ctl->timeOn || (id != CLOCK_REALTIME && id != CLOCK_MONOTONIC))
        return (int)syscall(SYS_clock_gettime, id, ts);
    int64_t t = vnow();
    ts->tv_sec = t / 1000000;
    ts->tv_nsec = (t % 1000000) * 1000;
    return 0;
}

int nanosleep(const struct timespec *req, struct timespec *rem)
{
    if (ctl == NULL || !ctl->timeOn)
        return (int)syscall(SYS_nanosleep, req, rem);
    /* mode 3: time stands still until the harness moves it, sleepers just poll */
    if (ctl->timeOn == 3)
    {
        struct timespec y3 = {0, 1500000};
        syscall(SYS_nanosleep, &y3, NULL);
        return 0;
    }
    __sync_add_and_fetch(&ctl->timeUs, (int64_t)req->tv_sec * 1000000 + req->tv_nsec / 1000);
    /* let other processes make real progress: 1% of the virtual time, within limits */
    int64_t ns = (int64_t)req->tv_sec * 10000000 + req->tv_nsec / 100;
    if (ns < 100000) ns = 100000;
    if (ns > 20000000) ns = 20000000;
    struct timespec y = {0, ns};
    syscall(SYS_nanosleep, &y, NULL);
    return 0;
}

int usleep(useconds_t us)
{
    struct timespec t = {us / 1000000, (us % 1000000) * 1000L};
    return nanosleep(&t, NULL);
}

/* With selOn, wait until every worker waited for has something to say, then report a chosen nonempty subset only */
static int selectChoose(int n, fd_set *r)
{
    int fds[16], cnt = 0;
    fd_set ready;
    FD_ZERO(&ready);
    for (int i = 0; i < n && cnt < 6; i++)
        if (FD_ISSET(i, r))
        {
            struct pollfd p = {.fd = i, .events = POLLIN};
            if (poll(&p, 1, 20000) > 0)
                fds[cnt++] = i;
        }
    if (cnt == 0)
        return 0;
    int64_t pos = ctl->selPos;
    unsigned int alt = (1U << cnt) - 1, c = 0;
    if (pos < (int64_t)sizeof(ctl->sel))
    {
        ctl->selN[pos] = (unsigned char)alt;
        c = ctl->sel[pos] % alt;
        ctl->selPos = pos + 1;
    }
    int res = 0;
    for (int k = 0; k < cnt; k++)
        if ((c + 1) >> k & 1)
        {
            FD_SET(fds[k], &ready);
            res++;
        }
    *r = ready;
    return res;
}

int select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv)
{
    if (ctl != NULL && ctl->selOn && n > 0 && r != NULL && w == NULL)
        return selectChoose(n, r);
    REAL(int, select, int, fd_set *, fd_set *, fd_set *, struct timeval *);
    if (ctl != NULL && ctl->timeOn && n == 0 && tv != NULL)
    {
        struct timespec t = {tv->tv_sec, tv->tv_usec * 1000L};
        return nanosleep(&t, NULL);
    }
    return real_select(n, r, w, x, tv);
}
