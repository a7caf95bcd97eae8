/* preload for the TLS server: something happens at the k-th library call of the main process (see checks/p33.py, job signals) */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAXP 256

static struct Ctl
{
    volatile int pid, on, n, at[2], kind[2], fired, forks, accepts, kids[MAXP], dead[MAXP], kills, kill[MAXP];
    char from[2][200], to[200];
} *c;

static int me;

__attribute__((constructor)) static void init(void)
{
    const char *f = getenv("SRVCTL");
    int fd = f ? open(f, O_RDWR) : -1;
    if (fd >= 0)
    {
        c = mmap(NULL, sizeof(*c), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
        c->pid = me = getpid();
    }
}

static int alive(int p)
{
    char b[64], s[256];
    snprintf(b, sizeof(b), "/proc/%d/stat", p);
    int fd = open(b, O_RDONLY);
    if (fd < 0)
        return 0;
    int n = (int)syscall(SYS_read, fd, s, sizeof(s) - 1);
    syscall(SYS_close, fd);
    if (n <= 0)
        return 0;
    s[n] = 0;
    char *e = strrchr(s, ')');
    return e && e[2] != 'Z' && e[2] != 'X';
}

static void die(int i)
{
    if (c->dead[i])
        return;
    syscall(SYS_kill, c->kids[i], SIGKILL);
    while (alive(c->kids[i]))
        nanosleep(&(struct timespec){0, 100000}, NULL);
    sigset_t s;
    for (int j = 0; j < 100 && sigpending(&s) == 0 && !sigismember(&s, SIGCHLD); j++)
        nanosleep(&(struct timespec){0, 100000}, NULL);
    c->dead[i] = 1;
}

static void event(void)
{
    static int in;
    if (!c || !c->on || in || getpid() != me)
        return;
    int e = errno;
    in = 1;
    c->n++;
    for (int j = 0; j < 2; j++)
        if (c->at[j] == c->n && c->kind[j])
        {
            int m = c->forks, first = -1, last = -1;
            for (int i = 0; i < m; i++)
                if (!c->dead[i])
                {
                    first = first < 0 ? i : first;
                    last = i;
                }
            /* the signals of children are blocked until all those meant to end have ended: one signal may stand for several */
            sigset_t s, o;
            sigemptyset(&s);
            sigaddset(&s, SIGCHLD);
            sigprocmask(SIG_BLOCK, &s, &o);
            if (c->kind[j] == 1)
                for (int i = 0; i < m; i++)
                    die(i);
            if (c->kind[j] == 2 && first >= 0)
                die(first);
            if (c->kind[j] == 3 && last >= 0)
                die(last);
            if (c->kind[j] == 4)
            {
                rename(c->from[j], c->to);
                syscall(SYS_kill, me, SIGHUP);
            }
            if (c->kind[j] == 5)
                syscall(SYS_kill, me, SIGTERM);
            in = 0;                                             /* a handler may run from here */
            c->fired++;
            sigprocmask(SIG_SETMASK, &o, NULL);
        }
    in = 0;
    errno = e;
}

#define REAL(name) __typeof__(name) *f = dlsym(RTLD_NEXT, #name)

pid_t fork(void)
{
    REAL(fork);
    event();
    /* no child ends by itself before it is in the table */
    pid_t p = f();
    if (c && p > 0 && getpid() == me && c->forks < MAXP)
    {
        c->kids[c->forks] = p;
        c->forks++;
        event();
    }
    return p;
}

int accept(int s, struct sockaddr *a, socklen_t *l)
{
    REAL(accept);
    event();
    if (c && getpid() == me)
        c->accepts++;
    int r = f(s, a, l);
    int e = errno;
    event();
    errno = e;
    return r;
}

int kill(pid_t p, int s)
{
    if (c && getpid() == me)
    {
        if (c->kills < MAXP)
            c->kill[c->kills++] = p;
        for (int i = 0; i < c->forks; i++)
            if (p == c->kids[i] && !c->dead[i])
                return (int)syscall(SYS_kill, p, s);
        return 0;                                               /* never signal what is not a child */
    }
    return (int)syscall(SYS_kill, p, s);
}

int close(int fd)
{
    event();
    return (int)syscall(SYS_close, fd);
}

int setsockopt(int s, int l, int n, const void *v, socklen_t z)
{
    event();
    return (int)syscall(SYS_setsockopt, s, l, n, v, z);
}

void *memcpy(void *d, const void *s, size_t n)
{
    event();
    char *x = d;
    const char *y = s;
    for (size_t i = 0; i < n; i++)
        ((volatile char *)x)[i] = y[i];
    return d;
}

void *memmove(void *d, const void *s, size_t n)
{
    event();
    char *x = d;
    const char *y = s;
    if (x < y)
        for (size_t i = 0; i < n; i++)
            ((volatile char *)x)[i] = y[i];
    else
        for (size_t i = n; i > 0; i--)
            ((volatile char *)x)[i - 1] = y[i - 1];
    return d;
}

extern void *__libc_malloc(size_t);
extern void *__libc_realloc(void *, size_t);
extern void __libc_free(void *);

void *malloc(size_t n)
{
    event();
    return __libc_malloc(n);
}

void *realloc(void *p, size_t n)
{
    event();
    return __libc_realloc(p, n);
}

void free(void *p)
{
    event();
    __libc_free(p);
}
