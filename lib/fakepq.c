/* libfakepq.so: stand-in for libpq. Every query is answered by the driver over a unix socket (FAKEPQ_SOCK). */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <unistd.h>

typedef struct Res { int status; int nrow, ncol; unsigned *type; char **val; char *err; } Res;
typedef struct Conn { int fd; char *info; char *err; Res *res; int ok; } Conn;

static int rd(int fd, void *b, size_t n)
{
    char *p = b;
    while (n > 0)
    {
        long r = syscall(SYS_recvfrom, fd, p, n, 0, NULL, NULL);
        if (r <= 0) return -1;
        p += r; n -= (size_t)r;
    }
    return 0;
}
static int32_t ri(int fd) { int32_t v = -1; if (rd(fd, &v, 4) != 0) return -2; return v; }
static char *rs(int fd) { int32_t n = ri(fd); if (n < 0) return NULL; char *s = calloc(1, (size_t)n + 1); if (n && rd(fd, s, (size_t)n) != 0) {free(s); return NULL;} return s; }
static void wsend(int fd, const char *s) { int32_t n = (int32_t)strlen(s); syscall(SYS_sendto, fd, &n, 4, MSG_NOSIGNAL, NULL, 0); syscall(SYS_sendto, fd, s, n, MSG_NOSIGNAL, NULL, 0); }

static Res *getRes(int fd)
{
    Res *r = calloc(1, sizeof(*r));
    r->status = ri(fd);                 /* 1 = command ok, 2 = tuples ok, 7 = fatal error */
    if (r->status == 2)
    {
        r->ncol = ri(fd); r->nrow = ri(fd);
        r->type = calloc((size_t)r->ncol + 1, sizeof(unsigned));
        for (int i = 0; i < r->ncol; i++) r->type[i] = (unsigned)ri(fd);
        r->val = calloc((size_t)(r->ncol * r->nrow) + 1, sizeof(char *));
        for (int i = 0; i < r->ncol * r->nrow; i++) r->val[i] = rs(fd);
    }
    else if (r->status != 1)
    {
        r->err = r->status == -2 ? strdup("connection lost") : rs(fd);
        r->status = 7;
    }
    return r;
}

void *PQconnectdb(const char *info)
{
    Conn *c = calloc(1, sizeof(*c));
    c->info = strdup(info);
    c->fd = (int)syscall(SYS_socket, AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
    struct sockaddr_un sa = {.sun_family = AF_UNIX};
    const char *s = getenv("FAKEPQ_SOCK");
    if (s != NULL) strncpy(sa.sun_path, s, sizeof(sa.sun_path) - 1);
    if (s == NULL || syscall(SYS_connect, c->fd, &sa, sizeof(sa)) != 0)
    {
        c->err = strdup("could not connect to server");
        return c;
    }
    char q[1200];
    snprintf(q, sizeof(q), "CONNECT %s", info);
    wsend(c->fd, q);
    Res *r = getRes(c->fd);
    if (r->status == 1) c->ok = 1; else c->err = r->err;
    return c;
}
int PQstatus(const void *v) { return ((const Conn *)v)->ok ? 0 : 1; }
char *PQerrorMessage(const void *v) { const Conn *c = v; return c->err ? c->err : ""; }
void PQfinish(void *v) { Conn *c = v; if (c == NULL) return; syscall(SYS_close, c->fd); free(c->info); free(c->err); free(c); }
void *PQsetNoticeProcessor(void *v, void *p, void *a) { (void)v; (void)p; (void)a; return NULL; }
int PQsendQuery(void *v, const char *q) { Conn *c = v; wsend(c->fd, q); c->res = getRes(c->fd); return 1; }
int PQconsumeInput(void *v) { (void)v; return 1; }
int PQisBusy(void *v) { (void)v; return 0; }
int PQsocket(const void *v) { return ((const Conn *)v)->fd; }
void *PQgetCancel(void *v) { (void)v; return NULL; }
int PQcancel(void *v, char *e, int n) { (void)v; (void)e; (void)n; return 0; }
void PQfreeCancel(void *v) { (void)v; }
void *PQgetResult(void *v) { Conn *c = v; Res *r = c->res; c->res = NULL; return r; }
int PQresultStatus(const void *v) { const Res *r = v; return r == NULL ? 7 : r->status; }
char *PQresultErrorMessage(const void *v) { const Res *r = v; return r != NULL && r->err ? r->err : ""; }
int PQntuples(const void *v) { return ((const Res *)v)->nrow; }
int PQnfields(const void *v) { return ((const Res *)v)->ncol; }
unsigned PQftype(const void *v, int i) { return ((const Res *)v)->type[i]; }
char *PQgetvalue(const void *v, int r, int c) { const Res *x = v; char *s = x->val[r * x->ncol + c]; return s ? s : ""; }
int PQgetisnull(const void *v, int r, int c) { const Res *x = v; return x->val[r * x->ncol + c] == NULL; }
void PQclear(void *v) { (void)v; }
