/* stand-in for ssh: runs the remote command (last argument) and relays its streams, cutting the connection where told (checks/p23.py) */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#define CONNS 8
#define CHUNKS 4000

static struct Ctl
{
    int conns, conn, dir, kind, hit;                            /* kind: 1 the remote is killed as well, 2 it sees the end of its input */
    long at;
    long total[CONNS][2];
    int n[CONNS][2];
    int size[CONNS][2][CHUNKS];
} *c;

int main(int argc, char **argv)
{
    int fd = open(getenv("CUTCTL"), O_RDWR);
    c = mmap(NULL, sizeof(*c), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    int id = __atomic_fetch_add(&c->conns, 1, __ATOMIC_SEQ_CST);
    if (id >= CONNS)
        id = CONNS - 1;
    int in[2], out[2];
    if (pipe2(in, O_CLOEXEC) || pipe2(out, O_CLOEXEC))
        return 255;
    signal(SIGPIPE, SIG_IGN);
    pid_t p = fork();
    if (p == 0)
    {
        signal(SIGPIPE, SIG_DFL);
        dup2(in[0], 0);
        dup2(out[1], 1);
        char b[65536];
        snprintf(b, sizeof(b), "exec %s", argv[argc - 1]);
        execl("/bin/sh", "sh", "-c", b, NULL);
        _exit(127);
    }
    close(in[0]);
    close(out[1]);
    int from[2] = {0, out[0]}, to[2] = {in[1], 1};
    int open_[2] = {1, 1};
    long done[2] = {0, 0};
    static char buf[65536];
    int cut = c->kind && c->conn == id;

    if (cut && c->at == 0)
        goto cutting;

    while (open_[1])
    {
        struct pollfd f[2] = {{open_[0] ? from[0] : -1, POLLIN, 0}, {from[1], POLLIN, 0}};
        if (poll(f, 2, -1) < 0)
            continue;
        for (int d = 0; d < 2; d++)
        {
            if (!open_[d] || !(f[d].revents & (POLLIN | POLLHUP | POLLERR)))
                continue;
            size_t want = sizeof(buf);
            if (cut && c->dir == d && (long)want > c->at - done[d])
                want = (size_t)(c->at - done[d]);
            ssize_t n = read(from[d], buf, want);
            if (n <= 0)
            {
                open_[d] = 0;
                if (d == 0)
                    close(to[0]);
                continue;
            }
            if (!cut && c->n[id][d] < CHUNKS)
                c->size[id][d][c->n[id][d]++] = (int)n;
            for (ssize_t w = 0; w < n;)
            {
                ssize_t x = write(to[d], buf + w, (size_t)(n - w));
                if (x < 0 && errno == EINTR)
                    continue;
                if (x < 0)
                    break;
                w += x;
            }
            done[d] += n;
            c->total[id][d] = done[d];
            if (cut && c->dir == d && done[d] == c->at)
                goto cutting;
        }
    }
    int st;
    waitpid(p, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 255;

cutting:
    c->hit = 1;
    if (c->kind == 1)
    {
        kill(p, SIGKILL);
        waitpid(p, &st, 0);
    }
    return 255;
}
