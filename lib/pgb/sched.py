"""Controlled scheduler: runs processes under the shim, serialises their scheduled operations and enumerates all interleavings."""
import os, select, signal, socket, subprocess, time


class Stuck(Exception):
    pass


class Run:
    """One execution. procs = [(argv, env)], choose(enabled {i: (op, path)}, step) -> (i, reply)"""

    def __init__(self, sock, procs, cwd='/'):
        self.sock = sock
        self.procs, self.cwd = procs, cwd

    def go(self, choose, timeout=60, on_msg=None):
        if os.path.exists(self.sock):
            os.unlink(self.sock)
        ls = socket.socket(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        ls.bind(self.sock)
        ls.listen(64)
        self.pop, self.out = [], []
        conns = {}                      # fd -> (socket, pid or None)
        group = {}                      # pid -> index
        waiting = {}                    # index -> list of (conn fd, op, path)
        alive = {}
        self.rc = {}
        self.trace = []
        self.exits = {}                 # index -> length of the trace at its exit
        try:
            for i, (argv, env) in enumerate(self.procs):
                env = dict(env, PGSHIM_SCHED=self.sock)
                f = open(self.sock + '.out%d' % i, 'wb')
                p = subprocess.Popen(argv, env=env, cwd=self.cwd, stdin=subprocess.DEVNULL, stdout=f, stderr=f, start_new_session=True)
                f.close()
                self.pop.append(p)
                group[p.pid] = i
                alive[i] = os.pidfd_open(p.pid)
            t0 = time.time()
            while True:
                # let everything run until each live group waits
                while any(i not in waiting for i in alive):
                    if time.time() - t0 > timeout:
                        raise Stuck('processes did not reach a scheduling point: %r' % (self.trace[-5:],))
                    fds = [ls] + [s for s, _ in conns.values()] + list(alive.values())
                    r, _, _ = select.select(fds, [], [], 1.0)
                    for f in r:
                        if f is ls:
                            s, _ = ls.accept()
                            conns[s.fileno()] = (s, None)
                        elif isinstance(f, int):
                            i = [k for k, v in alive.items() if v == f][0]
                            self.pop[i].wait()
                            self.rc[i] = self.pop[i].returncode
                            self.exits[i] = len(self.trace)
                            os.close(f)
                            del alive[i]
                            waiting.pop(i, None)
                        else:
                            try:
                                m = f.recv(2000)
                            except OSError:
                                m = b''
                            if not m:
                                no = f.fileno()
                                conns.pop(no)
                                f.close()
                                for j in list(waiting):         # killed while waiting
                                    waiting[j] = [w for w in waiting[j] if w[0] != no]
                                    if not waiting[j]:
                                        del waiting[j]
                                continue
                            pid, op, path = m.decode().split(' ', 2)
                            pid = int(pid)
                            if pid not in group:
                                try:
                                    group[pid] = group[os.getsid(pid)]
                                except (OSError, KeyError):
                                    f.send(b'0')
                                    continue
                            i = group[pid]
                            rep = on_msg(i, op, path) if on_msg else None
                            if rep is not None:
                                f.send(str(rep).encode())
                                continue
                            waiting.setdefault(i, []).append((f.fileno(), op, path))
                if not alive:
                    break
                en = {i: waiting[i][0][1:] for i in alive}
                i, reply = choose(en, len(self.trace))
                fd, op, path = waiting[i].pop(0)
                if not waiting[i]:
                    del waiting[i]
                self.trace.append((i, op, path, reply))
                try:
                    conns[fd][0].send(str(reply).encode())
                except OSError:
                    pass                # killed while waiting
        finally:
            for p in self.pop:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
            for s, _ in conns.values():
                s.close()
            for f in alive.values():
                os.close(f)
            ls.close()
        self.out = [open(self.sock + '.out%d' % i, 'rb').read().decode('utf-8', 'replace') for i in range(len(self.procs))]
        return self


def explore(execute, bound=None, limit=None, prefix=()):
    """Stateless depth-first enumeration of all schedules.  execute(choose) runs one execution and may call choose(enabled, step) ->
    index.  bound = maximal number of preemptions (switching away from an enabled process).  Yields (schedule, result).
    prefix fixes the first choices (to split the work)."""
    stack = [(list(prefix), 0)]
    n = 0
    while stack:
        pre, _ = stack.pop()
        sched, enabled_at = [], []

        def choose(en, step):
            ids = sorted(en)
            if step < len(pre):
                c = pre[step] if pre[step] in ids else ids[0]
            else:
                c = sched[-1] if sched and sched[-1] in ids else ids[0]
            enabled_at.append(ids)
            sched.append(c)
            return c

        res = execute(choose)
        n += 1
        yield tuple(sched), res
        if limit and n >= limit:
            return
        # children: deviate at each step after the prefix
        for k in range(len(sched) - 1, len(pre) - 1, -1):
            for alt in enabled_at[k]:
                if alt == sched[k]:
                    continue
                cand = sched[:k] + [alt]
                if bound is not None:
                    p = sum(1 for j in range(1, len(cand)) if cand[j] != cand[j - 1] and cand[j - 1] in enabled_at[j])
                    if p > bound:
                        continue
                stack.append((cand, 0))
