#!/usr/bin/env python3
"""P03: asynchronous archive-push. Explicit-state exploration, breadth first, of PostgreSQL's archiver + spool + two repositories under
every sequence of events up to a depth; every transition is the real archive-push (foreground and background process) run on a stored
real state. Then every system call of a push killed or failed, followed by retries."""
import copy, hashlib, json, os, re, shutil, signal, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pgb import core, pg, bk

HIST = '00000002.history'


def content(m, s):
    """content of item s of the cluster generation m['gen']; a bad segment carries another system id"""
    if s == HIST:
        return b'1\t0/5000000\tno recovery target specified %d\n' % m['gen']
    if s.endswith('.backup'):
        return b'START WAL LOCATION: 0/FFE00028 (file %s) %d\n' % (s[:24].encode(), m['gen'])
    sysid = 1000000000000000094 + m['gen']
    return pg.wal(fill=int(s[-4:], 16) * 7 + m['gen'], sysid=sysid + 77 if s in m['bad'] else sysid)


def sha(b):
    return hashlib.sha1(b).hexdigest()


def SEG(s):
    return len(s) == 24


class World:
    def __init__(self, root, cfg):
        self.cfg = cfg
        self.root = root
        self.R = list(range(1, cfg.get('repos', 2) + 1))
        self.dirs = ['repo' + (str(r) if r > 1 else '') for r in self.R] + ['spool']
        self.e = e = pg.Env(root, repos=len(self.R))
        e.ctl.s.timeOn = 3
        o = dict(compress_type='gz', compress_level='1', archive_async='y', archive_timeout='60', protocol_timeout='600', db_timeout='500', process_max=str(cfg.get('pm', 1)))
        if cfg.get('batch'):
            o['archive_push_batch_size'] = cfg['batch']
        e.conf(**o)
        self.m = dict(gen=0, n=0, ready=[], done=[], bad=[], dup=[], brk={r: None for r in self.R}, q=False, stale={})
        self.cluster()
        e.run('stanza-create', online=False, ok=True)

    def cluster(self):
        e = self.e
        e.sysid = 1000000000000000094 + self.m['gen']
        pg.rmtree(e.pg)
        e.cluster({})
        os.makedirs(e.pg + '/pg_wal/archive_status')
        for s in self.m['ready']:
            self.item(s)

    def item(self, s):
        pg.put(self.e.pg + '/pg_wal/' + s, content(self.m, s))
        pg.put(self.e.pg + '/pg_wal/archive_status/' + s + '.ready', b'')

    # ---- state store
    def save(self, to):
        for d in self.dirs:
            src = self.e.root + '/' + d
            self.perm(True)
            shutil.copytree(src, to + '/' + d, symlinks=True, copy_function=os.link)
        self.perm(False)
        return copy.deepcopy(self.m)

    def load(self, frm, m):
        self.perm(True)
        for d in self.dirs:
            pg.rmtree(self.e.root + '/' + d)
            shutil.copytree(frm + '/' + d, self.e.root + '/' + d, symlinks=True, copy_function=os.link)
        self.m = copy.deepcopy(m)
        self.cluster()
        self.conf()
        self.perm(False)

    def perm(self, open_):
        """a repository that is 'unwritable' has an archive directory nobody may write to"""
        for r in self.R:
            for d in ('16-1',):
                p = self.e.repo(r) + '/archive/demo/' + d
                if self.m['brk'][r] == 'u':
                    os.makedirs(p, exist_ok=True)
                    os.chmod(p, 0o750 if open_ else 0o550)
                    for x in os.listdir(p):
                        if os.path.isdir(p + '/' + x):
                            os.chmod(p + '/' + x, 0o750 if open_ else 0o550)

    def conf(self):
        self.e.conf(archive_push_queue_max='2560KiB' if self.m['q'] else None)

    def key(self):
        m = self.m
        t = []
        self.perm(True)
        for d in self.dirs:
            for k, v in sorted(pg.tree(self.e.root + '/' + d, content=True).items()):
                if v[0] == 'file':
                    c = v[1].replace(self.e.root.encode(), b'ROOT') if d == 'spool' else sha(v[1])
                    if k.endswith('.info') or k.endswith('.info.copy'):
                        c = ''
                    t.append((d, k, c))
                else:
                    t.append((d, k, v[0]))
        self.perm(False)
        return core.h((m['n'], m['ready'], m['done'], m['bad'], m['dup'], m['brk'], m['q'], sorted(self.staleok()), t))

    # ---- events
    def ops(self):
        m = self.m
        out = []
        if m['n'] < self.cfg['n']:
            out.append('new')
            if not m['bad']:
                out.append('newbad')
        if HIST not in m['ready'] and HIST not in m['done'] and self.cfg.get('hist'):
            out.append('hist')
        if self.cfg.get('lab') and m['ready'] and SEG(m['ready'][0]) and not any(x.endswith('.backup') for x in m['ready'] + m['done']):
            out.append('lab')
        if m['ready']:
            out += ['push', 'sync']
            if len(m['ready']) > 1:
                out.append('pushlast')
            if SEG(m['ready'][0]) and not m['dup'] and m['ready'][0] not in m['bad']:
                out.append('dup')
        if m['done'] and not m['ready'] and SEG(m['done'][-1]):
            out.append('again')
        for r in self.R:
            if m['brk'][r] is None:
                if all(m['brk'][x] is None for x in self.R) or self.cfg.get('both'):
                    out += ['break%du' % r] if r >= 2 or self.cfg.get('deep') else []
                    out += ['break%di' % r] if r == 1 or self.cfg.get('deep') else []
            else:
                out.append('fix%d' % r)
        if m['bad']:
            out.append('heal')
        if m['dup']:
            out.append('undup')
        if self.cfg.get('q'):
            out.append('q')
        if self.cfg.get('recreate') and not any(m['brk'].values()) and m['gen'] == 0:
            out.append('recreate')
        return out

    def segpath(self, r, s):
        return self.e.repo(r) + '/archive/demo/16-1/' + s[:16]

    def stored(self, s):
        """repositories that hold exactly the content of s"""
        res = []
        self.perm(True)
        want = sha(content(self.m, s))
        import zlib
        for r in self.R:
            d = self.segpath(r, s) if s != HIST else self.e.repo(r) + '/archive/demo/16-1'
            if not os.path.isdir(d):
                continue
            for f in os.listdir(d):
                if not SEG(s) and f == s and sha(open(d + '/' + f, 'rb').read()) == want:
                    res.append(r)
                elif f == s + '-' + want + '.gz':
                    if sha(zlib.decompress(open(d + '/' + f, 'rb').read(), 31)) == want:
                        res.append(r)
        self.perm(False)
        return res

    def alive(self):
        me = self.root.encode()
        for p in os.listdir('/proc'):
            if p.isdigit():
                try:
                    c = open('/proc/%s/cmdline' % p, 'rb').read()
                except OSError:
                    continue
                if b'pgbackrest' in c.split(b'\0')[0] and me in c and b'archive-push' in c:
                    return True
        return False

    def command(self, s, sync=False, patience=20.0):
        """one run of archive-push for s. Time only moves when nothing else can happen any more."""
        e = self.e
        kw = dict(archive_async=False) if sync else {}
        argv = e.argv('archive-push', 'pg_wal/' + s, **kw)
        p = subprocess.Popen(argv, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e.environ(), cwd=e.pg, start_new_session=True)
        t0 = time.time()
        while True:
            try:
                out, err = p.communicate(timeout=patience if time.time() - t0 < patience else 2)
                break
            except subprocess.TimeoutExpired:
                if time.time() - t0 > 60:
                    os.killpg(p.pid, signal.SIGKILL)
                    out, err = p.communicate()
                    return pg.Result(-99, out.decode(), err.decode())
                e.ctl.s.timeUs += 3600 * 1000000
        r = pg.Result(p.returncode, out.decode(), err.decode())
        if not sync:
            t0 = time.time()
            while self.alive_quick() and time.time() - t0 < 30:
                time.sleep(0.002)
        return r

    def alive_quick(self):
        import fcntl
        for n in os.listdir(self.root + '/lock'):
            if n.endswith('.lock'):
                try:
                    with open(self.root + '/lock/' + n, 'rb') as f:
                        fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
                except BlockingIOError:
                    return True
                except OSError:
                    pass
        return False

    def healthy(self, s):
        """nothing stands in the way of storing s: both repositories work, its content is good and not in conflict"""
        m = self.m
        if any(m['brk'].values()) or s in m['bad'] or s in m['dup']:
            return False
        # one run of the background process handles a limited number
        if self.cfg.get('batch') and m['ready'].index(s) > 0:
            return False
        # a push is done in order and stops at the first error, so an earlier item that cannot be stored holds back a later one
        return not any(x in m['bad'] or x in m['dup'] for x in m['ready'])

    def do(self, op, patience=20.0):
        m, e = self.m, self.e
        viol = []
        if op in ('new', 'newbad'):
            m['n'] += 1
            s = pg.walname(1, 4094 + m['n'])
            m['ready'].append(s)
            m['ready'].sort()
            if op == 'newbad':
                m['bad'].append(s)
            self.item(s)
        elif op == 'hist':
            m['ready'].append(HIST)
            self.item(HIST)
        elif op == 'lab':
            s = m['ready'][0] + '.00000028.backup'
            m['ready'].append(s)
            m['ready'].sort()
            self.item(s)
        elif op == 'again':
            s = m['done'].pop()
            m['ready'].append(s)
            self.item(s)
        elif op == 'heal':
            m['bad'] = []
            for s in m['ready']:
                self.item(s)
        elif op == 'dup':
            s = m['ready'][0]
            m['dup'] = [s]
            d = self.segpath(1, s)
            self.perm(True)
            os.makedirs(d, exist_ok=True)
            m['dupfile'] = None
            if not [f for f in os.listdir(d) if f.startswith(s)]:
                b = pg.wal(fill=999)
                import zlib
                c = zlib.compressobj(1, zlib.DEFLATED, 31)
                m['dupfile'] = d + '/' + s + '-' + sha(b) + '.gz'
                pg.put(m['dupfile'], c.compress(b) + c.flush(), mode=0o640)
                m['dupfile'] = os.path.relpath(m['dupfile'], self.root)
            else:
                m['dup'] = []
            self.perm(False)
        elif op == 'undup':
            self.perm(True)
            if m.get('dupfile') and os.path.exists(self.root + '/' + m['dupfile']):
                os.unlink(self.root + '/' + m['dupfile'])
            m['dup'] = []
            self.perm(False)
        elif op.startswith('break'):
            r = int(op[5])
            m['brk'][r] = op[6]
            if op[6] == 'i':
                a = e.repo(r) + '/archive/demo/archive.info'
                for x in (a, a + '.copy'):
                    os.rename(x, x.replace('archive.info', 'gone.info'))
            self.perm(False)
        elif op.startswith('fix'):
            r = int(op[3])
            self.perm(True)
            if m['brk'][r] == 'i':
                a = e.repo(r) + '/archive/demo/archive.info'
                for x in (a, a + '.copy'):
                    os.rename(x.replace('archive.info', 'gone.info'), x)
            m['brk'][r] = None
        elif op == 'q':
            m['q'] = not m['q']
            self.conf()
        elif op == 'recreate':
            for r in self.R:
                e.run('stop', ok=True)
                e.run('stanza-delete', force=True, repo=str(r), ok=True)
            e.run('start')
            m.update(gen=1, n=0, ready=[], done=[], bad=[], dup=[])
            sp = e.root + '/spool/archive/demo/out'
            m['stale'] = {x: os.stat(sp + '/' + x).st_mtime_ns for x in sorted(os.listdir(sp))} if os.path.isdir(sp) else {}
            self.cluster()
            e.run('stanza-create', online=False, ok=True)
        elif op in ('push', 'pushlast', 'sync'):
            s = m['ready'][-1 if op == 'pushlast' else 0]
            viol += self.push(s, op == 'sync', patience)
        return viol

    def push(self, s, sync=False, patience=20.0, faulted=False):
        m, e = self.m, self.e
        healthy = self.healthy(s) and not faulted
        sp = e.root + '/spool/archive/demo/out'
        stale = self.staleok()
        okbefore = set(os.listdir(sp)) if os.path.isdir(sp) else set()
        drop = m['q'] and len(m['ready']) * pg.MB > 2560 * 1024
        if not healthy and not faulted and not drop:
            patience = 0.25
        r = self.command(s, sync, patience)
        if faulted:
            e.wait_procs()
        kept = self.stored(s)
        warned = 'dropped WAL file' in r.all and s in [x for x in re.findall(r"dropped WAL file '([^']*)'", r.all)]
        what = 'archive-push %s of %s in state ready=%s done=%s bad=%s dup=%s broken=%s queue-max=%s spool=%s' % (
            'synchronous' if sync else 'asynchronous', s, m['ready'], m['done'], m['bad'], m['dup'], m['brk'], m['q'], sorted(okbefore))
        viol = []
        st = s + '.ok' in stale
        if r.rc == 0:
            if kept != self.R and not warned:
                viol.append(('%s: success reported but only repositories %s hold it' % (what, kept), repr(r)) + (('stale-ok-after-recreate',) if st and not sync else ()))
            if warned and not drop and not s + '.ok' in okbefore:
                viol.append(('%s: dropped although the queue limit is not exceeded' % what, repr(r)))
            if drop and not warned and kept != self.R:
                viol.append(('%s: dropped without a warning' % what, repr(r)))
            m['ready'].remove(s)
            m['done'].append(s)
            os.unlink(e.pg + '/pg_wal/archive_status/' + s + '.ready')
            pg.put(e.pg + '/pg_wal/archive_status/' + s + '.done', b'')
        else:
            if healthy:
                viol.append(('%s: failed (rc=%d) although nothing stands in the way of storing it' % (what, r.rc), repr(r)))
            if 'ERROR' not in r.all and r.rc > 0:
                viol.append(('%s: failed without an error message (rc=%d)' % (what, r.rc), repr(r)))
        if drop and not any(m['brk'].values()) and not faulted and r.rc != 0:
            viol.append(('%s: neither stored nor dropped although the queue limit is exceeded' % what, repr(r)))
        # a temporary or foreign file in the archive
        self.perm(True)
        for rr in self.R:
            for k, v in pg.tree(e.repo(rr) + '/archive/demo').items() if os.path.isdir(e.repo(rr) + '/archive/demo') else ():
                if v[0] == 'file' and k.endswith('.pgbackrest.tmp') and not faulted and not self.tmpok:
                    viol.append(('%s: temporary file left in repository %d: %s' % (what, rr, k), repr(r)))
        self.perm(False)
        return viol

    def staleok(self):
        """status files that are still those of an earlier cluster generation"""
        sp = self.e.root + '/spool/archive/demo/out/'
        return [x for x, t in self.m['stale'].items() if os.path.exists(sp + x) and os.stat(sp + x).st_mtime_ns == t]

    tmpok = False


def expand(arg):
    cfg, store, states = arg
    global W
    root = core.scratch('p03w-%d' % os.getpid())
    key = core.h(cfg)
    if 'W' not in globals() or W[0] != key:
        pg.rmtree(root)
        W = (key, World(root, cfg))
    w = W[1]
    out = []
    viol = []
    for path, m, trace in states:
        if path is None:
            pg.rmtree(root)
            W = (key, World(root, cfg))
            w = W[1]
            k = w.key()
            to = '%s/%s' % (store, k)
            out.append((k, None, to, w.save(to) if not os.path.exists(to) else copy.deepcopy(w.m), []))
            continue
        w.load(path, m)
        for op in w.ops():
            w.load(path, m)
            v = w.do(op)
            viol += [(x[0], dict(history=trace + [op], detail=x[1], config=cfg)) + tuple(x[2:]) for x in v]
            k = w.key()
            to = '%s/%s.%d' % (store, k, os.getpid())
            mm = copy.deepcopy(w.m)
            if not os.path.exists(to) and not v:
                w.save(to)
            if not v:
                out.append((k, op, to, mm, trace + [op]))
    return dict(out=out, viol=viol)


def bfs(c, cfg, depth, name, limit=None):
    store = core.scratch('p03s-' + name)
    os.makedirs(store, exist_ok=True)
    os.chmod(store, 0o777)
    seen = set()
    front = []
    for r in core.pmap(expand, [(cfg, store, [(None, None, None)])], nproc=1):
        if 'broken' in r:
            c.merge(r)
            return
        for k, op, to, m, tr in r['out']:
            seen.add(k)
            front.append((to, m, tr))
    edges = 0
    for d in range(depth):
        nxt = []
        # group so that every worker sets up its world once
        chunks = [front[i::64] for i in range(min(64, len(front)))]
        for r in core.pmap(expand, [(cfg, store, ch) for ch in chunks]):
            if 'broken' in r:
                c.merge(r)
                continue
            for v in r['viol']:
                c.violation(*v)
            for k, op, to, m, tr in r['out']:
                edges += 1
                if k not in seen:
                    seen.add(k)
                    nxt.append((to, m, tr))
        if nxt:
            c.sample(dict(config=cfg, depth=d + 1, trace=nxt[len(nxt) // 2][2]))
        front = nxt
        c.phase('%s depth %d: %d states, %d edges' % (name, d + 1, len(seen), edges))
        if not front:
            break
    c.evaluations += edges
    c.transitions += edges
    c.distinct.update(name + k for k in seen)
    pg.rmtree(store)


SCEN = {
    'two': ['new', 'new'],
    'second': ['new', 'push', 'new'],
    'onebroken': ['new', 'break2u', 'push', 'fix2', 'new'],
    'error': ['newbad', 'push', 'heal', 'new'],
    'drop': ['q', 'new', 'new', 'new'],
    'look': ['new', 'new', 'new', 'push'],
    'hist': ['hist', 'new'],
}


def faults(arg):
    """every operation of one push killed or failing, then pushes until everything is acknowledged"""
    scen, kind, err, lo, step, pm = arg
    root = core.scratch('p03f-' + core.h(arg))
    cfg = dict(n=3, q=True, hist=True, pm=pm)
    w = World(root, cfg)
    w.tmpok = True
    res = dict(evals=0, trans=0, keys=[], viol=[], samples=[])
    for op in SCEN[scen]:
        v = w.do(op)
        if v:
            res['viol'] += v
            return res
    store = root + '/save'
    m = w.save(store)
    k = lo
    total = None
    while True:
        w.load(store, m)
        t = w.e.ctl.s.timeUs
        w.e.ctl.fault(k + 1, kind, err)
        s = w.m['ready'][0]
        v = w.push(s, patience=0.2, faulted=True)
        hit = w.e.ctl.s.faultHit
        w.e.ctl.reset()
        res['keys'].append(core.h((scen, kind, err, k)))
        res['trans'] += 1
        tr = []
        # PostgreSQL keeps trying; the fault is gone, so every segment gets through, each at the first attempt
        for i in range(8):
            if not w.m['ready'] or v:
                break
            s = w.m['ready'][0]
            v += w.push(s)
            res['evals'] += 1
        if w.m['ready'] and not v:
            v.append(('segments %s never acknowledged after a fault' % w.m['ready'], ''))
        for x in v:
            res['viol'].append(('after fault kind %d errno %d at operation %d of archive-push (%s): %s' % (kind, err, k, scen, x[0]), x[1]))
        if not hit or len(res['viol']) > 3:
            total = k
            break
        k += step
    res['samples'] = [dict(scenario=scen, kind=kind, errno=err, operations=total)]
    pg.rmtree(root)
    return res


def main():
    c = core.Check('P03', 'model_checking')
    c.rule = ('success for a segment only if every repository holds exactly its content, or the queue limit was exceeded and the drop is warned about; a segment with nothing in its way is '
              'stored and acknowledged at the first attempt')
    core.build()
    D = 1 if not c.thorough else 3
    bfs(c, dict(n=3, pm=1), 4 + D, 'basic')
    bfs(c, dict(n=3, q=True, pm=2), 4 + D, 'queue')
    bfs(c, dict(n=2, hist=True, recreate=True, pm=1), 4 + D, 'recreate')
    bfs(c, dict(n=3, pm=2, batch='2MiB', deep=True, both=True), 3 + D, 'deep')
    bfs(c, dict(n=2, pm=1, lab=True), 4 + D, 'label')
    bfs(c, dict(n=2, pm=1, repos=3, deep=c.thorough, both=c.thorough), 3 + D, 'three')
    n = 4
    jobs = [(s, kind, err, i, n, 1) for s in SCEN for kind, err in ((4, 0), (1, 28)) for i in range(n)]
    if c.thorough:
        jobs += [(s, kind, err, i, n, 2) for s in SCEN for kind, err in ((4, 0), (1, 5), (1, 13), (2, 0), (3, 28)) for i in range(n)]
    for r in core.pmap(faults, jobs):
        c.merge(r)
    c.phase('faults')
    c.assumptions = ['the archiver calls archive-push for one segment at a time and marks it done on success', 'up to three ready segments, two or three repositories']
    c.finish()


main()
