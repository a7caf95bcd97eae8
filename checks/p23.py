#!/usr/bin/env python3
"""P23: working through a remote gives the local result or an error.

The scenarios of P34 with the repository (or the cluster) on another host: the result is compared with the local one, then the connection
is cut after every chosen byte in either direction; a command that still succeeds must have the exact result, one that fails must not have
left anything partial under a final name and gives the exact result when repeated."""
import ctypes, mmap, os, re, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pgb import core, pg, bk, remote
import p34

CONNS, CHUNKS = 8, 4000


class Cut(ctypes.Structure):
    _fields_ = [(n, ctypes.c_int) for n in ('conns', 'conn', 'dir', 'kind', 'hit')] + [('at', ctypes.c_long), ('total', ctypes.c_long * 2 * CONNS), ('n', ctypes.c_int * 2 * CONNS),
                                                                                  ('size', ctypes.c_int * CHUNKS * 2 * CONNS)]


REPO = ['push', 'push-zst-enc', 'push2', 'push-async', 'get', 'get-gz-enc', 'get-history', 'get-async', 'backup-full', 'backup-incr-block', 'backup-full-bundle-enc', 'backup-incr-hard-gz',
        'restore-fresh', 'restore-delta-block', 'restore-fresh-bundle-enc', 'restore-delta-gz', 'info', 'info-set', 'repo-ls', 'repo-get']
PG = ['stanza-create', 'stanza-upgrade', 'backup-full', 'backup-incr-block', 'backup-full-bundle-enc', 'backup-diff-delta']
# ---- further scenarios, compared with the local result only: several commands, all kinds of files; the exit status of each is compared too
X = {}


class Multi:
    """results of several commands"""

    def __init__(self, rs):
        self.rs, self.rc, self.out = rs, 0, ''


SIZES = [0, 1, 511, 512, 16383, 16384, 16385, 32768, 49151, 65535, 65536, 65537, 131072, 200001]
NAMES = ['a b', 'k=v', '#h', ';s', '[x]', "q'", 'dq"', 'bs\\', 'ü€', '%41', '*', '?', '.hid', '-dash', 'l' * 200, '~t', 'a&b', '<t>', 'tab\tx', 'trail ', '$HOME', '+']
T = pg.T0


def oddtree(p, links=True):
    os.makedirs(p, exist_ok=True)
    for i, n in enumerate(NAMES):
        pg.put(p + '/n/' + n, b'%d' % i, T - i * 1000)
        pg.put(p + '/d/' + n + '/' + n, b'', T)
    for n in SIZES:
        pg.put(p + '/s/%d' % n, bk.blob('s%d' % n, n), T - n)
    for m in (0o400, 0o600, 0o640, 0o644, 0o660, 0o666, 0o700, 0o755, 0o777):
        pg.put(p + '/m/%o' % m, b'm', T)
        os.chmod(p + '/m/%o' % m, m)
        os.makedirs(p + '/md/%o' % (m | 0o500), exist_ok=True)
        os.chmod(p + '/md/%o' % (m | 0o500), m | 0o500)
    for t in (1, 2 ** 31 - 1, 2 ** 31, 2 ** 32, T + 10 ** 6):
        pg.put(p + '/t/%d' % t, b't', t)
    os.makedirs(p + '/empty/empty')
    if links:
        for i, t in enumerate(('s', '../x', 'none', '/dev/null', 's/1', '.', 'ü', 'a b', 'l' * 300)):
            os.symlink(t, p + '/l%d' % i)


def lsetup(e):
    p34.base(e, (), 1)
    oddtree(e.repo(1) + '/odd')


def lprep(e):
    os.makedirs(e.repo(1) + '/no')
    pg.put(e.repo(1) + '/no/f', b'x', T)
    os.chmod(e.repo(1) + '/no', 0)
    pg.put(e.repo(1) + '/unread', b'x', T)
    os.chmod(e.repo(1) + '/unread', 0)
    os.mkfifo(e.repo(1) + '/odd/fifo')


def lrun(e):
    rs = []
    for o in ({}, {'output': 'json'}, {'sort': 'desc'}, {'filter': r'^n/|^s/6', 'output': 'json'}, {'filter': '^t', 'sort': 'none', 'output': 'text'}):
        for rec in ((), ('--recurse',)):
            for path in ('odd', 'odd/n', 'odd/l0', 'odd/l2', 'odd/s/1', 'odd/none', 'odd/empty', 'unread', 'odd/fifo', 'odd/d/a b'):
                rs.append((e.run('repo-ls', path, *rec, **o), o.get('sort') == 'none'))
    for path in ['odd/s/%d' % n for n in SIZES] + ['odd/n/' + n for n in NAMES] + ['odd/l4', 'odd/l2', 'odd/s', 'odd/none', 'unread', 'no/f', 'odd/empty']:
        for ig in ((), ('--ignore-missing',)):
            rs.append((e.run('repo-get', path, *ig), 0))
    rs.append((e.run('repo-ls', 'no'), 0))
    rs.append((e.run('info', output='json'), 0))
    return Multi(rs)


def llook(e, m):
    out = {}
    for i, (r, s) in enumerate(m.rs):
        o = r.raw if isinstance(r.raw, bytes) else r.out.encode()
        out[i] = (r.rc, None if r.rc else core.h(sorted(o.splitlines()) if s else o) if len(o) > 200 else o)
    return out


X['odd-ls'] = (lsetup, lrun, llook, None, {})


def wrun(e):
    rs = []
    for n in SIZES:
        rs.append((e.run('repo-put', 'w/a/%d' % n, stdin=bk.blob('s%d' % n, n)), 0))
    for n in NAMES[:12]:
        rs.append((e.run('repo-put', 'w/b/' + n, stdin=n.encode()), 0))
    rs.append((e.run('repo-put', 'odd/s/1', stdin=b'new'), 0))
    rs.append((e.run('repo-put', 'odd/s/1/x', stdin=b'new'), 0))
    rs.append((e.run('repo-put', 'odd/empty', stdin=b'new'), 0))
    rs.append((e.run('repo-put', 'no/g', stdin=b'new'), 0))
    for p, rec in (('odd/n/a b', ()), ('odd/n', ()), ('odd/d', ('--recurse',)), ('odd/none', ()), ('odd/none', ('--recurse',)), ('odd/empty/empty', ()), ('odd/l0', ()), ('odd/l2', ()),
                   ('odd/fifo', ()), ('odd/m', ('--recurse',)), ('no', ('--recurse',))):
        rs.append((e.run('repo-rm', p, *rec), 0))
    return Multi(rs)


X['odd-write'] = (lsetup, wrun, llook, None, {})


def csetup(st):
    def f(e):
        e.conf(**bk.store(*st))
        if 'enc' in st:
            e.conf(repo1_cipher_pass=bk.PASS)
        e.cluster({'base/1/1': bk.blob('x', 30000), 'base/1/2': bytes(8192 * 3)})
        oddtree(e.pg + '/base/1/odd', links=False)
        os.makedirs(e.root + '/ts/PG_16_202307071/1')
        pg.put(e.root + '/ts/PG_16_202307071/1/5', bk.blob('t', 3000), T - 900)
        pg.put(e.root + '/ts/PG_16_202307071/1/6', b'', T - 900)
        os.symlink(e.root + '/ts', e.pg + '/pg_tblspc/7')
        os.makedirs(e.root + '/lnk/dir/sub')
        pg.put(e.root + '/lnk/dir/sub/f', b'1', T - 100)
        pg.put(e.root + '/lnk/x.conf', b'c', T - 100)
        os.symlink('../lnk/dir', e.pg + '/ld')
        os.symlink(e.root + '/lnk/x.conf', e.pg + '/x.conf')
        os.chmod(e.pg + '/base', 0o750)
        e.run('stanza-create', online=False, ok=True)
        e.crun = lambda: e.run('backup', type='full', online=False, repo1_retention_full='9')
        e.irun = lambda: e.run('backup', type='incr', online=False, delta='y', repo1_retention_full='9')
    return f


def crun(e):
    rs = [(e.crun(), 0)]
    e.advance(5000)
    pg.put(e.pg + '/base/1/2', b'x' * 8192, T + 50)
    os.unlink(e.pg + '/base/1/1')
    rs.append((e.irun(), 0))
    # a file that cannot be read
    e.advance(5000)
    pg.put(e.pg + '/base/1/un', b'x')
    os.chmod(e.pg + '/base/1/un', 0)
    rs.append((e.irun(), 0))
    os.unlink(e.pg + '/base/1/un')
    return Multi(rs)


def clook(e, m):
    out = {'rc': [r.rc for r, _ in m.rs]}
    for i, lab in enumerate(bk.backups(e)):
        shutil.rmtree(e.root + '/lnk', ignore_errors=True)
        pg.rmtree(e.root + '/ts')
        os.makedirs(e.root + '/ts', mode=0o700)
        os.makedirs(e.root + '/lnk', mode=0o700)
        r = bk.restore(e, e.root + '/dst', lab, link_all='y')
        out[i] = (r.rc, sorted(bk.snap(e.root + '/dst').items()), sorted(bk.snap(e.root + '/ts').items()), sorted(bk.snap(e.root + '/lnk').items()))
        f = e.repo(1) + '/backup/demo/' + lab + '/backup.manifest'
        if not e.opts.get('repo1-cipher-type'):
            d = pg.parse_ini(open(f).read())
            out['m%d' % i] = sorted(re.sub(r'20\d{6}-\d{6}[FDI]', 'L', '%s.%s=%s' % (s, k, v)) for s, kv in d.items() for k, v in kv.items() if 'backrest-checksum' not in k and 'backup-timestamp' not in k and 'archive-' not in k and 'buffer-size' not in k)
    return out


for nm, st in (('plain', ()), ('block-zst', ('block', 'zst')), ('bundle-enc', ('bundle', 'enc'))):
    X['odd-backup-' + nm] = (csetup(st), crun, clook, None, {})


def rsetup(st):
    def f(e):
        csetup(st)(e)
        e.crun()
        e.advance(5000)
        pg.put(e.pg + '/base/1/2', b'x' * 8192, T + 50)
        e.irun()
        e.nlab = bk.backups(e)
    return f


def rrun(e):
    rs = []
    e.got = {}
    for i, lab in enumerate(e.nlab + e.nlab[:1]):
        if i < 2:
            shutil.rmtree(e.root + '/lnk', ignore_errors=True)
            pg.rmtree(e.root + '/ts')
            os.makedirs(e.root + '/ts', mode=0o700)
            os.makedirs(e.root + '/lnk', mode=0o700)
        r = bk.restore(e, e.root + '/dst', lab, fresh=i < 2, link_all='y', **({} if i < 2 else {'delta': 'y'}))
        rs.append((r, 0))
        e.got[i] = (r.rc, sorted(bk.snap(e.root + '/dst').items()), sorted(bk.snap(e.root + '/ts').items()), sorted(bk.snap(e.root + '/lnk').items()))
    return Multi(rs)


for nm, st in (('plain', ('gz',)), ('block-zst', ('block', 'zst')), ('bundle-enc', ('bundle', 'enc'))):
    X['odd-restore-' + nm] = (rsetup(st), rrun, lambda e, m: dict(e.got), None, {})
XP = [('repo', n) for n in X if n.startswith(('odd-ls', 'odd-restore', 'odd-write'))] + [('pg', n) for n in X if n.startswith('odd-backup')]

PAIRS = [('repo', n) for n in REPO if not n.startswith('backup')] + [('pg', n) for n in PG]


def sdiff(a, b):
    out = []
    for k in sorted(set(a) | set(b), key=str):
        x, y = a.get(k), b.get(k)
        if x != y:
            if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
                if isinstance(x, tuple):
                    x, y = sum([list(i) if isinstance(i, list) else [i] for i in x], []), sum([list(i) if isinstance(i, list) else [i] for i in y], [])
                x, y = [i for i in x if i not in y], [i for i in y if i not in x]
            out.append('%s: %s instead of %s' % (k, str(x)[:300], str(y)[:300]))
    return '; '.join(out[:3])


def unlock(p):
    for x in (p + '/no', p + '/unread'):
        if os.path.exists(x):
            os.chmod(x, 0o700)


class Remote:
    def __init__(self, a):
        self.topo, self.name, idx = a[1:4]
        self.setup, self.run_, self.look, self.check, self.cfg = (X.get(self.name) or p34.S[self.name])
        self.root = core.scratch('x%d' % idx)
        self.e = e = pg.Env(self.root + '/w', **self.cfg)
        self.setup(e)
        e.lab = bk.backups(e)[0] if self.name in ('expire-set', 'annotate', 'info-set') else None
        self.local = (dict(e.opts), dict(e.sopts))
        x = self.root + '/cutter'
        subprocess.run(['gcc', '-O1', '-w', '-o', x, core.VERIF + '/lib/cutter.c'], check=True)
        with open(self.root + '/cut', 'wb') as f:
            f.write(b'\0' * ctypes.sizeof(Cut))
        f = open(self.root + '/cut', 'r+b')
        self.c = Cut.from_buffer(mmap.mmap(f.fileno(), ctypes.sizeof(Cut)))
        e.extra_env['CUTCTL'] = self.root + '/cut'
        # the other host has the repository options (and the secrets), this one has not
        rc = {k: v for k, v in e.opts.items() if re.match(r'repo\d+-', k)} if self.topo == 'repo' else {}
        if self.topo == 'repo':
            rc.update({'repo%d-path' % (i + 1): e.repo(i + 1) for i in range(e.repos)})
            for k in rc:
                if 'cipher' in k:
                    e.opts.pop(k)
        rc['buffer-size'] = '16KiB'
        e.conf(buffer_size='16KiB')
        remote.split(e, self.topo, **rc)
        e.conf(cmd_ssh=x)
        self.away = (dict(e.opts), dict(e.sopts))
        self.t0 = e.ctl.s.timeUs
        self.sav = self.root + '/sav'
        for d in p34.DIRS:
            if os.path.exists(e.root + '/' + d):
                pg.copytree(e.root + '/' + d, self.sav + '/' + d)

        self.dst = pg.tree(e.root + '/dst') if os.path.exists(e.root + '/dst') else None

    def conf(self, c):
        self.e.opts, self.e.sopts = dict(c[0]), dict(c[1])
        self.e.conf()

    def reset(self):
        e = self.e
        for d in p34.DIRS:
            if os.path.lexists(e.root + '/' + d):
                unlock(e.root + '/' + d)
                pg.rmtree(e.root + '/' + d)
            if os.path.exists(self.sav + '/' + d):
                pg.copytree(self.sav + '/' + d, e.root + '/' + d)
        e.ctl.reset()
        e.ctl.s.timeUs = self.t0
        if self.name in X and self.topo == 'repo' and not self.name.startswith('odd-r'):
            lprep(e)

    def run(self, away=True, cut=None):
        """-> (result, observation function)"""
        self.conf(self.away if away else self.local)
        ctypes.memset(ctypes.addressof(self.c), 0, ctypes.sizeof(self.c))
        if cut:
            self.c.conn, self.c.dir, self.c.at, self.c.kind = cut
        r = self.run_(self.e)
        self.conf(self.local)
        return r

    def files(self):
        """everything stored, as far as it does not hold times"""
        if self.name == 'odd-ls':
            return None
        out = {}
        for i in range(self.e.repos):
            unlock(self.e.repo(i + 1))
            for k, v in pg.tree(self.e.repo(i + 1)).items():
                k = re.sub(r'20\d{6}-\d{6}[FDI]', 'L', k)
                if v[0] == 'file' and (k.endswith(('.info', '.copy', '.manifest', '.manifest.gz')) or 'bundle' in k or self.e.opts.get('repo1-cipher-type') or 'backup.history' in k):
                    v = (v[0], v[2])
                out['%d/%s' % (i, k)] = v if v[0] != 'link' else (v[0], re.sub(r'20\d{6}-\d{6}[FDI]', 'L', v[1]))
        return out


def same(a):
    """local result = remote result; -> the positions of the messages"""
    w = Remote(a)
    viol = []
    w.reset()
    r = w.run(False)
    if r.rc:
        raise pg.Unexpected('%s fails: %r' % (w.name, r))
    ref, files = w.look(w.e, r), w.files()
    w.reset()
    r2 = w.run()
    what = '%s with remote %s' % (w.name, w.topo)
    pos = [(i, d, [w.c.size[i][d][k] for k in range(w.c.n[i][d])]) for i in range(min(CONNS, w.c.conns)) for d in range(2)]
    if not pos:
        raise pg.Unexpected('%s uses no remote' % what)
    if r2.rc:
        viol.append(('%s fails, locally it succeeds: %r' % (what, r2), repr(a)))
    else:
        got, gf = w.look(w.e, r2), w.files()
        if got != ref:
            viol.append(('%s: result differs from the local one: %s' % (what, (sdiff(got, ref) if isinstance(ref, dict) else p34.diff(got, ref))), repr(a)))
        elif gf != files:
            viol.append(('%s: files differ from those stored locally: %s' % (what, pg.tree_diff(files, gf)), repr(a)))
    pg.rmtree(w.root)
    return dict(evals=2, trans=2, keys={core.h(what)}, viol=viol, pos=(w.topo, w.name, pos))


def partial(w, ref):
    """what must not be after a failure"""
    e, n = w.e, w.name
    if n.startswith('push'):
        for s, (rc, h) in p34.gets(e, p34.W[1:5], e.repos).items():
            k = s.split(':')[1]
            if rc not in (0, 1) or rc == 0 and h != core.h(pg.wal(fill=p34.W.index(k))):
                return 'segment %s is wrong (%d)' % (s, rc)
            if rc == 1 and k in p34.W[1:3]:
                return 'segment %s is gone' % s
    elif n == 'get-async':
        return p34.aget_check(e, p34.aget_look(e, None), ref)
    elif n.startswith('restore'):
        if os.path.exists(e.root + '/dst/global/pg_control'):
            if p34.rlook(e, None) != ref and pg.tree(e.root + '/dst') != w.dst:
                return 'control file present but the cluster is not complete: ' + p34.diff(p34.rlook(e, None), ref)
    elif n.startswith('backup'):
        got = p34.rst(e)
        k = len(got) - 1
        for i in range(k):
            if got[i] != ref.get(i):
                return 'backup %d of %d does not restore: %s' % (i, k, str(got[i])[:300])
    return None


def cut(a):
    """kind, positions of one direction of one connection"""
    _, topo, name, idx, kind, conn, d, points = a
    w = Remote(a)
    viol, keys, ev = [], set(), 0
    w.reset()
    r = w.run(False)
    ref = w.look(w.e, r)
    changing = not name.startswith(('info', 'repo-', 'restore'))
    for at in points:
        w.reset()
        r = w.run(True, (conn, d, at, kind))
        hit = w.c.hit
        if not hit:
            continue
        ev += 1
        keys.add(core.h((topo, name, kind, conn, d, at)))
        what = '%s with remote %s, connection %d cut after byte %d %s the remote%s' % (name, topo, conn, at, 'from' if d else 'to', ' (remote killed)' if kind == 1 else '')
        w.e.lastrc = r.rc
        bad = None
        try:
            if r.rc < 0:
                bad = 'dies with %d' % r.rc
            elif r.rc == 0 or r.rc == 1 and name.startswith('get'):
                bad = w.check(w.e, w.look(w.e, r), ref)
                if bad:
                    bad = 'reports %s: %s' % ('success' if r.rc == 0 else '"not found"', bad)
            else:
                bad = partial(w, ref)
            if not bad and changing and r.rc:
                r2 = w.run()
                ev += 1
                if r2.rc and not (name == 'delete' and r2.rc):
                    bad = 'fails when repeated: %r' % r2
                else:
                    got = w.look(w.e, r2)
                    if got != ref and not name.startswith('backup') and name != 'get-async':
                        bad = 'result when repeated: %s' % p34.diff(got, ref)
                    elif name.startswith('backup') and (got.get(len(got) - 2) != ref[len(ref) - 2] or got['verify'] != ref['verify']):
                        bad = 'result when repeated: %s' % p34.diff(got, ref)
        except (pg.Unexpected, ValueError, OSError) as x:
            bad = 'not usable afterwards: %s' % x
        if bad:
            viol.append(('%s: %s' % (what, bad), repr((a[:7], at))))
            if len(viol) > 2:
                break
    pg.rmtree(w.root)
    return dict(evals=ev, trans=ev, keys=keys, viol=viol)


def points(sizes, cap, every):
    """positions: around the end of each message as sent, within large ones; at most cap of them (evenly), or all"""
    tot = sum(sizes)
    if every:
        step = max(1, tot // cap)
        return list(range(0, tot, step))
    s, at = {0, 1}, 0
    for n in sizes:
        s |= {at + n // 2, at + n - 1, at + n, at + n + 1}
        at += n
    s = sorted(x for x in s if 0 <= x < tot)
    if len(s) > cap:
        s = sorted({s[i * (len(s) - 1) // (cap - 1)] for i in range(cap)})
    return s


def job(a):
    return globals()[a[0]](a)


def main():
    c = core.Check('P23', 'fault_enumeration')
    core.build()
    n = 0
    jobs = []
    for topo, name in XP + PAIRS:
        jobs.append(('same', topo, name, len(jobs)))
    cuts = []
    th = c.thorough
    for r in core.pmap(job, jobs):
        c.merge(r)
        if 'pos' in r:
            topo, name, pos = r['pos']
            if name in X:
                continue
            for conn, d, sizes in pos:
                cap = 600 if th else 7 if name.startswith(('backup', 'restore')) else 10
                ps = points(sizes, cap, False)
                for kind in (1, 2):
                    for lo in range(0, len(ps), 8):
                        cuts.append(('cut', topo, name, len(cuts) + 1000, kind, conn, d, ps[lo:lo + 8] if kind == 2 or th else ps[lo:lo + 8:2]))
    c.phase('same')
    for r in core.pmap(job, cuts):
        c.merge(r)
    c.phase('cut')
    c.rule = ('%d scenarios (incl. odd file names, modes, times, sizes, links, unreadable and missing files) with the repository or the cluster on another host compared with the local result (repository files, outputs, restored trees); every connection of each cut around '
              'the ends of messages and within them (quick: evenly spaced subset of at most 7-10 positions per direction), in both directions, with the remote killed or seeing the end of its input' % (len(XP) + len(PAIRS)))
    c.assumptions = ['the other host is a process on the same machine started by a stand-in for ssh', 'virtual clock shared by both hosts']
    c.finish()


if __name__ == '__main__':
    main()
