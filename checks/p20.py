#!/usr/bin/env python3
"""P20: mutual exclusion of commands: all interleavings of the lock protocol and of real commands, and every command against every
lock file it needs being held by someone else."""
import fcntl, itertools, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pgb import core, pg, bk, sched, fsmodel

DRV = None


def protocol(arg):
    """all schedules (after a fixed first part) of driver programs on one lock file"""
    idx, progs, execs, stale, bound, prefix = arg
    root = core.scratch('l%d' % idx)
    os.makedirs(root + '/lock', exist_ok=True)
    ctl = pg.Ctl(root + '/ctl')
    env = dict(core.CLEAN_ENV, PGSHIM_CTL=ctl.path, PGSHIM_ROOT=root, PGSHIM_SCHEDMATCH='/lock/', LD_PRELOAD=core.build().shim)
    if core.build().stub:
        env['LD_LIBRARY_PATH'] = core.build().stub
    procs = [([DRV, root, x, p], env) for p, x in zip(progs, execs)]
    lf = root + '/lock/demo-backup-1.lock'
    viol, keys, n, trans = [], set(), 0, 0

    def execute(choose):
        for f in os.listdir(root + '/lock'):
            pg.rmtree(root + '/lock/' + f)
        if stale is not None:
            pg.put(lf, stale)
        holders, ev, bad = set(), [], []

        def msg(i, op, path):
            if '/EV-' in path and not path.endswith('WORK'):
                ev.append((i, path.rsplit('-', 1)[1]))
                if path.endswith('HOLD'):
                    if any(execs[j] != execs[i] for j in holders):
                        bad.append('process %d holds the lock while %r hold it' % (i, sorted(holders)))
                    holders.add(i)
                else:
                    holders.discard(i)
                return 17
            return None
        r = sched.Run(root + '/sock', procs)
        try:
            r.go(lambda en, k: (choose(en, k), 0), on_msg=msg)
        except sched.Stuck as s:
            bad.append(str(s))
        return r, ev, bad

    for sc, (r, ev, bad) in sched.explore(execute, bound=bound, prefix=prefix):
        n += 1
        trans += len(r.trace)
        keys.add(core.h((progs, tuple((i, o) for i, o, _, _ in r.trace))))
        if not bad and ''.join(progs).strip('aArwx') == '':
            # only lockers: at least one of them must have got the lock, and one alone afterwards must always get it
            if not any(e[1] == 'HOLD' for e in ev) and any(c in p for p in progs for c in 'aA'):
                bad.append('nobody got the lock: %r' % (r.out,))
        # exec id mates: a process with the id of a live holder gets it
        if bad:
            viol.append(('programs %r, stale lock %r, schedule %s: %s' % (progs, stale, ''.join(map(str, sc)), bad[0]),
                         json.dumps(r.trace, indent=0)))
        # whatever happened (including crashes): a new process must get the lock now
        if r.trace and ('x' in ''.join(progs) or n % 16 == 1):
            r2 = sched.Run(root + '/sock', [([DRV, root, 'z', 'ar'], env)])
            r2.go(lambda en, k: (0, 0), on_msg=lambda i, o, p: 17 if '/EV-' in p else None)
            if r2.rc[0] != 0:
                viol.append(('programs %r schedule %r: lock cannot be taken although everyone is gone: %r' % (progs, sc, r2.out),
                             json.dumps(r.trace)))
        if len(viol) > 3:
            break
    pg.rmtree(root)
    return dict(evals=n, trans=trans, keys=keys, viol=viol, samples=['%r: %d schedules' % (progs, n)])


# ---------------------------------------------------------------------------------------------------------------------------------
CMDS = {
    # command -> (argv maker, lock types)
    'backup': (lambda e: e.argv('backup', type='full', online=False, repo='1'), ['backup']),
    'backup2': (lambda e: e.argv('backup', type='full', online=False, repo='2'), ['backup']),
    'expire': (lambda e: e.argv('expire', repo='1', repo1_retention_full='1'), ['backup']),
    'expire-all': (lambda e: e.argv('expire', repo1_retention_full='1', repo2_retention_full='1'), ['backup']),
    'stanza-create': (lambda e: e.argv('stanza-create', online=False), ['archive', 'backup', 'restore']),
    'stanza-upgrade': (lambda e: e.argv('stanza-upgrade', online=False), ['archive', 'backup', 'restore']),
    'stanza-delete': (lambda e: e.argv('stanza-delete', '--force', repo='1'), ['archive', 'backup', 'restore']),
    'push-async': (lambda e: e.argv('archive-push:async', e.pg + '/pg_wal', archive_async=True), ['archive']),
    'get-async': (lambda e: e.argv('archive-get:async', pg.walname(1, 1), pg.walname(1, 2), archive_async=True), ['archive']),
    'get-async1': (lambda e: e.argv('archive-get:async', pg.walname(1, 1), pg.walname(1, 2), archive_async=True, repo='1'), ['archive']),
    'restore': (lambda e: e.argv('restore', '--delta', type='preserve', pg1_path=e.root + '/rst', repo='1'), ['restore']),
    'annotate': (lambda e: e.argv('annotate', set=e.label, annotation='k=v', repo='1'), ['backup']),
}
REPOS = {'backup': [1], 'expire': [1], 'backup2': [2], 'stanza-delete': [1], 'get-async1': [1], 'restore': [1], 'annotate': [1]}


def world(root, repos):
    e = pg.Env(root, repos=repos)
    e.cluster({'base/1/100': b'x' * 3000})
    e.run('stanza-create', online=False, ok=True)
    for i in range(1, repos + 1):
        e.run('backup', type='full', online=False, ok=True, repo=str(i))
    e.label = bk.backups(e)[0]
    e.advance(100)
    for n in (1, 2):
        pg.put(e.pg + '/pg_wal/' + pg.walname(1, n), pg.wal(fill=n))
        e.run('archive-push', e.pg + '/pg_wal/' + pg.walname(1, n), ok=True)
    os.makedirs(e.pg + '/pg_wal/archive_status', exist_ok=True)
    for d in ('in', 'out'):
        os.makedirs(e.root + '/spool/archive/demo/' + d, exist_ok=True)
    pg.put(e.pg + '/pg_wal/' + pg.walname(1, 3), pg.wal(fill=3))
    pg.put(e.pg + '/pg_wal/archive_status/' + pg.walname(1, 3) + '.ready', b'')
    os.makedirs(e.root + '/rst', mode=0o700, exist_ok=True)
    os.chmod(e.root + '/rst', 0o700)
    return e


def work_ops(log):
    """mutating operations outside of lock, log and socket files"""
    if not os.path.exists(log):
        return []
    return [o for o in fsmodel.read_log(log) if o['ret'] >= 0 and o['op'] not in ('close', 'FAULT', 'fsync') and
            not ('/lock' in o['path'] or '/log' in o['path']) and not (o['op'] == 'open' and not o['y'] and not o['x'])]


def held(arg):
    """one command against one subset of its lock files being held (flock) by a process of another command"""
    idx, cmd, repos = arg
    viol, keys, n = [], set(), 0
    root = core.scratch('h%d' % idx)
    e = world(root, repos)
    if cmd == 'stanza-delete':
        e.run('stop', ok=True)
    need = ['demo-%s-%d.lock' % (t, r) for t in CMDS[cmd][1] for r in REPOS.get(cmd, range(1, repos + 1)) if r <= repos]
    for k in range(1, len(need) + 1):
        for sub in itertools.combinations(need, k):
            fds = []
            for f in sub:
                p = e.root + '/lock/' + f
                fd = os.open(p, os.O_RDWR | os.O_CREAT, 0o640)
                fcntl.flock(fd, fcntl.LOCK_EX)
                os.write(fd, b'{"execId":"1-other","pid":1}')
                fds.append(fd)
            log = root + '/log%d' % n
            argv = CMDS[cmd][0](e)
            r = pg.subprocess.run(argv, env=e.environ(log), cwd=e.root, stdin=pg.subprocess.DEVNULL, stdout=pg.subprocess.PIPE,
                                  stderr=pg.subprocess.STDOUT, timeout=60)
            for fd, f in zip(fds, sub):
                os.close(fd)
                if os.path.exists(e.root + '/lock/' + f):
                    os.unlink(e.root + '/lock/' + f)
            n += 1
            keys.add(core.h((cmd, repos, sub)))
            ops = work_ops(log)
            if ops:
                viol.append(('%s ran (%s %s) although %s is held by another command: rc=%d %s' % (
                    cmd, ops[0]['op'], ops[0]['path'].replace(e.root, ''), ', '.join(sub), r.returncode, r.stdout.decode()[-300:]), repr(arg)))
            elif r.returncode == 0 and 'async' not in cmd:
                viol.append(('%s reports success although %s is held by another command' % (cmd, sub), repr(arg)))
            # locks of others never disturbed
    # control: unlocked it does work
    log = root + '/logfree'
    r = pg.subprocess.run(CMDS[cmd][0](e), env=e.environ(log), cwd=e.root, stdin=pg.subprocess.DEVNULL, stdout=pg.subprocess.PIPE,
                          stderr=pg.subprocess.STDOUT, timeout=60)
    if r.returncode != 0:
        viol.append(('%s fails without any lock held: %s' % (cmd, r.stdout.decode()[-500:]), repr(arg)))
    # stale lock files of a dead process in every variant never block
    for st in (b'', b'{', b'{"execId":"1-dead","pid":1}', b'{"execId":"1-dead","pid":1' + b' ' * 500 + b'}'):
        if cmd == 'stanza-delete':
            break
        for f in need:
            pg.put(e.root + '/lock/' + f, st)
        e.advance(100)
        os.makedirs(e.root + '/spool/archive/demo/out', exist_ok=True)
        for f in os.listdir(e.root + '/spool/archive/demo/out'):
            os.unlink(e.root + '/spool/archive/demo/out/' + f)
        r = pg.subprocess.run(CMDS[cmd][0](e), env=e.environ(), cwd=e.root, stdin=pg.subprocess.DEVNULL, stdout=pg.subprocess.PIPE,
                              stderr=pg.subprocess.STDOUT, timeout=60)
        n += 1
        if r.returncode != 0:
            viol.append(('%s is blocked by a stale lock file %r: %s' % (cmd, st, r.stdout.decode()[-500:]), repr(arg)))
    pg.rmtree(root)
    return dict(evals=n, trans=n, keys=keys, viol=viol[:4])


def pair(arg):
    """two real commands, all interleavings of their lock operations: their work must never overlap"""
    idx, a, b, repos, bound, prefix = arg
    viol, keys, n, trans = [], set(), 0, 0
    root = core.scratch('c%d' % idx)
    base = root + '/w'
    e = world(base, repos)
    sav = root + '/save'
    for d in ('repo', 'repo2', 'pg', 'spool', 'rst'):
        if os.path.exists(base + '/' + d):
            pg.copytree(base + '/' + d, sav + '/' + d)
    if 'stanza-delete' in (a, b):
        e.run('stop', ok=True)
    dirty = [False]

    def execute(choose):
        if dirty[0]:
            for d in os.listdir(sav):
                pg.copytree(sav + '/' + d, base + '/' + d)
        dirty[0] = True
        for f in os.listdir(base + '/lock'):
            if f.endswith('.lock'):
                os.unlink(base + '/lock/' + f)
        for f in os.listdir(root):
            if f.startswith('log'):
                os.unlink(root + '/' + f)
        procs = []
        for i, cmd in enumerate((a, b)):
            env = e.environ(root + '/log%d' % i)
            env['PGSHIM_SCHEDMATCH'] = '.lock'
            procs.append((CMDS[cmd][0](e), env))
        r = sched.Run(root + '/sock', procs, cwd=base)
        try:
            r.go(lambda en, k: (choose(en, k), 0))
        except sched.Stuck as s:
            return r, str(s)
        return r, None

    for sc, (r, stuck) in sched.explore(execute, bound=bound, prefix=prefix):
        n += 1
        trans += len(r.trace)
        keys.add(core.h((a, b, tuple((i, o) for i, o, _, _ in r.trace))))
        bad = stuck
        iv = []
        for i in (0, 1):
            ops = work_ops(root + '/log%d' % i)
            if ops:
                iv.append((min(o['seq'] for o in ops), max(o['seq'] for o in ops)))
        if len(iv) == 2 and not (iv[0][1] < iv[1][0] or iv[1][1] < iv[0][0]):
            bad = 'both commands worked at the same time (operation ranges %r)' % (iv,)
        if not bad and not iv and all(r.rc.get(i) != 0 for i in (0, 1)) and 'async' not in a + b:
            bad = 'both commands were refused: %r' % (r.out,)
        if bad:
            viol.append(('%s and %s, schedule %s: %s' % (a, b, ''.join(map(str, sc)), bad), '\n'.join(map(str, r.trace))))
            if len(viol) > 2:
                break
    pg.rmtree(root)
    return dict(evals=n, trans=trans, keys=keys, viol=viol, samples=['%s || %s: %d schedules' % (a, b, n)])


def prefixes(n, k):
    return [p for p in itertools.product(range(n), repeat=k)]


def main():
    global DRV
    c = core.Check('P20', 'exploration')
    b = core.build()
    DRV = b.harness('lockdrv.c')
    st = b'{"execId":"1-dead","pid":99999,"pctCplt":1234567,"sz":123}'
    jobs = []

    def add(progs, execs=None, stale=None, bound=None, split=3):
        execs = execs or ['p%d' % i for i in range(len(progs))]
        pre = prefixes(len(progs), split) if bound is None else [()]
        if bound is not None:
            pre = prefixes(len(progs), 2)
        for p in pre:
            jobs.append((len(jobs), progs, execs, stale, bound, p))
    add(['ar', 'ar'])
    add(['ar', 'Ar'], stale=st)
    add(['ax', 'ar'], bound=4)
    add(['ar', 'i'], split=2)
    add(['ar', 'ar', 'Ar'], bound=3)
    add(['ar', 'Ar', 'i'], stale=st, bound=3 if c.thorough else 2)
    add(['arar', 'ar'], bound=5 if c.thorough else 4)
    add(['awr', 'ar'], ['s', 's'], bound=3)
    if c.thorough:
        add(['ar', 'ar', 'ar'], bound=4)
        add(['ar', 'ar'], stale=st)
        add(['arar', 'arar'], bound=5)
        add(['ax', 'ar', 'ar'], bound=3)
        add(['ar', 'ar', 'ar', 'Ar'], bound=2)
    for r in core.pmap(protocol, jobs):
        c.merge(r)
    c.phase('protocol')
    hj = []
    for cmd in CMDS:
        for rp in (1, 2):
            if rp < max(REPOS.get(cmd, [1])) or (cmd == 'expire-all' and rp == 1):
                continue
            hj.append((len(hj), cmd, rp))
    for r in core.pmap(held, hj):
        c.merge(r)
    c.phase('held')
    pj = []
    pairs = [('backup', 'expire'), ('backup', 'backup'), ('stanza-upgrade', 'push-async'), ('push-async', 'push-async'), ('get-async1', 'get-async'),
             ('stanza-upgrade', 'backup'), ('backup', 'annotate'), ('restore', 'restore')]
    if c.thorough:
        pairs += [('expire-all', 'backup2'), ('stanza-create', 'expire'), ('get-async', 'push-async'), ('stanza-upgrade', 'stanza-upgrade'),
                  ('stanza-upgrade', 'restore'), ('annotate', 'expire')]
    for a, b2 in pairs:
        for p in ((0,), (1,)):
            pj.append((len(pj), a, b2, 2 if 'async' in a + b2 or '2' in a + b2 else 1, 3 if c.thorough else 2, p))
    for r in core.pmap(pair, pj):
        c.merge(r)
    c.phase('pairs')
    c.rule = ('every interleaving (unbounded for two lockers, preemption bounded otherwise) of the file operations of the lock code and '
              'of pairs of real commands; every command x every non-empty subset of its lock files held by another process')
    c.assumptions = ['flock on a local file system', 'file operations on lock files are the scheduling points']
    c.finish()


if __name__ == '__main__':
    main()
