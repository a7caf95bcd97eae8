#!/usr/bin/env python3
"""P21: stop is honoured by every command until start: state space of the stop files x every command x topology, subsets of running
processes x forced stops, and all interleavings of a forced stop with a command being started."""
import fcntl, itertools, json, os, signal, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pgb import core, pg, bk, remote, sched, fsmodel

ALPHA = [(c, s) for c in ('stop', 'start') for s in (None, 'demo', 'demo-2')]


def world(root, stanza='demo', topo='local'):
    e = pg.Env(root, stanza=stanza)
    e.cluster({'base/1/100': b'x' * 3000})
    if topo != 'local':
        remote.split(e, topo, **{'repo1-path': e.repo(1)})
    e.run('stanza-create', online=False, ok=True)
    e.run('backup', type='full', online=False, ok=True)
    e.advance(100)
    os.makedirs(e.pg + '/pg_wal/archive_status', exist_ok=True)
    for n in (1, 2, 3):
        pg.put(e.pg + '/pg_wal/' + pg.walname(1, n), pg.wal(fill=n))
    if topo != 'pg':
        e.run('archive-push', e.pg + '/pg_wal/' + pg.walname(1, 1), ok=True)
    pg.put(e.pg + '/pg_wal/archive_status/' + pg.walname(1, 3) + '.ready', b'')
    os.makedirs(e.root + '/spool/archive/%s/out' % stanza)
    return e


def do(e, cmd):
    if cmd == 'backup':
        return e.run('backup', type='full', online=False)
    if cmd == 'expire':
        return e.run('expire', repo1_retention_full='1')
    if cmd == 'push':
        return e.run('archive-push', e.pg + '/pg_wal/' + pg.walname(1, 2))
    if cmd == 'apush':
        return e.run('archive-push:async', e.pg + '/pg_wal', archive_async=True)
    if cmd == 'fpush':
        r = e.run('archive-push', e.pg + '/pg_wal/' + pg.walname(1, 3), archive_async=True, archive_timeout='10')
        return r
    if cmd == 'create':
        return e.run('stanza-create', online=False)
    if cmd == 'upgrade':
        return e.run('stanza-upgrade', online=False)
    if cmd == 'get':
        return e.run('archive-get', pg.walname(1, 1), e.root + '/got')
    if cmd == 'restore':
        return bk.restore(e, e.root + '/rst')
    if cmd == 'verify':
        return e.run('verify')
    if cmd == 'info':
        return e.run('info')
    if cmd == 'delete':
        return e.run('stanza-delete', '--force')


BLOCKED = ('backup', 'expire', 'push', 'apush', 'fpush', 'create', 'upgrade')
FREE = ('get', 'restore', 'verify', 'info')


def state(e, where):
    return tuple(sorted(x for x in os.listdir(e.root + '/' + where) if x.endswith('.stop')))


def trees(e):
    return pg.tree(e.repo(1)), pg.tree(e.pg)


def commands(a):
    """one topology and one stanza: reach every stop state by every sequence of up to 3 controls, then every command"""
    _, idx, topo, stanza, side, seqs = a
    root = core.scratch('c%d' % idx)
    e = world(root + '/w', stanza, topo)
    where = 'rlock' if side == 'far' else 'lock'
    cfg = e.root + ('/r.conf' if side == 'far' else '/pgbackrest.conf')
    viol, keys, n = [], set(), 0
    sav = root + '/sav'
    pg.copytree(e.root, sav)
    cmds = [c for c in BLOCKED + FREE + ('delete',) if not (topo == 'pg' and c in ('push', 'apush', 'fpush', 'get', 'restore')) and
            not (c == 'delete' and side == 'far')]
    e0 = trees(e)
    for seq in seqs:
        model = set()
        for f in state(e, where):
            os.unlink(e.root + '/' + where + '/' + f)
        for c, s in seq:
            r = e.run(c, *(['--stanza=' + s] if s else []), config=cfg, stanza_opt=False)
            (model.add if c == 'stop' else model.discard)(s)
            n += 1
            if r.rc:
                viol.append(('%s of %s failed: %r' % (c, s, r), repr((a[:5], seq))))
        stopped = None in model or stanza in model
        if len(seq) == 3 and (len(model) == 0 or seq[0][0] == 'start') and n % 4:
            continue
        for c in cmds:
            n += 1
            keys.add(core.h((topo, stanza, side, seq, c)))
            before = trees(e)
            r = do(e, c)
            if c == 'fpush':
                e.wait_async()
            # a stop on the far host only matters for commands that go there
            after = trees(e)
            if c in BLOCKED:
                far = not (topo == 'pg' and c == 'expire')
                must = stopped and (side == 'near' or far)
                if must:
                    if r.rc == 0:
                        viol.append(('%s of stanza %s ran with %r stopped on the %s host (%s)' % (c, stanza, sorted(map(str, model)), side, topo), repr((a[:5], seq, c))))
                    elif before != after:
                        viol.append(('%s of stanza %s failed but changed files with %r stopped: %r' % (c, stanza, sorted(map(str, model)), pg.tree_diff(before[0], after[0]) or pg.tree_diff(before[1], after[1])), repr((a[:5], seq, c))))
                elif r.rc:
                    viol.append(('%s of stanza %s fails with only %r stopped (%s): %r' % (c, stanza, sorted(map(str, model)), topo, r), repr((a[:5], seq, c))))
            elif c == 'delete':
                # needs the stanza (not all stanzas) to be stopped
                if (stanza in model) != (r.rc == 0) or (r.rc and before != after):
                    viol.append(('stanza-delete with %r stopped gives %r' % (sorted(map(str, model)), r), repr((a[:5], seq, c))))
            elif r.rc:
                viol.append(('%s of stanza %s fails with %r stopped: %r' % (c, stanza, sorted(map(str, model)), r), repr((a[:5], seq, c))))
            if after != before:
                stop = [(f, open(e.root + '/' + where + '/' + f, 'rb').read()) for f in state(e, where)]
                for d in ('repo', 'pg', 'spool', 'rst'):
                    pg.rmtree(e.root + '/' + d)
                    if os.path.exists(sav + '/' + d):
                        pg.copytree(sav + '/' + d, e.root + '/' + d)
                if c == 'delete' and stanza in model:
                    open(e.root + '/lock/%s.stop' % stanza, 'w').close()
            else:
                pg.rmtree(e.root + '/spool')
                pg.copytree(sav + '/spool', e.root + '/spool')
            e.advance(60)
        if len(viol) > 3:
            break
    pg.rmtree(root)
    return dict(evals=n, trans=n, keys=keys, viol=viol[:4])


HOLD = '''
import fcntl, os, sys, time
fd = os.open(sys.argv[1], os.O_RDWR | os.O_CREAT, 0o640)
fcntl.flock(fd, fcntl.LOCK_EX)
os.write(fd, ('{"execId":"%d-x","pid":%d}' % (os.getpid(), os.getpid())).encode())
fds = []
for f in sys.argv[2:]:
    fds.append(os.open(f, os.O_RDWR | os.O_CREAT, 0o640))
    fcntl.flock(fds[-1], fcntl.LOCK_EX)
    os.write(fds[-1], ('{"execId":"%d-x","pid":%d}' % (os.getpid(), os.getpid())).encode())
print('ready', flush=True)
time.sleep(120)
'''
STZ = ['demo', 'demo-2', 'demo-backup-1', 'dem', 'xdemo', 'demo.x', 'demo-']


def force(a):
    """running processes of several stanzas; a forced stop must end exactly those of the requested stanza"""
    _, idx, target, types = a
    root = core.scratch('f%d' % idx)
    e = pg.Env(root)
    viol, keys, n = [], set(), 0
    pr, stale = {}, {}
    try:
        for s in STZ:
            for t in types:
                fl = [e.root + '/lock/%s-%s-%d.lock' % (s, t, k) for k in ((1, 2) if t == 'archive' else (1,))]
                p = subprocess.Popen([sys.executable, '-c', HOLD] + fl, stdout=subprocess.PIPE, start_new_session=True)
                p.stdout.readline()
                pr[(s, t)] = p
            # a stale lock file naming an innocent process
            q = subprocess.Popen(['sleep', '120'], start_new_session=True)
            stale[s] = q
            pg.put(e.root + '/lock/%s-restore-3.lock' % s, ('{"execId":"1-x","pid":%d}' % q.pid).encode())
        r = e.run('stop', '--force', *(['--stanza=' + target] if target else []), stanza_opt=False)
        if r.rc:
            viol.append(('forced stop of %s fails: %r' % (target, r), repr(a)))
        time.sleep(0.2)
        for (s, t), p in pr.items():
            n += 1
            keys.add(core.h((target, s, t)))
            want = target is None or s == target
            for _ in range(200):
                if p.poll() is not None or not want:
                    break
                time.sleep(0.02)
            ended = p.poll()
            if want and ended is None:
                viol.append(('forced stop of %s did not end the %s process of %s' % (target, t, s), repr(a)))
            if not want and ended is not None:
                viol.append(('forced stop of stanza %s ended the %s process of stanza %s' % (target, t, s), repr(a)))
            if want and ended not in (None, -signal.SIGTERM):
                viol.append(('process ended with %r instead of by TERM' % ended, repr(a)))
        for s, q in stale.items():
            if q.poll() is not None:
                viol.append(('forced stop of %s ended a process named only in a stale lock file of %s' % (target, s), repr(a)))
    finally:
        for p in list(pr.values()) + list(stale.values()):
            p.kill()
            p.wait()
    pg.rmtree(root)
    return dict(evals=n, trans=n, keys=keys, viol=viol[:4])


def race(a):
    """a command being started while a forced stop runs: all interleavings of their operations on lock and stop files"""
    _, idx, topo, cmd, tgt, bound, prefix = a
    root = core.scratch('r%d' % idx)
    e = world(root + '/w', 'demo', topo)
    sav = root + '/sav'
    pg.copytree(e.root, sav)
    viol, keys, n, trans = [], set(), 0, 0
    lock = '/rlock/' if topo == 'pg' else '/lock/'
    cfg = e.root + ('/r.conf' if topo == 'pg' else '/pgbackrest.conf')
    args = {'backup': lambda: e.argv('backup', type='full', online=False), 'expire': lambda: e.argv('expire', repo1_retention_full='1'),
            'create': lambda: e.argv('stanza-create', online=False), 'upgrade': lambda: e.argv('stanza-upgrade', online=False),
            'apush': lambda: e.argv('archive-push:async', e.pg + '/pg_wal', archive_async=True),
            'annotate': lambda: e.argv('annotate', set=bk.backups(e)[0], annotation='a=b')}[cmd]()
    stop = e.argv('stop', '--force', *(['--stanza=' + tgt] if tgt else []), stanza=False, config=cfg)

    def execute(choose):
        for d in ('repo', 'pg', 'spool'):
            pg.rmtree(e.root + '/' + d)
            pg.copytree(sav + '/' + d, e.root + '/' + d)
        for d in ('lock', 'rlock'):
            if os.path.exists(e.root + '/' + d):
                for f in os.listdir(e.root + '/' + d):
                    os.unlink(e.root + '/' + d + '/' + f)
        for f in ('log0', 'log1'):
            if os.path.exists(root + '/' + f):
                os.unlink(root + '/' + f)
        pr = []
        for i, v in enumerate((args, stop)):
            env = e.environ(root + '/log%d' % i)
            env['PGSHIM_SCHEDMATCH'] = lock
            pr.append((v, env))
        r = sched.Run(root + '/sock', pr, cwd=e.root)
        try:
            r.go(lambda en, k: (choose(en, k), 0))
        except sched.Stuck as s:
            return r, str(s)
        return r, None

    for sc, (r, stuck) in sched.explore(execute, bound=bound, prefix=prefix):
        n += 1
        trans += len(r.trace)
        keys.add(core.h((topo, cmd, tgt, tuple((i, o) for i, o, _, _ in r.trace))))
        bad = stuck
        if not bad:
            # the command has done its work when it arrives at the release of the lock, i.e. right after its previous operation
            own = [k for k, (i, o, p, _) in enumerate(r.trace) if i == 0]
            rel = [own[j - 1] + 1 for j, k in enumerate(own) if j and r.trace[k][1] == 'unlink']
            if r.rc.get(1) != 0:
                bad = 'stop fails: %r' % r.out[1]
            elif r.rc.get(0) == 0 and (rel[0] if rel else len(r.trace)) >= r.exits[1] and r.exits[0] > r.exits[1]:
                bad = 'the command goes on to completion after the forced stop has completed'
        if bad:
            viol.append(('%s (%s) and forced stop of %s, schedule %s: %s' % (cmd, topo, tgt or 'all', ''.join(map(str, sc)), bad), '\n'.join(map(str, r.trace))))
            if len(viol) > 1:
                break
    pg.rmtree(root)
    return dict(evals=n, trans=trans, keys=keys, viol=viol, samples=['%s %s || stop --force: %d schedules' % (cmd, topo, n)])


def job(a):
    return {'cmd': commands, 'force': force, 'race': race}[a[0]](a)


def main():
    c = core.Check('P21', 'exploration')
    core.build()
    deep = c.thorough
    jobs = []
    depth = 3
    seqs = [s for k in range(depth + 1) for s in itertools.product(ALPHA, repeat=k)]
    short = [s for s in seqs if len(s) < 3]
    for topo, stanza, side in (('local', 'demo', 'near'), ('local', 'demo-2', 'near'), ('repo', 'demo', 'far'), ('repo', 'demo', 'near'),
                               ('pg', 'demo', 'far'), ('pg', 'demo', 'near')):
        use = seqs if deep or topo == 'local' and stanza == 'demo' else short
        k = max(1, len(use) // 16)
        for i in range(k):
            jobs.append(('cmd', len(jobs), topo, stanza, side, use[i::k]))
    for t in [None] + STZ:
        jobs.append(('force', len(jobs), t, ('archive', 'backup', 'restore')))
    b = 3 if deep else 2
    for topo, cmd in (('local', 'backup'), ('local', 'expire'), ('local', 'create'), ('local', 'upgrade'), ('local', 'apush'), ('pg', 'backup')):
        for tgt in ('demo', None):
            for p in itertools.product((0, 1), repeat=2):
                jobs.append(('race', len(jobs), topo, cmd, tgt, b, p))
    for r in core.pmap(job, jobs):
        c.merge(r)
    c.rule = ('every sequence of up to 3 stop/start controls (two stanzas with related names, all) x every command x local/remote topologies; '
              'forced stop x running processes of 7 stanzas with related names; all interleavings of a forced stop with a starting command')
    c.assumptions = ['a stop applies on the host where it was issued', 'operations on lock and stop files are the scheduling points (preemption bound %d)' % b]
    c.finish()


if __name__ == '__main__':
    main()
