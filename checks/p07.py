#!/usr/bin/env python3
"""P07: every crash point (and every failing operation) of a backup; afterwards all listed backups restore exactly and the next
backup works."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pgb import core, pg, bk

FILES = {'base/1/100': (bk.blob('a', 3 * 8192), pg.T0 - 5000), 'base/1/101': (bk.blob('b', 40000), pg.T0 - 5000),
         'base/1/102': (b'', pg.T0 - 5000), 'pg_xact/0000': (bk.blob('c', 300), pg.T0 - 5000),
         'postgresql.conf': (b'# conf\n', pg.T0 - 5000)}


def prepare(e, n):
    """n backups before the interrupted one, the cluster changing in between; returns {label: snapshot}"""
    e.cluster(FILES)
    e.run('stanza-create', online=False, ok=True)
    snaps = {}
    for i in range(n):
        if i:
            e.advance(3600)
            change(e, i)
        want = bk.snap(e.pg)
        e.run('backup', type='full' if i == 0 else 'incr', online=False, ok=True)
        snaps[bk.backups(e)[-1]] = want
    e.advance(3600)
    change(e, n)
    return snaps


def change(e, i):
    d = bytearray(open(e.pg + '/base/1/101', 'rb').read())
    d[20000:20100] = bk.blob('ch%d' % i, 100)
    pg.put(e.pg + '/base/1/101', bytes(d), e.now() - 100)
    pg.put(e.pg + '/pg_xact/0000', bk.blob('x%d' % i, 300 + i), e.now() - 100)
    pg.put(e.pg + '/base/1/2%02d' % i, bk.blob('n%d' % i, 9000), e.now() - 100)


def judge(e, desc, snaps, new, typ, viol, again=None):
    """snaps: backups complete before; new: cluster snapshot at the interrupted one"""
    r = e.run('info', output='json')
    if r.rc:
        viol.append(('%s: info fails: %r' % (desc, r), ''))
        return 1
    lab = bk.backups(e)
    n = 0
    for l in snaps:
        if l not in lab:
            viol.append(('%s: backup %s is no longer listed (%r)' % (desc, l, lab), ''))
    want = dict(snaps)
    extra = [l for l in lab if l not in snaps]
    if len(extra) > 1:
        viol.append(('%s: several new backups listed: %r' % (desc, lab), ''))
    for l in extra:
        want[l] = new
    for l in lab:
        if l in want:
            n += check(e, desc, l, want[l], viol)
    # the next backup, after the cluster changed again
    e.advance(600)
    pg.put(e.pg + '/base/1/102', bk.blob('later', 8192), e.now() - 5)
    want2 = bk.snap(e.pg)
    r = e.run('backup', type=again or typ, online=False)
    n += 1
    if r.rc:
        viol.append(('%s: the next backup fails: %r' % (desc, r), ''))
        return n
    lab2 = bk.backups(e)
    nw = [l for l in lab2 if l not in lab]
    # a backup that was complete except for being listed may be added to the list by the next one
    if len(nw) not in (1, 2) or lab2[:len(lab)] != lab or lab2 != lab + nw or sorted(lab2) != lab2 or (len(nw) == 2 and extra):
        viol.append(('%s: after the next backup the list is %r (was %r)' % (desc, lab2, lab), ''))
        return n
    if len(nw) == 2:
        n += check(e, desc + ', adopted backup', nw[0], new, viol)
    n += check(e, desc + ', next backup', nw[-1], want2, viol)
    r = e.run('verify', output='text', verbose=True)
    if r.rc or 'status: error' in r.all:
        viol.append(('%s: verify after the next backup reports %r' % (desc, r), ''))
    if os.path.lexists(e.repo(1) + '/backup/demo/' + nw[-1] + '/backup.manifest') is False:
        viol.append(('%s: no manifest for %s' % (desc, nw[-1]), ''))
    # every earlier backup must still be right after the next one
    for l in lab:
        if l in want:
            n += check(e, desc + ', after the next backup', l, want[l], viol)
    return n


def check(e, desc, label, want, viol):
    r = bk.restore(e, e.root + '/r', label)
    if r.rc:
        viol.append(('%s: restore of %s fails: %r' % (desc, label, r), ''))
    else:
        df = pg.tree_diff(want, bk.snap(e.root + '/r'))
        if df:
            viol.append(('%s: backup %s restores to something else:\n%s' % (desc, label, '\n'.join(df)), ''))
    return 1


def worker(arg):
    idx, typ, prior, names, chunk, again, variants = arg
    root = core.scratch('w%d' % idx)
    viol, keys, n, t = [], set(), 0, 0
    e = pg.Env(root + '/w')
    e.conf(manifest_save_threshold='1', **bk.store(*names))
    snaps = prepare(e, prior)
    new = bk.snap(e.pg)
    it = bk.crashes(e, lambda e, log: e.run('backup', type=typ, online=False, log=log), root + '/log', chunk=chunk, variants=variants)
    _, r, ops = next(it)
    if r.rc:
        return dict(evals=1, viol=[('backup fails: %r' % r, '')])
    for desc, e2, key in it:
        t += 1
        keys.add(core.h((typ, prior, names, key)))
        n += judge(e2, '%s backup %r, %s' % (typ, names, desc), snaps, new, typ, viol, again)
        if len(viol) > 3:
            break
    pg.rmtree(root)
    return dict(evals=n, trans=t, keys=keys, viol=viol[:4], samples=['%s prior=%d %r: %d operations' % (typ, prior, names, len(ops))] if chunk[0] == 0 else [])


def faults(arg):
    """operation k of the backup fails (and, sticky, all later ones)"""
    idx, typ, prior, names, chunk, sticky, err = arg
    root = core.scratch('f%d' % idx)
    viol, keys, n, t = [], set(), 0, 0
    e = pg.Env(root + '/w')
    e.conf(manifest_save_threshold='1', **bk.store(*names))
    snaps = prepare(e, prior)
    new = bk.snap(e.pg)
    e0 = bk.clone_env(e, root + '/x')
    e0.ctl.reset()
    e0.run('backup', type=typ, online=False, ok=True)
    total = e0.ctl.s.op
    for k in range(1, total + 1):
        if k % chunk[1] != chunk[0]:
            continue
        e2 = bk.clone_env(e, root + '/x')
        e2.ctl.fault(k, 1, err, sticky)
        r = e2.run('backup', type=typ, online=False)
        hit = e2.ctl.s.faultHit
        e2.ctl.reset()
        if not hit:
            continue
        t += 1
        keys.add(core.h((typ, prior, names, 'fault', k, sticky)))
        desc = '%s backup %r, operation %d of %d fails%s (errno %d) -> rc=%d' % (typ, names, k, total, ' and all later ones' if sticky else '', err, r.rc)
        n += judge(e2, desc, snaps, new, typ, viol)
        if len(viol) > 3:
            break
    pg.rmtree(root)
    return dict(evals=n, trans=t, keys=keys, viol=viol[:4])


def main():
    c = core.Check('P07', 'fault_enumeration')
    core.build()
    jobs, fj = [], []
    N = 4
    if not c.thorough:
        conf = [('full', 1, ('plain',), None), ('incr', 1, ('plain',), None), ('incr', 2, ('block', 'gz'), None), ('full', 0, ('enc', 'bundle'), None),
                ('diff', 2, ('hard',), None), ('full', 1, ('gz', 'plain'), 'incr'), ('incr', 1, ('enc', 'blockbig', 'zst'), None), ('full', 1, ('par', 'lz4'), None),
                ('incr', 2, ('bundle', 'delta'), 'full')]
        fconf = [('incr', 1, ('plain',), 0, 28), ('full', 0, ('block',), 1, 5)]
        var = ('proc', 'power', 'reord')
    else:
        conf, fconf = [], []
        for st in ((), ('bundle',), ('block',), ('hard',)):
            for comp in ('plain', 'gz', 'zst'):
                for enc in ((), ('enc',)):
                    for typ, prior, again in (('full', 0, None), ('full', 1, 'incr'), ('full', 1, None), ('incr', 2, None), ('diff', 2, None), ('incr', 1, 'full')):
                        conf.append((typ, prior, (comp,) + enc + st, again))
                    fconf += [('full', 0, (comp,) + enc + st, 0, 28), ('incr', 1, (comp,) + enc + st, 1, 5), ('full', 1, (comp,) + enc + st, 1, 28)]
        var = ('proc', 'power', 'reord')
        N = 2
    for typ, prior, names, again in conf:
        for i in range(N):
            jobs.append((len(jobs), typ, prior, names, (i, N), again, var))
    for r in core.pmap(worker, jobs):
        c.merge(r)
    c.phase('crash')
    for typ, prior, names, sticky, err in fconf:
        for i in range(N * 2):
            fj.append((len(fj), typ, prior, names, (i, N * 2), sticky, err))
    for r in core.pmap(faults, fj):
        c.merge(r)
    c.rule = 'every crash point under three survival models, and every failing operation, of full/diff/incr backups per storage configuration; all listed backups and the next one restored and compared'
    c.assumptions = ['ordered-metadata journalling file system', 'offline backups']
    c.finish()


if __name__ == '__main__':
    main()
