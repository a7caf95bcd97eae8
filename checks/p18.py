#!/usr/bin/env python3
"""P18: every crash point and every failing operation of expire, on real backups (restored afterwards) and on synthesised repositories with
WAL (compared with the retention model of P17); dry run and second run change nothing."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pgb import core, pg, bk
import p17
DAY = 86400


def content(e, repo=1):
    """the repository without the convenience links, leftover temporary files and the second copy of the info file (which an interruption
    may leave one update behind; P05 covers which copy is used)"""
    t = pg.tree(e.repo(repo), content=False)
    t = {k: v for k, v in t.items() if v[0] != 'link' and not k.endswith(('.pgbackrest.tmp', '.info.copy'))}
    if 'repo1-cipher-type' in e.opts and 'backup/demo/backup.info' in t:        # encrypted with a new salt each time
        t['backup/demo/backup.info'] = ('list', bk.backups(e))
    return t


def real(root, types, names, o):
    e = pg.Env(root)
    e.conf(**dict(bk.store(*names), expire_auto='n'))
    e.cluster({'base/1/%d' % i: (bk.blob(i, 9000), pg.T0 - 5000) for i in range(3)})
    e.run('stanza-create', online=False, ok=True)
    hist, snaps = [], {}
    for i, ty in enumerate(types):
        e.advance(DAY)
        pg.put(e.pg + '/base/1/%d' % (i % 3), bk.blob(('v', i), 9000 + i), e.now() - 10)
        pg.put(e.pg + '/base/1/%d' % (100 + i), bk.blob(('n', i), 5000 + i), e.now() - 10)
        snap = bk.snap(e.pg)
        e.run('backup', type={'F': 'full', 'D': 'diff', 'I': 'incr'}[ty], online=False, ok=True)
        b = p17.B()
        b.i, b.type, b.label, b.pgid, b.wal, b.stop_t = i, ty, bk.backups(e)[-1], 1, None, e.now()
        full = [x for x in hist if x.type == 'F']
        b.prior = None if ty == 'F' else full[-1] if ty == 'D' else hist[-1]
        snaps[b.label] = snap
        hist.append(b)
    return e, hist, snaps


def kwargs(hist, o):
    kw = p17.cmdopts(o)
    if 'set' in o:
        kw['set'] = hist[o['set']].label
    if o.get('oldest'):
        kw['oldest'] = True
    return kw


def restorable(e, desc, labels, must, snaps, viol, root):
    n = 0
    for l in labels:
        r = bk.restore(e, root + '/r', l)
        n += 1
        if r.rc:
            if l in must:
                viol.append(('%s: restore of the kept backup %s fails: %r' % (desc, l, r), ''))
        else:
            df = pg.tree_diff(snaps[l], bk.snap(root + '/r'))
            if df:
                viol.append(('%s: %s restores to something else: %s' % (desc, l, '\n'.join(df)), ''))
    return n


def after(e, desc, hist, kept, snaps, o, final, viol, root, typ='incr'):
    """state after an interruption: kept backups listed and exact, the rest exact or refused; the same expire again ends the job"""
    n = 0
    must = {b.label for b in kept}
    r = e.run('info', output='json')
    if r.rc:
        viol.append(('%s: info fails %r' % (desc, r), ''))
        return 1
    lab = bk.backups(e)
    if not must <= set(lab):
        viol.append(('%s: %r no longer listed' % (desc, sorted(must - set(lab))), ''))
    n += restorable(e, desc, lab, must, snaps, viol, root)
    e2 = bk.clone_env(e, root + '/n')
    r = e.run('expire', **kwargs(hist, o))
    n += 1
    if r.rc and not ('set' in o and hist[o['set']].label not in lab):
        viol.append(('%s: expire run again fails: %r' % (desc, r), ''))
    df = pg.tree_diff(final, content(e))
    if df and r.rc == 0:
        viol.append(('%s: expire run again ends in another state than an uninterrupted one: %s' % (desc, '\n'.join(df)), ''))
    # a backup (with expiration off) right after the interruption
    e2.advance(600)
    pg.put(e2.pg + '/base/1/0', bk.blob('later', 9100), e2.now() - 5)
    want = bk.snap(e2.pg)
    r = e2.run('backup', type=typ, online=False)
    if r.rc:
        viol.append(('%s: the next backup fails: %r' % (desc, r), ''))
    else:
        l2 = bk.backups(e2)
        n += restorable(e2, desc + ', next backup', l2[-1:], l2[-1:], {l2[-1]: want}, viol, root)
        if not must <= set(l2):
            viol.append(('%s: %r no longer listed after the next backup' % (desc, sorted(must - set(l2))), ''))
    return n


def worker(arg):
    idx, types, names, o, chunk, kind = arg
    root = core.scratch('w%d' % idx)
    viol, keys, n, t = [], set(), 0, 0
    e, hist, snaps = real(root + '/w', types, names, o)
    kept = p17.policy(hist, o, e.now())[0]
    pre = content(e)
    desc0 = 'history %s %r options %r' % (types, names, o)
    # uninterrupted
    x = bk.clone_env(e, root + '/x')
    r = x.run('expire', dry_run=True, **kwargs(hist, o))
    if r.rc or pg.tree(x.repo()) != pg.tree(e.repo()):
        viol.append(('%s: dry run rc=%d, changes %r' % (desc0, r.rc, pg.tree_diff(pg.tree(e.repo()), pg.tree(x.repo()))), ''))
    x.ctl.reset()
    x.run('expire', ok=True, **kwargs(hist, o))
    total = x.ctl.s.op
    final = content(x)
    if 'set' not in o and not o.get('oldest'):
        r = x.run('expire', **kwargs(hist, o))
        if r.rc or content(x) != final:
            viol.append(('%s: a second run changes the repository' % desc0, repr(r)))
    if sorted(bk.backups(x)) != sorted(b.label for b in kept):
        viol.append(('%s: expire keeps %r' % (desc0, bk.backups(x)), ''))
    if kind == 'crash':
        it = bk.crashes(e, lambda e, log: e.run('expire', log=log, **kwargs(hist, o)), root + '/log', chunk=chunk)
        next(it)
        for desc, e2, key in it:
            t += 1
            keys.add(core.h((types, names, sorted(o.items()), key)))
            n += after(e2, desc0 + ', ' + desc, hist, kept, snaps, o, final, viol, root)
            if len(viol) > 3:
                break
    else:
        for k in range(1, total + 1):
            if k % chunk[1] != chunk[0]:
                continue
            e2 = bk.clone_env(e, root + '/x')
            e2.ctl.fault(k, 1, 5, kind == 'sticky')
            r = e2.run('expire', **kwargs(hist, o))
            hit = e2.ctl.s.faultHit
            e2.ctl.reset()
            if not hit:
                continue
            t += 1
            keys.add(core.h((types, names, sorted(o.items()), k, kind)))
            desc = '%s, operation %d of %d fails (%s), rc=%d' % (desc0, k, total, kind, r.rc)
            if r.rc == 0 and content(e2) != final:
                viol.append(('%s: success reported but the state differs: %s' % (desc, pg.tree_diff(final, content(e2))), repr(r)))
            n += after(e2, desc, hist, kept, snaps, o, final, viol, root)
            if len(viol) > 3:
                break
    pg.rmtree(root)
    return dict(evals=n, trans=t, keys=keys, viol=viol[:4], samples=['%s %s: %d operations' % (desc0, kind, total)] if chunk[0] == 0 else [])


def synth(arg):
    """archive side: synthesised repository with WAL"""
    idx, ver, types, upgrade, o, kind, chunk = arg
    root = core.scratch('y%d' % idx)
    viol, keys, n, t = [], set(), 0, 0
    hist = p17.history(types, upgrade)
    now = hist[-1].stop_t
    e = pg.Env(root + '/w')
    e.conf(log_level_console='off')
    pg.rmtree(e.repo())
    files = p17.make(e.repo(), 'demo', hist, upgrade is not None, ver, orphan=True)
    e.ctl.s.timeUs = now * 1000000
    kept, at, an = p17.policy(hist, o, now)
    wa = p17.archive_policy(kept, at, an, files, 2 if upgrade is not None else 1)
    wb = {b.label for b in kept}
    desc0 = 'history %s upgrade %r options %r' % (types, upgrade, o)
    x = bk.clone_env(e, root + '/x')
    x.ctl.s.timeUs = now * 1000000
    x.ctl.reset()
    x.run('expire', ok=True, **kwargs(hist, o))
    total = x.ctl.s.op
    final = content(x)

    def look(e2, desc):
        arch, backs, hs = p17.scan(e2.repo(), 'demo')
        if not wa <= arch:
            viol.append(('%s: WAL needed by kept backups removed: %r' % (desc, sorted(wa - arch)[:5]), ''))
        for l in wb:
            if sorted(os.listdir(e2.repo() + '/backup/demo/' + l)) != ['backup.manifest', 'backup.manifest.copy', 'pg_data'] if l in backs else True:
                viol.append(('%s: kept backup %s damaged' % (desc, l), ''))
        # a backup with its manifest that is still listed must have all WAL it needs
        ini = pg.info_ini(e2.repo() + '/backup/demo/backup.info')
        for b in hist:
            if b.label in ini.get('backup:current', {}) and os.path.exists(e2.repo() + '/backup/demo/%s/backup.manifest' % b.label):
                need = {f for f in files if f[0] == b.pgid and not f[1].endswith('.history') and b.wal[0] <= f[1][:24] <= b.wal[1]}
                if not need <= arch:
                    viol.append(('%s: backup %s is listed but its WAL is gone: %r' % (desc, b.label, sorted(need - arch)[:4]), ''))
        r = e2.run('expire', **kwargs(hist, o))
        if r.rc:
            viol.append(('%s: expire run again fails %r' % (desc, r), ''))
        elif content(e2) != final:
            viol.append(('%s: expire run again ends in another state: %s' % (desc, pg.tree_diff(final, content(e2))), ''))
    if kind == 'crash':
        it = bk.crashes(e, lambda e, log: e.run('expire', log=log, **kwargs(hist, o)), root + '/log', chunk=chunk)
        next(it)
        for desc, e2, key in it:
            n += 2
            t += 1
            keys.add(core.h((types, upgrade, sorted(o.items()), key)))
            e2.ctl.s.timeUs = now * 1000000
            look(e2, desc0 + ', ' + desc)
            if len(viol) > 3:
                break
    else:
        for k in range(1, total + 1):
            if k % chunk[1] != chunk[0]:
                continue
            e2 = bk.clone_env(e, root + '/x')
            e2.ctl.s.timeUs = now * 1000000
            e2.ctl.fault(k, 1, 13, kind == 'sticky')
            r = e2.run('expire', **kwargs(hist, o))
            hit = e2.ctl.s.faultHit
            e2.ctl.reset()
            if not hit:
                continue
            n += 2
            t += 1
            keys.add(core.h((types, upgrade, sorted(o.items()), k, kind)))
            desc = '%s, operation %d of %d fails (%s), rc=%d' % (desc0, k, total, kind, r.rc)
            if r.rc == 0 and content(e2) != final:
                viol.append(('%s: success reported but the state differs: %s' % (desc, pg.tree_diff(final, content(e2))), repr(r)))
            look(e2, desc)
            if len(viol) > 3:
                break
    pg.rmtree(root)
    return dict(evals=n, trans=t, keys=keys, viol=viol[:4])


def main():
    c = core.Check('P18', 'fault_enumeration')
    core.build()
    r = list(core.pmap(p17.conform, [0]))[0]
    c.merge(r)
    ver = r.get('version', '0')
    jobs, sj = [], []
    conf = [('FDIF', ('plain',), dict(full=1)), ('FIFI', ('block', 'gz'), dict(full=1)), ('FDDI', ('plain',), dict(diff=1)), ('FDIFD', ('hard',), dict(set=1)),
            ('FFI', ('enc',), dict(oldest=True)), ('FFF', ('bundle',), dict(ftype='time', full=1))]
    if c.thorough:
        conf += [(s, n, o) for s in ('FFF', 'FDFD', 'FIIF', 'FDIFDI', 'FFIFD') for n in (('plain',), ('block', 'zst', 'enc'), ('hard', 'gz'))
                 for o in (dict(full=1), dict(full=2, diff=1), dict(oldest=True), dict(set=0), dict(diff=1))]
    N = 3
    for s, names, o in conf:
        for kind in ('crash', 'fault', 'sticky'):
            if kind == 'sticky' and not c.thorough and len(jobs) > 20:
                continue
            for i in range(N):
                jobs.append((len(jobs), s, names, o, (i, N), kind))
    for r in core.pmap(worker, jobs):
        c.merge(r)
    c.phase('real')
    sc = [('FDF', None, dict(full=1)), ('FIFD', 1 + 1, dict(full=1)), ('FFD', None, dict(full=2, arch=1, atype='diff')), ('FIF', 2, dict(full=2, arch=1))]
    if c.thorough:
        sc += [(s, u, o) for s in ('FFF', 'FDIF', 'FFIF', 'FIFDF') for u in (None, len(s) - 1) for o in (dict(full=1), dict(full=2, arch=1), dict(full=1, diff=1, atype='incr', arch=1), dict(oldest=True))]
    for s, u, o in sc:
        for kind in ('crash', 'fault', 'sticky'):
            for i in range(2):
                sj.append((len(sj), ver, s, u, o, kind, (i, 2)))
    for r in core.pmap(synth, sj):
        c.merge(r)
    c.rule = 'every crash point (three survival models) and every single or persistent operation failure of expire per history and setting; every listed backup restored, expire repeated, next backup taken'
    c.assumptions = ['ordered-metadata journalling file system', 'the "latest" link is a convenience and not part of the compared state']
    c.finish()


if __name__ == '__main__':
    main()
