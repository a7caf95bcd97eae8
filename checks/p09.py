#!/usr/bin/env python3
"""P09: at every open/read/stat of a cluster file during an online backup, one cluster file is changed in every way; then the backup is
verified, restored and followed by an incremental backup."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pgb import core, pg, bk, fakepg, sched

FILES = {'base/1/10': 20000, 'base/1/11': 60000, 'base/1/12': 3 * 8192, 'pg_xact/0000': 9000, 'base/1/13': 0}
MUT = ['grow', 'shrink', 'empty', 'overwrite', 'remove', 'replace', 'replace-small', 'grow-overwrite', 'tail']


def mutate(e, rel, how, tag):
    """change the file as another process would; returns the new content (None = gone)"""
    p = e.pg + '/' + rel
    try:
        old = open(p, 'rb').read()
    except FileNotFoundError:
        return None
    new = old
    if how == 'remove':
        os.unlink(p)
        return None
    if how == 'grow':
        new = old + bk.blob('g' + tag, 8192)
        with open(p, 'ab') as f:
            f.write(new[len(old):])
    elif how == 'shrink':
        new = old[:len(old) // 2]
        os.truncate(p, len(new))
    elif how == 'empty':
        new = b''
        os.truncate(p, 0)
    elif how in ('overwrite', 'grow-overwrite', 'tail'):
        d = bytearray(old)
        rg = range(0, len(d), 1000) if how != 'tail' else range(max(0, len(d) - 10), len(d))
        for k in rg:
            d[k] ^= 0x5a
        if how == 'grow-overwrite':
            d += bk.blob('h' + tag, 20000)
        new = bytes(d)
        with open(p, 'r+b') as f:
            f.write(new)
    elif how in ('replace', 'replace-small'):
        new = bk.blob('r' + tag, len(old) + 5000 if how == 'replace' else max(1, len(old) // 3))
        pg.put(p + '.x', new)
        os.rename(p + '.x', p)
    t = e.now()
    os.utime(p, (t, t))
    return new


def run(e, hook, **opt):
    """online backup with hook(n, op, rel) called before the n-th operation on a cluster file"""
    p = fakepg.FakePg(e)
    srv = fakepg.Server(e, p)
    cnt = [0]

    def on_msg(i, op, path):
        rel = path[len(e.pg) + 1:]
        if op in ('openr', 'read', 'stat') and path.startswith(e.pg + '/'):
            cnt[0] += 1
            if hook:
                hook(cnt[0], op, rel, p)
        return 0
    env = e.environ()
    env['PGSHIM_SCHEDMATCH'] = e.pg + '/'
    x = sched.Run(e.root + '/sched', [(e.argv('backup', archive_check=False, start_fast=True, **opt), env)], e.root)
    x.go(lambda en, st: (list(en)[0], 0), on_msg=on_msg)
    srv.close()
    if srv.err:
        raise RuntimeError(srv.err)
    return x.rc[0], x.out[0], p


def world(root, store, prior):
    e = pg.Env(root)
    e.conf(**bk.store(*store))
    e.cluster({k: (bk.blob(k, n), pg.T0 - 5000) for k, n in FILES.items()})
    e.run('stanza-create', online=False, ok=True)
    if prior:
        # with a prior backup the copy also goes through checksum comparison
        rc, out, _ = run(e, None, type='full')
        if rc:
            raise pg.Unexpected(out)
        e.advance(86400)
        for k in ('base/1/11', 'base/1/12'):
            mutate(e, k, 'tail', 'p')
        e.advance(100)
    return e


def scenario(arg):
    idx, store, prior, opt, plan, chunk = arg
    root = core.scratch('s%d' % idx)
    viol, keys, n = [], set(), 0
    e0 = world(root + '/w', store, prior)
    points = []
    e = bk.clone_env(e0, root + '/c')
    rc, out, _ = run(e, lambda k, op, rel, p: points.append((k, op, rel)), type='incr' if prior else 'full', **opt)
    if rc:
        raise pg.Unexpected(out)
    first = {f: min([k for k, op, rel in points if rel == f and op == 'stat'], default=1 << 30) for f in FILES}
    # interesting points: those of the files in question and of what is copied around them (all in the thorough tier)
    cases = []
    for k, op, rel in points:
        for f in FILES:
            if rel != f and plan != 'all' and (not rel.startswith(('base/1', 'pg_xact')) or op == 'read'):
                continue
            if rel != f and plan == 'own':
                continue
            for m in MUT:
                if FILES[f] == 0 and m not in ('grow', 'remove', 'replace'):
                    continue
                cases.append((k, op, rel, f, m))
    for k, op, rel, f, m in cases[chunk[0]::chunk[1]]:
        e = bk.clone_env(e0, root + '/c')
        orig = {x: open(e.pg + '/' + x, 'rb').read() for x in FILES}
        st = {}

        def hook(n_, op_, rel_, p):
            if n_ == k:
                st['new'] = mutate(e, f, m, 'a')
                st['at'] = (op_, rel_, p.in_backup)
        rc, out, p = run(e, hook, type='incr' if prior else 'full', **opt)
        n += 1
        keys.add(core.h((store, prior, opt, k, f, m)))
        desc = 'store %r%s: %s of %s at operation %d (%s %s)' % (store, ' with prior backup' if prior else '', m, f, k, op, rel)
        if 'at' not in st:
            continue
        if rc:
            viol.append(('%s: backup fails: %s' % (desc, out[-600:]), out))
            continue
        lab = bk.backups(e)[-1]
        v = e.run('verify', output='text')
        if 'status: error' in v.all or v.rc:
            viol.append(('%s: verify reports %r' % (desc, v), out))
        rr = bk.restore(e, root + '/r', lab)
        n += 1
        if rr.rc:
            viol.append(('%s: backup cannot be restored: %r' % (desc, rr), out))
            continue
        for x in FILES:
            q = root + '/r/' + x
            got = open(q, 'rb').read() if os.path.exists(q) else None
            if x != f:
                if got != orig[x]:
                    viol.append(('%s: untouched file %s was restored with other content' % (desc, x), out))
                continue
            old, new = orig[x], st['new']
            if got is None:
                if new is not None:
                    viol.append(('%s: file is missing in the backup' % desc, out))
            elif new is None:
                if got != old:
                    viol.append(('%s: restored content (%d bytes) is not the original' % (desc, len(got)), out))
            else:
                if k > first[f] and len(got) > len(old):
                    viol.append(('%s: restored file has %d bytes, %d were there at the start' % (desc, len(got), len(old)), out))
                bad = [i for i in range(0, len(got)) if not (got[i:i + 1] == old[i:i + 1] or got[i:i + 1] == new[i:i + 1])]
                if bad:
                    viol.append(('%s: byte %d of the restored file is neither the old nor the new one' % (desc, bad[0]), out))
        # the next backup must pick up what was changed meanwhile
        e.advance(60)
        rc, out2, _ = run(e, None, type='incr', **opt)
        n += 1
        if rc:
            viol.append(('%s: next incremental backup fails: %s' % (desc, out2[-400:]), out2))
            continue
        rr = bk.restore(e, root + '/r', bk.backups(e)[-1])
        n += 1
        for x in FILES:
            a = open(e.pg + '/' + x, 'rb').read() if os.path.exists(e.pg + '/' + x) else None
            b = open(root + '/r/' + x, 'rb').read() if os.path.exists(root + '/r/' + x) else None
            if a != b or rr.rc:
                viol.append(('%s: %s restored from the next incremental backup differs from the cluster' % (desc, x), out2))
                break
        if len(viol) > 3:
            break
    pg.rmtree(root)
    return dict(evals=n, keys=keys, viol=viol, note=dict(points=len(points) if chunk[0] == 0 else 0), samples=['%r: %d operations on cluster files' % (store, len(points))])


def main():
    c = core.Check('P09')
    core.build()
    jobs = []
    if c.thorough:
        conf = [((s, z), pr, o, 'all') for s in ('plain', 'bundle', 'block', 'enc', 'delta') for z in ('plain', 'gz', 'zst') for pr in (0, 1) for o in ({}, dict(buffer_size='16KiB'))]
        N = 8
    else:
        conf = [(('plain',), 0, {}, 'some'), (('block', 'zst'), 1, {}, 'own'), (('delta', 'gz'), 1, {}, 'own'), (('bundle',), 0, dict(buffer_size='16KiB'), 'own')]
        N = 8
    for st, pr, o, plan in conf:
        for i in range(N):
            jobs.append((len(jobs), st, pr, o, plan, (i, N)))
    for r in core.pmap(scenario, jobs):
        c.merge(r)
    c.rule = 'every open, read and stat of a cluster file during the backup x file changed there x way of changing it x storage configuration'
    c.assumptions = ['one change per backup', 'file times advance with the clock']
    c.finish()


if __name__ == '__main__':
    main()
