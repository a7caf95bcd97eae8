#!/usr/bin/env python3
"""P12: every crash point of a restore: the control file is there only with everything else complete; restoring again converges."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pgb import core, pg, bk, fsmodel

FILES = {'base/1/100': (bk.blob('a', 3 * 8192), pg.T0 - 5000), 'base/1/101': (bk.blob('b', 70000), pg.T0 - 5000),
         'base/1/102': (b'', pg.T0 - 5000), 'pg_xact/0000': (bk.blob('c', 300), pg.T0 - 5000), 'postgresql.conf': (b'# conf\n', pg.T0 - 5000),
         'global/1262': (bk.blob('g', 8192), pg.T0 - 5000)}
VOLATILE = ('postgresql.auto.conf', 'recovery.conf')


def build(e, ts, lnk):
    e.cluster(FILES)
    if ts:
        d = e.root + '/ts/PG_16_202307071/1'
        pg.put(d + '/500', bk.blob('ts', 9000), pg.T0 - 5000)
        os.chmod(e.root + '/ts', 0o700)
        os.symlink(e.root + '/ts', e.pg + '/pg_tblspc/16400')
    if lnk:
        pg.put(e.root + '/lnk/real.conf', b'linked', pg.T0 - 5000)
        os.symlink(e.root + '/lnk/real.conf', e.pg + '/pg_hba.conf')
    e.run('stanza-create', online=False, ok=True)
    e.run('backup', type='full', online=False, ok=True)
    e.advance(1000)
    d = bytearray(open(e.pg + '/base/1/101', 'rb').read())
    d[30000:30010] = b'0123456789'
    pg.put(e.pg + '/base/1/101', bytes(d), e.now() - 100)
    pg.put(e.pg + '/base/1/103', bk.blob('new', 20000), e.now() - 100)
    e.run('backup', type='incr', online=False, ok=True)


def view(dest, ts, mtime=True):
    t = {}
    for base, n in ((dest, 'pg'), (ts, 'ts')):
        if base and os.path.isdir(base):
            for k, v in pg.tree(base, content=False, mtime=mtime).items():
                if k.split('/')[-1] in VOLATILE and v[0] == 'file':
                    v = ('file', 'recovery settings')
                if k.endswith('.signal') and v[0] == 'file':
                    v = v[:3]
                if v[0] == 'link' and ts:
                    v = ('link', v[1].replace(os.path.dirname(ts), ''))
                elif v[0] == 'link':
                    v = ('link', v[1].replace(os.path.dirname(dest), ''))
                t[n + '/' + k] = v
    return t


def content(t):
    return {k: v[:2] for k, v in t.items() if v[0] != 'dir'}


def opts(e, typ, start, ts, lnk):
    o = dict(type=typ, pg1_path=e.root + '/dest')
    if ts:
        o['tablespace_map'] = '16400=%s/dts' % e.root
    if lnk:
        o['link_map'] = 'pg_hba.conf=%s/dlnk/hba' % e.root
    return o


def worker(arg):
    idx, names, start, typ, ts, lnk, chunk = arg
    root = core.scratch('w%d' % idx)
    e = pg.Env(root + '/w')
    e.conf(**bk.store(*names))
    build(e, ts, lnk)
    lab = bk.backups(e)
    dest = e.root + '/dest'
    os.makedirs(dest, mode=0o700)
    os.makedirs(e.root + '/dlnk', exist_ok=True)
    o = opts(e, typ, start, ts, lnk)
    if start != 'empty':
        e.run('restore', set=lab[0], ok=True, **o)
        # an older cluster with other content
        pg.put(dest + '/base/1/100', bk.blob('old', 3 * 8192), pg.T0 - 9000)
        pg.put(dest + '/base/1/999', bk.blob('old', 8192), pg.T0 - 9000)
        pg.put(dest + '/recovery.signal', b'')
        if start in ('delta', 'force'):
            o[start] = True
    before = view(dest, e.root + '/dts')
    only = ('repo', 'pg', 'ts', 'lnk', 'dest', 'dts', 'dlnk')
    log = root + '/log'
    fs = fsmodel.FS(e.root)
    r = e.run('restore', log=log, **o)
    if r.rc:
        return dict(evals=1, viol=[('restore fails: %r' % r, '')])
    final = view(dest, e.root + '/dts')
    ops = fsmodel.read_log(log)
    viol, keys, n, t = [], set(), 0, 0
    if not os.path.exists(dest + '/global/pg_control'):
        viol.append(('no control file after restore', ''))
    seen = set()
    cnt = 0
    for k, v, snap, key in fsmodel.crash_states(e.root, fs, ops):
        ik = hash(frozenset((p, x[0], x[1]) for p, x in snap.items() if '/dest' in p or '/dts' in p or '/dlnk' in p))
        if ik in seen:
            continue
        seen.add(ik)
        cnt += 1
        if cnt % chunk[1] != chunk[0]:
            continue
        t += 1
        keys.add(core.h((names, start, typ, ts, lnk, ik)))
        e2 = bk.clone_env(e, root + '/c', snap, only)
        op = '%s %s' % (ops[k - 1]['op'], ops[k - 1]['path'].replace(e.root, '')) if k else 'start'
        desc = '%r %s type=%s ts=%d link=%d, crash (%s) after operation %d of %d (%s)' % (names, start, typ, ts, lnk, v, k, len(ops), op)
        d2 = e2.root + '/dest'
        cur = view(d2, e2.root + '/dts')
        ctl = d2 + '/global/pg_control'
        if os.path.isfile(ctl) and pg.control_valid(open(ctl, 'rb').read()):
            if content(cur) != content(final) and content(cur) != content(before):
                viol.append(('%s: the destination has a valid control file although it is neither complete nor untouched:\n%s' % (
                    desc, '\n'.join(pg.tree_diff(content(final), content(cur)))), ''))
        if k == len(ops) and content(cur) != content(final):
            viol.append(('%s: after the restore succeeded a power loss undoes it:\n%s' % (desc, '\n'.join(pg.tree_diff(content(final), content(cur)))), ''))
        if lnk and k == len(ops) and v == 'power' and not os.path.exists(e2.root + '/dlnk/hba'):
            viol.append(('%s: linked file missing' % desc, ''))
        # again
        o2 = opts(e2, typ, start, ts, lnk)
        o2['delta'] = True
        e2.advance(100)
        r2 = e2.run('restore', **o2)
        n += 1
        if r2.rc:
            # nothing restored yet: refused like any directory that does not look like a cluster
            if r2.rc == 40 and not any(x[0] == 'file' and x[1] != 'recovery settings' for x in cur.values()) and start == 'empty':
                continue
            if r2.rc == 40 and start == 'empty' and not os.path.exists(d2 + '/PG_VERSION') and not os.path.exists(d2 + '/backup.manifest'):
                if not [x for x, y in cur.items() if y[0] == 'file' and not x.endswith('.pgbackrest.tmp')]:
                    continue
            viol.append(('%s: restoring again fails: %r' % (desc, r2), ''))
        else:
            df = pg.tree_diff(final, view(d2, e2.root + '/dts'))
            if df:
                viol.append(('%s: restoring again gives another result:\n%s' % (desc, '\n'.join(df)), ''))
            if lnk and open(e2.root + '/dlnk/hba', 'rb').read() != b'linked':
                viol.append(('%s: linked file wrong after restoring again' % desc, ''))
        if len(viol) > 3:
            break
    pg.rmtree(root)
    return dict(evals=n, trans=t, keys=keys, viol=viol[:4], samples=['%r %s %s: %d operations' % (names, start, typ, len(ops))] if chunk[0] == 0 else [])


def main():
    c = core.Check('P12', 'fault_enumeration')
    core.build()
    N = 4
    if not c.thorough:
        conf = [(('plain',), s, t, ts, ln) for s in ('empty', 'delta', 'force') for t in ('preserve', 'default', 'none') for ts, ln in ((0, 0), (1, 1))]
        conf += [(('plain',), 'empty', 'preserve', 1, 1), (('plain',), 'delta', 'immediate', 1, 0), (('block', 'zst'), 'delta', 'default', 0, 1),
                (('enc', 'bundle'), 'force', 'standby', 0, 0), (('gz', 'hard'), 'empty', 'default', 0, 0), (('par', 'lz4'), 'delta', 'default', 0, 0), (('blockbig', 'enc'), 'delta', 'preserve', 1, 0)]
    else:
        conf = [((cp,) + en + st, s, ty, ts, ln) for cp in ('plain', 'gz', 'zst') for en in ((), ('enc',)) for st in ((), ('bundle',), ('block',), ('par',))
                for s in ('empty', 'delta', 'force') for ty in ('preserve', 'default', 'standby') for ts, ln in ((0, 0), (1, 1))]
        N = 1
    jobs = []
    for x in conf:
        for i in range(N):
            jobs.append((len(jobs),) + x + ((i, N),))
    for r in core.pmap(worker, jobs):
        c.merge(r)
    c.rule = 'every crash point of the restore under three survival models; control file implies completeness; delta restore afterwards compared with the uninterrupted result'
    c.assumptions = ['ordered-metadata journalling file system', 'a crash before anything but directories was created in an empty destination may require emptying it (refused as not looking like a cluster)']
    c.finish()


if __name__ == '__main__':
    main()
