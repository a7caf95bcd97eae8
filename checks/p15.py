#!/usr/bin/env python3
"""P15: selective restore keeps exactly the requested databases: every include/exclude selection over a cluster with look-alike database ids
and names, in base and in tablespaces, x storage formats x fresh and delta restore."""
import hashlib, itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pgb import core, pg, bk, fakepg

TSV = 'PG_16_202307071'
# id -> name in pg_database; LATE appears on disk only, NOFILE in pg_database only
DBS = [(1, 'template1'), (4, 'template0'), (16390, 'postgres'), (16384, 'test1'), (163841, 'test2'), (16385, '16387'), (16387, 'weird'), (16393, 'tsonly'),
       (16392, 'nofile'), (16395, 'Te.t1')]
LATE = 16391
DISK = [1, 4, 16390, 16384, 163841, 16385, 16387, 16395, LATE, 116384]
INTS = {7: [16384, 163841, 16393], 77: [16385, 16384, LATE]}
TOKENS = ['test1', '16384', 'test2', '163841', '16385', '16387', 'weird', 'tsonly', '16393', 'postgres', '16390', '1', 'nofile', '16391', '116384', 'nope', '99', 'Te.t1']


def build(e, st, incr):
    e.conf(**bk.store(*st), archive_check='n', start_fast='y')
    e.cluster({})
    for d in DISK:
        e.file('base/%d/PG_VERSION' % d, b'16\n')
        for i, n in enumerate((0, 1, 8192, 20000)):
            e.file('base/%d/%d' % (d, 20000 + i), bk.blob('%d.%d' % (d, i), n))
        e.file('base/%d/pg_filenode.map' % d, bk.blob('m%d' % d, 512))
    for t, dbs in INTS.items():
        os.makedirs(e.root + '/ts/%d' % t)
        os.symlink(e.root + '/ts/%d' % t, e.pg + '/pg_tblspc/%d' % t)
        for d in dbs:
            p = e.root + '/ts/%d/%s/%d/' % (t, TSV, d)
            pg.put(p + 'PG_VERSION', b'16\n', e.now() - 5000)
            pg.put(p + '30000', bk.blob('t%d.%d' % (t, d), 9000), e.now() - 5000)
    e.file('pg_xact/0000', bk.blob('x', 8192))
    e.file('base/16384x', b'stray')
    e.file('global/1260', bk.blob('g', 8192))
    p = fakepg.FakePg(e)
    p.dbs = DBS
    p.tablespaces = [(1663, 'pg_default'), (1664, 'pg_global'), (7, 'ts7'), (77, 'ts77')]
    srv = fakepg.Server(e, p)
    try:
        e.run('stanza-create', ok=True)
        e.run('backup', type='full', ok=True)
        if incr:
            e.advance(5000)
            for d in (16384, 163841):
                e.file('base/%d/20002' % d, bk.blob('n%d' % d, 8192), e.now() - 900)
            pg.put(e.root + '/ts/7/%s/16384/30000' % TSV, bk.blob('tn', 9500), e.now() - 900)
            e.run('backup', type='incr', ok=True)
    finally:
        srv.close()


def model(inc, exc):
    """set of zeroed database ids or None when refused"""
    disk = set(DISK) | {d for l in INTS.values() for d in l}
    system = {i for i, n in DBS if n in ('postgres', 'template0', 'template1') or i < 16384}
    ids = {str(i) for i in disk | system}
    names = {n: i for i, n in DBS}

    def res(t):
        if t in ids:
            return int(t)
        if t in names and str(names[t]) in ids:
            return names[t]
        return None
    ex = [res(t) for t in exc]
    if None in ex:
        return None
    i2 = [res(t) for t in inc]
    if None in i2 or any(i in system or i in ex for i in i2):
        return None
    if not inc:
        return set(ex)
    return disk - set(i2) - (system - set(ex))


def zero(v, size):
    return ('file', hashlib.sha1(b'\0' * size).hexdigest()) + v[2:]


def run(a):
    _, idx, st, incr, delta, sels = a
    root = core.scratch('s%d' % idx)
    e = pg.Env(root)
    build(e, st, incr)
    src = {'pg/' + k: v for k, v in bk.snap(e.pg).items() if not k.startswith(('pg_wal', 'global/pg_control', 'pg_tblspc/'))}
    for t in INTS:
        src.update({'rts/ts%d/%s' % (t, k): v for k, v in bk.snap(e.root + '/ts/%d' % t).items()})
    size = {}
    for k in src:
        p = e.root + '/' + (k if k.startswith('pg/') else k.replace('rts/ts', 'ts/'))
        size[k] = os.path.getsize(p)
    viol, keys, ev = [], set(), 0
    for inc, exc in sels:
        zeroed = model(inc, exc)
        rep = repr((a[:5], inc, exc))
        if not delta:
            pg.rmtree(root + '/rst')
            pg.rmtree(root + '/rts')
        os.makedirs(root + '/rst', mode=0o700, exist_ok=True)
        kw = {}
        if delta:
            # over whatever the previous selection left
            kw = dict(delta=True)
            if not os.path.exists(root + '/rst/PG_VERSION'):
                bk.restore(e, root + '/rst', fresh=False, ok=True, tablespace_map_all=root + '/rts')
        before = (pg.tree(root + '/rst'), pg.tree(root + '/rts')) if zeroed is None else None
        r = bk.restore(e, root + '/rst', fresh=False, db_include=list(inc), db_exclude=list(exc), tablespace_map_all=root + '/rts', type='none', **kw)
        ev += 1
        keys.add(core.h((st, incr, delta, inc, exc)))
        what = 'restore include %s exclude %s (%s%s)' % (inc, exc, '+'.join(st) or 'plain', ' delta' if delta else '')
        if zeroed is None:
            if r.rc == 0:
                viol.append(('%s is not refused' % what, rep))
            elif before != (pg.tree(root + '/rst'), pg.tree(root + '/rts')):
                viol.append(('%s is refused but changed the destination' % what, rep))
            continue
        if r.rc:
            viol.append(('%s fails: %r' % (what, r), rep))
            continue
        got = {'pg/' + k: v for k, v in bk.snap(root + '/rst').items() if not k.startswith(('pg_wal', 'global/pg_control', 'pg_tblspc/', 'backup_label', 'tablespace_map', 'postgresql.auto', 'recovery'))}
        for t in INTS:
            got.update({'rts/ts%d/%s' % (t, k): v for k, v in bk.snap(root + '/rts/ts%d' % t).items()})
        for k in set(src) | set(got):
            w = src.get(k)
            parts = k.split('/')
            db = None
            if w and w[0] == 'file' and not k.endswith('/PG_VERSION'):
                if parts[:2] == ['pg', 'base'] and len(parts) == 4:
                    db = int(parts[2])
                elif parts[0] == 'rts' and len(parts) == 5:
                    db = int(parts[3])
            if db in zeroed and db is not None:
                w = zero(w, size[k])
                p = root + '/' + k.replace('pg/', 'rst/', 1) if k.startswith('pg/') else root + '/' + k
                if got.get(k) and got[k][:2] == w[:2] and size[k] > 8000 and os.stat(p).st_blocks:
                    viol.append(('%s: %s of a database left out is not sparse' % (what, k), rep))
            g = got.get(k)
            if g != w:
                viol.append(('%s: %s is %r instead of %r%s' % (what, k, g, w, ' (zeros)' if db in zeroed else ''), rep))
                break
        if len(viol) > 4:
            break
    pg.rmtree(root)
    return dict(evals=ev, trans=ev, keys=keys, viol=viol[:5])


def main():
    c = core.Check('P15', 'exploration')
    core.build()
    deep = c.thorough
    sub = [()] + [(t,) for t in TOKENS]
    two = list(itertools.combinations(TOKENS, 2))
    base = list(itertools.product(sub, sub))[1:]
    more = [(x, ()) for x in two] + [((), x) for x in two] + [(tuple(reversed(x)), ()) for x in two]
    if deep:
        more += [(x, (y,)) for x in two for y in TOKENS] + [((y,), x) for x in two for y in TOKENS]
        more += [(x, ()) for x in itertools.combinations(TOKENS[:12], 3)]
    jobs = []
    cf = [((), 0, 0), (('block', 'zst'), 1, 0), (('bundle', 'enc'), 0, 1), ((), 1, 1)]
    if deep:
        cf += [(('gz', 'enc'), 1, 0), (('block',), 1, 1)]
    for n, (st, incr, delta) in enumerate(cf):
        sel = base + more if n == 0 or deep else base[n::3] + more[n::3]
        k = max(1, len(sel) // 60)
        for i in range(k):
            jobs.append(('sel', len(jobs), st, incr, delta, sel[i::k]))
    for r in core.pmap(run, jobs):
        c.merge(r)
    c.rule = ('every selection of up to one (thorough: two) databases to include and exclude plus all pairs of either over %d names/ids (look-alike ids, ids used as names, system databases, '
              'unknown, created during backup, without files) x storage formats x fresh/delta restores, whole restored trees compared' % len(TOKENS))
    c.assumptions = ['cluster of 11 databases and 2 tablespaces']
    c.finish()


if __name__ == '__main__':
    main()
