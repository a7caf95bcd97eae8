#!/usr/bin/env python3
"""P13: restore refuses unsafe destinations and never touches anything else: states of data directory, tablespace and link destinations x
options; every kind of foreign object at every place of the destination; outside trees compared."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pgb import core, pg, bk
import p35

TSV = p35.TSV
OPTS = {'none': {}, 'delta': dict(delta=True), 'force': dict(force=True), 'both': dict(delta=True, force=True)}
TOPS = ('d2', 'lnk', 'ts', 'map', 'out', 'near')


def outside(R):
    """things that are none of restore's business"""
    pg.put(R + '/out/dir/keep', b'keep')
    pg.put(R + '/out/dir/sub/keep2', b'keep2')
    pg.put(R + '/out/file', b'file')
    pg.put(R + '/out/dir/PG_VERSION', b'16\n')
    pg.put(R + '/out/dir/100', b'other')
    pg.put(R + '/d2/rst-sibling/base/1/100', b's')
    pg.put(R + '/d2/rst.old', b'o')
    pg.put(R + '/ts/7/PG_15_202209061/1/500', b'other version')
    pg.put(R + '/ts/7/stray', b's')
    pg.put(R + '/ts/8/%s/1/500' % TSV, b'not ours')
    pg.put(R + '/lnk/etc/other.conf', b'oc')
    pg.put(R + '/lnk/stat2/a', b'a')
    for d, dn, fn in os.walk(R + '/ts'):
        os.chmod(d, 0o700)
    for d, dn, fn in os.walk(R + '/lnk'):
        os.chmod(d, 0o700)


def canaries(R):
    t = {}
    for top in TOPS:
        if os.path.isdir(R + '/' + top):
            t.update(('%s/%s' % (top, k), v) for k, v in pg.tree(R + '/' + top, mtime=True).items())
    return {k: v for k, v in t.items() if k.split('/')[0] in ('out', 'near') or k.startswith(('d2/rst-sibling', 'd2/rst.old', 'ts/7/PG_15', 'ts/7/stray', 'ts/8', 'lnk/etc/other.conf', 'lnk/stat2'))}


def whole(R):
    return {t: pg.tree(R + '/' + t, mtime=True) for t in TOPS if os.path.isdir(R + '/' + t)}


def setup(root, st=()):
    e = pg.Env(root)
    p35.backup(e, p35.build(e, st))
    for d in ('d1', 'lnk', 'ts'):
        pg.rmtree(root + '/' + d)
    return e


# ---- destination states: one letter for the data directory, tablespace 7, link directory pg_stat, link file postgresql.conf
DATA = ('missing', 'empty', 'foreign', 'dironly', 'cluster', 'version', 'manifest', 'running', 'norwx', 'cluster-norwx', 'preserve')
TSS = ('missing', 'empty', 'foreign', 'norwx', 'sub')
LNK = ('missing', 'empty', 'foreign', 'norwx')
FIL = ('missing', 'dir', 'exists')


def make(R, dest, s):
    d, t, l, f = s
    if d != 'missing':
        os.makedirs(dest, mode=0o700)
    if d == 'foreign':
        pg.put(dest + '/data.txt', b'mine')
    if d == 'dironly':
        os.makedirs(dest + '/base')
    if d in ('cluster', 'cluster-norwx', 'running'):
        pg.put(dest + '/PG_VERSION', b'16\n')
        pg.put(dest + '/base/1/100', b'old')
        pg.put(dest + '/global/pg_control', b'c')
    if d == 'version':
        pg.put(dest + '/PG_VERSION', b'16\n')
    if d == 'manifest':
        pg.put(dest + '/backup.manifest', b'm')
    if d == 'preserve':
        pg.put(dest + '/postgresql.auto.conf', b'a = 1\n')
    if d == 'running':
        pg.put(dest + '/postmaster.pid', b'1\n')
    if d in ('norwx', 'cluster-norwx'):
        os.chmod(dest, 0o500)
    T = R + '/ts/7/' + TSV
    if t != 'missing':
        os.makedirs(T if t != 'sub' else R + '/ts/7', mode=0o700, exist_ok=True)
    if t == 'foreign':
        pg.put(T + '/9/900', b'mine')
    if t == 'norwx':
        os.chmod(T, 0o300)
    L = R + '/lnk/stat'
    if l != 'missing':
        os.makedirs(L, mode=0o700)
    if l == 'foreign':
        pg.put(L + '/mine', b'mine')
    if l == 'norwx':
        os.chmod(L, 0o600)
    if f != 'missing':
        os.makedirs(R + '/lnk/etc', mode=0o700, exist_ok=True)
    if f == 'exists':
        pg.put(R + '/lnk/etc/postgresql.conf', b'mine')


def refused(s, opt, typ, la):
    d, t, l, f = s
    destr = opt != 'none' and d in ('cluster', 'cluster-norwx', 'version', 'manifest', 'running')
    if d in ('running', 'norwx', 'cluster-norwx') or t == 'norwx' or (la and l == 'norwx'):
        return True
    if destr:
        return False
    if d in ('foreign', 'dironly', 'cluster', 'version') or (d == 'preserve' and typ != 'preserve'):
        return True
    return t == 'foreign' or (la and (l == 'foreign' or f == 'exists'))


def unlock(R):
    for d, dn, fn in os.walk(R):
        for x in dn:
            p = d + '/' + x
            if not os.path.islink(p):
                os.chmod(p, os.stat(p).st_mode | 0o700)


def states(a):
    _, idx, cases = a
    root = core.scratch('s%d' % idx)
    e = setup(root)
    dest = root + '/d2/rst'
    viol, keys, ev = [], set(), 0
    for s, opt, typ, la in cases:
        unlock(root + '/d2')
        for d in TOPS:
            if os.path.isdir(root + '/' + d):
                unlock(root + '/' + d)
            pg.rmtree(root + '/' + d)
        outside(root)
        make(root, dest, s)
        want_ref = refused(s, opt, typ, la)

        def snap():
            # read through missing permissions
            modes = {}
            for p in (dest, root + '/ts/7/' + TSV, root + '/lnk/stat'):
                if os.path.isdir(p):
                    modes[p] = os.stat(p).st_mode & 0o7777
                    os.chmod(p, 0o700)
            w = whole(root)
            for p, m in modes.items():
                os.chmod(p, m)
            return w, modes
        before = snap()
        can = canaries(root) if not want_ref else None
        r = bk.restore(e, dest, fresh=False, type=typ, link_all=bool(la), **OPTS[opt])
        ev += 1
        keys.add(core.h((s, opt, typ, la)))
        what = 'restore (%s, type %s, link-all %s) to data directory %s, tablespace %s, linked directory %s, linked file %s' % ((opt, typ, la) + s)
        if want_ref:
            if r.rc == 0:
                viol.append(('%s is not refused' % what, repr((s, opt, typ, la))))
            elif snap() != before:
                viol.append(('%s is refused but changed files' % what, repr((s, opt, typ, la))))
        else:
            if r.rc:
                viol.append(('%s fails: %r' % (what, r), repr((s, opt, typ, la))))
            else:
                now = canaries(root)
                if can != now:
                    viol.append(('%s changed something else: %s' % (what, pg.tree_diff(can, now)), repr((s, opt, typ, la))))
                want = p35.physical(root, dest, la, {}, {})
                got = p35.actual(root, dest, ('d2/rst', 'ts/7/' + TSV, 'ts/77/' + TSV, 'lnk/stat'))
                got = {k: v for k, v in got.items()}
                w2 = {k: v for k, v in want.items() if k.startswith((dest + '/', root + '/ts/7/' + TSV + '/', root + '/ts/77/' + TSV + '/', root + '/lnk/stat/'))}
                bad = p35.compare(got, w2)
                if bad:
                    viol.append(('%s: %s' % (what, bad), repr((s, opt, typ, la))))
        if len(viol) > 3:
            break
    for d in TOPS:
        if os.path.isdir(root + '/' + d):
            unlock(root + '/' + d)
    pg.rmtree(root)
    return dict(evals=ev, trans=ev, keys=keys, viol=viol[:4])


PLACES = ['d2/rst/base', 'd2/rst/base/1', 'd2/rst/base/1/100', 'd2/rst/base/1/extra', 'd2/rst/extra', 'd2/rst/pg_stat', 'd2/rst/postgresql.conf', 'd2/rst/config', 'd2/rst/pg_tblspc',
          'd2/rst/pg_tblspc/7', 'd2/rst/pg_tblspc/8', 'd2/rst/pg_wal', 'd2/rst/pg_xact/0000', 'ts/7/%s/1' % TSV, 'ts/7/%s/1/500' % TSV, 'ts/7/%s/x' % TSV, 'ts/7/' + TSV, 'ts/7', 'lnk/stat/sub',
          'lnk/stat/zz', 'lnk/stat', 'lnk/etc/postgresql.conf', 'd2/rst/global', 'd2/rst/PG_VERSION']
KINDS = ['gone', 'file', 'dir', 'emptydir', 'linkdir', 'linkfile', 'dangling', 'fifo']


def put(R, place, kind):
    p = R + '/' + place
    if os.path.islink(p) or os.path.isfile(p):
        os.unlink(p)
    elif os.path.isdir(p):
        pg.rmtree(p)
    if not os.path.isdir(os.path.dirname(p)):
        return False
    if kind == 'file':
        pg.put(p, b'zz')
    elif kind == 'dir':
        pg.put(p + '/deep/er', b'zz')
        pg.put(p + '/100', b'zz')
    elif kind == 'emptydir':
        os.makedirs(p)
    elif kind == 'linkdir':
        os.symlink(R + '/out/dir', p)
    elif kind == 'linkfile':
        os.symlink(R + '/out/file', p)
    elif kind == 'dangling':
        os.symlink(R + '/out/none', p)
    elif kind == 'fifo':
        os.mkfifo(p)
    return True


def garbage(a):
    """over a restored cluster, foreign objects at one or two places, then restore with delta or force"""
    _, idx, la, cases = a
    root = core.scratch('g%d' % idx)
    e = setup(root)
    dest = root + '/d2/rst'
    os.makedirs(root + '/d2')
    bk.restore(e, dest, fresh=False, type='none', link_all=bool(la), ok=True)
    for t in ('d2', 'lnk', 'ts'):
        if os.path.isdir(root + '/' + t):
            pg.copytree(root + '/' + t, root + '/sav/' + t)
    viol, keys, ev = [], set(), 0
    want = p35.physical(root, dest, la, {}, {})
    for objs, opt in cases:
        for d in TOPS:
            pg.rmtree(root + '/' + d)
        for t in os.listdir(root + '/sav'):
            pg.copytree(root + '/sav/' + t, root + '/' + t)
        outside(root)
        for place, kind in objs:
            put(root, place, kind)
        # destinations that are links themselves or replaced by something else cannot be told from what the user wants there
        can = canaries(root)
        r = bk.restore(e, dest, fresh=False, type='none', link_all=bool(la), **OPTS[opt])
        ev += 1
        keys.add(core.h((la, objs, opt)))
        what = 'restore (%s, link-all %s) over %s' % (opt, la, ', '.join('%s at %s' % (k, p) for p, k in objs))
        now = canaries(root)
        if can != now:
            viol.append(('%s changed something else: %s' % (what, pg.tree_diff(can, now)), repr((la, objs, opt))))
        elif r.rc == 0:
            got = p35.actual(root, dest, ('d2/rst', 'ts/7/' + TSV, 'ts/77/' + TSV, 'lnk/stat'))
            w2 = {k: v for k, v in want.items() if k.startswith((dest + '/', root + '/ts/7/' + TSV + '/', root + '/ts/77/' + TSV + '/', root + '/lnk/stat/'))}
            bad = p35.compare(got, w2)
            if bad:
                viol.append(('%s: %s' % (what, bad), repr((la, objs, opt))))
        elif r.rc < 0:
            viol.append(('%s dies: %r' % (what, r), repr((la, objs, opt))))
        elif not any(p in ('ts/7', 'ts/7/' + TSV, 'lnk/stat', 'd2/rst/PG_VERSION', 'd2/rst/global', 'lnk/etc/postgresql.conf') for p, k in objs):
            viol.append(('%s fails: %r' % (what, r), repr((la, objs, opt))))
        if len(viol) > 3:
            break
    pg.rmtree(root)
    return dict(evals=ev, trans=ev, keys=keys, viol=viol[:4])


def job(a):
    return {'st': states, 'ga': garbage}[a[0]](a)


def main():
    c = core.Check('P13', 'exploration')
    core.build()
    deep = c.thorough
    jobs = []
    cases = []
    for s in itertools.product(DATA, TSS, LNK, FIL):
        for opt in OPTS:
            for typ in ('none', 'preserve'):
                for la in (0, 1):
                    n = sum(x not in ('missing', 'empty') for x in s)
                    if (opt == 'both' or typ == 'preserve') and not deep and n > 1:
                        continue
                    if not la and (s[2], s[3]) != ('missing', 'missing'):
                        continue
                    cases.append((s, opt, typ, la))
    k = max(1, len(cases) // 60)
    for i in range(k):
        jobs.append(('st', len(jobs), cases[i::k]))
    # a destination that is itself a link (or a pipe) is where the user wants it
    roots = ('lnk/etc/postgresql.conf', 'lnk/stat', 'ts/7', 'ts/7/' + TSV)
    one = [((p, kd),) for p in PLACES for kd in KINDS if not (p in roots and kd in ('linkdir', 'linkfile', 'dangling', 'fifo'))]
    two = [(x[0], y[0]) for x, y in itertools.combinations(one, 2) if x[0][0] != y[0][0]]
    for la in (1, 0):
        cs = [(o, opt) for o in one for opt in ('delta', 'force', 'both')]
        cs += [(o, 'delta') for o in (two[::13 if la else 31] if not deep else two[::1 if la else 3])]
        if not la:
            cs = [x for x in cs if not any(p.startswith('lnk') for p, _ in x[0])]
        k = max(1, len(cs) // 60)
        for i in range(k):
            jobs.append(('ga', len(jobs), la, cs[i::k]))
    for r in core.pmap(job, jobs):
        c.merge(r)
    c.rule = ('every combination of states of data directory (11), tablespace (5), linked directory (4), linked file (3) x options; every kind of foreign object (8) at every one of %d places and '
              'pairs of them (thorough: all pairs), restored with delta/force; destination unchanged when refused, surroundings unchanged always' % len(PLACES))
    c.assumptions = ['destination owned by the restoring user', 'files of the destination are not hard linked from elsewhere', 'spool and lock files of the stanza are restore\'s own']
    c.finish()


if __name__ == '__main__':
    main()
