#!/usr/bin/env python3
"""P35: tablespaces and links are restored where the user asked: every combination of mappings of a cluster with linked directories, nested
links, linked files and tablespaces; every pair of mappings sharing or nesting destinations is refused; invalid layouts are refused by
backup."""
import itertools, os, stat, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pgb import core, pg, bk, fakepg

TSV = 'PG_16_202307071'
# logical content (path below the data directory -> content or None for a directory)
FILES = {'PG_VERSION': b'16\n', 'base/1/100': b'r' * 9000, 'pg_stat/a.stat': b'stat', 'pg_stat/sub/b': b'bb', 'config/x.conf': b'x', 'config/inner/y.conf': b'yy',
         'config/inner/e': None, 'postgresql.conf': b'conf', 'pg_hba.conf': b'hba', 'pg_ident.conf': b'ident', 'pg_xact/0000': b'z' * 8192}
TS = {7: {'1/500': b't7', '1/PG_VERSION': b'16\n'}, 77: {'5/600': b't77', '5/PG_VERSION': b'16\n'}}
# link -> (is file, destination as stored, relative ones are relative to the directory that contains the link)
LINKS = {'pg_stat': (0, '{R}/lnk/stat'), 'config': (0, '../lnk/config'), 'config/inner': (0, '{R}/lnk/inner'), 'postgresql.conf': (1, '{R}/lnk/etc/postgresql.conf'),
         'pg_hba.conf': (1, '../lnk/etc/pg_hba.conf')}
CREATE = {'pg_xact': 0, 'pg_ident.conf': 1}


def build(e, st=()):
    e.conf(**bk.store(*st), archive_check='n', start_fast='y', db_timeout='30')
    e.pg = e.root + '/d1/pg'
    e.pgs = [e.pg]
    e.conf()
    os.makedirs(e.pg, mode=0o700)
    R = e.root
    for l, (f, d) in sorted(LINKS.items()):
        d = d.replace('{R}', R)
        p = e.pg + '/' + l
        real = os.path.join(os.path.dirname(os.path.realpath(os.path.dirname(p)) + '/x'), d) if not d.startswith('/') else d
        os.makedirs(os.path.dirname(p), exist_ok=True, mode=0o700)
        os.makedirs(os.path.normpath(os.path.dirname(real) if f else real), exist_ok=True, mode=0o700)
        os.symlink(d, p)
    for k, v in FILES.items():
        if v is None:
            os.makedirs(e.pg + '/' + k, mode=0o700)
        else:
            pg.put(e.pg + '/' + k, v, e.now() - 5000)
    os.makedirs(e.pg + '/pg_wal', mode=0o700)
    os.makedirs(e.pg + '/pg_tblspc', mode=0o700)
    pg.put(e.pg + '/global/pg_control', pg.control(e.ver, e.sysid), e.now() - 5000)
    for t, fs in TS.items():
        os.makedirs(R + '/ts/%d' % t, mode=0o700)
        os.symlink(R + '/ts/%d' % t, e.pg + '/pg_tblspc/%d' % t)
        for k, v in fs.items():
            pg.put(R + '/ts/%d/%s/%s' % (t, TSV, k), v, e.now() - 5000)
    for d, dn, fn in os.walk(R):
        for x in dn:
            if not os.path.islink(d + '/' + x) and not d.startswith(R + '/repo'):
                os.chmod(d + '/' + x, 0o700)
    p = fakepg.FakePg(e)
    p.tablespaces = [(1663, 'pg_default'), (1664, 'pg_global'), (7, 'seven'), (77, 'more7')]
    return p


def backup(e, p):
    srv = fakepg.Server(e, p)
    try:
        e.run('stanza-create', ok=True)
        e.run('backup', type='full', ok=True)
    finally:
        srv.close()


def physical(R, dest, linkall, lmap, tmap):
    """expected {absolute path: content | ('link', dest) | 'dir'}"""
    out = {}
    kept = {}
    for l, (f, d) in LINKS.items():
        if l in lmap:
            kept[l] = lmap[l]
        elif linkall:
            kept[l] = d.replace('{R}', R)
    for l in CREATE:
        if l in lmap:
            kept[l] = lmap[l]

    def place(logical):
        """absolute location of a logical path following kept links"""
        best = None
        for l in kept:
            if logical.startswith(l + '/') and (best is None or len(l) > len(best)):
                best = l
        if best is None:
            return dest + '/' + logical
        return dst(best) + logical[len(best):]

    def dst(l):
        d = kept[l]
        if d.startswith('/'):
            return d
        return os.path.normpath(os.path.dirname(place(l)) + '/' + d)
    for k, v in list(FILES.items()) + [('pg_wal', None), ('pg_tblspc', None), ('global', None)]:
        parts = k.split('/')
        for i in range(1, len(parts)):
            sub = '/'.join(parts[:i])
            if sub not in kept:
                out[place(sub)] = 'dir'
        if v is None:
            out[place(k)] = 'dir'
        elif k in kept:
            out[dst(k)] = v
        else:
            out[place(k)] = v
    for l in kept:
        out[place(l)] = ('link', kept[l])
        if not (LINKS[l][0] if l in LINKS else CREATE[l]):
            out[dst(l)] = 'dir'
    for t, fs in TS.items():
        d = tmap.get(t, R + '/ts/%d' % t)
        out[dest + '/pg_tblspc/%d' % t] = ('link', d)
        out[d + '/' + TSV] = 'dir'
        for k, v in fs.items():
            out[d + '/' + TSV + '/' + k.split('/')[0]] = 'dir'
            out[d + '/' + TSV + '/' + k] = v
    return out


SKIP = ('backup_label', 'global/pg_control', 'postgresql.auto.conf', 'backup.manifest', 'recovery.signal')


def actual(R, dest, tops):
    out = {}
    for t in tops:
        for d, dn, fn in os.walk(R + '/' + t):
            for n in dn + fn:
                p = d + '/' + n
                if os.path.islink(p):
                    out[p] = ('link', os.readlink(p))
                elif os.path.isdir(p):
                    out[p] = 'dir'
                elif p not in [dest + '/' + s for s in SKIP]:
                    with open(p, 'rb') as f:
                        out[p] = f.read()
    return out


def compare(got, want):
    for k in sorted(set(got) | set(want)):
        g, w = got.get(k), want.get(k)
        if g == w:
            continue
        if w is None and g == 'dir' and any(x.startswith(k + '/') for x in want):
            continue                    # parent of a destination
        return '%s is %r instead of %r' % (k, g if g is None or len(g) < 60 else g[:20], w if w is None or len(w) < 60 else w[:20])
    for k, w in want.items():
        if w == 'dir' and os.stat(k).st_mode & 0o777 != 0o700:
            return '%s has mode %o' % (k, os.stat(k).st_mode & 0o777)


TMAPS = [(), (('7', 'A'),), (('seven', 'A'),), (('77', 'A'),), (('more7', 'A'), ('7', 'B')), (('all', 'C'),), (('all', 'C'), ('7', 'A')), (('7', 'A'), ('seven', 'A')), (('all', 'C'), ('more7', 'B'))]


def topt(R, tm):
    names = {'7': 7, 'seven': 7, '77': 77, 'more7': 77}
    real = {7: 'seven', 77: 'more7'}
    kw, tmap = {}, {}
    for k, v in tm:
        if k == 'all':
            kw['tablespace_map_all'] = R + '/map/ts' + v
            for t in TS:
                tmap.setdefault(t, R + '/map/ts' + v + '/' + real[t])
    for k, v in tm:
        if k != 'all':
            kw.setdefault('tablespace_map', []).append('%s=%s/map/ts%s' % (k, R, v))
            tmap[names[k]] = R + '/map/ts' + v
    return kw, tmap


def maps(a):
    _, idx, st, delta, cases = a
    root = core.scratch('m%d' % idx)
    e = pg.Env(root)
    backup(e, build(e, st))
    for d in ('d1', 'lnk', 'ts'):
        pg.rmtree(root + '/' + d)
    dest = root + '/d2/rst'
    tops = ('d2', 'lnk', 'ts', 'map')
    viol, keys, ev = [], set(), 0
    for la, lm, tm in cases:
        if not delta:
            for d in tops:
                pg.rmtree(root + '/' + d)
        lmap = {}
        for l, v in lm:
            lmap[l] = {'a': root + '/map/' + l.replace('/', '_'), 'r': '../map/' + l.replace('/', '_')}[v]
        kw, tmap = topt(root, tm)
        if delta:
            kw['delta'] = True
        want = physical(root, dest, la, lmap, tmap)
        r = bk.restore(e, dest, fresh=False, type='none', link_all=bool(la), link_map=['%s=%s' % x for x in lmap.items()], **kw)
        ev += 1
        keys.add(core.h((st, delta, la, lm, tm)))
        what = 'restore%s link-all=%s link-map=%s tablespace-map=%s' % (' --delta' if delta else '', la, lm, tm)
        if r.rc:
            viol.append(('%s fails: %r' % (what, r), repr((a[:4], la, lm, tm))))
        else:
            got = actual(root, dest, tops)
            if delta:                   # places restored to before are left alone
                got = {k: v for k, v in got.items() if k in want or any(k.startswith(x + '/') for x in [dest] + [os.path.normpath(os.path.join(os.path.dirname(p), w[1])) for p, w in want.items()
                                                                        if isinstance(w, tuple) and want.get(os.path.normpath(os.path.join(os.path.dirname(p), w[1]))) == 'dir'])}
            bad = compare(got, want)
            if bad:
                viol.append(('%s: %s' % (what, bad), repr((a[:4], la, lm, tm))))
        if len(viol) > 3:
            break
    pg.rmtree(root)
    return dict(evals=ev, trans=ev, keys=keys, viol=viol[:4])


DEST = ['m/a', 'm/a/b', 'm/ab', 'm/a/', 'm/a-b', 'd2/rst', 'd2/rst/x', 'd2/rstx', 'm', 'm/a/b/c']


def valid(items):
    """items = [(kind dir/file, absolute path)], R/d2/rst is the data directory given as /D"""
    norm = []
    for k, p in items:
        p = p.rstrip('/')
        norm.append((k, p))
        d = p if k == 'dir' else os.path.dirname(p)
        if (d + '/').startswith('/D/d2/rst/'):
            return False
    for (k1, p1), (k2, p2) in itertools.combinations(norm, 2):
        if k1 == k2 == 'dir':
            if (p1 + '/').startswith(p2 + '/') or (p2 + '/').startswith(p1 + '/'):
                return False
        elif k1 == k2 == 'file':
            if p1 == p2:
                return False
        else:
            d, f = (p1, p2) if k1 == 'dir' else (p2, p1)
            if os.path.dirname(f) == d:
                return False
    return True


def clash(a):
    """pairs of mappings sharing or nesting destinations"""
    _, idx, pairs = a
    root = core.scratch('c%d' % idx)
    e = pg.Env(root)
    backup(e, build(e))
    for d in ('d1', 'lnk', 'ts'):
        pg.rmtree(root + '/' + d)
    dest = root + '/d2/rst'
    viol, keys, ev = [], set(), 0
    for (l1, d1), (l2, d2) in pairs:
        for d in ('d2', 'lnk', 'ts', 'm'):
            pg.rmtree(root + '/' + d)
        items, kw = [], dict(link_map=[], tablespace_map=[])
        for l, d in ((l1, d1), (l2, d2)):
            if l.startswith('ts'):
                kw['tablespace_map'].append('%s=%s/%s' % (l[2:], root, d))
                items.append(('dir', '/D/' + d))
            else:
                f = LINKS[l][0] if l in LINKS else CREATE[l]
                kw['link_map'].append('%s=%s/%s' % (l, root, d))
                items.append(('file' if f else 'dir', '/D/' + d))
        for t in TS:
            if 'ts%d' % t not in (l1, l2):
                items.append(('dir', '/D/ts/%d' % t))
        ok = valid(items)
        r = bk.restore(e, dest, fresh=False, type='none', **{k: v for k, v in kw.items() if v})
        ev += 1
        keys.add(core.h((l1, d1, l2, d2)))
        left = [x for d in ('d2', 'lnk', 'ts', 'm') for x in pg.tree(root + '/' + d)]
        if ok and r.rc:
            viol.append(('restore mapping %s to %s and %s to %s fails: %r' % (l1, d1, l2, d2, r), repr((l1, d1, l2, d2))))
        elif not ok and r.rc == 0:
            viol.append(('restore mapping %s to %s and %s to %s is not refused' % (l1, d1, l2, d2), repr((l1, d1, l2, d2))))
        elif not ok and left:
            viol.append(('refused restore mapping %s to %s and %s to %s left %r' % (l1, d1, l2, d2, left[:3]), repr((l1, d1, l2, d2))))
        if len(viol) > 3:
            break
    # mappings that cannot be right
    for kw in (dict(link_map=['nope=%s/m/a' % root]), dict(link_map=['pg_tblspc/7=%s/m/a' % root]), dict(tablespace_map=['9=%s/m/a' % root]), dict(tablespace_map=['sevenx=%s/m/a' % root]),
               dict(tablespace_map=['7=%s/m/a' % root, 'seven=%s/m/b' % root]), dict(link_map=['postgresql.conf=..']), dict(tablespace_map=['seve=%s/m/a' % root, 'seven=%s/m/b' % root]),
               dict(link_map=['pg_stat/../pg_xact=%s/m/a' % root]), dict(link_map=['pg_sta=%s/m/a' % root])) if idx % 4 == 0 else ():
        for d in ('d2', 'lnk', 'ts', 'm'):
            pg.rmtree(root + '/' + d)
        r = bk.restore(e, dest, fresh=False, type='none', **kw)
        ev += 1
        left = [x for d in ('d2', 'lnk', 'ts', 'm') for x in pg.tree(root + '/' + d)]
        if r.rc == 0 or left:
            viol.append(('restore with %r: rc %d, left %r' % (kw, r.rc, left[:3]), repr(kw)))
    pg.rmtree(root)
    return dict(evals=ev, trans=ev, keys=keys, viol=viol[:4])


def layouts(a):
    """layouts of links in the cluster: backup refuses those it cannot restore, backs up everything else through the links"""
    _, idx, cases = a
    root = core.scratch('l%d' % idx)
    viol, keys, ev = [], set(), 0
    e = pg.Env(root)
    e.conf(start_fast='y')
    e.cluster({'base/1/100': b'x' * 100})
    e.run('stanza-create', online=False, ok=True)
    pg.copytree(e.pg, root + '/sav')
    names = {'dir1': 'pg_stat', 'dir2': 'config', 'file1': 'postgresql.conf', 'file2': 'pg_hba.conf', 'ts': 'pg_tblspc/7'}
    for (n1, d1), (n2, d2) in cases:
        pg.rmtree(e.pg)
        pg.copytree(root + '/sav', e.pg)
        pg.rmtree(root + '/m')
        os.makedirs(root + '/m', mode=0o700)
        items = []
        special = False
        for n, d in ((n1, d1), (n2, d2)):
            p = e.pg + '/' + names[n]
            t = {'self': e.pg, 'in': e.pg + '/base/1', 'infile': e.pg + '/base', 'missing': root + '/m/none', 'link': root + '/m/alias'}.get(d, root + '/' + d)
            if n.startswith('file'):
                t = t + '/' + ('f' if d in ('m/a', 'm/a/b') else n)
            special |= d in ('missing', 'link')
            if d == 'link' and not n.startswith('file'):
                os.makedirs(root + '/m/real', exist_ok=True)
                if not os.path.islink(root + '/m/alias'):
                    os.symlink(root + '/m/real', root + '/m/alias')
            elif d not in ('missing', 'link'):
                if n.startswith('file'):
                    pg.put(t, b'f', e.now() - 100)
                else:
                    os.makedirs(t + ('/' + TSV if n == 'ts' else ''), exist_ok=True, mode=0o700)
                    pg.put(t + ('/%s/1' % TSV if n == 'ts' else '') + '/inside', b'i', e.now() - 100)
            if not os.path.islink(p):
                os.symlink(t, p)
            items.append(('file' if n.startswith('file') else 'dir', t.replace(e.pg, '/D/d2/rst') if t.startswith(e.pg + '/') or t == e.pg else t))
        ok = valid(items) and not special
        r = e.run('backup', type='full', online=False)
        ev += 1
        keys.add(core.h((n1, d1, n2, d2)))
        what = 'backup with %s -> %s and %s -> %s' % (names[n1], d1, names[n2], d2)
        if ok != (r.rc == 0):
            viol.append(('%s: %r' % (what, r), repr((n1, d1, n2, d2))))
        elif ok:
            x = bk.restore(e, root + '/rst', type='none', tablespace_map_all=root + '/rst.ts')
            if x.rc:
                viol.append(('%s cannot be restored: %r' % (what, x), repr((n1, d1, n2, d2))))
            else:
                for n in (n1, n2):
                    src = e.pg + '/' + names[n]
                    out = root + '/rst/' + names[n]
                    if n == 'ts':
                        src, out = src + '/' + TSV, root + '/rst.ts/ts7/' + TSV
                    same = open(src, 'rb').read() == open(out, 'rb').read() if n.startswith('file') else pg.tree(src) == pg.tree(out)
                    if not same:
                        viol.append(('%s: restored %s differs: %s' % (what, names[n], n.startswith('file') or pg.tree_diff(pg.tree(src), pg.tree(out))), repr((n1, d1, n2, d2))))
            pg.rmtree(root + '/rst.ts')
        e.advance(60)
        if len(viol) > 3:
            break
    pg.rmtree(root)
    return dict(evals=ev, trans=ev, keys=keys, viol=viol[:4])


def job(a):
    return {'maps': maps, 'clash': clash, 'lay': layouts}[a[0]](a)


def main():
    c = core.Check('P35', 'exploration')
    core.build()
    deep = c.thorough
    jobs = []
    per = []
    for l in LINKS:
        per.append([None, 'a', 'r'] if l in ('config', 'pg_stat', 'postgresql.conf') else [None, 'a'])
    for l in CREATE:
        per.append([None, 'a'] if not deep else [None, 'a', 'r'])
    names = list(LINKS) + list(CREATE)
    cases = []
    for i, ch in enumerate(itertools.product((0, 1), *per)):
        lm = tuple((n, v) for n, v in zip(names, ch[1:]) if v)
        for j, tm in enumerate(TMAPS):
            if deep or (i + j) % len(TMAPS) in (0, 4):
                cases.append((ch[0], lm, tm))
    cf = [((), 0, cases), (('block', 'zst'), 1, cases[::2] if not deep else cases)] + ([(('bundle', 'enc'), 1, cases)] if deep else [])
    for st, delta, cs in cf:
        k = max(1, len(cs) // 60)
        for i in range(k):
            jobs.append(('maps', len(jobs), st, delta, cs[i::k]))
    tgt = ['pg_stat', 'config', 'postgresql.conf', 'pg_ident.conf', 'pg_xact', 'ts7', 'ts77']
    pairs = [((l1, d1), (l2, d2)) for l1, l2 in itertools.combinations(tgt, 2) for d1 in DEST for d2 in DEST
             if not (d1.endswith('/') and l1 in ('postgresql.conf', 'pg_ident.conf')) and not (d2.endswith('/') and l2 in ('postgresql.conf', 'pg_ident.conf'))]
    if not deep:
        pairs = pairs[::2]
    # a file cannot be where a directory is needed
    isf = ('postgresql.conf', 'pg_ident.conf')
    pairs = [p for p in pairs if not any(x[0] in isf and (y[1].rstrip('/') + '/').startswith(x[1] + '/') for x, y in (p, p[::-1])) and not any(x[0] in isf and x[1] in ('m', 'd2/rst') for x in p)]
    k = max(1, len(pairs) // 60)
    for i in range(k):
        jobs.append(('clash', len(jobs), pairs[i::k]))
    kinds = ['dir1', 'dir2', 'file1', 'file2', 'ts']
    dd = ['m/a', 'm/a/b', 'm/ab', 'self', 'in', 'infile', 'missing', 'link']
    lay = [((n1, d1), (n2, d2)) for n1, n2 in itertools.combinations(kinds, 2) for d1 in dd for d2 in dd if not (d1 == 'link' and n1.startswith('file')) and not (d2 == 'link' and n2.startswith('file'))]
    k = max(1, len(lay) // 60)
    for i in range(k):
        jobs.append(('lay', len(jobs), lay[i::k]))
    for r in core.pmap(job, jobs):
        c.merge(r)
    c.rule = ('every combination of link-all, per-link maps (none, absolute, relative) of 3 linked directories (one nested), 2 linked files, 1 plain directory and 1 plain file made links, x tablespace '
              'maps by id, name, all; fresh and delta over the previous mapping; every pair of targets x pairs of destinations from 10 related paths; every pair of link layouts for backup')
    c.assumptions = ['one cluster layout; destinations given as written (no /./ components)']
    c.finish()


if __name__ == '__main__':
    main()
