#!/usr/bin/env python3
"""P11: destination states.  Every kind of file/directory/link of a backup x every way it can differ in the destination; also every
ordered pair of backups restored over each other; delta and force."""
import itertools, os, shutil, socket, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pgb import core, pg, bk

OLD = pg.T0 - 5000
MODE = {'delta': dict(delta=True), 'force': dict(force=True), 'both': dict(delta=True, force=True)}
KINDS = {'empty': 0, 'tiny': 9, 'page': 8192, 'mid': 30000, 'big': 100000}
FDIFF = ['same', 'missing', 'firstbyte', 'lastbyte', 'zeroed', 'longer', 'shorter', 'truncated0', 'othertime', 'othertime+content', 'mode', 'dir', 'dirfull', 'link',
         'danglink', 'fifo', 'half', 'shift', 'future', 'samecontent_oldtime', 'longer_sametime', 'shorter_sametime', 'sock']


def perturb(p, d, data, out):
    """make destination file p (content data, time OLD) differ in way d"""
    n = len(data)

    def put(b, t=OLD, m=0o600):
        pg.put(p, b, t, m)
    if d == 'same':
        return
    if d == 'missing':
        os.unlink(p)
    elif d == 'firstbyte':
        put(bytes([data[0] ^ 1]) + data[1:] if n else data)
    elif d == 'lastbyte':
        put(data[:-1] + bytes([data[-1] ^ 1]) if n else data)
    elif d == 'zeroed':
        put(b'\0' * n)
    elif d == 'longer':
        put(data + b'tail', OLD + 7)
    elif d == 'shorter':
        put(data[:-1], OLD + 7)
    elif d == 'longer_sametime':
        put(data + b'tail' * 3000)
    elif d == 'shorter_sametime':
        put(data[:n // 3])
    elif d == 'truncated0':
        put(b'', OLD + 7)
    elif d == 'othertime':
        put(data, OLD - 100)
    elif d == 'samecontent_oldtime':
        put(data, 1000)
    elif d == 'future':
        put(data[::-1], pg.T0 + 10 ** 8)
    elif d == 'othertime+content':
        put(data[::-1], OLD + 33)
    elif d == 'half':
        put(data[:n // 2] + bytes(x ^ 0x55 for x in data[n // 2:]))
    elif d == 'shift':
        put((b'\0' * 8192 + data)[:n])
    elif d == 'mode':
        os.chmod(p, 0o444)
    elif d == 'dir':
        os.unlink(p)
        os.makedirs(p)
    elif d == 'dirfull':
        os.unlink(p)
        pg.put(p + '/a/b', b'x')
        os.chmod(p, 0o700)
    elif d == 'link':
        os.unlink(p)
        q = out + '/' + os.path.basename(p)
        pg.put(q, b'outside', 5000)
        os.symlink(q, p)
    elif d == 'danglink':
        os.unlink(p)
        os.symlink(out + '/nowhere', p)
    elif d == 'fifo':
        os.unlink(p)
        os.mkfifo(p)
    elif d == 'sock':
        os.unlink(p)
        s = socket.socket(socket.AF_UNIX)
        cwd = os.getcwd()
        os.chdir(os.path.dirname(p))
        s.bind(os.path.basename(p))
        os.chdir(cwd)
        s.close()


def world(e, ts=True):
    e.cluster({'empty_dir': None, 'base/7': None, 'base/7/900': (bk.blob('f', 5000), OLD), 'postgresql.conf': (b'conf', OLD),
               'zdir/sub/x': (b'x', OLD)})
    if ts:
        pg.put(e.root + '/ts/PG_16_202307071/1/500', bk.blob('ts', 9000), OLD)
        os.chmod(e.root + '/ts', 0o700)
        os.symlink(e.root + '/ts', e.pg + '/pg_tblspc/16400')
    e.run('stanza-create', online=False, ok=True)


def dview(root):
    """destination trees with what must be exact; directory times are not restored"""
    t = {}
    for b in ('dest', 'dts'):
        if os.path.isdir(root + '/' + b):
            for k, v in pg.tree(root + '/' + b, content=False, mtime=True).items():
                t[b + '/' + k] = ('link', v[1].replace(root, '')) if v[0] == 'link' else v
    return t


def files(arg):
    """kinds x differences, all at once (each its own file); single differences for what would refuse"""
    idx, names, mode, kinds, diffs, zero = arg
    root = core.scratch('f%d' % idx)
    e = pg.Env(root + '/w')
    e.conf(**bk.store(*names))
    fl = []
    for k in kinds:
        for d in diffs:
            fl.append(('base/1/%d' % (20000 + len(fl)), KINDS[k], d))
    world(e)
    for f, n, d in fl:
        data = b'\0' * n if zero else bk.blob(f, n)
        e.file(f, (data, OLD))
    e.run('backup', type='full', online=False, ok=True)
    e.advance(100)
    if 'block' in names or 'blockbig' in names or 'bundle' in names:
        # a second backup so that content comes from two backups
        for f, n, d in fl:
            if n > 40000:
                b = bytearray(open(e.pg + '/' + f, 'rb').read())
                b[50000:50010] = b'*' * 10
                e.file(f, (bytes(b), OLD + 1))
        e.file('base/7/900', (bk.blob('g', 5000), OLD + 1))
        e.run('backup', type='incr', online=False, ok=True)
    dest = e.root + '/dest'
    o = dict(tablespace_map='16400=%s/dts' % e.root)
    bk.restore(e, dest, ok=True, **o)
    want = dview(e.root)
    out = e.root + '/out'
    os.makedirs(out)
    sig = {}
    for f, n, d in fl:
        data = open(dest + '/' + f, 'rb').read()
        st = os.stat(dest + '/' + f)
        if st.st_mtime != OLD and d in ('firstbyte', 'lastbyte', 'zeroed', 'half', 'shift', 'longer_sametime', 'shorter_sametime'):
            perturb(dest + '/' + f, d, data, out)
            if os.path.exists(dest + '/' + f):
                os.utime(dest + '/' + f, (st.st_mtime, st.st_mtime))
        else:
            perturb(dest + '/' + f, d, data, out)
        now = os.lstat(dest + '/' + f) if os.path.lexists(dest + '/' + f) else None
        if mode == 'both' and now is not None and os.path.isfile(dest + '/' + f) and not os.path.islink(dest + '/' + f) and now.st_size == st.st_size and now.st_mtime == st.st_mtime:
            # documented: size and time match, so the file is kept
            sig['dest/' + f] = pg.tree(os.path.dirname(dest + '/' + f), content=False, mtime=True)[os.path.basename(f)]
    outside = pg.tree(out, content=False, mtime=True)
    r = bk.restore(e, dest, fresh=False, **MODE[mode], **o)
    viol = []
    if r.rc:
        viol.append(('%r %s restore over a changed destination fails: %r' % (names, mode, r), repr(arg)))
    else:
        got = dview(e.root)
        w = dict(want)
        for k, v in sig.items():
            w[k] = v[:2] + want[k][2:]
        df = pg.tree_diff(w, got)
        if df:
            kd = {'dest/' + f: '%d bytes, %s' % (n, d) for f, n, d in fl}
            viol.append(('%r %s restore over a changed destination differs from a restore to an empty one:\n%s' % (
                names, mode, '\n'.join('%s   [%s]' % (x, kd.get(x.split(':')[0], '')) for x in df)), repr(arg)))
    if pg.tree(out, content=False, mtime=True) != outside:
        viol.append(('%r %s restore changed files outside the destination: %r' % (names, mode, pg.tree_diff(outside, pg.tree(out, content=False, mtime=True))), ''))
    pg.rmtree(root)
    return dict(evals=len(fl), trans=2, keys=[core.h((names, mode, n, d, zero)) for f, n, d in fl], viol=viol[:3],
                samples=['%r %s: %d destination files each different in its own way' % (names, mode, len(fl))])


def structure(arg):
    """directories, links, leftovers"""
    idx, names, mode, part, parts = arg
    root = core.scratch('t%d' % idx)
    e = pg.Env(root + '/w')
    e.conf(**bk.store(*names))
    world(e)
    e.file('base/1/100', (bk.blob('q', 20000), OLD))
    e.run('backup', type='full', online=False, ok=True)
    dest = e.root + '/dest'
    o = dict(tablespace_map='16400=%s/dts' % e.root)
    bk.restore(e, dest, ok=True, **o)
    want = dview(e.root)
    out = e.root + '/out'
    S = []

    def add(n, fn):
        S.append((n, fn))
    for d in ('empty_dir', 'base/7', 'zdir', 'pg_wal', 'base'):
        add('%s missing' % d, lambda d=d: shutil.rmtree(dest + '/' + d))
        add('%s is a file' % d, lambda d=d: (shutil.rmtree(dest + '/' + d), pg.put(dest + '/' + d, b'f')))
        add('%s is a link to outside' % d, lambda d=d: (os.rename(dest + '/' + d, out + '/moved'), os.symlink(out + '/moved', dest + '/' + d)))
        add('%s is a dangling link' % d, lambda d=d: (shutil.rmtree(dest + '/' + d), os.symlink(out + '/none', dest + '/' + d)))
        add('%s mode' % d, lambda d=d: os.chmod(dest + '/' + d, 0o755))
        add('%s has extra file' % d, lambda d=d: pg.put(dest + '/' + d + '/extra', b'e'))
        add('%s has extra directory' % d, lambda d=d: pg.put(dest + '/' + d + '/extra/deep/er', b'e'))
        add('%s has extra link to outside directory' % d, lambda d=d: os.symlink(out, dest + '/' + d + '/exlink'))
        add('%s has extra link to outside file' % d, lambda d=d: os.symlink(out + '/keep/f', dest + '/' + d + '/exlink'))
    for f in ('recovery.signal', 'standby.signal', 'backup_label', 'backup_label.old', 'tablespace_map', 'postmaster.opts', 'recovery.conf', 'recovery.done',
              'global/pg_control.pgbackrest.tmp', 'backup.manifest', 'backup.manifest.pgbackrest.tmp', 'base/1/100.pgbackrest.tmp', 'base/1/t1_1', 'pg_wal/000000010000000000000001',
              'pg_wal/archive_status/000000010000000000000001.ready', 'pg_stat_tmp/x', 'base/pgsql_tmp/x', 'postgresql.auto.conf', 'postgresql.auto.conf.tmp'):
        add('leftover %s' % f, lambda f=f: pg.put(dest + '/' + f, b'left over'))
    ln = dest + '/pg_tblspc/16400'
    add('tablespace link missing', lambda: os.unlink(ln))
    add('tablespace link to elsewhere', lambda: (os.unlink(ln), os.symlink(out + '/keep', ln)))
    add('tablespace link is a directory', lambda: (os.unlink(ln), pg.put(ln + '/PG_16_202307071/1/500', b'wrong')))
    add('tablespace link is a file', lambda: (os.unlink(ln), pg.put(ln, b'wrong')))
    add('extra tablespace link', lambda: os.symlink(out + '/keep', dest + '/pg_tblspc/16999'))
    add('tablespace missing', lambda: shutil.rmtree(e.root + '/dts'))
    add('tablespace version directory missing', lambda: shutil.rmtree(e.root + '/dts/PG_16_202307071'))
    add('tablespace has extra file', lambda: pg.put(e.root + '/dts/PG_16_202307071/1/extra', b'e'))
    add('tablespace file changed', lambda: pg.put(e.root + '/dts/PG_16_202307071/1/500', b'e' * 9000, OLD + 3))
    add('all but PG_VERSION gone', lambda: [shutil.rmtree(dest + '/' + x) if os.path.isdir(dest + '/' + x) else os.unlink(dest + '/' + x) for x in os.listdir(dest) if x != 'PG_VERSION'])
    add('PG_VERSION gone', lambda: os.unlink(dest + '/PG_VERSION'))
    add('PG_VERSION gone, manifest there', lambda: (os.unlink(dest + '/PG_VERSION'), pg.put(dest + '/backup.manifest', b'x')))
    add('control file wrong', lambda: pg.put(dest + '/global/pg_control', b'\1' * 8192))
    add('data directory mode', lambda: os.chmod(dest, 0o750))
    viol, n, keys = [], 0, []
    pristine, pts = e.root + '/p1', e.root + '/p2'
    shutil.copytree(dest, pristine, symlinks=True)
    shutil.copytree(e.root + '/dts', pts, symlinks=True)
    dmode = os.stat(dest).st_mode
    for i, (name, fn) in enumerate(S):
        if i % parts != part:
            continue
        pg.rmtree(dest), pg.rmtree(e.root + '/dts'), pg.rmtree(out)
        shutil.copytree(pristine, dest, symlinks=True)
        shutil.copytree(pts, e.root + '/dts', symlinks=True)
        pg.put(out + '/keep/f', b'keep', 7777)
        fn()
        outside = pg.tree(out, content=False, mtime=True)
        r = bk.restore(e, dest, fresh=False, **MODE[mode], **o)
        n += 1
        keys.append(core.h((names, mode, name)))
        t = '%r %s restore, %s' % (names, mode, name)
        if name == 'PG_VERSION gone':
            # does not look like a cluster: refused untouched
            if r.rc == 0:
                viol.append((t + ': accepted', ''))
            continue
        if r.rc:
            viol.append(('%s: fails: %r' % (t, r), ''))
        else:
            w = want
            got = dview(e.root)
            if 'postgresql.auto.conf' in name and not name.endswith('.tmp') or name.endswith(('recovery.signal', 'standby.signal')):
                # recovery files are kept with type=preserve
                got = {k: v for k, v in got.items() if k not in ('dest/postgresql.auto.conf', 'dest/recovery.signal', 'dest/standby.signal')}
            df = pg.tree_diff(w, got)
            if df:
                viol.append(('%s: differs from a restore to an empty destination:\n%s' % (t, '\n'.join(df)), ''))
            if os.stat(dest).st_mode != dmode:
                viol.append(('%s: data directory mode %o' % (t, os.stat(dest).st_mode), ''))
        if pg.tree(out, content=False, mtime=True) != outside:
            viol.append(('%s: changed files outside: %r' % (t, pg.tree_diff(outside, pg.tree(out, content=False, mtime=True))), ''))
        if len(viol) > 3:
            break
    pg.rmtree(root)
    return dict(evals=n, trans=n, keys=keys, viol=viol[:4])


def pairs(arg):
    """restore i, then j over it, for every ordered pair of backups of a history"""
    idx, names, hist, mode = arg
    root = core.scratch('p%d' % idx)
    e = pg.Env(root + '/w')
    e.conf(**bk.store(*names))
    world(e)
    for n in range(6):
        e.file('base/1/%d' % (100 + n), (bk.blob(n, 12000 * n), OLD))
    dest = e.root + '/dest'
    for i, t in enumerate(hist):
        if i:
            e.advance(500)
            for n in range(6):
                p = e.pg + '/base/1/%d' % (100 + n)
                b = bytearray(open(p, 'rb').read()) if os.path.exists(p) else bytearray()
                k = (n + i) % 6
                if k == 0:
                    b += bk.blob('%d.%d' % (n, i), 40000)
                elif k == 1:
                    b = b[:len(b) // 2]
                elif k == 2 and len(b) > 10:
                    b[len(b) // 3:len(b) // 3 + 9] = b'#' * 9
                elif k == 3:
                    os.path.exists(p) and os.unlink(p)
                    continue
                elif k == 4:
                    b = b'\0' * 8192 + b
                pg.put(p, bytes(b), e.now() - 10)
            pg.put(e.pg + '/d%d/f' % i, b'f', e.now() - 10)
            if i > 1:
                shutil.rmtree(e.pg + '/d%d' % (i - 1))
        e.run('backup', type={'F': 'full', 'D': 'diff', 'I': 'incr'}[t], online=False, ok=True)
    labels = bk.backups(e)
    o = dict(tablespace_map='16400=%s/dts' % e.root)
    want = {}
    for l in labels:
        pg.rmtree(e.root + '/dts')
        bk.restore(e, dest, l, ok=True, **o)
        want[l] = dview(e.root)
    viol, n, keys = [], 0, []
    for a, b in itertools.product(labels, repeat=2):
        pg.rmtree(e.root + '/dts')
        bk.restore(e, dest, a, ok=True, **o)
        r = bk.restore(e, dest, b, fresh=False, **MODE[mode], **o)
        n += 1
        keys.append(core.h((names, hist, mode, labels.index(a), labels.index(b))))
        t = '%r history %s: %s restored over %s (%s)' % (names, hist, b, a, mode)
        if r.rc:
            viol.append((t + ' fails: %r' % r, ''))
            continue
        df = pg.tree_diff(want[b], dview(e.root))
        if df:
            viol.append(('%s differs from a fresh restore:\n%s' % (t, '\n'.join(df)), ''))
    pg.rmtree(root)
    return dict(evals=n, trans=n, keys=keys, viol=viol[:4])


def main():
    c = core.Check('P11', 'exploration')
    core.build()
    if not c.thorough:
        confs = [('plain',), ('gz', 'bundle'), ('enc', 'block'), ('blockbig', 'zst'), ('par',)]
    else:
        confs = [(cp,) + en + st for cp in ('plain', 'gz', 'lz4', 'zst', 'bz2') for en in ((), ('enc',)) for st in ((), ('bundle',), ('block',), ('blockbig',), ('par',))]
    jobs = []
    for s in confs:
        for m in MODE:
            jobs.append((files, (len(jobs), s, m, list(KINDS), FDIFF, False)))
            jobs.append((files, (len(jobs), s, m, list(KINDS), [d for d in FDIFF if d not in ('zeroed', 'shift')], True)))
            for p in range(3):
                if s in (('plain',), ('enc', 'block')) or c.thorough:
                    jobs.append((structure, (len(jobs), s, m, p, 3)))
            for h in (('FIDI',) if not c.thorough else ('FIDI', 'FIIFI', 'FDID')):
                jobs.append((pairs, (len(jobs), s, h, m)))
    for r in core.pmap(run, jobs):
        c.merge(r)
    c.rule = 'file kinds x ways to differ, directory/link/leftover states, all ordered pairs of backups restored over each other; delta and force; compared with a restore to an empty destination'
    c.assumptions = ['with delta and force together (no checksums) a file whose size and time match is kept, as documented']
    c.finish()


def run(j):
    return j[0](j[1])


if __name__ == '__main__':
    main()
