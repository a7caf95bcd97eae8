#!/usr/bin/env python3
"""P19: verify over every kind of damage to every repository file; oracle = the damage planted, the manifests and actual restores."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pgb import core, pg, bk


def build(root, names, types, nwal=5, skip=(), extra=None):
    e = pg.Env(root)
    e.conf(archive_async=None, **bk.store(*names))
    # single letter names so that every position in the manifest order is taken by some unchanged and some changed file
    e.cluster({'base/1/%d' % i: (bk.blob(i, 9000 + 100 * i), pg.T0 - 5000) for i in range(3)})
    if 'block' in names:
        e.file('base/1/9', bk.blob('big', 40000), pg.T0 - 5000)
    e.file('zz_last', bk.blob('z', 5000))
    e.file('aa_first', bk.blob('a', 5000))
    e.file('base/1/empty', b'')
    e.run('stanza-create', online=False, ok=True)
    for i in range(nwal):
        if i in skip:
            continue
        nm = pg.walname(1, 4094 + i)
        pg.put(e.pg + '/pg_wal/' + nm, pg.wal(fill=i), e.now())
        e.run('archive-push', e.pg + '/pg_wal/' + nm, ok=True)
        os.unlink(e.pg + '/pg_wal/' + nm)
    for i, ty in enumerate(types):
        if i:
            e.advance(3600)
            for f in (extra or [['base/1/0'], ['aa_first'], ['zz_last'], ['base/1/2']])[(i - 1) % 4]:
                d = bytearray(open(e.pg + '/' + f, 'rb').read())
                d[100:108] = b'%08d' % i
                pg.put(e.pg + '/' + f, bytes(d), e.now() - 10)
        e.run('backup', type={'F': 'full', 'D': 'diff', 'I': 'incr'}[ty], online=False, ok=True)
    return e


def result(e, **kw):
    r = e.run('verify', output='text', verbose=True, **kw)
    st = re.search(r'^status: (\w+)', r.out, re.M)
    bs = dict(re.findall(r'backup: (\S+), status: ([a-z -]+),', r.out))
    wal = re.findall(r'archiveId: (\S+), total WAL checked: (\d+), total valid WAL: (\d+)', r.out)
    return r, st.group(1) if st else None, bs, wal


def repo_files(e):
    out = []
    for d, dn, fn in os.walk(e.repo() + '/backup/demo'):
        for f in fn:
            p = os.path.join(d, f)
            if '/backup.history/' in p or os.path.islink(p) or f.startswith('backup.'):
                continue
            if '/latest' in p:
                continue
            out.append(p)
    return sorted(out)


def users(e, path, labels):
    """labels of the backups whose manifest says they contain (directly or by reference) something stored in this file"""
    rel = os.path.relpath(path, e.repo() + '/backup/demo')
    lab = rel.split('/')[0]
    res = set()
    for l in labels:
        m = pg.info_ini(e.repo() + '/backup/demo/' + l + '/backup.manifest')
        for nm, f in m['target:file'].items():
            if nm.startswith('_'):
                continue
            ref = f.get('reference', None)
            dflt = m.get('target:file:default', {})
            ref = ref or l
            if isinstance(f.get('rsl'), str):
                ref = f['rsl']
            if ref != lab:
                continue
            yield_l = False
            if 'bni' in f:
                yield_l = rel == '%s/bundle/%d' % (lab, f['bni'])
            else:
                yield_l = rel.startswith(lab + '/' + nm) and rel[len(lab + '/' + nm):] in ('', '.gz', '.lz4', '.zst', '.bz2', '.pgbi')
            if yield_l:
                res.add(l)
    return res


def last_own(e, lab):
    """repository file (without extension) of the last file of the backup that is not a reference"""
    m = pg.info_ini(e.repo() + '/backup/demo/' + lab + '/backup.manifest')
    own = [(n, f) for n, f in sorted(m['target:file'].items()) if not n.startswith('_') and f.get('reference') is None]
    if not own:
        return ''
    n, f = own[-1]
    return '%s/bundle/%d' % (lab, f['bni']) if 'bni' in f else lab + '/' + n


def damages(data, stride, bundle):
    n = len(data)
    yield 'removed', None
    for k in sorted({0, 1, n // 2, n - 1} if not bundle else {0, n // 3, n - 1}):
        if 0 <= k < n:
            yield 'cut to %d of %d' % (k, n), data[:k]
    for k in sorted(set(range(0, n, stride)) | {n - 1}):
        if n:
            x = bytearray(data)
            x[k] ^= 0x01
            yield 'byte %d altered' % k, bytes(x)
    if not bundle:
        yield 'one byte longer', data + b'\0'


def damage(arg):
    """every damage of the files of one configuration"""
    idx, names, types, stride, chunk, kw, extra = arg
    root = core.scratch('d%d' % idx)
    viol, keys, n = [], set(), 0
    e = build(root + '/w', names, types, extra=extra)
    labels = bk.backups(e)
    r, st, bs, wal = result(e, **kw)
    n += 1
    desc0 = 'repository %r backups %s' % (names, types)
    if r.rc or st != 'ok' or bs != {l: 'valid' for l in labels} or wal != [('16-1', '5', '5')]:
        viol.append(('%s: intact repository is reported as %r' % (desc0, r), ''))
        return dict(evals=n, viol=viol)
    block = 'block' in names or 'blockbig' in names
    i = -1
    for p in repo_files(e):
        data = open(p, 'rb').read()
        bundle = '/bundle/' in p
        rel = os.path.relpath(p, e.repo() + '/backup/demo')
        us = None
        for what, bad in damages(data, stride, bundle):
            i += 1
            if i % chunk[1] != chunk[0]:
                continue
            if us is None and 'enc' not in names:
                us = users(e, p, labels)
            if us == set():
                # a hard link made for the convenience of the user: restore does not read it
                break
            if bad is None:
                os.unlink(p)
            else:
                pg.put(p, bad, mode=0o640)
            r, st, bs, wal = result(e, **kw)
            n += 1
            keys.add(core.h((names, types, rel, what)))
            desc = '%s: %s %s' % (desc0, rel, what)
            # recorded findings: the result of the last file(s) of a backup is not awaited by backups that reference them, and block
            # incremental files are not found in the list of invalid files
            key = None
            if rel.endswith('.pgbi'):
                key = 'blockincr-reference'
            elif 'par' in names or ('enc' not in names and rel.startswith(last_own(e, rel.split('/')[0]))):
                key = 'outstanding-reference'
            if st != 'error' or r.rc:
                viol.append(('%s: verify reports status %r rc=%d' % (desc, st, r.rc), r.all))
            inv = {l for l, s in bs.items() if s == 'invalid'}
            if set(bs) != set(labels):
                viol.append(('%s: backups reported %r' % (desc, bs), r.all))
            if rel.split('/')[0] not in inv:
                viol.append(('%s: backup holding the file reported %r' % (desc, bs), r.all))
            if us is not None and not inv <= us | {rel.split('/')[0]}:
                viol.append(('%s: %r reported invalid but the file is used by %r only' % (desc, sorted(inv), sorted(us)), r.all))
            if us is not None and not bundle and not us <= inv:
                viol.append(('%s: used by %r but only %r reported invalid' % (desc, sorted(us), sorted(inv)), r.all, key))
            # what is reported as valid must restore (block incremental backups also use blocks of the ones before)
            for l in labels:
                if l not in inv and not (block and inv):
                    rr = bk.restore(e, root + '/r', l)
                    n += 1
                    if rr.rc:
                        viol.append(('%s: %s is reported valid but cannot be restored: %r' % (desc, l, rr), r.all, key))
            if bad is None:
                pg.put(p, data, mode=0o640)
            if sum(len(v) < 3 or not v[2] for v in viol) > 4:
                break
        pg.put(p, data, mode=0o640)
        if sum(len(v) < 3 or not v[2] for v in viol) > 4:
            break
    pg.rmtree(root)
    return dict(evals=n, keys=keys, viol=viol, samples=[desc0])


def waldamage(arg):
    """every subset of segments missing x one damaged segment; duplicates; ranges reported"""
    idx, names, n_seg, chunk, stride = arg
    root = core.scratch('v%d' % idx)
    viol, keys, n = [], set(), 0
    e = build(root + '/w', names, 'F', nwal=n_seg)
    ad = e.repo() + '/archive/demo/16-1'
    files = {}
    for d, dn, fn in os.walk(ad):
        for f in fn:
            files[f[:24]] = os.path.join(d, f)
    segs = sorted(files)
    content = {s: open(files[s], 'rb').read() for s in segs}
    k = -1
    for present in itertools.product((1, 0), repeat=n_seg):
        here = [s for s, p in zip(segs, present) if p]
        for s in segs:
            if s in here:
                pg.put(files[s], content[s], mode=0o640)
            elif os.path.exists(files[s]):
                os.unlink(files[s])
        cases = [('', None, None)]
        for s in here:
            c = content[s]
            for j in ({0, 30, len(c) // 2, len(c) - 1} if len(here) < n_seg else set(range(0, len(c), stride)) | {len(c) - 1}):
                x = bytearray(c)
                x[j] ^= 1
                cases.append(('%s byte %d altered' % (s, j), s, bytes(x)))
            for j in (0, 1, 100, len(c) - 1):
                cases.append(('%s cut to %d' % (s, j), s, c[:j]))
            cases.append(('%s duplicated' % s, s, 'dup'))
        for what, s, bad in cases:
            k += 1
            if k % chunk[1] != chunk[0]:
                continue
            dup = None
            if bad == 'dup':
                q = files[s]
                dup = os.path.dirname(q) + '/' + s + '-' + ('f' * 40) + q.split(s)[1][41:]
                pg.put(dup, content[s], mode=0o640)
            elif s:
                pg.put(files[s], bad, mode=0o640)
            r, st, bs, wal = result(e)
            r2 = e.run('verify', log_level_console='detail')
            rng = re.findall(r'wal start: (\w+), wal stop: (\w+)', r2.all)
            n += 1
            keys.add(core.h((names, present, what)))
            desc = 'archive %r with %d segments present (%s) %s' % (names, len(here), ''.join(map(str, present)), what)
            if s is None:
                if st != 'ok':
                    viol.append(('%s: status %r' % (desc, st), r.all))
                if here and wal != [('16-1', str(len(here)), str(len(here)))]:
                    viol.append(('%s: counts %r' % (desc, wal), r.all))
                want = []
                for x in here:
                    if want and segs.index(x) == segs.index(want[-1][1]) + 1:
                        want[-1] = (want[-1][0], x)
                    else:
                        want.append((x, x))
                if rng != want:
                    viol.append(('%s: WAL ranges reported %r, really %r' % (desc, rng, want), r2.all))
            else:
                # a segment whose header is unreadable may also make verify fail altogether; an alteration that decompresses to the
                # same bytes (a different match in a run of zeros) is no damage
                if r.rc == 0 and st == 'ok' and bad != 'dup':
                    dst = root + '/got'
                    g = e.run('archive-get', s, dst)
                    same = g.rc == 0 and open(dst, 'rb').read() == pg.wal(fill=segs.index(s))
                    if os.path.exists(dst):
                        os.unlink(dst)
                    if same:
                        pg.put(files[s], content[s], mode=0o640)
                        continue
                if r.rc == 0 and st != 'error':
                    viol.append(('%s: verify reports %r' % (desc, st), r.all))
                if r.rc == 0 and bad != 'dup' and wal and wal[0][1] == wal[0][2]:
                    viol.append(('%s: all WAL counted as valid %r' % (desc, wal), r.all))
                if r.rc == 0 and bad != 'dup' and s not in r2.all:
                    viol.append(('%s: the segment is not named' % desc, r2.all))
            if dup:
                os.unlink(dup)
            elif s:
                pg.put(files[s], content[s], mode=0o640)
            if len(viol) > 4:
                break
        if len(viol) > 4:
            break
    pg.rmtree(root)
    return dict(evals=n, keys=keys, viol=viol[:4])


def infofiles(arg):
    """info files and manifests: every state of (file, copy)"""
    idx, names = arg
    root = core.scratch('i%d' % idx)
    viol, keys, n = [], set(), 0
    e = build(root + '/w', names, 'FI')
    labels = bk.backups(e)
    targets = [('backup/demo/backup.info', 'info'), ('archive/demo/archive.info', 'info')] + [('backup/demo/%s/backup.manifest' % l, 'man') for l in labels]
    for t, kind in targets:
        p = e.repo() + '/' + t
        org = [open(p + x, 'rb').read() for x in ('', '.copy')]
        alts = ['good', 'gone', 'empty', 'cut', 'flip']
        for a in itertools.product(alts, repeat=2):
            for x, st, o in zip(('', '.copy'), a, org):
                q = p + x
                if st == 'gone':
                    if os.path.exists(q):
                        os.unlink(q)
                else:
                    b = bytearray(o)
                    if st == 'flip':
                        b[len(b) // 2] ^= 1
                    pg.put(q, {'good': o, 'empty': b'', 'cut': o[:len(o) * 2 // 3], 'flip': bytes(b)}[st], mode=0o640)
            r, st, bs, wal = result(e)
            n += 1
            keys.add(core.h((names, t, a)))
            desc = '%r: %s and its copy are %r' % (names, t, a)
            usable = 'good' in a
            if kind == 'info':
                if (st == 'ok') != usable:
                    viol.append(('%s: status %r' % (desc, st), r.all))
            else:
                l = t.split('/')[2]
                if a == ('gone', 'gone'):
                    ok = bs.get(l) == 'manifest missing'
                elif a[0] == 'gone' and l == labels[-1] and bs.get(l) == 'in-progress':
                    ok = True
                elif usable:
                    ok = st == 'ok' and bs.get(l) == 'valid'
                else:
                    ok = st == 'error' and bs.get(l) == 'invalid'
                if not ok:
                    viol.append(('%s: status %r, backups %r' % (desc, st, bs), r.all))
        for x, o in zip(('', '.copy'), org):
            pg.put(p + x, o, mode=0o640)
    pg.rmtree(root)
    return dict(evals=n, keys=keys, viol=viol[:4])


def main():
    c = core.Check('P19')
    core.build()
    jobs = []
    ex = [['base/1/0'], ['base/1/0', 'aa_first'], ['base/1/0']]
    ex2 = [['aa_first'], ['base/1/1'], ['aa_first']]
    if not c.thorough:
        conf = [(('plain',), 'FDI', 4000, 4, {}, None), (('gz',), 'FII', 1500, 3, {}, ex), (('bundle',), 'FI', 9000, 2, {}, ex2), (('enc', 'zst'), 'FI', 900, 3, {}, None),
                (('block',), 'FII', 9000, 3, {}, None), (('plain', 'par'), 'FI', 6000, 3, {}, ex), (('hard', 'lz4'), 'FI', 2000, 2, {}, ex2)]
    else:
        conf = [((st, cp), ty, s, 8, {}, x) for st in ('plain', 'bundle', 'block', 'blockbig', 'hard', 'enc', 'par') for cp, s in (('plain', 500), ('gz', 60), ('zst', 100))
                for ty in ('FI', 'FDI', 'FIIF') for x in (None, ex, ex2)]
    for names, ty, stride, N, kw, x in conf:
        for i in range(N):
            jobs.append((len(jobs), names, ty, stride, (i, N), kw, x))
    for r in core.pmap(damage, jobs):
        c.merge(r)
    c.phase('damage')
    wj = []
    for names, ns, st in ((('plain',), 4, 300000), (('gz',), 3, 2000), (('enc', 'zst'), 3, 2000)) if not c.thorough else ((('plain',), 5, 30000), (('gz',), 5, 100), (('zst', 'enc'), 5, 100), (('lz4',), 4, 100)):
        for i in range(4):
            wj.append((len(wj), names, ns, (i, 4), st))
    for r in core.pmap(waldamage, wj):
        c.merge(r)
    c.phase('wal')
    for r in core.pmap(infofiles, [(0, ('plain',)), (1, ('enc',)), (2, ('bundle',))]):
        c.merge(r)
    c.rule = 'every repository file x {removed, truncated, byte altered, extended}, every subset of archived segments x damaged or duplicated segment, every pair of states of each info file and manifest with its copy'
    c.assumptions = ['altered bytes at the stated stride', 'offline backups']
    c.finish()


if __name__ == '__main__':
    main()
