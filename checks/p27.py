#!/usr/bin/env python3
"""P27: everything written in the tool's own formats is read back unchanged (in-process formats, and names and annotations through the real commands)."""
import itertools, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pgb import core, pg, bk
import p24

CH = ['a', '"', '\\', '\n', '\t', '\r', '\x01', '\x7f', 'é', '\udcff', '{', '}', '[', ']', '=', ' ', '#', ':', ',', "'", '%', '$', '&', ';', '*', '?', '.', '-', '~', '@', '|', '<']


def cli(a):
    return {'names': names, 'newline': newline, 'annot': annot, 'backupannot': backupannot}[a[0]](a)


def names(a):
    """every name of up to 2 special characters as file and directory names, through backup, incremental backup and restore"""
    _, idx, store, lo, hi = a
    root = core.scratch('n%d' % idx)
    e = pg.Env(root)
    e.conf(**bk.store(*store))
    e.cluster()
    allnm = [''.join(x) for n in (1, 2) for x in itertools.product([c for c in CH if c != '\n'], repeat=n)]
    nm = [x for x in allnm if x not in ('.', '..')][lo::hi]
    d = e.pg + '/base/1'
    for i, x in enumerate(nm):
        pg.put(d + '/x' + x, b'%d' % i, e.now() - 100)
        pg.put(d + '/' + x + 'x', b'e%d' % i, e.now() - 100)
        pg.put(e.pg + '/base/7/' + x, b'%d' % i, e.now() - 100)
        os.makedirs(d + '/d' + x, exist_ok=True)
        pg.put(d + '/d' + x + '/f', b'in', e.now() - 100)
    e.run('stanza-create', online=False, ok=True)
    viol = []
    want = []
    for t in ('full', 'incr'):
        want.append(bk.snap(e.pg))
        r = e.run('backup', type=t, online=False)
        if r.rc:
            viol.append(('%s backup with special file names fails: %r' % (t, r), repr(a)))
            break
        e.advance(1000)
        for i, x in enumerate(nm[::3]):
            pg.put(d + '/x' + x, b'new%d' % i, e.now() - 100)
            if os.path.exists(d + '/' + x + 'x'):
                os.unlink(d + '/' + x + 'x')
    labs = bk.backups(e)
    for w, lab in zip(want, labs):
        r = bk.restore(e, root + '/dst', lab)
        if r.rc:
            viol.append(('restore of %s with special file names fails: %r' % (lab, r), repr(a)))
            continue
        df = pg.tree_diff(w, bk.snap(root + '/dst'))
        if df:
            viol.append(('restore of %s with special file names differs: %s' % (lab, df[:3]), repr(a)))
    r = e.run('verify')
    if r.rc or 'status: error' in r.out:
        viol.append(('verify of backups with special file names: %r' % r, repr(a)))
    pg.rmtree(root)
    return dict(evals=len(nm) * 8, keys=set(core.h((store, x)) for x in nm), viol=viol[:3])


def newline(a):
    """a name that the manifest cannot hold must make the backup fail; a backup that completes must be restorable"""
    _, idx, kind = a
    root = core.scratch('l%d' % idx)
    e = pg.Env(root)
    e.conf()
    e.cluster()
    nm = {'file': 'base/1/a\nb', 'dir': 'base/a\nb/f', 'eq': 'base/1/a=1\nb={}', 'sec': 'base/1/x\n[backup:db]', 'tail': 'base/1/a\n', 'start': 'base/1/\na'}[kind]
    e.run('stanza-create', online=False, ok=True)
    e.run('backup', type='full', online=False, ok=True)
    want0 = bk.snap(e.pg)
    pg.put(e.pg + '/' + nm, b'xx', e.now() - 50)
    e.advance(1000)
    want = bk.snap(e.pg)
    viol = []
    before = bk.backups(e)
    for t in ('full', 'incr'):
        r = e.run('backup', type=t, online=False)
        labs = bk.backups(e)
        if r.rc == 0 and len(labs) != len(before) + 1:
            viol.append(('%s backup with name %r succeeds but lists %r' % (t, nm, labs), repr(a)))
        for lab in labs:
            x = bk.restore(e, root + '/dst', lab)
            w = want0 if lab in before else want
            df = 'fails: %r' % x if x.rc else pg.tree_diff(w, bk.snap(root + '/dst'))
            if df:
                viol.append(('after %s backup (rc %d) of a cluster with the name %r the restore of %s: %s' % (t, r.rc, nm, lab, df), repr(a)))
        e.advance(1000)
    pg.rmtree(root)
    return dict(evals=4, keys={core.h(('nl', kind))}, viol=viol[:3])


def annot(a):
    """an annotation is stored exactly or refused; either way the backup information stays readable and the other annotations stay"""
    _, idx, lo, n = a
    root = core.scratch('a%d' % idx)
    e = pg.Env(root)
    e.conf()
    e.cluster()
    e.run('stanza-create', online=False, ok=True)
    e.run('backup', type='full', online=False, ok=True)
    lab = bk.backups(e)[0]
    strs = [''.join(x) for k in (1, 2) for x in itertools.product(CH, repeat=k)]
    cur = {}
    viol = []
    ev = 0
    for i, s in enumerate(strs):
        if i % n != lo or '\udcff' in s:
            continue
        for key, val in (('k', s), (s, 'v'), ('k' + s, s)):
            if '=' in key:
                continue
            ev += 1
            r = e.run('annotate', set=lab, annotation='%s=%s' % (key, val))
            if r.rc == 0:
                cur[key] = val
            q = e.run('info', output='json')
            try:
                j = json.loads(q.out, strict=False)
                got = j[0]['backup'][0].get('annotation') or {}
            except Exception as x:
                viol.append(('after annotate %r=%r (rc %d) info gives %r' % (key, val, r.rc, q.out[-500:]), repr(a)))
                break
            if got != cur:
                viol.append(('after annotate %r=%r (rc %d) the annotations are %r instead of %r' % (key, val, r.rc, {k: v for k, v in got.items() if cur.get(k) != v},
                                                                                           {k: v for k, v in cur.items() if got.get(k) != v}), repr(a)))
                break
        if viol:
            break
        if len(cur) > 12:
            for k in list(cur)[:10]:
                if e.run('annotate', set=lab, annotation=k + '=').rc == 0:
                    del cur[k]
    pg.rmtree(root)
    return dict(evals=ev, keys=set(core.h(('an', lo, i)) for i in range(ev)), viol=viol[:2])


def backupannot(a):
    """the same given with the backup"""
    _, idx, lo, n = a
    root = core.scratch('b%d' % idx)
    e = pg.Env(root)
    e.conf()
    e.cluster()
    e.run('stanza-create', online=False, ok=True)
    e.run('backup', type='full', online=False, ok=True)
    want = bk.snap(e.pg)
    viol = []
    ev = 0
    for i, s in enumerate(CH):
        if i % n != lo or s == '\udcff' or s == '=':
            continue
        ev += 1
        e.advance(100)
        r = e.run('backup', type='incr', online=False, annotation='k%s=%s' % (s, s))
        j = json.loads(e.run('info', output='json').out, strict=False)
        b = j[0]['backup']
        if not b:
            viol.append(('after a backup with annotation %r (rc %d) no backup is listed: %r' % ('k%s=%s' % (s, s), r.rc, j), repr(a)))
            break
        if r.rc == 0 and b[-1].get('annotation') != {'k' + s: s}:
            viol.append(('backup with annotation %r lists %r' % ('k%s=%s' % (s, s), b[-1].get('annotation')), repr(a)))
        x = bk.restore(e, root + '/dst', b[-1]['label'])
        if x.rc or pg.tree_diff(want, bk.snap(root + '/dst')):
            viol.append(('backup %s made with annotation %r cannot be restored: %r' % (b[-1]['label'], s, x), repr(a)))
    pg.rmtree(root)
    return dict(evals=ev, keys=set(core.h(('ba', lo, i)) for i in range(ev)), viol=viol[:2])


if __name__ == '__main__':
    q = 64
    jobs = [('names', i, st, i % 4, 4) for i, st in enumerate([(), (), (), (), ('bundle',), ('block',), ('bundle',), ('block',)] + ([('gz',), ('enc',), ('enc', 'block'), ('lz4',)] * 4))]
    core_t = os.environ.get('VERIF_TIER')
    jobs += [('newline', 100 + i, k) for i, k in enumerate(('file', 'dir', 'eq', 'sec', 'tail', 'start'))]
    jobs += [('annot', 200 + i, i, 16) for i in range(16)]
    jobs += [('backupannot', 300 + i, i, 4) for i in range(4)]
    p24.main('P27', 'p27', 'pure.c',
             'integers within 2 of every power of two in every textual, JSON, pack and variable length form with every truncation; all strings of up to 3 of 24 special characters in JSON and info '
             'text; every pair (and the triples of kinds) of pack fields x values x id gaps x I/O buffer sizes with truncations; base64/hex of 0..70 bytes with every byte value in every position; '
             'string ids of all lengths with all letter pairs; every file name of up to 2 of 31 special characters through backup and restore, annotations with all such keys and values',
             ['file name \'"=\' in base/1 through full and incremental backup', 'annotation key k" with value "', 'pack: u64 max, gap of 20 ids, string list of 3'],
             assume=['lists, arrays and objects of a pack are read whole by every caller, skipping over them is not supported',
                     'trailing text after a JSON value is detected by the validation every info file value gets'], more=(cli, jobs))
