#!/usr/bin/env python3
"""P14: every single-byte change, truncation, extension, removal and exchange of every repository file a restore depends on."""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pgb import core, pg, bk

OLD = pg.T0 - 5000


def build(e):
    e.cluster({'base/1/100': (bk.blob('a', 700), OLD), 'base/1/101': (b''.join(bytes([i]) * 8192 for i in range(7)), OLD), 'base/1/102': (b'', OLD),
               'base/1/103': (bk.blob('c', 700), OLD), 'base/1/104': (bk.blob('d', 30000), OLD), 'postgresql.conf': (b'x=1\n', OLD)})
    e.run('stanza-create', online=False, ok=True)
    e.run('backup', type='full', online=False, ok=True)
    e.advance(1000)
    d = bytearray(open(e.pg + '/base/1/101', 'rb').read())
    d[20000:20010] = b'0123456789'
    pg.put(e.pg + '/base/1/101', bytes(d), e.now() - 100)
    d = bytearray(open(e.pg + '/base/1/104', 'rb').read())
    d[9000:9010] = b'0123456789'
    pg.put(e.pg + '/base/1/104', bytes(d), e.now() - 100)
    pg.put(e.pg + '/base/1/105', bk.blob('e', 400), e.now() - 100)
    e.run('backup', type='incr', online=False, ok=True)


def worker(arg):
    idx, names, stride, dense, part, parts, delta, tables = arg
    root = core.scratch('w%d' % idx)
    e = pg.Env(root)
    e.conf(**bk.store(*names))
    build(e)
    labels = bk.backups(e)
    dest = root + '/dest'
    want = bk.snap(e.pg)
    if delta:
        bk.restore(e, dest, labels[0], ok=True)
        shutil.copytree(dest, root + '/older', symlinks=True)
    b = e.repo(1) + '/backup/demo'
    files = []
    for d in labels:
        for dp, dn, fn in os.walk(b + '/' + d):
            for n in fn:
                files.append(os.path.relpath(os.path.join(dp, n), b))
    files = sorted(f for f in files if not (f.startswith(labels[0]) and 'manifest' in f)) + ['backup.info']
    muts = []
    for f in files:
        o = open(b + '/' + f, 'rb').read()
        n = len(o)
        step = stride if n > dense else 1
        for i in range(0, n, step):
            m = (0x01, 0x80, 0x20, 0xff)[(i // step) % 4]
            muts.append((f, 'byte %d ^ %02x' % (i, m), lambda o, i=i, m=m: o[:i] + bytes([o[i] ^ m]) + o[i + 1:]))
        for i in range(0, n, step * 3):
            muts.append((f, 'truncated to %d' % i, lambda o, i=i: o[:i]))
            muts.append((f, 'byte %d removed' % i, lambda o, i=i: o[:i] + o[i + 1:]))
            muts.append((f, 'byte inserted at %d' % i, lambda o, i=i: o[:i] + b'0' + o[i:]))
        for nm, fn in (('one byte more', lambda o: o + b'\0'), ('extended', lambda o: o + o[:100]), ('doubled', lambda o: o + o), ('last byte cut', lambda o: o[:-1]),
                       ('zeroed', lambda o: b'\0' * len(o)), ('reversed', lambda o: o[::-1]), ('second half zeroed', lambda o: o[:len(o) // 2] + b'\0' * (len(o) - len(o) // 2)),
                       ('removed', lambda o: None), ('16 bytes cut', lambda o: o[:-16]), ('block exchanged', lambda o: o[16:32] + o[:16] + o[32:])):
            muts.append((f, nm, fn))
        for g in files:
            if g != f and ('manifest' in f) == ('manifest' in g):
                og = open(b + '/' + g, 'rb').read()
                if og != o:
                    muts.append((f, 'content of ' + g, lambda o, og=og: og))
        if 'pg_data' in f or 'bundle' in f:
            # consistent older version of the same file
            pass
    if any('backup.manifest' in f for f in files):
        m = labels[1] + '/backup.manifest'
        o = open(b + '/' + m, 'rb').read()
        for i in range(0, len(o), stride if len(o) > dense else 1):
            muts.append(((m, m + '.copy'), 'both copies byte %d' % i, lambda o, i=i: o[:i] + bytes([o[i] ^ 1]) + o[i + 1:]))
        # change a digit in both: still well formed
        for i in range(len(o)):
            if 48 <= o[i] <= 57 and (dense > 5000 or i % 3 == 0):
                muts.append(((m, m + '.copy'), 'both copies digit %d' % i, lambda o, i=i: o[:i] + bytes([48 + (o[i] - 47) % 10]) + o[i + 1:]))
        muts.append(((m, m + '.copy'), 'manifest of the other backup', lambda o: open(b + '/' + labels[0] + '/backup.manifest', 'rb').read()))
        muts.append(((m, m + '.copy'), 'removed', lambda o: None))
    viol, keys, n = [], set(), 0
    for j, (f, name, fn) in enumerate(muts):
        if j % parts != part:
            continue
        fl = f if isinstance(f, tuple) else (f,)
        orig = {x: open(b + '/' + x, 'rb').read() for x in fl}
        new = fn(orig[fl[0]])
        for x in fl:
            if new is None:
                os.unlink(b + '/' + x)
            else:
                open(b + '/' + x, 'wb').write(new)
        if delta:
            pg.rmtree(dest)
            shutil.copytree(root + '/older', dest, symlinks=True)
            r = bk.restore(e, dest, labels[1], fresh=False, delta=True)
        else:
            r = bk.restore(e, dest, labels[1])
        n += 1
        keys.add(core.h((names, delta, f, name)))
        if r.rc == 0:
            df = pg.tree_diff(want, bk.snap(dest))
            if df:
                viol.append(('%r%s: %s %s: restore succeeds with a wrong result:\n%s' % (names, ' delta' if delta else '', f, name, '\n'.join(df)), ''))
        elif r.rc < 0:
            viol.append(('%r: %s %s: restore ends with %r' % (names, f, name, r), ''))
        for x in fl:
            open(b + '/' + x, 'wb').write(orig[x])
        if len(viol) > 4:
            break
    pg.rmtree(root)
    return dict(evals=n, trans=n, keys=keys, viol=viol[:4], samples=['%r: %d damages of %d files' % (names, len(muts), len(files))] if part == 0 else [])


def main():
    c = core.Check('P14', 'fault_enumeration')
    core.build()
    jobs = []
    if not c.thorough:
        confs = [(('plain',), False), (('gz',), False), (('lz4',), False), (('enc', 'zst'), False), (('bundle', 'bz2'), False), (('block',), False), (('block', 'enc'), True), (('blockbig', 'zst'), True)]
        stride, dense, parts = 89, 60, 4
    else:
        confs = [((cp,) + en + st, d) for cp in ('plain', 'gz', 'lz4', 'zst', 'bz2') for en in ((), ('enc',)) for st in ((), ('bundle',), ('block',), ('blockbig',)) for d in (False, True)]
        stride, dense, parts = 17, 6000, 8
    for s, d in confs:
        for i in range(parts):
            jobs.append((len(jobs), s, stride, dense, i, parts, d, False))
    for r in core.pmap(worker, jobs):
        c.merge(r)
    c.rule = 'every damaged byte position (stride for large files), truncation, insertion, removal, exchange of every file the restore reads; success requires the exact tree'
    c.note(stride=stride, files_up_to_bytes_checked_at_every_position=dense)
    c.finish()


if __name__ == '__main__':
    main()
