#!/usr/bin/env python3
"""P26: every version of a file is rebuilt exactly from block maps and stored blocks (in-process exploration, and on disk through the commands)."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pgb import core, pg, bk
import p24

K = 8192


def disk(a):
    """all pairs of versions of one file (block words), full + two incrementals, each restored to a new and over every other version"""
    _, idx, lo, n, store, deep = a
    root = core.scratch('b%d' % idx)
    words = [w for k in (2, 3, 4) for w in itertools.product('ab', repeat=k)]
    tails = (0, 1000)
    vers = [(w, t) for w in words for t in tails][:: 1 if deep else 2]

    def content(v):
        # 16 KiB blocks for files of this size
        return b''.join(bk.blob(c, 2 * K) for c in v[0]) + bk.blob('t', v[1])
    viol, keys, ev = [], set(), 0
    e = pg.Env(root + '/w')
    e.conf(**bk.store(*store))
    e.cluster({})
    seqs = list(itertools.product(range(len(vers)), repeat=2))[lo::n]
    # many files at once: file i goes through sequence i
    for part in range(0, len(seqs), 60):
        cur = seqs[part:part + 60]
        pg.rmtree(e.repo(1))
        os.makedirs(e.repo(1))
        e.run('stanza-create', online=False, ok=True)
        snaps = []
        for step in range(3):
            for i, (x, y) in enumerate(cur):
                v = vers[(x, y, x)[step]]
                if step and vers[(x, y, x)[step - 1]] == v:
                    continue
                pg.put(e.pg + '/base/1/%d' % i, content(v), e.now() - 500 + step)
            snaps.append(bk.snap(e.pg))
            r = e.run('backup', type='full' if step == 0 else 'incr', online=False, ok=True)
            e.advance(1000)
        labs = bk.backups(e)
        for t, (w, lab) in enumerate(zip(snaps, labs)):
            for over in (None, 0, 1, 2):
                d = root + '/d'
                if over is None:
                    r = bk.restore(e, d, lab)
                elif over == t:
                    continue
                else:
                    bk.restore(e, d, labs[over], ok=True)
                    r = bk.restore(e, d, lab, fresh=False, delta=True)
                ev += len(cur)
                df = 'fails: %r' % r if r.rc else pg.tree_diff(w, bk.snap(d))
                if df:
                    viol.append(('restore of backup %d over %s: %s' % (t, over, df), repr((a, cur))))
        for i, (x, y) in enumerate(cur):
            keys.add(core.h((store, x, y)))
        if viol:
            break
    pg.rmtree(root)
    return dict(evals=ev, keys=keys, viol=viol[:3])


if __name__ == '__main__':
    core.build()
    deep = 'thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
    jobs = []
    n = 4
    for st in (('blockbig',), ('blockbig', 'zst'), ('blockbig', 'enc', 'gz'), ('blockbig', 'lz4', 'par')):
        for lo in range(n):
            jobs.append(('disk', len(jobs), lo, n, st, deep))
    p24.main('P26', 'p26', 'block.c',
             'every sequence of 3 versions over files of up to 3 (thorough 4) blocks of two contents with tails x super block, checksum, compression, encryption, bundle '
             'and buffer settings, each rebuilt over nothing, every other version, a longer and a shorter file; all sequences x,y,x of versions of real files on disk through '
             'backup and restore',
             ['versions abc|xyz, abc|abc|a, xyz with super block of 2 blocks in a bundle: each rebuilt over each other'],
             assume=['no collisions of the block checksums among the contents used'], more=(disk, jobs))
