#!/usr/bin/env python3
"""P08: a full backup killed at every operation, then every single change of the cluster or damage of the partial backup, then resume."""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pgb import core, pg, bk

FILES = {'base/1/100': (bk.blob('a', 3 * 8192), pg.T0 - 5000), 'base/1/101': (bk.blob('b', 40000), pg.T0 - 5000),
         'base/1/102': (b'', pg.T0 - 5000), 'pg_xact/0000': (bk.blob('c', 300), pg.T0 - 5000), 'postgresql.conf': (b'# conf\n', pg.T0 - 5000),
         'base/5/103': (bk.blob('d', 30000), pg.T0 - 5000)}
PGF = ['base/1/100', 'base/1/101', 'pg_xact/0000', 'base/5/103', 'base/1/102']


def flip(d, i):
    d = bytearray(d)
    d[i] ^= 0x41
    return bytes(d)


def cluster_muts(delta):
    def rd(e, f):
        return open(e.pg + '/' + f, 'rb').read()
    m = [('nothing', lambda e: None)]
    for f in PGF:
        m += [
            ('%s same size, new time' % f, lambda e, f=f: pg.put(e.pg + '/' + f, flip(rd(e, f), -1) if rd(e, f) else b'', e.now() - 50)),
            ('%s grown, same time' % f, lambda e, f=f: pg.put(e.pg + '/' + f, rd(e, f) + b'more' * 50, pg.T0 - 5000)),
            ('%s shrunk' % f, lambda e, f=f: pg.put(e.pg + '/' + f, rd(e, f)[:-7], e.now() - 50)),
            ('%s emptied' % f, lambda e, f=f: pg.put(e.pg + '/' + f, b'', e.now() - 50)),
            ('%s removed' % f, lambda e, f=f: os.unlink(e.pg + '/' + f)),
            ('%s is now a directory' % f, lambda e, f=f: (os.unlink(e.pg + '/' + f), pg.put(e.pg + '/' + f + '/in', b'in', e.now() - 50))),
            ('%s touched' % f, lambda e, f=f: os.utime(e.pg + '/' + f, (e.now() - 50, e.now() - 50))),
        ]
        if delta:
            m.append(('%s same size and time' % f, lambda e, f=f: pg.put(e.pg + '/' + f, flip(rd(e, f), 0) if rd(e, f) else b'', pg.T0 - 5000)))
    m += [('directory removed', lambda e: shutil.rmtree(e.pg + '/base/5')),
          ('new file', lambda e: pg.put(e.pg + '/base/1/2000', b'new', e.now() - 50)),
          ('all changed', lambda e: [pg.put(e.pg + '/' + f, flip(rd(e, f), 0) if rd(e, f) else b'', e.now() - 50) for f in PGF])]
    return m


def repo_muts(d):
    """damage of the partial backup directory d; the list depends on what is there"""
    res = []
    for dp, dn, fn in os.walk(d):
        for n in fn:
            p = os.path.join(dp, n)
            rel = os.path.relpath(p, d)
            sz = os.path.getsize(p)
            for i in sorted({0, sz // 2, sz - 1}) if sz else []:
                res.append(('%s byte %d changed' % (rel, i), lambda d, rel=rel, i=i: open(d + '/' + rel, 'r+b').write(b'') or wr(d + '/' + rel, lambda b: flip(b, i))))
            res.append(('%s truncated' % rel, lambda d, rel=rel: wr(d + '/' + rel, lambda b: b[:len(b) // 2])))
            res.append(('%s emptied' % rel, lambda d, rel=rel: wr(d + '/' + rel, lambda b: b'')))
            res.append(('%s extended' % rel, lambda d, rel=rel: wr(d + '/' + rel, lambda b: b + b'xyz')))
            res.append(('%s removed' % rel, lambda d, rel=rel: os.unlink(d + '/' + rel)))
            if 'pg_data' in rel:
                res.append(('%s is a directory' % rel, lambda d, rel=rel: (os.unlink(d + '/' + rel), os.makedirs(d + '/' + rel + '/sub'))))
                res.append(('%s is a link' % rel, lambda d, rel=rel: (os.rename(d + '/' + rel, d + '/moved'), os.symlink(d + '/moved', d + '/' + rel))))
                for o in ('.gz', '.lz4', '.pgbi'):
                    res.append(('%s has a twin%s' % (rel, o), lambda d, rel=rel, o=o: shutil.copyfile(d + '/' + rel, d + '/' + rel.split('.')[0] + o)
                                if not os.path.exists(d + '/' + rel.split('.')[0] + o) else None))
    if os.path.isdir(d + '/pg_data'):
        res.append(('extra file', lambda d: pg.put(d + '/pg_data/base/1/9999', b'extra')))
        res.append(('extra directory', lambda d: pg.put(d + '/pg_data/base/77/9999', b'extra')))
        fs = [f for f in ('100', '101') if os.path.exists(d + '/pg_data/base/1/' + f)]
        if len(fs) == 2:
            res.append(('two files swapped', lambda d: (os.rename(d + '/pg_data/base/1/100', d + '/t'), os.rename(d + '/pg_data/base/1/101', d + '/pg_data/base/1/100'),
                                                        os.rename(d + '/t', d + '/pg_data/base/1/101'))))
    return res


def wr(p, fn):
    b = open(p, 'rb').read()
    open(p, 'wb').write(fn(b))


def judge(e, desc, viol, opts, strict):
    want = bk.snap(e.pg)
    if opts:
        e.conf(**{k: 'y' if v is True else None if v is False and k in ('repo1_bundle', 'repo1_block') else 'n' if v is False else v for k, v in opts.items()})
    r = e.run('backup', type='full', online=False)
    if r.rc:
        viol.append(('%s: the next backup fails: %r' % (desc, r), ''))
        return 1
    lab = bk.backups(e)
    if not lab:
        viol.append(('%s: no backup listed' % desc, ''))
        return 1
    r2 = bk.restore(e, e.root + '/r', lab[-1])
    if r2.rc:
        viol.append(('%s: restore fails: %r\n%r' % (desc, r2, r), ''))
        return 2
    df = pg.tree_diff(want, bk.snap(e.root + '/r'))
    if df:
        viol.append(('%s: restore differs from the cluster:\n%s\n%r' % (desc, '\n'.join(df), r), ''))
    # nothing but what the new backup needs
    d = e.repo(1) + '/backup/demo/' + lab[-1]
    if 'repo1-cipher-type' not in e.opts:
        m = pg.info_ini(d + '/backup.manifest')
        known = set(m['target:file'])
        for dp, dn, fn in os.walk(d):
            for n in fn:
                rel = os.path.relpath(os.path.join(dp, n), d)
                if rel.startswith('pg_data') and not any(rel == k or (rel.startswith(k + '.') and rel[len(k) + 1:] in ('gz', 'zst', 'lz4', 'pgbi', 'bz2')) for k in known):
                    viol.append(('%s: file %s is left in the backup' % (desc, rel), repr(r)))
        if strict:
            for dp, dn, fn in os.walk(d + '/pg_data'):
                for n in dn:
                    rel = os.path.relpath(os.path.join(dp, n), d)
                    if rel not in m['target:path']:
                        viol.append(('%s: directory %s is left in the backup' % (desc, rel), repr(r)))
    return 2


def worker(arg):
    idx, names, chunk, nth, extra, optb = arg
    root = core.scratch('w%d' % idx)
    viol, keys, n, t = [], set(), 0, 0
    e = pg.Env(root + '/w')
    e.conf(manifest_save_threshold='1', **bk.store(*names))
    e.cluster(FILES)
    e.run('stanza-create', online=False, ok=True)
    if extra:
        e.run('backup', type='full', online=False, ok=True)
        e.advance(100)
    it = bk.crashes(e, lambda e, log: e.run('backup', type='full', online=False, log=log), root + '/log', chunk=(0, 1), variants=('proc',))
    _, r, ops = next(it)
    if r.rc:
        return dict(evals=1, viol=[('backup fails: %r' % r, '')])
    k = 0
    cm = cluster_muts('delta' in names)
    resumed = 0
    for desc, e2, key in it:
        dirs = sorted(x for x in os.listdir(e2.repo(1) + '/backup/demo') if x.endswith('F'))
        part = [x for x in dirs if not os.path.exists(e2.repo(1) + '/backup/demo/%s/backup.manifest' % x)]
        if not part:
            continue
        pd = '/backup/demo/' + part[0]
        muts = [('cluster', a, b) for a, b in cm] + [('repo', a, b) for a, b in repo_muts(e2.repo(1) + pd)]
        # the partial copy and the source both changed
        if 'pg_data/base/1/100' in str(muts):
            muts.append(('both', 'source and partial file', None))
        e2.advance(300)
        base = root + '/base'
        pg.rmtree(base)
        shutil.copytree(e2.root, base, symlinks=True)
        for kind, name, fn in muts:
            k += 1
            if k % nth:
                continue
            if (k // nth) % chunk[1] != chunk[0]:
                continue
            e3 = bk.clone_env(e2, root + '/x')
            if kind == 'cluster':
                fn(e3)
            elif kind == 'repo':
                fn(e3.repo(1) + pd)
            else:
                pg.put(e3.pg + '/base/1/100', bk.blob('zz', 3 * 8192), e3.now() - 9)
                for x in os.listdir(e3.repo(1) + pd + '/pg_data/base/1'):
                    if x.startswith('100'):
                        wr(e3.repo(1) + pd + '/pg_data/base/1/' + x, lambda b: flip(b, 3) if len(b) > 3 else b)
            t += 1
            keys.add(core.h((names, extra, optb, key, name)))
            n += judge(e3, '%r %s; then %s %s' % (names, desc, kind, name), viol, optb, not kind == 'repo')
            if len(viol) > 3:
                break
        if len(viol) > 3:
            break
    pg.rmtree(root)
    return dict(evals=n, trans=t, keys=keys, viol=viol[:4], samples=['%r: %d operations, %d scenarios' % (names, len(ops), t)] if chunk[0] == 0 else [])


def main():
    c = core.Check('P08', 'fault_enumeration')
    core.build()
    jobs = []
    if not c.thorough:
        conf = [(('plain',), 3, False, {}), (('gz',), 7, True, {}), (('delta',), 5, False, {}), (('block', 'zst'), 7, False, {}), (('enc', 'gz'), 7, False, {}),
                (('plain',), 9, False, dict(compress_type='gz')), (('plain',), 9, False, dict(resume=False)), (('plain',), 9, False, dict(delta=True)),
                (('gz',), 9, False, dict(repo1_bundle=True)),
                (('plain',), 11, False, dict(repo1_bundle=True, repo1_block=True, repo1_bundle_limit='24KiB')), (('block',), 11, False, dict(repo1_block=False)), (('bundle',), 11, True, dict(repo1_bundle=False)),
                (('block',), 11, False, dict(repo1_block=False, repo1_bundle=False)), (('block', 'gz'), 11, False, dict(repo1_bundle_limit='64KiB'))]
        N = 8
    else:
        conf = []
        for st in ((), ('block',), ('bundle',), ('hard',)):
            for comp in ('plain', 'gz', 'lz4'):
                for enc in ((), ('enc',)):
                    for d in ((), ('delta',)):
                        conf.append(((comp,) + enc + st + d, 1, bool(enc), {}))
        for o in (dict(compress_type='gz'), dict(resume=False), dict(delta=True), dict(repo1_bundle=True), dict(repo1_bundle=True, repo1_block=True), dict(process_max='3'), dict(repo1_bundle_limit='64KiB')):
            conf += [(('plain',), 1, False, o)] if 'repo1_bundle_limit' not in o else []
            conf += [(('lz4',), 1, True, o)] if 'repo1_bundle_limit' not in o else [(('block',), 1, False, o), (('bundle', 'gz'), 1, False, o)]
        for o in (dict(repo1_block=False), dict(repo1_block=False, repo1_bundle=False)):
            conf += [(('block',), 1, False, o), (('block', 'lz4', 'enc'), 1, False, o)]
        N = 8
    for names, nth, extra, o in conf:
        for i in range(N):
            jobs.append((len(jobs), names, (i, N), nth, extra, o))
    for r in core.pmap(worker, jobs):
        c.merge(r)
    c.rule = 'kill at every operation of a full backup x every single change of a cluster file or damage of a partial file/manifest copy, then the next full backup is restored and compared'
    if not c.thorough:
        c.note(stride='every n-th (crash, change) pair per configuration, n between 3 and 9')
    c.assumptions = ['changed content with unchanged size and time is only covered with checksum delta, as documented']
    c.finish()


if __name__ == '__main__':
    main()
