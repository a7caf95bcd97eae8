#!/usr/bin/env python3
"""P01: every crash point of archive-push."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pgb import core, pg, fsmodel

SEG = pg.walname(1, 3)


def repo_files(snap, root, i):
    """archived files under final names in repository i of a snapshot"""
    base = root + ('/repo' if i == 1 else '/repo%d' % i) + '/archive/demo/16-1/'
    return {p[len(base):]: e[1] for p, e in snap.items() if p.startswith(base) and e[0] == 'file' and not p.endswith('.pgbackrest.tmp')}


def mk(root, cfg):
    e = pg.Env(root, repos=cfg.get('repos', 1), vtime=not cfg.get('async_'))
    e.conf(**{'archive_timeout': '600', **cfg['opts']})
    return e


def scenario(arg):
    idx, cfg = arg
    viol, keys, evals, trans = [], set(), 0, 0
    root = core.scratch('s%d' % idx)
    e = mk(root + '/w', cfg)
    e.cluster()
    e.run('stanza-create', online=False, ok=True)
    src = e.pg + '/pg_wal/' + cfg['file']
    if cfg['file'].endswith('.history'):
        data = b'1\t0/3000000\tno recovery target specified\n'
    else:
        data = pg.wal(fill=7)
    pg.put(src, data)
    if cfg.get('prior'):
        pg.put(e.pg + '/pg_wal/' + pg.walname(1, 2), pg.wal(fill=2))
        e.run('archive-push', e.pg + '/pg_wal/' + pg.walname(1, 2), ok=True, archive_async=False)
    if cfg.get('async_'):
        os.makedirs(e.pg + '/pg_wal/archive_status', exist_ok=True)
        pg.put(e.pg + '/pg_wal/archive_status/' + cfg['file'] + '.ready', b'')
    fs = fsmodel.FS(e.root)
    log = root + '/log'
    r = e.run('archive-push', src, ok=True, log=log)
    if cfg.get('async_'):
        e.wait_async()
    ops = fsmodel.read_log(log)
    nrepo = cfg.get('repos', 1)
    # final content of each repository, checked to be the segment by an independent archive-get
    final = {}
    end = None
    states = []
    for k, v, s, key in fsmodel.crash_states(e.root, fs, ops):
        states.append((k, v, s, key))
        trans += 1
        if v == 'proc':
            end = s
    for i in range(1, nrepo + 1):
        final[i] = repo_files(end, e.root, i)
        new = [f for f in final[i] if cfg['file'] in f]
        if len(new) != 1:
            viol.append(('after a successful push repository %d holds %d copies of %s' % (i, len(new), cfg['file']), repr(cfg)))
            return dict(evals=1, viol=viol)
        d = e.root + '/get%d' % i
        # an option-less get in this repository only
        g = e.run('archive-get', cfg['file'], d, repo=str(i), archive_async=False)
        if g.rc != 0 or open(d, 'rb').read() != data:
            viol.append(('segment pushed with success cannot be read back identically from repository %d: %r' % (i, g), repr(cfg)))
            return dict(evals=1, viol=viol)
        os.unlink(d)
    okname = e.root + '/spool/archive/demo/out/' + cfg['file'] + '.ok'
    acked = False
    seen = set()
    for n, (k, v, s, key) in enumerate(states):
        evals += 1
        opname = '%s %s' % (ops[k - 1]['op'], ops[k - 1]['path'].replace(e.root, '')) if k else 'start'
        if v == 'proc' and cfg.get('async_') and okname in s:
            acked = True
        is_end = k == len(ops)
        for i in range(1, nrepo + 1):
            fl = repo_files(s, e.root, i)
            for f, c in fl.items():
                if final[i].get(f) != c:
                    viol.append(('crash (%s) after op %d (%s): repository %d shows %s with %d bytes, which is not the complete file' % (
                        v, k, opname, i, f, len(c)), repr((cfg, opname))))
            # acknowledged: sync = command finished, async = status visible to the foreground process
            if is_end or acked:
                for f in final[i]:
                    if f not in fl:
                        viol.append(('crash (%s) after the push was acknowledged (op %d, %s): %s is gone from repository %d' % (
                            v, k, opname, f, i), repr((cfg, opname))))
        rk = core.h(sorted((i, f, len(c)) for i in range(1, nrepo + 1) for f, c in repo_files(s, e.root, i).items()) +
                    sorted(p for p in s if '/archive/' in p and 'tmp' in p or '/spool/' in p or '/lock/' in p) + [v])
        if rk in seen:
            continue
        seen.add(rk)
        keys.add(core.h((idx, rk)))
        # recovery: push again from the crash state
        rroot = root + '/r%d' % n
        e2 = mk(rroot, cfg)
        fsmodel.materialise(s, e.root, rroot, only=['repo', 'repo2', 'spool', 'lock', 'pg'])
        r2 = e2.run('archive-push', e2.pg + '/pg_wal/' + cfg['file'])
        if r2.rc != 0:
            viol.append(('push repeated after a crash (%s, op %d, %s) fails: %r' % (v, k, opname, r2), repr((cfg, opname))))
        else:
            if cfg.get('async_'):
                e2.wait_async()
            for i in range(1, nrepo + 1):
                d = e2.root + '/get%d' % i
                g = e2.run('archive-get', cfg['file'], d, repo=str(i), archive_async=False)
                if g.rc != 0 or open(d, 'rb').read() != data:
                    viol.append(('after crash (%s, op %d, %s) and repeated push the segment is not readable from repository %d: %r' % (
                        v, k, opname, i, g), repr((cfg, opname))))
                left = [f for f in os.listdir(os.path.dirname(e2.repo(i) + '/archive/demo/16-1/' + next(iter(
                    f for f in final[i] if cfg['file'] in f)))) if cfg['file'] in f and not f.endswith('.pgbackrest.tmp')]
                if len(left) != 1:
                    viol.append(('after crash and repeated push repository %d holds %r' % (i, left), repr((cfg, opname))))
        pg.rmtree(rroot)
    pg.rmtree(root)
    return dict(evals=evals, trans=trans, keys=keys, viol=viol[:10],
                samples=['%r: %d ops, %d crash states' % (cfg, len(ops), len(states))])


def main():
    c = core.Check('P01', 'fault_enumeration')
    core.build()
    H = '00000002.history'
    cfgs = []
    comp = [dict(compress_type='none'), dict(compress_type='gz', compress_level='1'), dict(compress_type='zst'),
            dict(compress_type='gz', compress_level='1', repo1_cipher_type='aes-256-cbc', repo1_cipher_pass='abcdefgh')]
    if c.thorough:
        comp += [dict(compress_type='lz4'), dict(compress_type='bz2'),
                 dict(compress_type='none', repo1_cipher_type='aes-256-cbc', repo1_cipher_pass='abcdefgh')]
    for o in comp:
        cfgs.append(dict(file=SEG, opts=o))
        cfgs.append(dict(file=SEG, opts=o, prior=1, repos=2))
        cfgs.append(dict(file=SEG, opts=dict(o, archive_async='y'), async_=1, prior=1))
        cfgs.append(dict(file=SEG, opts=dict(o, archive_async='y'), async_=1, repos=2))
    for o in comp[:1] + comp[3:4]:
        cfgs.append(dict(file=H, opts=o))
        cfgs.append(dict(file=H, opts=o, repos=2, prior=1))
        cfgs.append(dict(file=SEG + '.partial', opts=o))
        cfgs.append(dict(file=H, opts=dict(o, archive_async='y'), async_=1))
    if c.thorough:
        # odd buffer sizes make many writes per file
        for b in ('64KiB', '16KiB'):
            for o in comp:
                cfgs.append(dict(file=SEG, opts=dict(o, buffer_size=b), prior=1))
    for r in core.pmap(scenario, list(enumerate(cfgs))):
        c.merge(r)
    c.rule = ('every prefix of the logged mutating file-system operations of archive-push x {process crash, power loss keeping only '
              'synced data and metadata up to the last sync, power loss keeping all metadata but only synced data}; each distinct state '
              'is recovered by a repeated push; %d configurations' % len(cfgs))
    c.assumptions = ['ordered-metadata journalling file system', 'one archiver process per cluster']
    c.finish()


if __name__ == '__main__':
    main()
