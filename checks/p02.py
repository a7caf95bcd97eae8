#!/usr/bin/env python3
"""P02: explicit-state exploration of the archive under every sequence of pushes, to a fixpoint."""
import hashlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pgb import core, pg, bk

S1, S2 = pg.walname(1, 3), pg.walname(1, 0x1000)      # in different archive directories
S3 = pg.walname(2, 3)
HIST = '00000002.history'
A, B = pg.wal(fill=1), pg.wal(fill=2)
C = A[:pg.MB - 1] + bytes([A[pg.MB - 1] ^ 1])         # differs from A in the last bit only
H1, H2 = b'1\t0/3000000\tno recovery target specified\n', b'1\t0/3000001\tno recovery target specified\n'
BAD = {
    'sysid': pg.wal(sysid=1000000000000000095),
    'version': pg.wal(ver='15'),
    'both': pg.wal(ver='9.6', sysid=7),
}


def ops(cfg):
    o = [(S1, 'A', A), (S1, 'B', B), (S1, 'C', C), (S2, 'A', A), (S2, 'B', B), (HIST, 'H1', H1), (HIST, 'H2', H2)]
    if cfg.get('less'):
        o = [(S1, 'A', A), (S1, 'B', B), (HIST, 'H1', H1)]
    if cfg.get('more'):
        if cfg['more'] == 1:
            o = [x for x in o if x[:2] != (S2, 'B')] + [(S1 + '.partial', 'A', A), (S3, 'A', A)]
        else:
            o += [(S1 + '.partial', 'A', A), (S1 + '.partial', 'B', B), (S3, 'A', A), (S3, 'B', B)]
    r = [(n, c, d, t) for n, c, d in o for t in (['all'] if cfg['repos'] == 1 else ['all', '1', '2'])]
    r += [(S1, k, d, 'all') for k, d in BAD.items()] + [(S2, 'sysid', BAD['sysid'], 'all')]
    return r


def archived(e, i):
    """{final name in archive dir: bytes}"""
    base = e.repo(i) + '/archive/demo/16-1'
    res = {}
    for d, _, fn in os.walk(base):
        for f in fn:
            if not f.endswith('.pgbackrest.tmp'):
                res[f] = open(d + '/' + f, 'rb').read()
    return res


def explore(arg):
    idx, cfg = arg
    root = core.scratch('s%d' % idx)
    e = pg.Env(root, repos=cfg['repos'])
    e.conf(**cfg['opts'])
    e.cluster()
    e.run('stanza-create', online=False, ok=True)
    viol, keys, n = [], set(), 0
    content = {}
    wals = {}
    for name, c, d, _ in ops(cfg):
        content[(name, c)] = d
        wals[(name, c)] = root + '/wal/%s/%s' % (c, name)
        pg.put(wals[(name, c)], d)
    empty = tuple({} for _ in range(cfg['repos']))
    start = tuple(tuple(sorted(x.items())) for x in empty)
    pg.copytree(e.root + '/repo', root + '/st0')
    if cfg['repos'] == 2:
        pg.copytree(e.repo(2), root + '/st0-2')
    todo, seen = [start], {start: 0}
    while todo and len(viol) < 4:
        st = todo.pop(0)
        sid = seen[st]
        for name, c, d, tgt in ops(cfg):
            pg.copytree(root + '/st%d' % sid, e.repo(1))
            if cfg['repos'] == 2:
                pg.copytree(root + '/st%d-2' % sid, e.repo(2))
            before = [archived(e, i + 1) for i in range(cfg['repos'])]
            # restrict the push to one repository by configuration
            e2 = e
            opt = {}
            if tgt == 'all':
                r = e.run('archive-push', wals[(name, c)])
                act = range(cfg['repos'])
            else:
                act = [int(tgt) - 1]
                o = dict(cfg['opts'])
                path = e.repo(int(tgt))
                r = e.run('archive-push', wals[(name, c)], config=root + '/one%s.conf' % tgt) if False else one(e, root, tgt, cfg, wals[(name, c)])
            n += 1
            model = [dict(x) for x in st]
            foreign = c in BAD and not (cfg['opts'].get('archive_header_check') == 'n')
            hist = name.endswith('.history')          # timeline history files may be pushed again and are then replaced as a whole
            conflict = any(name in model[i] and model[i][name] != c for i in act) and not hist
            after = [archived(e, i + 1) for i in range(cfg['repos'])]
            desc = 'archive holds %r; push of %s content %s to %s' % ([dict(x) for x in st], name, c, tgt)
            for i in range(cfg['repos']):
                for f, b in before[i].items():
                    if after[i].get(f) != b and not (hist and f == name and f in after[i]):
                        viol.append(('%s: file %s of repository %d was %s' % (desc, f, i + 1, 'changed' if f in after[i] else 'removed'), desc))
                new = [f for f in after[i] if f not in before[i]]
                if foreign or i not in act or name in model[i]:
                    if new:
                        viol.append(('%s: repository %d got unexpected %r (%r)' % (desc, i + 1, new, r), desc))
                elif new and (len(new) != 1 or not new[0].startswith(name)):
                    viol.append(('%s: repository %d got %r' % (desc, i + 1, new), desc))
            if foreign or conflict:
                if r.rc == 0:
                    viol.append(('%s succeeds' % desc, repr(r)))
            else:
                if r.rc != 0:
                    viol.append(('%s fails: %r' % (desc, r), desc))
                for i in act:
                    if not any(f.startswith(name) and not f.startswith(name + '.partial') for f in after[i]) and not name.endswith('.partial'):
                        viol.append(('%s: success but repository %d does not hold it' % (desc, i + 1), desc))
            if viol:
                break
            if foreign:
                continue
            for i in act:
                if hist or (name not in model[i] and any(f not in before[i] for f in after[i])):
                    model[i][name] = c
            ns = tuple(tuple(sorted(x.items())) for x in model)
            if ns not in seen:
                seen[ns] = len(seen)
                keys.add(core.h((idx, ns)))
                todo.append(ns)
                pg.copytree(e.repo(1), root + '/st%d' % seen[ns])
                if cfg['repos'] == 2:
                    pg.copytree(e.repo(2), root + '/st%d-2' % seen[ns])
                # the stored content is what was pushed
                for i in range(cfg['repos']):
                    for nm, cc in model[i].items():
                        if nm.endswith('.partial'):
                            continue
                        g = e.run('archive-get', nm, root + '/got', repo=str(i + 1))
                        if g.rc != 0 or open(root + '/got', 'rb').read() != content[(nm, cc)]:
                            viol.append(('%s: archive-get of %s from repository %d does not return content %s: %r' % (desc, nm, i + 1, cc, g), desc))
        pg.rmtree(root + '/st%d' % sid)
        pg.rmtree(root + '/st%d-2' % sid)
    pg.rmtree(root)
    return dict(evals=n, trans=n, keys=keys, viol=viol[:4], samples=['%r: %d states to fixpoint, %d transitions' % (cfg, len(seen), n)])


def one(e, root, tgt, cfg, src):
    """push with a configuration that knows only one of the repositories"""
    txt = open(e.root + '/pgbackrest.conf').read().split('\n')
    other = 'repo%d-' % (3 - int(tgt))
    p = root + '/one%s.conf' % tgt
    with open(p, 'w') as f:
        f.write('\n'.join(x for x in txt if not x.startswith(other)))
    argv = [e.bin, '--config=' + p, '--stanza=demo', 'archive-push', src]
    r = pg.subprocess.run(argv, env=e.environ(), cwd=e.root, stdin=pg.subprocess.DEVNULL, stdout=pg.subprocess.PIPE, stderr=pg.subprocess.PIPE)
    return pg.Result(r.returncode, r.stdout.decode(), r.stderr.decode())


def stanza_mismatch(arg):
    """versions x system ids of stanza and WAL, including a stanza with upgrade history: WAL must match the current cluster"""
    idx, ver = arg
    root = core.scratch('m%d' % idx)
    viol, keys, n = [], set(), 0
    e = pg.Env(root, ver=ver)
    e.cluster()
    e.run('stanza-create', online=False, ok=True)
    hist = [(ver, e.sysid)]
    steps = [None] + [(v, s) for v, s in ((ver, 2000000000000000001), (list(pg.PG)[(list(pg.PG).index(ver) + 1) % len(pg.PG)], e.sysid))]
    for st in steps:
        if st:
            if float(st[0]) < float(hist[-1][0]):
                continue
            e.ver, e.sysid = st
            e.cluster()
            e.run('stanza-upgrade', online=False, ok=True)
            hist.append(st)
        for v in pg.PG:
            for s in (1000000000000000094, 2000000000000000001, 5):
                for nm in (pg.walname(1, 16 + n), ):
                    src = root + '/wal/' + nm
                    pg.put(src, pg.wal(ver=v, sysid=s, fill=n))
                    for cluster in ('current', ):
                        r = e.run('archive-push', src)
                        n += 1
                        match = (v, s) == hist[-1]
                        keys.add(core.h((ver, tuple(hist), v, s)))
                        stored = [f for d, _, fn in os.walk(e.repo(1) + '/archive/demo') for f in fn if f.startswith(nm)]
                        if match != (r.rc == 0) or match != bool(stored):
                            viol.append(('stanza history %r: push of WAL of version %s system id %d gives rc=%d stored=%r' % (hist, v, s, r.rc, stored), repr(r)))
                        if match and not os.path.isdir(e.repo(1) + '/archive/demo/%s-%d' % (hist[-1][0], len(hist))):
                            viol.append(('WAL of cluster %d not stored under its own archive id' % len(hist), repr(hist)))
    # a cluster directory that is not the stanza's: push refused when the cluster does not match
    pg.put(e.pg + '/global/pg_control', pg.control(e.ver, 77))
    src = e.pg + '/pg_wal/' + pg.walname(1, 9)
    pg.put(src, pg.wal(ver=e.ver, sysid=e.sysid))
    r = e.run('archive-push', src)
    n += 1
    if r.rc == 0:
        viol.append(('push succeeds although the cluster at pg1-path has another system id', repr(r)))
    pg.rmtree(root)
    return dict(evals=n, trans=n, keys=keys, viol=viol[:4])


IDS = [('16', 1000000000000000094), ('16', 2000000000000000001), ('15', 1000000000000000094)]


def repos_mismatch(arg):
    """every assignment of a stanza identity (or of no stanza at all) to each repository x identity of the WAL x identity of the cluster x
    synchronous/asynchronous: the segment appears only in repositories whose current identity is its own, and success means all hold it"""
    idx, ids, mode = arg
    root = core.scratch('rm%d' % idx)
    viol, keys, n = [], set(), 0
    e = pg.Env(root, repos=len(ids))
    e.ctl.s.timeOn = 3
    e.conf(compress_type='none', archive_async='y' if mode == 'async' else None, archive_timeout='60')
    if mode == 'nohdr':
        e.conf(archive_header_check='n')
    allrepo = open(e.root + '/pgbackrest.conf').read()
    for i, d in enumerate(ids):
        if d is None:
            continue
        txt = [x for x in allrepo.split('\n') if not (x.startswith('repo') and not x.startswith('repo%d-' % (i + 1)))]
        txt = [x.replace('repo%d-' % (i + 1), 'repo1-') for x in txt]
        open(root + '/one.conf', 'w').write('\n'.join(txt))
        e.ver, e.sysid = IDS[d]
        e.cluster()
        r = e.run('stanza-create', online=False, config=root + '/one.conf')
        if r.rc != 0:
            return dict(evals=0, trans=0, keys=[], broken='stanza-create: %r' % r)
    for cl in range(len(IDS)):
        e.ver, e.sysid = IDS[cl]
        pg.rmtree(e.pg)
        e.cluster({})
        os.makedirs(e.pg + '/pg_wal/archive_status', exist_ok=True)
        for wl in range(len(IDS)):
            n += 1
            nm = pg.walname(1, 16 + n)
            src = e.pg + '/pg_wal/' + nm
            pg.put(src, pg.wal(ver=IDS[wl][0], sysid=IDS[wl][1], fill=n))
            pg.put(e.pg + '/pg_wal/archive_status/' + nm + '.ready', b'')
            r = e.run('archive-push', 'pg_wal/' + nm, cwd=e.pg)
            if mode == 'async':
                e.wait_async()
            held = [i for i in range(len(ids)) if any(f.startswith(nm) for _, _, fn in os.walk(e.repo(i + 1) + '/archive/demo') for f in fn)]
            may = [i for i, d in enumerate(ids) if d == (cl if mode == 'nohdr' else wl)]
            keys.add(core.h((ids, mode, cl, wl)))
            desc = '%s push of WAL of %r by a cluster %r to repositories with the stanzas %r' % (mode, IDS[wl], IDS[cl], [IDS[d] if d is not None else None for d in ids])
            if any(i not in may for i in held):
                viol.append(('%s: the segment is stored in repositories %r' % (desc, [i + 1 for i in held if i not in may]), repr(r)))
            good = (cl == wl or mode == 'nohdr') and len(may) == len(ids)
            if good != (r.rc == 0):
                viol.append(('%s: rc=%d' % (desc, r.rc), repr(r)))
            if r.rc == 0 and len(held) != len(ids):
                viol.append(('%s: success but stored only in repositories %r' % (desc, [i + 1 for i in held]), repr(r)))
            if cl != wl and held and mode != 'nohdr':
                viol.append(('%s: stored although the cluster is another one' % desc, repr(r)))
            for x in (src, e.pg + '/pg_wal/archive_status/' + nm + '.ready'):
                os.unlink(x)
    pg.rmtree(root)
    return dict(evals=n, trans=n, keys=keys, viol=viol[:4])


def main():
    c = core.Check('P02')
    core.build()
    enc = dict(repo1_cipher_type='aes-256-cbc', repo1_cipher_pass='abcdefgh')
    cfgs = [dict(repos=1, opts=dict(compress_type='none'), more=1), dict(repos=1, opts=dict(compress_type='gz', compress_level='1')),
            dict(repos=2, opts=dict(compress_type='none'), less=1), dict(repos=1, opts=dict(compress_type='zst', **enc))]
    if c.thorough:
        cfgs[0]['more'] = 2
        cfgs += [dict(repos=2, opts=dict(compress_type='none')), dict(repos=1, opts=dict(compress_type='zst', **enc), more=1), dict(repos=1, opts=dict(compress_type='lz4'), more=1),
                 dict(repos=2, opts=dict(compress_type='gz', compress_level='1', **enc), less=1), dict(repos=1, opts=dict(compress_type='bz2', compress_level='1'), more=1)]
    jobs = list(enumerate(cfgs))
    for r in core.pmap(explore, jobs):
        c.merge(r)
    c.phase('explore')
    for r in core.pmap(stanza_mismatch, list(enumerate(pg.PG if c.thorough else ['9.6', '12', '16', '17']))):
        c.merge(r)
    two = [(a, b) for a in (0, 1, 2, None) for b in (0, 1, 2, None) if (a, b) != (None, None)]
    if c.thorough:
        two += [(0,), (1,), (2,)] + [(a, b, d) for a in (0, 1, None) for b in (0, 1, 2, None) for d in (0, 2, None) if (a, b, d) != (None, None, None)]
    else:
        two = two[:7] + [(1, 0), (None, 0), (0, 0, 1), (0, None, 0), (0, 0, 0)]
    jobs = [(t, m) for t in dict.fromkeys(two) for m in ('sync', 'async', 'nohdr')]
    for r in core.pmap(repos_mismatch, [(i,) + j for i, j in enumerate(jobs)]):
        c.merge(r)
    c.phase('stanza identities of several repositories')
    c.rule = 'breadth-first exploration of the real repository states reachable by pushes over the operation alphabet until no new state appears; stanza version/system-id matrix'
    c.assumptions = ['pushes of one segment are not concurrent (PostgreSQL has one archiver)']
    c.finish()


if __name__ == '__main__':
    main()
