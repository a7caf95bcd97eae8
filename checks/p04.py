#!/usr/bin/env python3
"""P04: archive-get against every combination of per-repository segment states, in both modes, and against every process crash point of
the asynchronous queue."""
import hashlib, itertools, os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pgb import core, pg, bk

SEG = pg.walname(1, 5)
OTHER = [pg.walname(1, n) for n in (3, 4, 6, 7)]
DATA = {n: pg.wal(fill=int(n[-2:], 16)) for n in OTHER + [SEG]}
HIST = '00000002.history'
DATA[HIST] = b'1\t0/3000000\treason\n'
STATES = ['good', 'absent', 'noinfo', 'badinfo', 'flip', 'trunc', 'dup', 'samedup', 'nolist', 'noread', 'emptyfile']


def segfile(e, i, name):
    base = e.repo(i) + '/archive/demo/16-1'
    d = base if name.endswith('.history') else base + '/' + name[:16]
    for f in sorted(os.listdir(d)):
        if f.startswith(name):
            return d + '/' + f


def apply(e, i, st, name):
    """bring repository i into a state; returns what it means: (usable, listable, {hash: intact?})"""
    f = segfile(e, i, name)
    hs = 'H' if name == HIST else os.path.basename(f)[25:65]
    if st == 'good':
        return True, True, {hs: True}
    if st == 'absent':
        os.unlink(f)
        return True, True, {}
    if st in ('noinfo', 'badinfo'):
        for n in ('archive.info', 'archive.info.copy'):
            p = e.repo(i) + '/archive/demo/' + n
            if st == 'noinfo':
                os.unlink(p)
            else:
                b = bytearray(open(p, 'rb').read())
                b[len(b) // 2] ^= 1
                open(p, 'wb').write(b)
        return False, True, {}
    if st in ('flip', 'trunc', 'emptyfile'):
        b = bytearray(open(f, 'rb').read())
        if st == 'flip':
            b[len(b) // 2] ^= 0x40
        else:
            b = b[:len(b) - 7] if st == 'trunc' else b''
        open(f, 'wb').write(b)
        return True, True, {hs: False}
    if st == 'dup':
        # a second segment of the same name and other content
        g = os.path.dirname(f) + '/' + os.path.basename(f).replace(hs, hs[:-1] + ('0' if hs[-1] != '0' else '1'))
        shutil.copy(f, g)
        return True, True, {hs: True, 'other': True}
    if st == 'samedup':
        # the same segment stored twice (once without compression suffix)
        return True, True, {hs: True}
    if st == 'nolist':
        os.chmod(os.path.dirname(f), 0)
        return True, False, {}
    if st == 'noread':
        os.chmod(f, 0)
        return True, True, {hs: False}
    raise Exception(st)


def expect(reps, name):
    us = [r for r in reps if r[0]]
    if not us:
        return 'error'
    if name == HIST:
        return None
    if not any(r[1] for r in us):
        return 'error'
    hs = [h for r in us if r[1] for h in r[2]]
    if not hs:
        return 'missing'
    if len(set(hs)) > 1:
        return 'error'
    return 'found' if any(v for r in us for v in r[2].values()) else 'damaged'


def matrix(arg):
    idx, opts, nrepo, mode, name, combos = arg
    viol, keys, n = [], set(), 0
    root = core.scratch('m%d' % idx)
    e = pg.Env(root, repos=nrepo, vtime=mode == 'sync')
    e.conf(archive_timeout='10', **opts)
    e.cluster()
    e.run('stanza-create', online=False, ok=True)
    for nm in OTHER + [SEG, HIST]:
        pg.put(e.pg + '/pg_wal/' + nm, DATA[nm])
        e.run('archive-push', e.pg + '/pg_wal/' + nm, ok=True)
    for i in range(1, nrepo + 1):
        shutil.copytree(e.repo(i), root + '/save%d' % i)
    for combo in combos:
        for i in range(1, nrepo + 1):
            pg.copytree(root + '/save%d' % i, e.repo(i))
        reps = [apply(e, i + 1, s, name) for i, s in enumerate(combo)]
        want = expect(reps, name)
        for pre in ((None, b'old') if mode == 'sync' else (None,)):
            dest = e.pg + '/pg_wal/RECOVERYXLOG'
            if os.path.exists(dest):
                os.unlink(dest)
            if pre is not None:
                pg.put(dest, pre * 1000)
            if mode == 'async':
                pg.rmtree(e.root + '/spool/archive')
            r = e.run('archive-get', name, dest, **(dict(archive_async=True, archive_get_queue_max='4MiB') if mode == 'async' else {}))
            if mode == 'async':
                e.wait_async()
            n += 1
            got = open(dest, 'rb').read() if os.path.exists(dest) else None
            desc = '%s get of %s with repositories %r, %r' % (mode, name, combo, opts)
            keys.add(core.h((mode, name, combo, sorted(opts), pre)))
            if r.rc == 0 and got != DATA[name]:
                viol.append(('%s reports success but the destination is %s' % (desc, 'missing' if got is None else 'not the segment (%d bytes)' % len(got)), repr(r)))
            if r.rc == 1 and want is not None and want != 'missing':
                viol.append(('%s reports not found, expected %s' % (desc, want), repr(r)))
            if want == 'found' and r.rc != 0:
                viol.append(('%s fails although an intact copy is readable: %r' % (desc, r), ''))
            if want == 'missing' and r.rc != 1:
                viol.append(('%s must report not found: %r' % (desc, r), ''))
            # damage that happens not to matter (redundant encodings) may still give the exact segment
            if (want == 'error' and r.rc in (0, 1)) or (want == 'damaged' and r.rc == 1):
                viol.append(('%s must fail: %r' % (desc, r), ''))
        for i in range(1, nrepo + 1):
            pg.subprocess.run(['chmod', '-R', 'u+rwX', e.repo(i)])
            pg.rmtree(e.repo(i))
        if len(viol) > 4:
            break
    pg.rmtree(root)
    return dict(evals=n, trans=n, keys=keys, viol=viol[:4], samples=['%s %s %r: %d combinations' % (mode, name, opts, len(combos))])


def asynccrash(arg):
    """the asynchronous process dies at its k-th file operation; the next get must deliver exactly or report truthfully"""
    idx, opts, ks, seq = arg
    viol, keys, n = [], set(), 0
    root = core.scratch('a%d' % idx)
    e = pg.Env(root, vtime=False)
    e.conf(archive_timeout='20', archive_async='y', archive_get_queue_max='4MiB', **opts)
    e.cluster()
    e.run('stanza-create', online=False, ok=True)
    have = OTHER + [SEG]
    for nm in have:
        pg.put(e.pg + '/pg_wal/' + nm, DATA[nm])
        e.run('archive-push', e.pg + '/pg_wal/' + nm, ok=True, archive_async=False)
    dest = e.pg + '/pg_wal/RECOVERYXLOG'
    for k in ks:
        pg.rmtree(e.root + '/spool/archive')
        os.makedirs(e.root + '/spool/archive/demo/in')
        # the asynchronous process, killed at operation k
        e.ctl.fault(k, 4)
        r = e.run('archive-get:async', *[pg.walname(1, x) for x in range(3, 7)])
        hit = e.ctl.s.faultHit
        e.ctl.reset()
        left = sorted(os.listdir(e.root + '/spool/archive/demo/in'))
        keys.add(core.h((opts, k, tuple(left))))
        for x in seq:
            nm = pg.walname(1, x)
            if os.path.exists(dest):
                os.unlink(dest)
            r = e.run('archive-get', nm, dest)
            n += 1
            got = open(dest, 'rb').read() if os.path.exists(dest) else None
            desc = 'async queue filling killed at operation %d (left %r), then get of %s' % (k, left, nm)
            if nm in have and (r.rc != 0 or got != DATA[nm]):
                viol.append(('%s: rc=%d, destination %s: %r' % (desc, r.rc, 'missing' if got is None else 'right' if got == DATA[nm] else 'wrong', r), ''))
            if nm not in have and r.rc != 1:
                viol.append(('%s: segment is not in the archive but rc=%d' % (desc, r.rc), ''))
            e.wait_async()
        if not hit:
            break
    pg.rmtree(root)
    return dict(evals=n, trans=n, keys=keys, viol=viol[:4])


HN = [3, 4, 5, 6, 7]


def hist_env(arg):
    cfg = arg
    root = core.scratch('h%d-%s' % (os.getpid(), core.h(cfg)))
    pg.rmtree(root)
    e = pg.Env(root, vtime=False, repos=cfg['repos'])
    e.conf(archive_timeout='20', archive_async='y', archive_get_queue_max=cfg['queue'], compress_type='gz', compress_level='1', process_max=str(cfg['pm']))
    if cfg.get('noretry'):
        e.conf(archive_missing_retry='n')
    e.cluster()
    e.run('stanza-create', online=False, ok=True)
    for x in HN:
        for fill in (x, x + 100):
            nm = pg.walname(1, x)
            pg.put(e.pg + '/pg_wal/' + nm, pg.wal(fill=fill))
            r = e.run('archive-push', e.pg + '/pg_wal/' + nm, ok=True, archive_async=False) if fill < 100 else None
    for i in range(1, cfg['repos'] + 1):
        d = e.repo(i) + '/archive/demo/16-1/' + pg.walname(1, 3)[:16]
        shutil.move(d, root + '/seg%d' % i)
        os.makedirs(d)
    return e


def hist_set(e, cfg, st, spool):
    """bring the archive and the spool into the state of the model: per repository the segments stored, damaged ones, and whether its
    archive.info is there"""
    for i in range(1, cfg['repos'] + 1):
        d = e.repo(i) + '/archive/demo/16-1/' + pg.walname(1, 3)[:16]
        pg.rmtree(d)
        os.makedirs(d)
        for f in sorted(os.listdir(e.root + '/seg%d' % i)):
            x = int(f[22:24], 16)
            if x < st['next']:
                b = bytearray(open(e.root + '/seg%d/%s' % (i, f), 'rb').read())
                if x == st['bad']:
                    b[len(b) // 2] ^= 0x40
                open(d + '/' + f, 'wb').write(b)
        a = e.repo(i) + '/archive/demo/archive.info'
        broke = st['brk'] in (i, 9)
        for p in (a, a + '.copy'):
            if broke and os.path.exists(p):
                os.rename(p, p.replace('archive.info', 'gone.info'))
            if not broke and not os.path.exists(p):
                os.rename(p.replace('archive.info', 'gone.info'), p)
    sp = e.root + '/spool/archive'
    pg.rmtree(sp)
    for f, b in spool.items():
        pg.put(sp + '/demo/in/' + f, b)


def hist_ops(cfg, st):
    o = ['get%d' % x for x in HN[:4]]
    if st['next'] <= HN[-1]:
        o.append('archived')
    if st['bad']:
        o.append('repair')
    elif cfg['damage']:
        o += ['damage%d' % x for x in (4, 5) if x < st['next']]
    if st['brk']:
        o.append('fix')
    else:
        o += ['break%d' % i for i in ([1, 9] if cfg['repos'] == 2 else [9])]
    return o


def hist_expand(arg):
    cfg, states = arg
    global H
    if 'H' not in globals() or H[0] != core.h(cfg):
        H = (core.h(cfg), hist_env(cfg))
    e = H[1]
    out, viol = [], []
    for st, spool, trace in states:
        for op in hist_ops(cfg, st):
            ns = dict(st)
            nspool = spool
            if op == 'archived':
                ns['next'] += 1
            elif op == 'repair':
                ns['bad'] = 0
            elif op.startswith('damage'):
                ns['bad'] = int(op[6:])
            elif op == 'fix':
                ns['brk'] = 0
            elif op.startswith('break'):
                ns['brk'] = int(op[5:])
            else:
                x = int(op[3:])
                nm = pg.walname(1, x)
                hist_set(e, cfg, st, spool)
                dest = e.pg + '/pg_wal/RECOVERYXLOG'
                if os.path.exists(dest):
                    os.unlink(dest)
                r = e.run('archive-get', nm, dest)
                e.wait_async()
                got = open(dest, 'rb').read() if os.path.exists(dest) else None
                d = e.root + '/spool/archive/demo/in'
                nspool = {f: open(d + '/' + f, 'rb').read() for f in sorted(os.listdir(d))} if os.path.isdir(d) else {}
                stored = x < st['next']
                desc = 'after %r get of segment %d (archived up to %d, damaged %r, unusable repositories %r, queue %r)' % (trace, x, st['next'] - 1, st['bad'], st['brk'], sorted(spool))
                pre = nm in spool
                v = []
                if (r.rc == 0) != (got is not None):
                    v.append('%s: rc=%d and the destination is %s' % (desc, r.rc, 'missing' if got is None else 'there'))
                if got is not None and got != pg.wal(fill=x):
                    v.append('%s: the wrong content is delivered' % desc)
                if stored and r.rc == 1 and not (cfg.get('noretry') and nm + '.ok' in spool):
                    v.append('%s: reported as not in the archive' % desc)
                if stored and r.rc != 0 and st['brk'] != 9 and st['bad'] != x and not (cfg.get('noretry') and nm + '.ok' in spool):
                    v.append('%s: fails (rc=%d)' % (desc, r.rc))
                if not stored and r.rc != 1 and st['brk'] != 9:
                    v.append('%s: must be reported as not found, rc=%d' % (desc, r.rc))
                if st['brk'] == 9 and not pre and r.rc in (0, 1) and not (cfg.get('noretry') and nm + '.ok' in spool):
                    v.append('%s: no repository is usable but rc=%d' % (desc, r.rc))
                if any(f.endswith('.pgbackrest.tmp') for f in nspool):
                    v.append('%s: temporary file left in the queue %r' % (desc, sorted(nspool)))
                q = [f for f in nspool if len(f) == 24]
                if len(q) > max(2, int(cfg['queue'][:-3])) + 1:
                    v.append('%s: the queue holds %r, more than its limit' % (desc, q))
                if v:
                    viol += [(y, repr(r)) for y in v]
                    continue
            k = core.h((sorted(ns.items()), [(f, core.h(b)) if not f.endswith('.error') and not f.endswith('.ok') else f for f, b in sorted(nspool.items())]))
            out.append((k, ns, nspool, trace + [op]))
    return dict(out=out, viol=viol)


def histories(c, cfg, depth, name):
    """breadth-first over everything that can happen to the archive and the queue between requests, in any order"""
    front = [(dict(next=5, bad=0, brk=0), {}, [])]
    seen, edges = set(), 0
    for d in range(depth):
        nxt = []
        for r in core.pmap(hist_expand, [(cfg, front[i::64]) for i in range(min(64, len(front)))]):
            if 'broken' in r:
                c.merge(r)
                continue
            for v in r['viol']:
                c.violation(*v)
            for k, ns, sp, tr in r['out']:
                edges += 1
                if k not in seen:
                    seen.add(k)
                    nxt.append((ns, sp, tr))
        if nxt:
            c.sample(dict(config=cfg, trace=nxt[len(nxt) // 2][2]))
        front = nxt
        c.phase('%s depth %d: %d states, %d edges' % (name, d + 1, len(seen), edges))
    c.evaluations += edges
    c.transitions += edges
    c.distinct.update(name + k for k in seen)


def main():
    c = core.Check('P04')
    core.build()
    gz = dict(compress_type='gz', compress_level='1')
    enc = dict(compress_type='zst', repo1_cipher_type='aes-256-cbc', repo1_cipher_pass='abcdefgh')
    lz = dict(compress_type='lz4')
    jobs = []

    def add(opts, nrepo, mode, name, states):
        cs = list(itertools.product(states, repeat=nrepo))
        for ch in range(0, len(cs), 16):
            jobs.append((len(jobs), opts, nrepo, mode, name, cs[ch:ch + 16]))
    add(gz, 2, 'sync', SEG, STATES)
    add(gz, 2, 'async', SEG, ['good', 'absent', 'noinfo', 'flip', 'dup', 'nolist'])
    add(enc, 1, 'sync', SEG, STATES)
    add(dict(compress_type='none'), 2, 'sync', SEG, ['good', 'absent', 'noinfo', 'badinfo', 'dup', 'nolist', 'noread'])
    add(gz, 2, 'sync', HIST, ['good', 'absent', 'noinfo'])
    if c.thorough:
        for o in (lz, enc, dict(compress_type='bz2', compress_level='1'), dict(compress_type='zst')):
            add(o, 2, 'sync', SEG, STATES)
            add(o, 2, 'async', SEG, STATES)
        add(gz, 3, 'sync', SEG, STATES)
        add(gz, 2, 'async', SEG, STATES)
    for r in core.pmap(matrix, jobs):
        c.merge(r)
    c.phase('matrix')
    aj = []
    for o in ((gz,) if not c.thorough else (gz, enc, lz, dict(compress_type='none'))):
        for s in ((3, 4, 5, 6, 7, 8), (5, 3)) if not c.thorough else ((3, 4, 5, 6, 7, 8), (5, 3), (6, 6), (4, 8, 4)):
            for st in range(8):
                aj.append((len(aj), o, list(range(1 + st, 60, 8)), s))
    for r in core.pmap(asynccrash, aj):
        c.merge(r)
    T = c.thorough
    histories(c, dict(repos=1, queue='3MiB', pm=1, damage=True), 7 if T else 5, 'one')
    histories(c, dict(repos=2, queue='4MiB', pm=2, damage=True), 6 if T else 4, 'two')
    histories(c, dict(repos=1, queue='2MiB', pm=1, damage=False, noretry=True), 7 if T else 5, 'noretry')
    c.rule = 'breadth-first over histories of the archive, the queue and the requests; all combinations of per-repository segment states x mode x storage; all process-kill points of the queue filling x request sequences'
    c.assumptions = ['raw (uncompressed, unencrypted) archive files carry no checksum that archive-get verifies; damage to them is covered by P19',
                     'the spool directory is not subject to power loss (its files are not synced by design)']
    c.finish()


if __name__ == '__main__':
    main()
