#!/usr/bin/env python3
"""P38: --repo-target-time=T reads a versioned repository exactly as it was at T.

All short histories of writes and deletions of objects, packed into one store, listed and read at every time and page size; and a real history
(backups, expire, overwritten and deleted objects) at every second of it, compared with a local repository holding the objects of that time."""
import itertools, json, os, re, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pgb import core, pg, bk, s3, clouds, remote
import p34

T = pg.T0 + 100000


def stamp(t):
    return time.strftime('%Y-%m-%d %H:%M:%S+00', time.gmtime(t))


def at(hist, t):
    """{key: (time, data)} of the objects existing at t"""
    out = {}
    for k, h in hist.items():
        h = [x for x in h if x[0] <= t]
        if h and h[-1][2] is not None:
            out[k] = (h[-1][0], h[-1][2])
    return out


STORES = {'s3': s3.Store, 'azure': clouds.Azure, 'gcs': clouds.Gcs}


def env(name, store='s3', **kw):
    root = core.scratch(name)
    e = pg.Env(root + '/w', **kw)
    e.stub = False
    os.makedirs(root + '/store')
    st = STORES[store](root + '/store', clock=e.now, versions=True)
    e.conf(**{k.replace('-', '_'): v for k, v in st.opts().items()})
    return root, e, st


def away(e):
    """move the options of the store to another host"""
    rc = {k: v for k, v in e.opts.items() if re.match(r'repo1-(s3|azure|gcs|type|path|storage|cipher)', k)}
    for k in rc:
        if k != 'repo1-path':
            e.opts.pop(k)
    return rc


def histories(ops, steps, times):
    """{index: [(time, op)]} over all sequences"""
    for n, seq in enumerate(itertools.product(ops, repeat=steps)):
        yield n, [(t, o) for t, o in zip(times, seq) if o]


def packed(a):
    """every history of one key (and of two neighbouring keys) in one directory"""
    _, idx, store, keys, steps, times, page, prefix, via = a
    root, e, st = env('v%d' % idx, store)
    hist = {}
    ops = [None] + [(k, d) for k in keys for d in (1, 0)[:2 if store == 's3' else 1]]      # Azure and GCS do not tell when an object was deleted
    for n, h in histories(ops, steps, times):
        for j, (t, (k, d)) in enumerate(h):
            x = hist.setdefault('%s%05d%s' % (prefix, n, k), [])
            x.append((T + t, 'v%d-%d' % (j, n), b'%d.%d' % (n, j) * (j + 1) if d else None))
    st.hist = hist
    st.page = page
    if via:
        remote.split(e, 'repo', **away(e))
    viol, ks, ev = [], set(), 0
    for t in sorted({x for y in times for x in (T + y - 1, T + y)} | {T + 10 ** 6}):
        for rec in (0, 1):
            ref = at(hist, t)
            base = prefix.split('/')[0] if prefix else None
            r = e.run('repo-ls', *([base] if base else []), *(['--recurse'] if rec else []), output='json', repo='1', repo_target_time=stamp(t))
            ev += 1
            ks.add(core.h((store, keys, steps, tuple(times), page, prefix, t, rec, via)))
            what = 'repo-ls%s on %s of all histories of %d steps at %s over %s, pages of %d%s, at %d s' % (' --recurse' if rec else '', store, steps, times, keys, page, ', repository host' if via else '', t - T)
            if st.bad:
                viol.append(('%s: request refused: %s' % (what, st.bad[0]), repr(a)))
                break
            if r.rc:
                viol.append(('%s fails: %r' % (what, r), repr((a, t))))
                continue
            got = {k: (v['time'], v['size']) for k, v in json.loads(r.out[r.out.index('{'):]).items() if v['type'] == 'file'}
            want = {(k[len(base) + 1:] if base else k): (x[0], len(x[1])) for k, x in ref.items()}
            if not rec:
                want = {k: v for k, v in want.items() if '/' not in k}
            late = None
            if store != 's3':
                for k, (m, n) in list(got.items()):
                    h = hist[(base + '/' if base else '') + k]
                    if k in want and got[k] != want[k] and (h[-1][0], want[k][1]) == got[k]:
                        late, got[k] = late or k, want[k]
            if late:
                viol.append(('%s: the time of %s is that of a version newer than the target time' % (what, late), repr((a, t)), 'azure-gcs-time'))
            bad = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))
            if bad:
                k = bad[0]
                viol.append(('%s: %d of %d entries are wrong, e.g. %s (time, size): %s instead of %s; versions: %s' % (
                    what, len(bad), len(want), k, got.get(k), want.get(k), [(x[0] - T, x[2]) for x in hist[(base + '/' if base else '') + k]]), repr((a, t))))
    st.close()
    pg.rmtree(root)
    return dict(evals=ev, trans=ev * len(hist), keys=ks, viol=[v for v in viol if len(v) == 2][:3] + [v for v in viol if len(v) == 3][:1])


def reads(a):
    """content of every history of one key at every time"""
    _, idx, store, times, lo, n = a
    root, e, st = env('r%d' % idx, store)
    viol, ks, ev = [], set(), 0
    hist = {}
    for i, h in histories([None, 1, 0][:3 if store == 's3' else 2], len(times), times):
        if i % n == lo:
            hist['d/%03d' % i] = [(T + t, 'g%d' % j, b'%d.%d' % (i, j) if o == 1 else None) for j, (t, o) in enumerate(h)]
    st.hist = {k: v for k, v in hist.items() if v}
    for k in sorted(hist):
        for t in sorted({x for y in times for x in (T + y - 1, T + y)}):
            ref = at({k: hist[k]}, t).get(k)
            r = e.run('repo-get', k, repo='1', repo_target_time=stamp(t))
            ev += 1
            ks.add(core.h((store, k, t, times)))
            got = (r.raw if isinstance(r.raw, bytes) else r.out.encode()) if r.rc == 0 else None
            if r.rc not in (0, 55) or st.bad or (ref is None) != (got is None) or ref is not None and got != ref[1]:
                viol.append(('repo-get on %s at %d s gives %r instead of %r; versions %s' % (store, t - T, r if r.rc else got, ref and ref[1], [(x[0] - T, x[2]) for x in hist[k]]), repr((a, k, t))))
                break
    st.close()
    pg.rmtree(root)
    return dict(evals=ev, trans=ev, keys=ks, viol=[v for v in viol if len(v) == 2][:3] + [v for v in viol if len(v) == 3][:1])


def build(name, opts, cfg):
    """history of a repository -> env, store"""
    root, e, st = env(name, **cfg)
    e.conf(**opts)
    e.cluster({'base/1/%d' % i: (bk.blob(('s', i), 9000 + 3000 * i), pg.T0 - 5000) for i in range(3)})
    e.file('base/1/40960', bk.blob('big', 60000))
    for n in range(2, len(p34.W)):
        pg.put(e.pg + '/pg_wal/' + p34.W[n], pg.wal(fill=n))
    steps = []

    def go(f):
        f()
        steps.append(e.now())
        e.advance(3)
    go(lambda: e.run('stanza-create', online=False, ok=True))
    go(lambda: e.run('archive-push', e.pg + '/pg_wal/' + p34.W[2], ok=True))
    go(lambda: e.run('backup', type='full', online=False, ok=True, repo1_retention_full='1'))
    go(lambda: e.run('archive-push', e.pg + '/pg_wal/' + p34.W[3], ok=True))
    pg.put(e.pg + '/base/1/1', bk.blob('n', 19000), e.now() - 900)
    go(lambda: e.run('backup', type='incr', online=False, ok=True, repo1_retention_full='1'))
    go(lambda: e.run('annotate', set=bk.backups(e)[-1], annotation='k=v', ok=True))
    pg.put(e.pg + '/base/1/2', bk.blob('n2', 9000), e.now() - 900)
    go(lambda: e.run('archive-push', e.pg + '/pg_wal/' + p34.W[4], ok=True))
    go(lambda: e.run('backup', type='full', online=False, ok=True, repo1_retention_full='1'))
    # damage: overwritten and removed objects
    ks = sorted(st.keys())
    go(lambda: [st.put(k, b'garbage') for k in ks if 'archive.info' in k or '000000000004' in k])
    go(lambda: [st.delete(k) for k in ks if 'pg_data' in k or 'backup.info' in k or '/bundle/' in k])
    go(lambda: [st.delete(k) for k in list(st.keys())])
    return root, e, st, steps


def real(a):
    _, idx, name, opts, page, lo, n = a
    root, e, st, steps = build('h%d' % idx, opts, {})
    st.page = page
    st.mode = None
    loc = bk.clone_env(e, root + '/l', only=('pg',))
    loc.opts = {k: v for k, v in e.opts.items() if not k.startswith(('repo1-s3', 'repo1-type', 'repo1-storage', 'repo1-path'))}
    loc.stub = True
    loc.conf()
    hist = st.hist
    times = sorted({x[0] for h in hist.values() for x in h})
    times = sorted(set(times) | {t - 1 for t in times} | set(steps))
    viol, ks, ev = [], set(), 0
    now = e.ctl.s.timeUs
    via = idx % 2 == 1
    if via:
        remote.split(e, 'repo', **away(e))
    for t in times[lo::n]:
        pg.rmtree(loc.repo(1))
        os.makedirs(loc.repo(1))
        ref = at(hist, t)
        for k in hist:      # directories are not versioned: those of other times show up
            os.makedirs(os.path.dirname(loc.repo(1) + '/' + k), exist_ok=True)
        for k, (m, d) in ref.items():
            pg.put(loc.repo(1) + '/' + k, d, m)
        for c in ('info', 'ls', 'get2', 'get3', 'get4', 'restore', 'verify'):
            out = []
            for x, tt in ((loc, None), (e, t)):
                o = dict(repo='1', repo_target_time=stamp(t)) if tt else dict(repo='1')
                x.ctl.s.timeUs = now
                dst = root + '/dst'
                pg.rmtree(dst)
                os.makedirs(dst, mode=0o700)
                if c == 'info':
                    r = x.run('info', output='json', **o)
                    out.append((r.rc, re.sub(r'"message":"\[(\w+)\] .*?[^\\]"', r'\1', r.out) if r.rc == 0 else None))
                elif c == 'ls':
                    r = x.run('repo-ls', '--recurse', output='json', **o)
                    try:
                        out.append({k: (v['size'], v['time']) for k, v in json.loads(r.out[r.out.index('{'):]).items() if v['type'] == 'file'} if r.rc == 0 else r.rc)
                    except ValueError:
                        out.append(r.out)
                elif c.startswith('get'):
                    r = x.run('archive-get', p34.W[int(c[3])], dst + '/f', **o)
                    out.append((r.rc, core.h(open(dst + '/f', 'rb').read()) if os.path.exists(dst + '/f') and r.rc == 0 else None))
                elif c == 'restore':
                    r = x.run('restore', type='immediate', pg1_path=dst, **o)
                    out.append((r.rc, sorted((k, v) for k, v in bk.snap(dst).items() if 'auto.conf' not in k and k != 'recovery.signal') if r.rc == 0 else None))
                else:
                    if via:
                        continue
                    r = x.run('verify', output='text', **o)
                    txt = re.sub(r'20\d\d-\d\d-\d\d \d\d:\d\d:\d\d\.\d+', 'T', r.out).replace(x.root, '')
                    out.append((r.rc, txt if r.rc == 0 else None))
            ev += 1
            ks.add(core.h((name, page, t, c, via)))
            if out and out[0] != out[1] and not (isinstance(out[0], tuple) and isinstance(out[1], tuple) and out[0][0] and out[1][0]):
                viol.append(('%s at %s (%s%s, pages of %d, step %d of the history): %s' % (c, stamp(t), name, ', repository host' if via else '', page, sum(1 for s in steps if s <= t), p34.diff(out[1], out[0])), repr((a, t, c))))
            if st.bad:
                viol.append(('%s at %s: request refused: %s' % (c, stamp(t), st.bad[0]), repr((a, t, c))))
                break
    st.close()
    pg.rmtree(root)
    return dict(evals=ev, trans=ev, keys=ks, viol=[v for v in viol if len(v) == 2][:3] + [v for v in viol if len(v) == 3][:1])


def job(a):
    return globals()[a[0]](a)


def main():
    c = core.Check('P38', 'model_checking')
    core.build()
    th = c.thorough
    jobs = []
    A, B = [10, 20, 30, 40], [10, 10, 20, 20]
    for store in STORES:
        x = store != 's3'
        for times in (A, B):
            for keys in (('a',), ('a', 'ab'), ('a', '/x'), ('/x', '0')):
                steps = (5 if len(keys) == 1 else 4) if th else (4 if len(keys) == 1 else 3)
                tm = times[:steps] if steps < 5 else times + [50]
                for page in (1000, 7, 1) if th else (1000, 7 if times is A else 1):
                    if keys[0] == '/x' and page < 1000 and not th or len(keys) == 2 and '/x' in keys and page == 1:
                        continue
                    for prefix in ('h/', ''):
                        if prefix == '' and (page != 1000 or x and not th):
                            continue
                        jobs.append(('packed', len(jobs), store, keys, steps, tm, page, prefix, 0))
                        if page == 7 and not x or th:
                            jobs.append(('packed', len(jobs), store, keys, steps, tm, page, prefix, 1))
            n = (8 if th else 4) if not x else (2 if th else 1)
            for lo in range(n):
                jobs.append(('reads', len(jobs), store, (times + [50] if th else times)[:5 if th else 3], lo, n))
    for name, st in (('plain', ()), ('block-enc', ('block', 'enc')), ('bundle-zst', ('bundle', 'zst'))):
        for page in (1000, 2):
            k = 8 if th else 4
            for lo in range(k):
                if th or (lo + page) % 2 == 0:
                    jobs.append(('real', len(jobs), name, bk.store(*st), page, lo, k))
    for r in core.pmap(job, jobs):
        c.merge(r)
    c.rule = 'all histories of 3-4 (thorough 4-5) writes/deletions of one key and of pairs of keys (one a prefix of the other, sub-directories), distinct and equal times, x all target times x page sizes; a real history at its seconds x 7 commands'
    c.assumptions = ['the store keeps every version and reports the time of each (S3)', 'times of one second resolution']
    c.finish()


if __name__ == '__main__':
    main()
