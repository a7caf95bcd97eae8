#!/usr/bin/env python3
"""P34: no I/O failure is swallowed: every single file-system operation of every command fails in turn, and a command that still reports
success must have done exactly what it does without the failure."""
import errno, json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pgb import core, pg, bk

W = [pg.walname(1, n) for n in range(1, 8)]
DIRS = ('pg', 'repo', 'repo2', 'spool', 'lock', 'dst', 'ts', 'lnk')


def base(e, store=(), backups=1, push=2):
    e.conf(**bk.store(*store))
    e.cluster({'base/1/%d' % i: bk.blob(i, 9000 * i) for i in range(4)})
    pg.put(e.pg + '/base/1/big', bk.blob('b', 70000), e.now() - 900)
    e.run('stanza-create', online=False, ok=True)
    os.makedirs(e.pg + '/pg_wal/archive_status', exist_ok=True)
    for n in range(1, 5):
        pg.put(e.pg + '/pg_wal/' + W[n], pg.wal(fill=n))
    for n in range(1, 1 + push):
        e.run('archive-push', e.pg + '/pg_wal/' + W[n], ok=True)
    e.snaps = []
    for i in range(backups):
        e.snaps.append(bk.snap(e.pg))
        e.run('backup', type='full' if i % 2 == 0 else 'incr', online=False, ok=True)
        e.advance(5000)
        pg.put(e.pg + '/base/1/2', bk.blob('n%d' % i, 19000), e.now() - 900)
        pg.put(e.pg + '/base/1/new%d' % i, bk.blob('w%d' % i, 500), e.now() - 900)


def listing(path, drop=()):
    """relative paths with type (content of info files differs in times)"""
    out = {}
    for d, dn, fn in os.walk(path):
        for f in dn:
            out[os.path.relpath(d + '/' + f, path)] = 'd'
        for f in fn:
            out[os.path.relpath(d + '/' + f, path)] = 'f'
    return {k: v for k, v in out.items() if not any(x in k for x in drop)}


# ---- scenarios: name -> (setup, run, check) ; check(e, r, ref) returns a message when a successful result is wrong; ref = faultless observation
S = {}


def scen(name, setup, run, look, check=None, cfg=None):
    S[name] = (setup, run, look, check or (lambda e, got, ref: None if got == ref else 'result differs from that without the fault: %s' % diff(got, ref)), cfg or {})


def diff(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        ks = [k for k in set(a) | set(b) if a.get(k) != b.get(k)]
        return '; '.join('%s: %s instead of %s' % (k, str(a.get(k))[:80], str(b.get(k))[:80]) for k in sorted(map(str, ks))[:4])
    return '%s instead of %s' % (str(a)[:300], str(b)[:300])


def gets(e, segs, repos=1):
    out = {}
    for rp in range(1, repos + 1):
        for s in segs:
            d = e.root + '/g'
            if os.path.exists(d):
                os.unlink(d)
            r = e.run('archive-get', s, d, repo=str(rp))
            out['%d:%s' % (rp, s)] = (r.rc, core.h(open(d, 'rb').read()) if os.path.exists(d) else None)
    return out


def infos(path):
    out = {}
    for f in ('backup/demo/backup.info', 'archive/demo/archive.info'):
        for x in ('', '.copy'):
            p = path + '/' + f + x
            try:
                d = pg.parse_ini(open(p).read())
                out[f + x] = sorted(re.sub(r'.*checksum.*', '', '%s.%s=%s' % (s, k, v)) for s, kv in d.items() for k, v in kv.items() if 'checksum' not in k)
            except OSError:
                out[f + x] = None
    return out


def rst(e, n=None):
    """restore every listed backup and give the trees"""
    out = {}
    for i, lab in enumerate(bk.backups(e)):
        r = bk.restore(e, e.root + '/chk', lab)
        out[i] = core.h(sorted(bk.snap(e.root + '/chk').items())) if r.rc == 0 else repr(r)
    v = e.run('verify')
    out['verify'] = (v.rc, 'error' in v.out)
    return out


def fresh(e):
    e.cluster({'base/1/1': b'x'})


scen('stanza-create', fresh, lambda e: e.run('stanza-create', online=False),
     lambda e, r: infos(e.repo(1)))


def up(e):
    base(e)
    e.ver = '17'
    e.cluster({'base/1/1': b'x'})
    e.sysid2 = e.sysid + 1
    pg.put(e.pg + '/global/pg_control', pg.control('17', sysid=e.sysid2))
    pg.put(e.pg + '/PG_VERSION', b'17\n')


scen('stanza-upgrade', up, lambda e: e.run('stanza-upgrade', online=False), lambda e, r: infos(e.repo(1)))


def two(e):
    base(e)


for nm, st in (('push', ()), ('push-zst-enc', ('zst', 'enc'))):
    scen(nm, lambda e, st=st: base(e, st), lambda e: e.run('archive-push', e.pg + '/pg_wal/' + W[3]), lambda e, r: gets(e, W[1:4]))
scen('push2', lambda e: base(e), lambda e: e.run('archive-push', e.pg + '/pg_wal/' + W[3]), lambda e, r: gets(e, W[1:4], 2), cfg=dict(repos=2))


def apush(e):
    base(e)
    os.makedirs(e.root + '/spool/archive/demo/out')
    for n in (3, 4):
        pg.put(e.pg + '/pg_wal/archive_status/' + W[n] + '.ready', b'')


def apush_look(e, r):
    out = {}
    for n in (3, 4):
        if os.path.exists(e.root + '/spool/archive/demo/out/' + W[n] + '.ok'):
            out[n] = gets(e, [W[n]])
    out['keep'] = gets(e, W[1:3])
    return out


def apush_check(e, got, ref):
    for k, v in got.items():
        if v != ref[k]:
            return 'acknowledged segment not stored: %s' % diff(got, ref)
    # what is not acknowledged must be reported as an error
    out = os.listdir(e.root + '/spool/archive/demo/out')
    for n in (3, 4):
        if n not in got and not (W[n] + '.error' in out or 'global.error' in out) and not getattr(e, 'lastrc', 0):
            return 'segment %s neither acknowledged nor reported as failed' % W[n]


scen('push-async', apush, lambda e: e.run('archive-push:async', e.pg + '/pg_wal', archive_async=True), apush_look, apush_check)


def getlook(e, r):
    return (r.rc, core.h(open(e.root + '/dst/f', 'rb').read()) if os.path.exists(e.root + '/dst/f') else None)


for nm, st in (('get', ()), ('get-gz-enc', ('gz', 'enc'))):
    scen(nm, lambda e, st=st: (base(e, st), os.makedirs(e.root + '/dst')), lambda e: e.run('archive-get', W[2], e.root + '/dst/f'), getlook)
scen('get-history', lambda e: (base(e), pg.put(e.pg + '/pg_wal/00000002.history', b'1\t0/1000000\tx\n'), e.run('archive-push', e.pg + '/pg_wal/00000002.history', ok=True), os.makedirs(e.root + '/dst')),
     lambda e: e.run('archive-get', '00000002.history', e.root + '/dst/f'), getlook)


def aget_look(e, r):
    d = e.root + '/spool/archive/demo/in'
    return {f: core.h(open(d + '/' + f, 'rb').read()) for f in os.listdir(d)}


def aget_check(e, got, ref):
    for f, h in got.items():
        if f in W and h != ref.get(f):
            return 'queued segment %s is wrong' % f
        if f.endswith('.ok') and f not in ref:
            return 'segment %s reported as missing' % f
    return None


scen('get-async', lambda e: (base(e), os.makedirs(e.root + '/spool/archive/demo/in')),
     lambda e: e.run('archive-get:async', W[1], W[2], archive_async=True), aget_look, aget_check)
for nm, st, n, typ in (('full', (), 0, 'full'), ('incr-block', ('block', 'zst'), 1, 'incr'), ('full-bundle-enc', ('bundle', 'enc'), 0, 'full'), ('incr-hard-gz', ('hard', 'gz'), 1, 'incr'),
                       ('diff-delta', ('delta',), 2, 'diff')):
    scen('backup-' + nm, lambda e, st=st, n=n: base(e, st, n), lambda e, typ=typ: e.run('backup', type=typ, online=False, repo1_retention_full='9'), lambda e, r: rst(e))
# backup of two repositories' worth of WAL expired after the backup
scen('expire', lambda e: base(e, (), 4), lambda e: e.run('expire', repo1_retention_full='1'), lambda e, r: (bk.backups(e), listing(e.repo(1), ('backup.history',)), rst(e)))
scen('expire-set', lambda e: base(e, ('bundle',), 4), lambda e: e.run('expire', set=bk.backups(e)[0] if False else e.lab, repo1_retention_full='9'),
     lambda e, r: (bk.backups(e), listing(e.repo(1), ('backup.history',))))
scen('annotate', lambda e: base(e, (), 2), lambda e: e.run('annotate', set=e.lab, annotation='k=v'), lambda e, r: ([b.get('annotation') for b in bk.info(e)[0]['backup']], rst(e)))


def cl(e):
    """cluster with tablespace and links"""
    os.makedirs(e.root + '/ts/PG_16_202307071/1', exist_ok=True)
    pg.put(e.root + '/ts/PG_16_202307071/1/5', bk.blob('t', 3000), e.now() - 900)
    os.makedirs(e.pg + '/pg_tblspc', exist_ok=True)
    os.symlink(e.root + '/ts', e.pg + '/pg_tblspc/7')
    base(e, getattr(e, 'st', ()), 2)


def rsetup(st, dirty):
    def f(e):
        e.st = st
        cl(e)
        pg.rmtree(e.root + '/ts')
        os.makedirs(e.root + '/ts', mode=0o700)
        os.makedirs(e.root + '/dst', mode=0o700)
        if dirty:
            bk.restore(e, e.root + '/dst', bk.backups(e)[0], ok=True)
            pg.put(e.root + '/dst/base/1/1', b'zz')
            pg.put(e.root + '/dst/base/1/extra', b'zz')
    return f


def rlook(e, r):
    out = {}
    for d in ('dst', 'ts'):
        out.update(('%s/%s' % (d, k), v) for k, v in bk.snap(e.root + '/' + d).items() if k not in ('.', '', 'recovery.signal', 'standby.signal') and 'auto.conf' not in k)
    p = e.root + '/dst/postgresql.auto.conf'
    out['signal'] = [os.path.exists(e.root + '/dst/%s.signal' % x) for x in ('recovery', 'standby')]
    out['auto.conf'] = re.sub(r'# Recovery settings.*', '', open(p).read()) if os.path.exists(p) else None
    return out


for nm, st, dirty in (('fresh', (), 0), ('delta-block', ('block', 'zst'), 1), ('fresh-bundle-enc', ('bundle', 'enc'), 0), ('delta-gz', ('gz',), 1)):
    scen('restore-' + nm, rsetup(st, dirty), lambda e, dirty=dirty: e.run('restore', *(['--delta'] if dirty else []), type='immediate', pg1_path=e.root + '/dst'), rlook)
scen('delete', lambda e: (base(e, (), 2), e.run('stop', ok=True)), lambda e: e.run('stanza-delete', '--force'), lambda e, r: listing(e.repo(1)))
scen('stop', lambda e: base(e, (), 0, 0), lambda e: e.run('stop'), lambda e, r: sorted(os.listdir(e.root + '/lock')))
scen('start', lambda e: (base(e, (), 0, 0), e.run('stop', ok=True)), lambda e: e.run('start'), lambda e, r: sorted(os.listdir(e.root + '/lock')))


def out_check(e, got, ref):
    """the output is the same or tells about an error"""
    if got == ref or 'rror' in got or '"code":99' in got:
        return None
    return 'output differs without any error reported: %s' % [x for x in got.split('\n') if x not in ref][:3]


def clean(r):
    return re.sub(r'20\d\d-\d\d-\d\d \d\d:\d\d:\d\d\.\d+', 'T', r.out)


scen('info', lambda e: base(e, (), 3), lambda e: e.run('info', output='json'), lambda e, r: clean(r), out_check)
scen('info-set', lambda e: base(e, (), 3), lambda e: e.run('info', set=e.lab), lambda e, r: clean(r), out_check)
scen('verify', lambda e: base(e, (), 2), lambda e: e.run('verify', '--verbose', output='text'), lambda e, r: clean(r), out_check)
scen('repo-ls', lambda e: base(e, (), 2), lambda e: e.run('repo-ls', '--recurse', output='json'), lambda e, r: clean(r), out_check)
scen('repo-get', lambda e: base(e, (), 1), lambda e: e.run('repo-get', 'archive/demo/archive.info'), lambda e, r: clean(r), out_check)


def one(a):
    name, idx, mode, lo, n = a
    setup, run, look, check, cfg = S[name]
    root = core.scratch('f%d' % idx)
    e = pg.Env(root + '/w', **cfg)
    setup(e)
    e.lab = bk.backups(e)[0] if name in ('expire-set', 'annotate', 'info-set') else None
    t0 = e.ctl.s.timeUs
    sav = root + '/sav'
    for d in DIRS:
        if os.path.exists(e.root + '/' + d):
            pg.copytree(e.root + '/' + d, sav + '/' + d)

    def reset():
        for d in DIRS:
            if os.path.lexists(e.root + '/' + d):
                pg.rmtree(e.root + '/' + d)
            if os.path.exists(sav + '/' + d):
                pg.copytree(sav + '/' + d, e.root + '/' + d)
        e.ctl.reset()
        e.ctl.s.timeUs = t0
    viol, keys, ev = [], set(), 0
    reset()
    r = run(e)
    if r.rc:
        raise pg.Unexpected('%s fails without a fault: %r' % (name, r))
    ops = {'w': e.ctl.s.op, 'r': e.ctl.s.rop}
    ref = look(e, r)
    kind = mode[0]
    total = ops['r' if kind == 'r' else 'w']
    for k in range(1 + lo, total + 8, n):
        reset()
        if kind == 'r':
            e.ctl.rfault(k, 3 if mode == 'rs' else 1, {'r': 5, 'ra': 13, 'rs': 0}[mode])
        elif kind == 's':
            e.ctl.fault(k, 3, name=b'write')
        else:
            e.ctl.fault(k, 1, {'w': 28, 'wi': 5, 'wa': 13, 'wk': 28}[mode], sticky=mode == 'wk')
        r = run(e)
        hit = e.ctl.s.rfaultHit if kind == 'r' else e.ctl.s.faultHit
        what = e.ctl.s.rfaultName.decode('utf-8', 'replace').replace(e.root, '')
        e.ctl.reset()
        if not hit:
            if k > total:
                break
            continue
        ev += 1
        keys.add(core.h((name, mode, k)))
        e.lastrc = r.rc
        if r.rc < 0:
            viol.append(('%s dies with %d when operation %d (%s) fails' % (name, r.rc, k, what or mode), repr((a, k))))
        elif r.rc == 0 or (r.rc == 1 and name.startswith('get')):
            try:
                bad = check(e, look(e, r), ref)
            except (pg.Unexpected, ValueError, OSError) as x:
                bad = 'repository is not usable afterwards: %s' % x
            if bad:
                viol.append(('%s reports %s although operation %d failed (%s %s): %s' % (name, 'success' if r.rc == 0 else '"not found"', k, mode, what, bad), repr((a, k)),
                             'P34:%s:%s' % (name, what.split(' ')[0])))
    pg.rmtree(root)
    return dict(evals=ev, trans=ev, keys=keys, viol=viol[:3])


def main():
    c = core.Check('P34', 'fault_enumeration')
    core.build()
    jobs = []
    modes = ['r', 'w', 's'] + (['ra', 'rs', 'wi', 'wa', 'wk'] if c.thorough else [])
    for name in S:
        for m in modes:
            n = 4 if name.startswith(('backup', 'restore', 'expire')) and m[0] != 's' else 1
            for lo in range(n):
                jobs.append((name, len(jobs), m, lo, n))
    for r in core.pmap(one, jobs):
        c.merge(r)
    c.rule = ('every single read-side operation (open, read, stat, opendir, readdir, readlink, lseek, close) failing with EIO and every mutating operation failing with ENOSPC '
              'or writing short (thorough: also EACCES, EIO, short reads, all later operations failing) x %d command scenarios' % len(S))
    c.assumptions = ['single fault per run (thorough: also persistent ones)', 'local file system']
    c.finish()


if __name__ == '__main__':
    main()
