#!/usr/bin/env python3
"""P30: object store errors are retried or reported, never taken for success.

The scenarios of P34 against S3, Azure and GCS stores (lib/pgb/s3.py, clouds.py) which verify signatures and hashes: without faults, for every page size and form of
reply, the result is that of a local repository; then every request of each scenario is answered with every kind of fault."""
import json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pgb import core, pg, bk, s3, clouds
import p23, p34

S = {k: v for k, v in p34.S.items() if k not in ('stop', 'start', 'push2', 'backup-incr-hard-gz')}


def bigsetup(e):
    """segments larger than a part of a multipart upload"""
    e.cluster({'base/1/1': b'x'})
    e.conf(compress_type='none')
    e.run('stanza-create', online=False, ok=True)
    pg.put(e.pg + '/pg_wal/' + p34.W[1], pg.wal(fill=1, seg=16 << 20))


S['push-big'] = (bigsetup, lambda e: e.run('archive-push', e.pg + '/pg_wal/' + p34.W[1]),
                 lambda e, r: {f: core.h(open(e.repo(1) + '/archive/demo/16-1/0000000100000000/' + f, 'rb').read()) for f in sorted(os.listdir(e.repo(1) + '/archive/demo/16-1/0000000100000000'))},
                 lambda e, got, ref: None if got == ref else 'stored segment differs', dict(seg=16 << 20))

ODD = ['a b', 'x%41', 'q?r', 'h#i', 'p+q', 'u\u00fc', "am&p;<l>'\"t", '=&', '%', '~-_.', 'a:b@c,d', '[x]{y}|\\z', '%2F', '..x', 'tail ']


def names(e):
    """more objects than go into one request for removal, and all kinds of names"""
    e.cluster({**{'base/1/%s' % n: bk.blob(n, 900) for n in ODD}, **{'base/2/%d' % n: b'%d' % n for n in range(290)}})
    e.conf(compress_type='none', repo1_retention_full='1')
    e.run('stanza-create', online=False, ok=True)
    e.run('backup', type='full', online=False, ok=True)


S['names'] = (names, lambda e: e.run('backup', type='full', online=False), lambda e, r: (len(bk.backups(e)), p34.rst(e), sorted(re.sub(r'20\d{6}-\d{6}F', 'L', k) for k, v in pg.tree(e.repo(1)).items() if v[0] == 'file' and 'backup.history' not in k)), p34.S['delete'][3], {})

STORES = {'s3': s3.Store, 'azure': clouds.Azure, 'gcs': clouds.Gcs}
NAMES = {'s3': 'S3', 'azure': 'Azure', 'gcs': 'GCS'}

RETRY = ['st:500', 'st:503', 'st:429', 'st:408', 'ste:500', 'sta:500', 'sta:503', 'drop0', 'drop1', 'cut:status', 'cut:line', 'cut:head', 'cut:body0', 'cut:body1', 'cut:mid', 'cut:last']
FAIL = ['st:400', 'st:403', 'st:301', 'st:404', 'ste:403', 'sta:403', 'garble', 'badlen', 'trunc', 'empty', 'notxml', 'err200', 'noetag', 'delerr', 'badsum']
STICKY = ['all:st:500', 'all:drop0', 'same:st:503', 'same:cut:mid', 'all:cut:head', 'all:st:403', 'same:drop1']
MODES = [(None, 1), (None, 2), (None, 3), ('close', 1000), ('idle', 2), ('chunk:1', 1000), ('chunk:1000', 3), ('chunk:16384', 1000), ('split:1', 1000), ('split:700', 1000)]


COMMON = [dict(repo1_storage_prefetch='0', repo1_storage_read_over='0B'), dict(repo1_storage_prefetch='1', repo1_storage_read_over='1MiB', buffer_size='16KiB'), dict(process_max='3'), dict(path='/x'),
          dict(path='/a/b c'), dict(tag='k=v w', buffer_size='32KiB')]
VARS = {'s3': COMMON + [dict(style='host'), dict(token='tOk/en=='), dict(repo1_s3_requester_pays='y', tag='k=v w'), dict(repo1_s3_kms_key_id='kms', path='/a/b c')],
        'azure': COMMON + [dict(token='sas'), dict(token='sas', path='/a/b c', process_max='2'), dict(repo1_storage_upload_chunk_size='5MiB'), dict(repo1_storage_upload_chunk_size='7MiB', tag='k=v w')],
        'gcs': COMMON + [dict(token='prj-1'), dict(repo1_storage_upload_chunk_size='5MiB'), dict(repo1_storage_upload_chunk_size='7MiB', tag='k=v w', buffer_size='32KiB')]}


class W:
    def __init__(self, name, idx, kind='s3', style='path', token=None, path='/', tag=None, **opts):
        self.name = name
        self.setup, self.run_, self.look, self.check, self.cfg = S[name]
        self.root = core.scratch('s%d' % idx)
        self.e = e = pg.Env(self.root + '/w', **self.cfg)
        e.stub = False
        self.setup(e)
        e.lab = bk.backups(e)[0] if name in ('expire-set', 'annotate', 'info-set') else None
        self.local = (dict(e.opts), dict(e.sopts))
        self.store = STORES[kind](e.repo(1), clock=e.now, token=token, base=path)
        e.conf(**{k.replace('-', '_'): v for k, v in self.store.opts(style=style).items()})
        if tag:
            e.conf(repo1_storage_tag=tag)
        e.conf(**opts)
        self.away = (dict(e.opts), dict(e.sopts))
        self.conf(self.local)
        self.t0 = e.ctl.s.timeUs
        self.sav = self.root + '/sav'
        for d in p34.DIRS:
            if os.path.exists(e.root + '/' + d):
                pg.copytree(e.root + '/' + d, self.sav + '/' + d)
        self.dst = pg.tree(e.root + '/dst') if os.path.exists(e.root + '/dst') else None

    def conf(self, c):
        self.e.opts, self.e.sopts = dict(c[0]), dict(c[1])
        self.e.conf()

    def reset(self):
        e = self.e
        for d in p34.DIRS:
            if os.path.lexists(e.root + '/' + d):
                pg.rmtree(e.root + '/' + d)
            if os.path.exists(self.sav + '/' + d):
                pg.copytree(self.sav + '/' + d, e.root + '/' + d)
        e.ctl.reset()
        e.ctl.s.timeUs = self.t0

    def run(self, away=True, fault=None):
        self.conf(self.away if away else self.local)
        self.store.reset(fault)
        r = self.run_(self.e)
        self.conf(self.local)
        return r

    def files(self):
        out = {}
        for k, v in pg.tree(self.e.repo(1)).items():
            if v[0] == 'file':
                k = re.sub(r'20\d{6}-\d{6}[FDI]', 'L', k)
                if k.endswith(('.info', '.copy', '.manifest', '.manifest.gz')) or 'bundle' in k or self.e.opts.get('repo1-cipher-type') or 'backup.history' in k:
                    v = ('file',)
                out[k] = v[:2]
        return out

    def end(self):
        self.store.close()
        pg.rmtree(self.root)


def norm(name, x):
    """without what a store without paths does not have"""
    if name == 'repo-ls':
        return {k: v for k, v in json.loads(x[x.index('{'):] if isinstance(x, str) else x).items() if v['type'] == 'file'}
    if name in ('delete', 'expire', 'expire-set'):
        f = lambda o: {k: v for k, v in o.items() if v != 'd' and k != 'backup/demo/latest'} if isinstance(o, dict) else o
        return tuple(f(o) for o in x) if isinstance(x, tuple) else f(x)
    return x


def same(a):
    _, kind, name, idx, modes, var = a
    w = W(name, idx, kind, **var)
    w.reset()
    r = w.run(False)
    if r.rc:
        raise pg.Unexpected('%s fails: %r' % (name, r))
    ref, files = norm(name, w.look(w.e, r)), w.files()
    viol, keys, ev, log = [], set(), 1, None
    for mode, page in [(None, 1000)] + modes:
        w.store.mode, w.store.page = mode, page
        w.reset()
        r = w.run()
        what = '%s on %s%s%s' % (name, NAMES[kind], ' (%s)' % var if var else '', '' if (mode, page) == (None, 1000) else ' (replies %s, pages of %d)' % (mode, page))
        ev += 1
        keys.add(core.h((kind, name, mode, page, sorted(var.items()))))
        if log is None:
            log = [(x[0], x[1], x[2]) for x in w.store.log]
        if w.store.bad:
            viol.append(('%s: request refused by the store: %s' % (what, w.store.bad[0]), repr(a)))
        elif w.store.uploads:
            viol.append(('%s: upload begun and not completed: %s' % (what, list(w.store.uploads.values())[0][0]), repr(a)))
        elif r.rc:
            viol.append(('%s fails, with a local repository it succeeds: %r' % (what, r), repr(a)))
        else:
            got, gf = norm(name, w.look(w.e, r)), w.files()
            if got != ref:
                viol.append(('%s: result differs from that with a local repository: %s' % (what, p34.diff(got, ref)), repr(a)))
            elif gf != files:
                viol.append(('%s: objects differ from the files of a local repository: %s' % (what, pg.tree_diff(files, gf)), repr(a)))
    w.end()
    return dict(evals=ev, trans=ev, keys=keys, viol=viol, log=(kind, name, [] if var else log))


def usable(store, kind, verb, target):
    return STORES[store].usable(kind.split(':', 1)[1] if kind.startswith(('all:', 'same:')) else kind, verb, target)


def fault(a):
    _, store, name, idx, todo = a
    w = W(name, idx, store)
    viol, keys, ev, soft = [], set(), 0, []
    w.reset()
    r = w.run()
    if r.rc:
        raise pg.Unexpected('%s fails on %s: %r' % (name, NAMES[store], r))
    ref = w.look(w.e, r)
    changing = not name.startswith(('info', 'repo-', 'restore', 'verify'))
    for n, kind in todo:
        w.reset()
        t = w.e.ctl.s.timeUs
        r = w.run(fault=(n, kind))
        if not w.store.hit:
            continue
        verb, target, _ = w.store.hit
        ev += 1
        keys.add(core.h((store, name, n, kind)))
        what = '%s on %s, request %d (%s %s) answered with %s' % (name, NAMES[store], n, verb, target[:120], kind)
        w.e.lastrc = r.rc
        bad = None
        try:
            if r.rc < 0:
                bad = 'dies with %d' % r.rc
            elif w.store.bad:
                bad = 'request refused by the store: %s' % w.store.bad[0]
            elif r.rc == 0 or r.rc == 1 and name.startswith('get'):
                bad = w.check(w.e, w.look(w.e, r), ref)
                if bad:
                    bad = 'reports %s: %s' % ('success' if r.rc == 0 else '"not found"', bad)
            else:
                if kind in RETRY and not w.store.final(verb, target):
                    bad = 'one failure the store recovers from is not retried: %r' % r
                bad = bad or (None if name == 'push-big' else p23.partial(w, ref))
            if not bad and changing and r.rc and not name.startswith('stanza'):
                r2 = w.run()
                ev += 1
                if r2.rc and name != 'delete':
                    bad = 'fails when repeated: %r' % r2
                elif not r2.rc:
                    got = w.look(w.e, r2)
                    if name.startswith('backup'):
                        if got.get(len(got) - 2) != ref[len(ref) - 2] or got['verify'] != ref['verify']:
                            bad = 'result when repeated: %s' % p34.diff(got, ref)
                    elif norm(name, got) != norm(name, ref) and name != 'get-async':
                        bad = 'result when repeated: %s' % p34.diff(got, ref)
        except (pg.Unexpected, ValueError, OSError) as x:
            bad = 'not usable afterwards: %s' % x
        if bad:
            viol.append(('%s: %s' % (what, bad), repr((store, name, n, kind))))
            if len(viol) > 3:
                break
    w.end()
    return dict(evals=ev, trans=ev, keys=keys, viol=viol)


def job(a):
    return globals()[a[0]](a)


def main():
    c = core.Check('P30', 'fault_enumeration')
    core.build()
    th = c.thorough
    jobs = []
    for x, store in enumerate(STORES):
        for i, name in enumerate(S):
            ms = [m for m in MODES if not (m[0] in ('split:1', 'chunk:1') and (name == 'push-big' or 'bundle-enc' in name))]
            jobs.append(('same', store, name, len(jobs), ms if th else [m for j, m in enumerate(ms) if j in (0, 3 + i % 2) or (i + j + x) % 4 == 0 and not x], {}))
            for j, v in enumerate(VARS[store]):
                if th or (i + j + x) % (5 if x == 0 else 7) == 0 or name == 'push-big' and 'repo1_storage_upload_chunk_size' in v:
                    jobs.append(('same', store, name, len(jobs), [], v))
    fj = []
    for r in core.pmap(job, jobs):
        c.merge(r)
        if 'log' not in r:
            continue
        store, name, log = r['log']
        x, todo, q = list(STORES).index(store), [], len(name) + len(store)
        for n, (verb, target, xml) in enumerate(log):
            for k, kind in enumerate(RETRY + FAIL + STICKY):
                if not usable(store, kind, verb, target) or name == 'names' and (verb != 'POST' or not re.search(r'[?&/](delete|comp=batch|batch/)', target)):
                    continue
                q += 1
                rare = kind in ('err200', 'delerr', 'noetag', 'trunc', 'badsum')
                if th or rare or (q + n) % ((15 if name.startswith(('backup', 'restore', 'push-big')) else 6) * (2 if x else 1)) == 0:
                    todo.append((n, kind))
        for lo in range(0, len(todo), 24):
            fj.append(('fault', store, name, 1000 + len(fj), todo[lo:lo + 24]))
    c.phase('same')
    for r in core.pmap(job, fj):
        c.merge(r)
    c.phase('fault')
    c.rule = ('%d scenarios against an S3, an Azure and a GCS store (signatures, hashes, part sizes and page tokens verified) compared with a local repository for page sizes 1-3 and 1000 and 10 forms of reply; every request of each '
              'answered with each of %d faults (quick: a rotating part of them)' % (len(S), len(RETRY + FAIL + STICKY)))
    c.assumptions = ['the store does not lie: an object it reports missing is missing, replies with a content length end after it', 'plain HTTP on the loopback network (TLS: P33)', 'virtual clock']
    c.finish()


if __name__ == '__main__':
    main()
