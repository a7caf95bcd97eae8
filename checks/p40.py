#!/usr/bin/env python3
"""P40: repo-ls, repo-get and repo-rm report, return and remove exactly what the path and the options name.

All small trees (files, directories, links, specials, names that need escaping) x every path argument x every option combination on local, remote and
object-store repositories, against a reference; every file of real encrypted repositories read through repo-get against an independent decryption."""
import configparser, itertools, json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pgb import core, pg, bk, s3, clouds, remote

STORES = {'s3': s3.Store, 'azure': clouds.Azure, 'gcs': clouds.Gcs}
M = pg.T0 - 40000

# the trees: all subsets of these slots, one choice each
SLOTS = [
    [{}, {'a': b''}, {'a': None}, {'a/b': b'x' * 7}, {'a/b/c': b'12', 'a/b1': b'3'}],
    [{}, {'a.b': b'q' * 20}, {'a0/x': b'5'}, {'ab': ('link', 'a')}],
    [{}, {'z': ('fifo',)}, {'z q"%+&<é': b'w'}, {'z\\/y#?=': b'v', 'z\\/A': b'', 'z\\/b\'': None}],
]
# names of stanza trees that commands meet
FILTERS = [None, 'b$', '^a', '^a/', '^a/b', '^(a|z)', '[^.]', '^$', '^a\\.b$', '/', '^\\.$', '^z']
# object stores list by the characters before the first special one (regExpPrefix), wrong for these
PREFIX = {'^ab?': 'ab', '^a|z': 'a', '^z*': 'z'}
FILTERS += PREFIX


def trees():
    out = []
    for c in itertools.product(*SLOTS):
        t = {}
        for x in c:
            t.update(x)
        out.append(t)
    return out


def full(tree, cloud):
    """{path: kind} with the directories; kind: bytes, None (directory), tuple"""
    out = {}
    for k, v in tree.items():
        if cloud and not isinstance(v, bytes):
            continue
        out[k] = v
        while '/' in k:
            k = k.rsplit('/', 1)[0]
            out[k] = None
    return out


def listing(t, path, rec, rx, sort):
    """names in the order of the listing"""
    base = path + '/' if path else ''
    out = []

    def go(d):
        names = sorted((k[len(base + d):] for k in t if k.startswith(base + d) and '/' not in k[len(base + d):]), key=lambda k: k.encode(), reverse=sort == 'desc')
        for n in names:
            sub = rec and t[base + d + n] is None
            if sub and sort == 'desc':
                go(d + n + '/')
            if rx is None or re.search(rx, d + n):
                out.append(d + n)
            if sub and sort != 'desc':
                go(d + n + '/')
    go('')
    return out


def lsref(t, path, rec, rx, sort, js):
    """expected output: list of (name, entry)"""
    if path and isinstance(t.get(path), bytes):
        return [('.', path)]
    out = [('.', None)] if js and (rx is None or re.search(rx, '.')) else []
    return out + [(n, (path + '/' if path else '') + n) for n in listing(t, path, rec, rx, sort)]


class World:
    def __init__(self, idx, via, opts={}):
        self.root = core.scratch('w%s' % idx)
        self.e = pg.Env(self.root + '/w')
        self.via, self.st = via, None
        self.e.conf(**opts)
        kind = via.split('-')[0]
        if kind in STORES:
            self.e.stub = False
            os.makedirs(self.root + '/store')
            self.st = STORES[kind](self.root + '/store', clock=self.e.now, base='/' if via in ('s3', 'gcs') else '/r/p', page=3 if via != 's3' else 1000)
            self.e.conf(**{k.replace('-', '_'): v for k, v in self.st.opts().items()})
            self.base = self.e.opts['repo1-path']
        else:
            self.base = self.e.repo(1)
        self.cloud = kind in STORES
        if via.endswith('remote'):
            rc = {k: v for k, v in self.e.opts.items() if re.match(r'repo1-(s3|azure|gcs|type|path|storage|cipher)', k)}
            for k in rc:
                if k != 'repo1-path':
                    self.e.opts.pop(k)
            remote.split(self.e, 'repo', **rc)

    def fill(self, tree):
        if self.st:
            for k in list(self.st.keys()):
                self.st.delete(k)
            for k, v in tree.items():
                if isinstance(v, bytes):
                    self.st.put(self.st.base + k, v)
            return
        b = self.e.repo(1)
        pg.rmtree(b)
        os.makedirs(b)
        for k, v in tree.items():
            p = b + '/' + k
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if v is None:
                os.makedirs(p, exist_ok=True)
            elif isinstance(v, bytes):
                pg.put(p, v, M + len(v))
            elif v[0] == 'link':
                os.symlink(v[1], p)
            else:
                os.mkfifo(p)

    def tree(self):
        """what the repository holds"""
        out = {}
        if self.st:
            for k in self.st.keys():
                out[k[len(self.st.base):]] = self.st.get(k)
            return full(out, True)
        b = self.e.repo(1)
        if not os.path.isdir(b):
            return None
        for d, ds, fs in os.walk(b):
            r = os.path.relpath(d, b)
            r = '' if r == '.' else r + '/'
            for n in ds + fs:
                p = d + '/' + n
                out[r + n] = ('link', os.readlink(p)) if os.path.islink(p) else None if os.path.isdir(p) else open(p, 'rb').read() if os.path.isfile(p) else ('fifo',)
        return out

    def close(self):
        if self.st:
            self.st.close()
        pg.rmtree(self.root)


def args(t, base):
    """(argument, the path it names or an error)"""
    b = base.rstrip('/')
    out = [(None, ''), (base, ''), ('zz', 'zz'), (b + '/zz/', 'zz'), ('a/zz', 'a/zz')] + ([(b + '/', '')] if b else [])
    for k, v in sorted(t.items()):
        if isinstance(v, tuple):
            continue
        out.append((k, k))
        out.append((k + '/', k))
        out.append((b + '/' + k, k))
    out += [('a//b', 'ERR'), (b + '//a', 'ERR')]
    if b:
        out += [(b + 'x', 'ERR'), (b + '-x/a', 'ERR'), ('/', 'ERR'), (os.path.dirname(b), 'ERR'), (b[:-1], 'ERR')]
    return out


def ls(a):
    _, idx, via, lo, n, th = a
    w = World(idx, via)
    viol, ks, ev = [], set(), 0
    combos = [(js, s, r) for js in (0, 1) for s in ('asc', 'desc', 'none') for r in (0, 1)]
    for ti, tree in enumerate(trees()):
        if ti % n != lo:
            continue
        t = full(tree, w.cloud)
        w.fill(tree)
        for ai, (arg, path) in enumerate(args(t, w.base)):
            for fi, rx in enumerate(FILTERS):
                for ci, (js, sort, rec) in enumerate(combos):
                    if path.startswith('ERR') and (fi or ci > 1):
                        continue
                    if not th and (ti * 7 + ai * 5 + fi * 3 + ci) % (12 if not via else 36):
                        continue
                    if path and '/' in path and isinstance(t.get(path.split('/')[0]), (bytes, tuple)) and path not in t:
                        continue        # below a file
                    o = dict(output='json' if js else 'text', sort=sort)
                    if rx is not None:
                        o['filter'] = rx
                    r = w.e.run('repo-ls', *([arg] if arg is not None else []), *(['--recurse'] if rec else []), **o, **({} if (ai + ti) % 2 else dict(stanza_opt=False)))
                    ev += 1
                    ks.add(core.h((via, ti, arg and arg.replace(w.root, ''), rx, js, sort, rec)))
                    what = 'repo-ls %s%s of %s%s' % (arg and arg.replace(w.root, ''), ' --recurse' if rec else '', tree, ', ' + via if via else '') + ' %s' % o
                    if path.startswith('ERR'):
                        if not r.rc:
                            viol.append(('%s is accepted: %r' % (what, r), repr(a)))
                        continue
                    want = lsref(t, path, rec, rx, sort, js)
                    if path and isinstance(t.get(path), bytes) and rx is not None and not re.search(rx, w.base.rstrip('/') + '/' + path):
                        want = []
                    out = r.out
                    if r.rc:
                        viol.append(('%s fails: %r' % (what, r), repr(a)))
                        continue
                    if js:
                        try:
                            got = list(json.loads(out, object_pairs_hook=lambda x: x))
                        except ValueError:
                            viol.append(('%s is not JSON: %r' % (what, out), repr(a)))
                            continue
                        exp = []
                        for nm, k in want:
                            v = t[k] if k is not None else None
                            if v is None:
                                d = [('type', 'path')]
                            elif isinstance(v, bytes):
                                d = [('type', 'file'), ('size', len(v)), ('time', M + len(v))]
                            elif v[0] == 'link':
                                d = [('type', 'link'), ('destination', v[1])]
                            else:
                                d = [('type', 'special')]
                            exp.append((nm, d))
                        if w.cloud:
                            # the time is that of the store
                            got = [(k, [(x, (M + dict(v)['size']) if x == 'time' and y else y) for x, y in v]) for k, v in got]
                    else:
                        got = out.split('\n')[:-1] if out else []
                        exp = [x for x, _ in want]
                    if sort == 'none':
                        got, exp = sorted(got, key=str), sorted(exp, key=str)
                    if got != exp and w.cloud and rx in PREFIX and got == [x for x in exp if (x[0] if js else x) == '.' or (x[0] if js else x).startswith(PREFIX[rx])]:
                        viol.append(('%s gives %s instead of %s' % (what, got, exp), repr(a), 'filter-prefix'))
                    elif got != exp:
                        viol.append(('%s gives %s instead of %s' % (what, got, exp), repr(a)))
                    if w.st and w.st.bad:
                        viol.append(('%s: request refused: %s' % (what, w.st.bad[0]), repr(a)))
                        w.st.bad = []
        if sum(len(v) == 2 for v in viol) > 3:
            break
    w.close()
    return dict(evals=ev, trans=ev, keys=ks, viol=[v for v in viol if len(v) == 2][:3] + [v for v in viol if len(v) == 3][:1])


def rm(a):
    _, idx, via, lo, n, th = a
    w = World(idx, via)
    viol, ks, ev = [], set(), 0
    for ti, tree in enumerate(trees()):
        if ti % n != lo:
            continue
        t = full(tree, w.cloud)
        for ai, (arg, path) in enumerate(args(t, w.base)):
            for rec in (0, 1):
                if not th and via and (ti + ai + rec) % 3:
                    continue
                if path and '/' in path and isinstance(t.get(path.split('/')[0]), (bytes, tuple)) and path not in t:
                    continue
                w.fill(tree)
                r = w.e.run('repo-rm', *([arg] if arg is not None else []), *(['--recurse'] if rec else []))
                ev += 1
                ks.add(core.h((via, ti, arg and arg.replace(w.root, ''), rec)))
                what = 'repo-rm %s%s of %s%s' % (arg and arg.replace(w.root, ''), ' --recurse' if rec else '', tree, ', ' + via if via else '')
                got = w.tree()
                want, err = dict(t), None
                if path.startswith('ERR'):
                    err = 'bad path'
                elif isinstance(t.get(path), bytes):
                    del want[path]
                elif not rec and any(k.startswith(path + '/') or not path for k in t):
                    err = 'not empty'
                else:
                    want = {k: v for k, v in t.items() if k != path and not k.startswith(path + '/') and path}
                if w.cloud:
                    want = full({k: v for k, v in want.items() if v is not None}, True)
                if err and not r.rc:
                    viol.append(('%s does not fail (%s): %r' % (what, err, r), repr(a)))
                elif not err and r.rc:
                    viol.append(('%s fails: %r' % (what, r), repr(a)))
                elif (got or {}) != want or not w.cloud and (got is None) != (path == '' and not err):
                    viol.append(('%s leaves %s instead of %s' % (what, got, want), repr(a)))
                if w.st and w.st.bad:
                    viol.append(('%s: request refused: %s' % (what, w.st.bad[0]), repr(a)))
                    w.st.bad = []
        if len(viol) > 3:
            break
    w.close()
    return dict(evals=ev, trans=ev, keys=ks, viol=viol[:3])


def raw(r):
    return r.raw if isinstance(r.raw, bytes) else r.out.encode()


def get(a):
    """contents of all sizes around the buffer limits"""
    _, idx, via, th = a
    w = World(idx, via)
    viol, ks, ev = [], set(), 0
    sizes = [0, 1, 2, 16383, 16384, 16385, 32768, 65535, 65536, 65537, 131072, 200001] + ([1048575, 1048576, 1048577, 3000000] if th or not via else [])
    tree = {'archive/demo/f%d' % s: bk.blob(('g', s), s) for s in sizes}
    tree['top'] = b'top'
    w.fill(tree)
    for k, v in sorted(tree.items()):
        for arg in (k, w.base.rstrip('/') + '/' + k, k + '/'):
            for o in ({}, {'raw': True}, {'ignore-missing': True}, {'stanza': 'other'}):
                bufs = ('16KiB', None, '1MiB') if not o or th else (None,)
                for b in bufs:
                    opt = dict(buffer_size=b) if b else {}
                    r = w.e.run('repo-get', arg, *['--' + x for x in o if x != 'stanza'], **opt, **(dict(stanza_opt=False) if 'stanza' in o else {}))
                    ev += 1
                    ks.add(core.h((via, k, arg[-5:], sorted(o), b)))
                    if r.rc or raw(r) != v:
                        viol.append(('repo-get %s %s %s%s gives %d bytes (%r) instead of %d' % (arg.replace(w.root, ''), o, b, ', ' + via if via else '', len(raw(r)), r if r.rc else '', len(v)), repr(a)))
    for arg, o, rc in (('zz', 0, 55), ('archive/demo/zz', 0, 55), ('zz', 1, 1), ('archive/zz/f', 1, 1), ('archive//demo', 1, 96), *((('/etc/x', 1, 96),) if w.base != '/' else ()), (None, 0, None)):
        r = w.e.run('repo-get', *([arg] if arg else []), *(['--ignore-missing'] if o else []))
        ev += 1
        ks.add(core.h((via, arg, o)))
        if (rc != r.rc if rc else r.rc == 0) or raw(r).strip() and rc == 1:
            viol.append(('repo-get %s%s%s ends with %r instead of %d' % (arg, ' --ignore-missing' if o else '', ', ' + via if via else '', r, rc), repr(a)))
    w.close()
    return dict(evals=ev, trans=ev, keys=ks, viol=viol[:3])


def dec(data, pw):
    p = subprocess.run(['openssl', 'enc', '-d', '-aes-256-cbc', '-md', 'sha1', '-pass', 'pass:' + pw], input=data, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return p.stdout if p.returncode == 0 else None


def key(text):
    m = re.search(rb'cipher-pass="([^"]+)"', text)
    return m.group(1).decode()


def enc(a):
    """every file of a real encrypted repository"""
    _, idx, via, opts, th = a
    w = World(idx, via, opts)
    e = w.e
    e.cluster({'base/1/%d' % i: (bk.blob(('s', i), 5000 + 30000 * i), pg.T0 - 5000) for i in range(3)})
    e.run('stanza-create', online=False, ok=True)
    for i in (2, 3):
        n = '00000001000000000000%04X' % 1 + '%08X' % i
        n = '0000000100000000%08X' % i
        pg.put(e.pg + '/pg_wal/' + n, pg.wal(fill=i))
        e.run('archive-push', e.pg + '/pg_wal/' + n, ok=True)
    pg.put(e.pg + '/pg_wal/00000002.history', b'1\t0/1000000\tx\n')
    e.run('archive-push', e.pg + '/pg_wal/00000002.history', ok=True)
    for t in ('full', 'diff', 'incr'):
        e.run('backup', type=t, online=False, ok=True)
        e.advance(2000)
        pg.put(e.pg + '/base/1/1', bk.blob(t, 9000), e.now() - 900)
    t = {k: v for k, v in w.tree().items() if isinstance(v, bytes)}
    viol, ks, ev = [], set(), 0
    main = opts['repo1_cipher_pass']
    ka = key(dec(t['archive/demo/archive.info'], main))
    km = key(dec(t['backup/demo/backup.info'], main))
    sets = {}
    for k in t:
        m = re.match(r'backup/demo/([0-9FDI_-]+)/backup.manifest$', k)
        if m:
            sets[m.group(1)] = key(dec(t[k], km))
    if len(set(sets.values()) | {ka, km, main}) < 4:
        viol.append(('passphrases are shared: %s' % sets, repr(a)))
    for k, v in sorted(t.items()):
        x = k.split('/')
        if re.search(r'/(archive|backup)\.info(\.copy)?$', k):
            pw = main
        elif x[0] == 'archive':
            pw = ka
        elif x[2] == 'backup.history' or re.search(r'/backup\.manifest(\.copy)?$', k):
            pw = km
        else:
            pw = sets[x[2]]
        plain = dec(v, pw)
        if plain is None and 'bundle' not in x and not k.endswith('.pgbi'):
            viol.append(('%s is not encrypted with the passphrase documented for it' % k, repr(a)))
            continue
        for o in ((), ('raw',), ('ignore-missing',)):
            for so in (True, False):
                for arg in (k, w.base.rstrip('/') + '/' + k):
                    if arg != k and (o or not so):
                        continue
                    if plain is None and 'raw' not in o:
                        continue
                    r = e.run('repo-get', arg, *['--' + y for y in o], **({} if so else dict(stanza_opt=False)))
                    ev += 1
                    ks.add(core.h((via, sorted(opts), k, o, so, arg == k)))
                    want = v if 'raw' in o else plain
                    if r.rc or raw(r) != want:
                        viol.append(('repo-get %s %s%s gives %d bytes (%r) instead of %d' % (arg.replace(w.root, ''), o, ', ' + via if via else '', len(raw(r)), r if r.rc else '', len(want)), repr(a)))
    # paths no passphrase belongs to
    for k in ('top', 'archive/x', 'other/demo/f'):
        if w.st:
            w.st.put(w.st.base + k, b'T')
        else:
            pg.put(w.e.repo(1) + '/' + k, b'T')
        r = e.run('repo-get', k)
        r2 = e.run('repo-get', k, '--raw')
        ev += 2
        ks.add(core.h((via, k)))
        if r.rc == 0 or raw(r2) != b'T' or r2.rc:
            viol.append(('repo-get %s of an encrypted repository gives %r, raw %r' % (k, r, r2), repr(a)))
    r = e.run('repo-get', 'archive/oth/archive.info')
    ev += 1
    if not r.rc:
        viol.append(('repo-get with the path of another stanza gives %r' % r, repr(a)))
    w.close()
    return dict(evals=ev, trans=ev, keys=ks, viol=viol[:3])


def multi(a):
    """two repositories: the one named"""
    _, idx, th = a
    root = core.scratch('m%d' % idx)
    e = pg.Env(root + '/w', repos=2)
    viol, ks, ev = [], set(), 0
    for n in (None, '1', '2'):
        for arg, rec in itertools.product((None, 'd', 'd/f', 'same'), (0, 1)):
            for i in (1, 2):
                pg.rmtree(e.repo(i))
                pg.put(e.repo(i) + '/d/f', b'%d' % i)
                pg.put(e.repo(i) + '/d/g%d' % i, b'g')
                pg.put(e.repo(i) + '/same', b's')
            o = dict(repo=n) if n else {}
            before = [pg.tree(e.repo(i)) for i in (1, 2)]
            r = e.run('repo-ls', *([arg] if arg else []), *(['--recurse'] if rec else []), **o)
            ev += 1
            ks.add(core.h((n, arg, rec)))
            k = int(n or 1)
            want = {None: ['d', 'd/f', 'd/g%d' % k, 'same'] if rec else ['d', 'same'], 'd': ['f', 'g%d' % k], 'd/f': ['.'], 'same': ['.']}[arg]
            if r.rc or r.out.split() != want:
                viol.append(('repo-ls %s --repo=%s gives %r instead of %s' % (arg, n, r, want), repr(a)))
            if arg and '/' in arg:
                r = e.run('repo-get', arg, **o)
                ev += 1
                if r.rc or raw(r) != b'%d' % k:
                    viol.append(('repo-get %s --repo=%s gives %r' % (arg, n, r), repr(a)))
            r = e.run('repo-rm', *([arg] if arg else []), *(['--recurse'] if rec else []), **o)
            ev += 1
            after = [pg.tree(e.repo(i)) if os.path.exists(e.repo(i)) else {} for i in (1, 2)]
            if after[2 - k] != before[2 - k]:
                viol.append(('repo-rm %s --repo=%s changes the other repository' % (arg, n), repr(a)))
            ok = rec or arg in ('d/f', 'same')
            if ok == bool(r.rc) or ok == (after[k - 1] == before[k - 1]):
                viol.append(('repo-rm %s%s --repo=%s: %r' % (arg, ' --recurse' if rec else '', n, r), repr(a)))
    pg.rmtree(root)
    return dict(evals=ev, trans=ev, keys=ks, viol=viol[:3])


def job(a):
    return globals()[a[0]](a)


VIAS = ('', 'remote', 's3', 'azure', 'gcs', 's3-remote')


def main():
    c = core.Check('P40', 'model_checking')
    core.build()
    th = c.thorough
    jobs = []
    for via in VIAS:
        n = (16 if not via or th else 8)
        for lo in range(n):
            jobs.append(('ls', len(jobs), via, lo, n, th))
        for lo in range(4):
            jobs.append(('rm', len(jobs), via, lo, 4, th))
        jobs.append(('get', len(jobs), via, th))
        for st in (('enc',), ('enc', 'block', 'gz'), ('enc', 'zst', 'bundle')) if th or not via else (('enc', 'lz4'),):
            jobs.append(('enc', len(jobs), via, bk.store(*st), th))
    jobs.append(('multi', len(jobs), th))
    for r in core.pmap(job, jobs):
        c.merge(r)
    c.rule = '80 small trees x every path argument (relative, absolute, with a trailing slash, missing, outside) x 12 filters x formats x sort orders x recursion (quick: a fixed part of the combinations) on six kinds of repository; removal of every path; contents around the buffer sizes; every file of encrypted repositories'
    c.assumptions = ['arguments name no link or special file and do not contain ..', 'the fake object stores stand for the real ones']
    c.finish()


if __name__ == '__main__':
    main()
