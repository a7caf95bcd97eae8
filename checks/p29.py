#!/usr/bin/env python3
"""P29: stanza create, upgrade and delete never lose or mix cluster identity.

Explicit-state exploration: breadth first over the states of a reference model; every transition is executed with the real binary from a
stored copy of the real files, and result and files are compared with the model."""
import sys, os, copy, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pgb import core, pg, bk

CL = {'A': ('16', 1000000000000000094), 'B': ('16', 1000000000000000095), 'C': ('17', 1000000000000000094)}
SEG = pg.walname(1, 7)
INFO = {'arch': 'archive/demo/archive.info', 'back': 'backup/demo/backup.info'}


def content(c):
    return pg.wal(CL[c][0], CL[c][1], fill=ord(c))


class World:
    def __init__(self, root, repos, enc=False):
        self.e = e = pg.Env(root, repos=repos)
        o = {}
        for r in range(1, repos + 1):
            o['repo%d_retention_full' % r] = '99'
            if enc:
                o['repo%d_cipher_type' % r] = 'aes-256-cbc'
                o['repo%d_cipher_pass' % r] = bk.PASS
        e.conf(compress_type='gz', compress_level='1', **o)
        self.enc = enc
        # another stanza whose name begins with this one's, never to be touched
        for i in range(1, repos + 1):
            for p in ('archive', 'backup'):
                pg.put('%s/%s/demo2/%s.info' % (e.repo(i), p, p), b'other stanza', mode=0o640)
                pg.put('%s/%s/dem/x' % (e.repo(i), p), b'other', mode=0o640)
        pg.put(root + '/lock/demo2.stop', b'')
        self.m = dict(cl='A', stop=False, pid=False, repo={r: None for r in range(1, repos + 1)})
        self.cluster('A')

    def cluster(self, c):
        e = self.e
        e.ver, e.sysid = CL[c]
        pg.rmtree(e.pg)
        e.cluster({'base/1/10': b'data of ' + c.encode()})
        if self.m['pid']:
            pg.put(e.pg + '/postmaster.pid', b'1\n')

    DIRS = ('repo', 'repo2', 'lock')

    def save(self, to):
        for d in self.DIRS:
            if os.path.isdir(self.e.root + '/' + d):
                shutil.copytree(self.e.root + '/' + d, to + '/' + d, symlinks=True)
        return (copy.deepcopy(self.m), self.e.ctl.s.timeUs)

    def load(self, frm, st):
        for d in self.DIRS:
            if os.path.isdir(frm + '/' + d):
                pg.rmtree(self.e.root + '/' + d)
                shutil.copytree(frm + '/' + d, self.e.root + '/' + d, symlinks=True)
        self.m = copy.deepcopy(st[0])
        self.e.ctl.s.timeUs = st[1]
        self.cluster(self.m['cl'])

    # ------------------------------------------------------------------------------------------------ observation
    def hist(self, r, kind, suf):
        p = self.e.repo(r) + '/' + INFO[kind] + suf
        if not os.path.exists(p):
            return None
        if self.enc:
            x = self.e.run('repo-get', INFO[kind] + suf, repo=str(r))
            if x.rc:
                return 'unreadable %r' % x
            ini = pg.parse_ini(x.out)
        else:
            ini = pg.info_ini(p)
        if 'db:history' not in ini:
            return 'no history'
        h = tuple(sorted((int(k), v['db-version'], v.get('db-id') if kind == 'arch' else v['db-system-id']) for k, v in ini['db:history'].items()))
        d = ini['db']
        cur = (d['db-id'], d['db-version'], d['db-system-id'])
        if cur != h[-1]:
            return 'current %r is not the last of %r' % (cur, h)
        return h

    def observe(self, r, old=()):
        top = self.e.repo(r)
        if not os.path.isdir(top + '/archive/demo') and not os.path.isdir(top + '/backup/demo'):
            return None
        o = {}
        for k in ('arch', 'back'):
            hs = {s: self.hist(r, k, s) for s in ('', '.copy')}
            o[k + 'f'] = tuple(s for s in ('', '.copy') if hs[s] is not None)
            vals = {v for v in hs.values() if v is not None}
            if old and len(vals) == 2 and hs['.copy'] in old:
                vals = {hs['']}          # the copy may be one update behind after a crash
            o[k] = vals.pop() if len(vals) == 1 else ('differ', hs) if vals else None
        ad = top + '/archive/demo'
        o['wal'] = tuple(sorted(x for x in (os.listdir(ad) if os.path.isdir(ad) else []) if os.path.isdir(ad + '/' + x) and any(f.startswith(SEG) for _, _, fn in os.walk(ad + '/' + x) for f in fn)))
        bd = top + '/backup/demo'
        o['bks'] = len([x for x in (os.listdir(bd) if os.path.isdir(bd) else []) if x[:1] == '2' and os.path.exists(bd + '/' + x + '/backup.manifest')])
        return o

    def others(self):
        e = self.e
        res = [pg.tree(e.repo(r) + '/' + p) for r in self.m['repo'] for p in ('archive/demo2', 'backup/demo2', 'archive/dem', 'backup/dem')]
        return res + [os.path.exists(e.root + '/lock/demo2.stop')]

    # ------------------------------------------------------------------------------------------------ model and execution
    def step(self, o):
        """run one operation; returns None or what is wrong, and leaves the model in the state after it"""
        e, m, k = self.e, self.m, o[0]
        repos = m['repo']
        ver, sysid = CL[m['cl']]
        oth = self.others()
        left = {r: self.leftover(r) for r in repos}
        new = copy.deepcopy(repos)
        ok = True
        alt = False              # both the old and the new state of a repository are fine
        rc = None
        if k == 'cl':
            m['cl'] = o[1]
            self.cluster(o[1])
            return None
        if k == 'pid':
            m['pid'] = not m['pid']
            self.cluster(m['cl'])
            return None
        if k == 'lose':
            for f in o[3]:
                p = e.repo(o[1]) + '/' + INFO[o[2]] + f
                if os.path.exists(p):
                    os.unlink(p)
            if repos[o[1]]:
                n = repos[o[1]]
                n[o[2] + 'f'] = tuple(x for x in n[o[2] + 'f'] if x not in o[3])
                if not n[o[2] + 'f']:
                    n[o[2]] = None
            return None
        if k == 'stop':
            x = e.run('stop')
            m['stop'] = True
        elif k == 'start':
            x = e.run('start')
            m['stop'] = False
        elif k == 'create':
            x = e.run('stanza-create', online=False)
            ok = not m['stop']
            for r in sorted(repos):
                n = new[r]
                if not ok:
                    break
                if n is None or not (n['archf'] or n['backf'] or n['wal'] or n['bks']) and not left[r]:
                    new[r] = dict(arch=((1, ver, sysid),), back=((1, ver, sysid),), archf=('', '.copy'), backf=('', '.copy'), wal=(), bks=0)
                elif n['archf'] and n['backf'] and n['arch'] == n['back'] and n['arch'][-1][1:] == (ver, sysid):
                    n['archf'] = n['backf'] = ('', '.copy')
                else:
                    ok = False
            alt = not ok and not m['stop']
        elif k == 'upgrade':
            x = e.run('stanza-upgrade', online=False)
            ok = not m['stop']
            for r in sorted(repos):
                n = new[r]
                if not ok:
                    break
                if n is None or not n['archf'] or not n['backf']:
                    ok = False
                    break
                for q in ('arch', 'back'):
                    if n[q][-1][1:] != (ver, sysid):
                        n[q] = n[q] + ((n[q][-1][0] + 1, ver, sysid),)
                        n[q + 'f'] = ('', '.copy')
            alt = not ok and not m['stop']
        elif k == 'delete':
            r, force = o[1], o[2]
            x = e.run('stanza-delete', repo=str(r), **({'force': True} if force else {}))
            n = repos[r]
            if n is None:
                pass
            else:
                full = n['archf'] or n['backf'] or n['wal'] or n['bks'] or left[r]
                ok = not full or (m['stop'] and (force or not m['pid']))
                if ok:
                    new[r] = None
                    m['stop'] = False
        elif k == 'push':
            pg.put(e.pg + '/pg_wal/' + SEG, content(m['cl']))
            x = e.run('archive-push', e.pg + '/pg_wal/' + SEG)
            ok = not m['stop']
            for r in repos:
                n = new[r]
                if n and n['arch'] and n['arch'][-1][1:] == (ver, sysid) and not m['stop']:
                    n['wal'] = tuple(sorted(set(n['wal']) | {'%s-%d' % (ver, n['arch'][-1][0])}))
                else:
                    ok = False
            alt = not ok
        elif k == 'get':
            dst = e.root + '/got'
            pg.rmtree(dst)
            x = e.run('archive-get', SEG, dst)
            have = known = False
            for r in repos:
                n = repos[r]
                for h in (n or {}).get('arch') or ():
                    if h[1:] == (ver, sysid):
                        known = True
                        have |= '%s-%d' % (ver, h[0]) in n['wal']
            if x.rc == 0:
                if not os.path.exists(dst) or open(dst, 'rb').read() != content(m['cl']):
                    return 'archive-get delivered a segment of another cluster'
                ok = have
            else:
                if os.path.exists(dst):
                    return 'archive-get failed but left the destination'
                ok = have
            if m['stop']:
                ok = x.rc == 0
        elif k == 'backup':
            r = o[1]
            n = new[r]
            e.advance(5)
            x = e.run('backup', type='full', online=False, repo=str(r))
            ok = bool(not m['stop'] and not m['pid'] and n and n['back'] and n['back'][-1][1:] == (ver, sysid))
            if ok and not n['archf']:
                ok = x.rc == 0
            elif ok and n['arch'] != n['back']:
                ok = x.rc == 0
            if ok or n and not n['archf'] and n['back'] and n['back'][-1][1:] == (ver, sysid) and not m['stop'] and not m['pid']:
                # information files are saved, with their copies, at the end; without archive.info the expire that follows fails
                n['bks'] += 1
                alt = not ok
                n['backf'] = ('', '.copy')
                if n['archf'] and 'archive.info' not in x.err:
                    n['archf'] = self.observe(r)['archf']
        if (x.rc == 0) != ok:
            return '%s was expected to %s: %r' % (' '.join(map(str, o)), 'succeed' if ok else 'be refused', x)
        for r in repos:
            got = self.observe(r)
            if got != new[r] and not ((alt or not ok) and got == repos[r]):
                return '%s (rc %d): repository %d is %r instead of %r' % (' '.join(map(str, o)), x.rc, r, got, new[r] if ok else repos[r])
            if alt and got != repos[r] and got != new[r]:
                return '%s failed and left repository %d as %r' % (' '.join(map(str, o)), r, got)
            if not ok and not alt and got != repos[r]:
                return 'refused %s changed repository %d from %r to %r' % (' '.join(map(str, o)), r, repos[r], got)
            new[r] = got
        m['repo'] = new
        if os.path.exists(e.root + '/lock/demo.stop') != m['stop']:
            return '%s: stop file %s' % (o, 'missing' if m['stop'] else 'present')
        if self.others() != oth:
            return '%s changed another stanza' % (o,)
        if k == 'backup' and ok:
            j = [b for s in bk.info(e, repo=str(o[1])) for b in s['backup']] if new[o[1]]['archf'] else []
            if j and j[-1]['database']['id'] != new[o[1]]['back'][-1][0]:
                return 'backup recorded for database %r' % j[-1]['database']
        return None

    def leftover(self, r):
        top = self.e.repo(r)
        return any(os.path.isdir(top + '/%s/demo' % p) and os.listdir(top + '/%s/demo' % p) for p in ('archive', 'backup'))

    def key(self):
        m = copy.deepcopy(self.m)
        for n in m['repo'].values():
            if n:
                n['bks'] = min(n['bks'], 1)
        return repr((m['cl'], m['stop'], m['pid'], sorted((r, sorted((n or {}).items())) for r, n in m['repo'].items()), [self.leftover(r) for r in m['repo']]))


def alphabet(repos, deep):
    a = [('create',), ('upgrade',), ('push',), ('get',), ('stop',), ('start',), ('pid',), ('cl', 'A'), ('cl', 'B'), ('cl', 'C')]
    for r in range(1, repos + 1):
        a += [('delete', r, 0), ('delete', r, 1), ('backup', r)]
    r = repos
    a += [('lose', r, k, s) for k in ('arch', 'back') for s in (('',), ('.copy',), ('', '.copy'))]
    return a


def expand(a):
    """all transitions of one stored state"""
    top, repos, enc, sid, frm, st, alpha, prefix, sub = a
    root = core.scratch('w' + sub)
    pg.rmtree(root)
    w = World(root, repos, enc)
    if frm is None:
        st = w.save(top + '/s0')
        frm = top + '/s0'
    viol, ev, out = [], 0, []
    seen = set()
    for o in alpha:
        w.load(frm, st)
        if o[0] == 'start' and not w.m['stop'] or o[0] == 'stop' and w.m['stop'] or o == ('cl', w.m['cl']):
            continue
        if o[0] == 'backup' and (w.m['repo'][o[1]] or {}).get('bks', 0) > 1:
            continue
        if o[0] == 'upgrade' and any(n and n['back'] and len(n['back']) > 3 for n in w.m['repo'].values()):
            continue
        try:
            bad = w.step(o)
        except pg.Unexpected as ex:
            bad = str(ex)
        ev += 1
        if bad:
            viol.append(('after %s: %s' % (' ; '.join(' '.join(map(str, x)) for x in prefix + [o]), bad), repr((repos, enc, prefix + [o]))))
            continue
        k = core.h(w.key())
        if k in seen:
            continue
        seen.add(k)
        to = '%s/s%s' % (top, k)
        try:
            os.mkdir(to)
            out.append((k, to, w.save(to), prefix + [o]))
        except FileExistsError:
            out.append((k, None, None, None))
    pg.rmtree(root)
    return dict(evals=ev, trans=ev, keys=set(seen), viol=viol[:3], extra=out)


def crash(a):
    """crash in every create, upgrade and delete of some histories, then repeat"""
    top, repos, enc, pre, op, chunk, sub = a
    root = core.scratch('c' + sub)
    w = World(root, repos, enc)
    viol, keys, ev = [], set(), 0
    for o in pre:
        bad = w.step(o)
        if bad:
            return dict(evals=1, trans=1, keys=set(), viol=[('%r: %s' % (pre, bad), repr((pre, o)))])
    m0 = copy.deepcopy(w.m)
    oth = w.others()
    cmd, opt = {'create': ('stanza-create', dict(online=False)), 'upgrade': ('stanza-upgrade', dict(online=False)),
                'delete': ('stanza-delete', dict(repo='1'))}[op[0]]
    run = lambda e, log: e.run(cmd, log=log, **opt)
    for st in bk.crashes(w.e, run, root + '.log', chunk=chunk):
        if st[0] == 'result':
            continue
        what, e2, key = st
        w2 = copy.copy(w)
        w2.e = e2
        w2.m = copy.deepcopy(m0)
        ev += 1
        keys.add(key)
        shutil.rmtree(e2.root + '/lock', ignore_errors=True)
        shutil.copytree(root + '/lock', e2.root + '/lock')
        if m0['stop']:
            pg.put(e2.root + '/lock/demo.stop', b'')
        if w2.others()[:-1] != oth[:-1]:
            viol.append(('%s: %s changed another stanza' % (op, what), repr((pre, op, what))))
            continue
        # no information file says anything but before or after
        ver, sysid = CL[m0['cl']]
        for r in m0['repo']:
            for k in ('arch', 'back'):
                for s in ('', '.copy'):
                    h = w2.hist(r, k, s)
                    old = m0['repo'][r][k] if m0['repo'][r] else None
                    aft = old if op[0] == 'delete' else ((old or ()) + (((old[-1][0] + 1) if old else 1, ver, sysid),)) if not old or old[-1][1:] != (ver, sysid) else old
                    if h not in (None, old, aft):
                        viol.append(('%s: %s leaves %s%s with history %r' % (op, what, INFO[k], s, h), repr((pre, op, what))))
        x = e2.run(cmd, **opt)
        if op[0] == 'delete':
            good = x.rc == 0 and w2.observe(1) is None
        elif op[0] == 'upgrade':
            o2 = [w2.observe(r, [m0['repo'][r]['arch']]) for r in m0['repo']]
            good = x.rc == 0 and all(q['arch'] == q['back'] == m0['repo'][1]['back'] + ((m0['repo'][1]['back'][-1][0] + 1, ver, sysid),) for q in o2)
        else:
            o2 = [w2.observe(r) for r in m0['repo']]
            good = x.rc in (40, 55) or x.rc == 0 and all(q['arch'] == q['back'] == ((1, ver, sysid),) for q in o2)
        if not good:
            viol.append(('%s: %s, repeated: %r, repositories %r' % (op, what, x, [w2.observe(r) for r in m0['repo']]), repr((pre, op, what))))
        pg.rmtree(e2.root)
    pg.rmtree(root)
    return dict(evals=ev, trans=ev * 2, keys=keys, viol=viol[:3])


def long(a):
    """many upgrades: identities keep their numbers past 9"""
    top, enc, repos, sub = a
    root = core.scratch('l' + sub)
    w = World(root, repos, enc)
    viol, ev, keys = [], 0, set()
    seq = [('create',), ('push',), ('backup', 1)]
    for i in range(13):
        seq += [('cl', 'BCA'[i % 3]), ('get',), ('push',), ('backup', 1), ('upgrade',), ('create',), ('push',), ('get',), ('backup', 1)]
        if repos == 2 and i in (0, 8, 9):
            # the second repository starts over, so that the same cluster has another number there
            seq += [('stop',), ('delete', 2, 0), ('create',), ('push',), ('get',), ('backup', 2)]
    for i, o in enumerate(seq):
        bad = w.step(o)
        ev += 1
        keys.add(core.h(w.key()))
        if bad:
            viol.append(('long history: %s' % bad, repr(seq[:i + 1])))
            break
    pg.rmtree(root)
    return dict(evals=ev, trans=ev, keys=keys, viol=viol)


def job(a):
    return {'x': expand, 'c': crash, 'l': long}[a[0]](a[1:])


def main():
    c = core.Check('P29', 'model_checking')
    core.build()
    deep = c.thorough
    top = core.scratch('states')
    os.makedirs(top, exist_ok=True)
    os.chmod(top, 0o777)
    confs = [(1, False, 6 if not deep else 10), (2, False, 4 if not deep else 8)] + ([(1, True, 4)] if deep else [])
    for ci, (repos, enc, depth) in enumerate(confs):
        d = '%s/%d' % (top, ci)
        os.makedirs(d)
        os.chmod(d, 0o777)
        alpha = alphabet(repos, deep)
        frontier = [('0', None, None, [])]
        done = set()
        for lev in range(depth):
            jobs = [('x', d, repos, enc, f[0], f[1], f[2], alpha, f[3], '%d_%d_%d' % (ci, lev, i)) for i, f in enumerate(frontier)]
            c.phase('%d repositories level %d: %d states' % (repos, lev, len(frontier)))
            nxt = {}
            for r in core.pmap(job, jobs):
                for k, to, st, pre in r.pop('extra', ()):
                    if to and k not in done:
                        done.add(k)
                        nxt[k] = (k, to, st, pre)
                c.merge(r)
            for f in frontier:
                if f[1]:
                    pg.rmtree(f[1] + '/repo')
                    pg.rmtree(f[1] + '/repo2')
            frontier = list(nxt.values())
            if not frontier or c.viol:
                break
    jobs = []
    for enc in (False, True):
        for repos in (1, 2):
            n = 4
            for i in range(n):
                for pre, op in (([], ('create',)), ([('create',), ('push',), ('backup', 1), ('cl', 'B')], ('upgrade',)), ([('create',), ('push',), ('backup', 1), ('stop',)], ('delete',))):
                    jobs.append(('c', top, repos, enc, pre, op, (i, n), '%d' % len(jobs)))
        for repos in (1, 2):
            jobs.append(('l', top, enc, repos, '%d' % len(jobs)))
    for r in core.pmap(job, jobs):
        c.merge(r)
    pg.rmtree(top)
    c.rule = ('breadth first over model states (cluster identity, stop, running, per repository info files, histories, stored WAL, backups): every transition create/upgrade/delete/force/push/get/backup/stop/start/'
              'cluster replaced by 3 identities/info file loss executed on the real binary, to depth %d (1 repository) and %d (2 repositories); every crash point of create, upgrade, delete followed by a repeat; 13 upgrades in a row'
              % (6 if not deep else 10, 4 if not deep else 8))
    c.assumptions = ['offline stanza commands; 3 identities (other system id, other version)']
    c.finish()


if __name__ == '__main__':
    main()
