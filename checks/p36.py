#!/usr/bin/env python3
"""P36: info, annotations and labels tell the truth about the repository.

Every sequence of operations up to a depth is run with the real binary; after each one `info` (JSON and text, all repositories, one
repository, one set, filtered by type) is compared with what an independent scan of the repositories and the history of commands say."""
import sys, os, json, re, time, calendar
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pgb import core, pg, bk

TZS = [('UTC', 0), ('IST-5:30', 19800), ('EST5', -18000)]
KV = {'k1': [('a', '1'), ('b c', 'x=y "q" \\')], 'k2': [('a', 'two\u00e9'), ('z', 'w')], 'rm': [('a', '')], 'rmall': [('a', ''), ('b c', ''), ('z', ''), ('nn', '')], 'mix': [('a', ''), ('z', 'new')]}


class W:
    """a world: environment plus what the commands run so far should have led to"""

    def __init__(self, root, store=()):
        self.e = e = pg.Env(root, repos=2)
        o = bk.store(*store)
        o.update({k.replace('repo1', 'repo2'): v for k, v in o.items() if k.startswith('repo1')})
        e.conf(start_fast='y', repo1_retention_full='2', repo2_retention_full='9', **o)
        self.block = 'block' in store or 'blockbig' in store
        self.gz = bool(store)
        self.enc = 'enc' in store
        self.n = 0
        self.ann = {}
        self.wal = 1
        self.ids = {1: [], 2: []}
        self.gone = {1: '', 2: ''}
        self.size = {}
        self.meta = {}
        e.cluster({'base/1/%d' % i: bk.blob(i, 300 + i) for i in (10, 11, 12)})

    STATE = ('n', 'ann', 'wal', 'ids', 'gone', 'size', 'meta')

    def save(self, to):
        import copy
        for d in ('repo', 'repo2', 'pg'):
            pg.copytree(self.e.root + '/' + d, to + '/' + d)
        return (self.e.ctl.s.timeUs, self.e.sysid, self.e.ver, copy.deepcopy([getattr(self, x) for x in self.STATE]))

    def load(self, frm, st):
        import copy
        for d in ('repo', 'repo2', 'pg'):
            pg.copytree(frm + '/' + d, self.e.root + '/' + d)
        self.e.ctl.s.timeUs, self.e.sysid, self.e.ver = st[:3]
        for k, v in zip(self.STATE, copy.deepcopy(st[3])):
            setattr(self, k, v)

    # what an independent look at the repository finds
    def bdir(self, r):
        return self.e.repo(r) + '/backup/demo'

    def labels(self, r):
        d = self.bdir(r)
        if not os.path.isdir(d):
            return []
        return sorted(x for x in os.listdir(d) if re.match(r'^\d{8}-\d{6}F', x) and not os.path.islink(d + '/' + x) and os.path.exists(d + '/' + x + '/backup.manifest'))

    def physical(self, r, label):
        res = {}
        top = self.bdir(r) + '/' + label
        for d, _, fn in os.walk(top):
            for f in fn:
                if not f.startswith('backup.manifest'):
                    res[os.path.relpath(d + '/' + f, top)] = os.path.getsize(d + '/' + f)
        return res

    def pgsize(self):
        return {os.path.relpath(d + '/' + f, self.e.pg): os.path.getsize(d + '/' + f) for d, _, fn in os.walk(self.e.pg) for f in fn}

    def entry(self, r, label):
        m = self.meta[r, label]
        size = self.size[r, label]
        ph = self.physical(r, label)
        chain = []
        l = label
        while l:
            chain.append(l)
            l = self.meta[r, l]['prior']
        own, have = {}, {l: self.physical(r, l) for l in chain}
        ext = {(): ''}
        if not self.block:
            for f in size:
                for l in chain:
                    c = [p for p in have[l] if p == 'pg_data/' + f or p.startswith('pg_data/' + f + '.')]
                    if c:
                        own[f] = (l, have[l][c[0]])
                        break
        b = dict(label=label, type=m['type'], prior=m['prior'], archive=dict(start=None, stop=None), timestamp=dict(start=m['start'], stop=m['stop']),
                 database={'id': m['dbid'], 'repo-key': r}, error=False)
        b['backrest'] = dict(format=5)
        inf = dict(size=sum(size.values()))
        rep = dict(delta=sum(ph.values()))
        if not self.block:
            inf['delta'] = sum(size[f] for f in own if own[f][0] == label)
            rep['size'] = sum(v[1] for v in own.values())
            need = {v[0] for v in own.values()} - {label}
            b['reference'] = None
            if m['prior'] and not self.enc:
                b['reference'] = sorted(set(pg.info_ini(self.bdir(r) + '/' + label + '/backup.manifest')['backup']['backup-reference'].split(',')) - {label})
                if not need <= set(b['reference']) <= set(chain):
                    b['reference'] = sorted(need)
            elif m['prior']:
                del b['reference']
        inf['repository'] = rep
        b['info'] = inf
        if self.ann.get((r, label)):
            b['annotation'] = self.ann[r, label]
        return b

    def expect(self, repos):
        """expected JSON of the stanza over the given repositories"""
        arch, db, rp, st, per, cur = [], [], [], [], {}, None
        for r in repos:
            code, msg = 0, 'ok'
            if self.gone[r] == 'path':
                code, msg = 1, 'missing stanza path'
            elif self.gone[r] == 'data':
                code, msg = 3, 'missing stanza data'
            elif self.gone[r] == 'bad':
                code, msg = 99, None
            elif not self.labels(r):
                code, msg = 2, 'no valid backups'
            st.append(code)
            rp.append({'cipher': 'aes-256-cbc' if self.enc else 'none', 'key': r, 'status': dict(code=code, message=msg)})
            per[r] = []
            if code in (1, 3, 99):
                continue
            per[r] = [self.entry(r, l) for l in self.labels(r)]
            if cur is None:
                cur = self.ids[r][-1][1:]
            elif cur != self.ids[r][-1][1:]:
                st.append('mismatch')
            for i, (id, sysid, ver) in enumerate(self.ids[r]):
                db.append({'id': id, 'repo-key': r, 'system-id': sysid, 'version': ver})
                ad = self.e.repo(r) + '/archive/demo/%s-%d' % (ver, id)
                w = sorted(f[:24] for d, _, fn in os.walk(ad) for f in fn if re.match(r'^[0-9A-F]{24}-', f))
                if w or i == len(self.ids[r]) - 1:
                    arch.append({'database': {'id': id, 'repo-key': r}, 'id': '%s-%d' % (ver, id), 'min': w[0] if w else None, 'max': w[-1] if w else None})
        # merge by time of completion, keeping the order within a repository
        back = []
        idx = {r: 0 for r in repos}
        while any(idx[r] < len(per[r]) for r in repos):
            r = min((r for r in repos if idx[r] < len(per[r])), key=lambda r: (per[r][idx[r]]['timestamp']['stop'], r))
            back.append(per[r][idx[r]])
            idx[r] += 1
        codes = [x for x in st if x != 'mismatch']
        code = 5 if 'mismatch' in st else codes[0] if len(set(codes)) == 1 else 4
        return dict(name='demo', backup=back, archive=arch, db=db, repo=rp, code=code)

    # operations
    def op(self, o):
        e = self.e
        k = o[0]
        if k == 't':
            e.advance(o[1])
            return
        if k == 'b':
            r = o[2]
            before = {x: self.labels(x) for x in (1, 2)}
            self.n += 1
            # which backup this one should be based on
            cand = [l for l in before[r] if self.meta[r, l]['dbid'] == (self.ids[r][-1][0] if self.ids[r] else 0)]
            if o[1] == 'diff':
                cand = [l for l in cand if self.meta[r, l]['type'] == 'full']
            prior = cand[-1] if cand and o[1] != 'full' else None
            t0 = e.now()
            e.file('base/1/%d' % (10 + self.n % 3), bk.blob(self.n, 500 + 7 * self.n), t0 - 400 + self.n)
            x = e.run('backup', type=o[1], repo=str(r), online=False, **({'annotation': ['%s=%s' % kv for kv in KV[o[3]]]} if len(o) > 3 else {}))
            if x.rc:
                return 'backup failed: %r' % x
            new = [l for l in self.labels(r) if l not in before[r]]
            if len(new) != 1 or self.labels(3 - r) != before[3 - r]:
                return 'backup created %r' % new
            t1 = e.now()
            l = new[0]
            if l <= max(before[r] or ['']) and not prior:
                return 'label %s is not later than %s' % (l, before[r])
            if not self.enc:
                man = pg.info_ini(self.bdir(r) + '/' + l + '/backup.manifest')['backup']
                ts = (man['backup-timestamp-start'], man['backup-timestamp-stop'])
                if not t0 <= ts[0] <= ts[1] <= t1:
                    return 'manifest times %r are not within %d..%d' % (ts, t0, t1)
            else:
                j = [b for b in bk.info(e, repo=str(r))[0]['backup'] if b['label'] == l]
                ts = (j[0]['timestamp']['start'], j[0]['timestamp']['stop']) if j else (0, 0)
                if not t0 <= ts[0] <= ts[1] <= t1:
                    return 'reported times %r are not within %d..%d' % (ts, t0, t1)
            typ = o[1] if prior else 'full'
            if not re.match({'full': r'^\d{8}-\d{6}F$', 'diff': r'^\d{8}-\d{6}F_\d{8}-\d{6}D$', 'incr': r'^\d{8}-\d{6}F_\d{8}-\d{6}I$'}[typ], l):
                return 'label %s for a %s backup' % (l, typ)
            self.meta[r, l] = dict(type=typ, prior=prior, start=ts[0], stop=ts[1], dbid=self.ids[r][-1][0])
            self.size[r, l] = self.pgsize()
            self.ann[r, l] = {a: b for a, b in KV[o[3]] if b} if len(o) > 3 else {}
        elif k == 'a':
            allb = sorted({l for x in (1, 2) for l in self.labels(x)})
            if not allb:
                return
            l = {'first': allb[0], 'last': allb[-1], 'none': '20200101-000000F'}[o[1]]
            hit = [x for x in ((1, 2) if o[2] is None else (o[2],)) if l in self.labels(x)]
            x = e.run('annotate', set=l, annotation=['%s=%s' % kv for kv in KV[o[3]]], **({'repo': str(o[2])} if o[2] else {}))
            if (x.rc == 0) != bool(hit):
                # an unusable repository is an error even when the other one was annotated
                if not (x.rc and any(self.gone[y] for y in (1, 2) if o[2] in (None, y))):
                    return 'annotate %s: %r' % (l, x)
            for y in hit:
                for a, b in KV[o[3]]:
                    if b:
                        self.ann[y, l][a] = b
                    else:
                        self.ann[y, l].pop(a, None)
        elif k == 'x':
            ls = self.labels(o[1])
            if not ls:
                return
            l = ls[-1] if o[2] == 'last' else ls[0]
            e.run('expire', set=l, repo=str(o[1]))
        elif k == 'w':
            f = pg.walname(1, self.wal)
            pg.put(e.pg + '/pg_wal/' + f, pg.wal(e.ver, e.sysid, fill=self.wal))
            x = e.run('archive-push', e.pg + '/pg_wal/' + f)
            os.unlink(e.pg + '/pg_wal/' + f)
            self.wal += 1
        elif k == 'u':
            e.sysid += 1
            pg.put(e.pg + '/global/pg_control', pg.control(e.ver, e.sysid, seg=e.seg), pg.T0 - 9000)
            x = e.run('stanza-upgrade', online=False)
            if x.rc == 0:
                for y in (1, 2):
                    self.ids[y].append((self.ids[y][-1][0] + 1, e.sysid, e.ver))
            elif not any(self.gone.values()):
                return 'stanza-upgrade: %r' % x
        elif k == 'd':
            pg.rmtree(e.repo(o[1]) + '/backup/demo')
            pg.rmtree(e.repo(o[1]) + '/archive/demo')
            self.gone[o[1]] = 'path'
        elif k == 'i':
            for f in ('backup.info', 'backup.info.copy'):
                if os.path.exists(self.bdir(o[1]) + '/' + f):
                    os.unlink(self.bdir(o[1]) + '/' + f)
            self.gone[o[1]] = 'data'
        elif k == 'c':
            for f in ('backup.info', 'backup.info.copy'):
                p = self.bdir(o[1]) + '/' + f
                if os.path.exists(p):
                    b = bytearray(open(p, 'rb').read())
                    b[len(b) // 2] ^= 1
                    pg.put(p, bytes(b), mode=0o640)
            self.gone[o[1]] = 'bad'

    # comparison
    def check(self, deep=False):
        e = self.e
        bad = []
        for repos, opt in (((1, 2), {}), ((1,), {'repo': '1'}), ((2,), {'repo': '2'})):
            x = e.run('info', output='json', **opt)
            if x.rc:
                return ['info failed: %r' % x]
            try:
                j = json.loads(x.out)
            except ValueError:
                return ['info printed invalid JSON: %s' % x.out]
            ex = self.expect(repos)
            if len(j) != 1:
                return ['info lists %d stanzas' % len(j)]
            bad += compare(ex, j[0], 'info %r' % opt)
            if deep:
                x = e.run('info', **opt)
                bad += text(ex, x.out, 0, None, 'info text %r' % opt)
            if bad:
                return bad
        ex = self.expect((1, 2))
        tz, off = TZS[self.n % 3]
        x = e.run('info', env=dict(TZ=tz))
        bad += text(ex, x.out, off, None, 'info text TZ=%s' % tz)
        labels = sorted({b['label'] for b in ex['backup']})
        for t in ('full', 'diff', 'incr') if deep else ():
            j = bk.info(e, type=t)[0]
            if [(b['label'], b['database']['repo-key']) for b in j['backup']] != [(b['label'], b['database']['repo-key']) for b in ex['backup'] if b['type'] == t]:
                bad.append('info type=%s lists %r' % (t, [b['label'] for b in j['backup']]))
        for l in labels if deep else labels[-1:]:
            j = bk.info(e, set=l)[0]
            ex2 = dict(ex, backup=[b for b in ex['backup'] if b['label'] == l])
            bad += compare(ex2, j, 'info set=%s' % l)
            x = e.run('info', set=l)
            bad += text(ex2, x.out, 0, l, 'info text set=%s' % l)
        if not deep:
            return bad
        x = e.run('info', output='json', set='20200101-000000F')
        if x.rc or json.loads(x.out)[0]['backup']:
            bad.append('info of a missing set: %r' % x)
        elif not any(self.gone.values()) and json.loads(x.out)[0]['status']['code'] not in (6, 4):
            bad.append('info of a missing set has status %r' % json.loads(x.out)[0]['status'])
        return bad




def sub(ex, got, path):
    """everything in ex is in got with the same value"""
    if isinstance(ex, dict):
        if not isinstance(got, dict):
            return ['%s is %r' % (path, got)]
        return [m for k in ex for m in (sub(ex[k], got.get(k, '(absent)'), path + '.' + k))]
    if isinstance(ex, list):
        if not isinstance(got, list) or len(ex) != len(got):
            return ['%s is %r instead of %r' % (path, got, ex)]
        return [m for i, (a, b) in enumerate(zip(ex, got)) for m in sub(a, b, '%s[%d]' % (path, i))]
    return [] if ex == got and type(ex) == type(got) else ['%s is %r instead of %r' % (path, got, ex)]


def compare(ex, j, what):
    bad = []
    for k in ('db', 'archive'):
        bad += sub(sorted(ex[k], key=lambda d: (d.get('repo-key') or d['database']['repo-key'], d['id'] if k == 'db' else d['database']['id'])),
                   sorted(j[k], key=lambda d: (d.get('repo-key') or d['database']['repo-key'], d['id'] if k == 'db' else d['database']['id'])), k)
    if j['name'] != 'demo':
        bad.append('name is %r' % j['name'])
    if [(b['label'], b['database']['repo-key']) for b in ex['backup']] != [(b['label'], b['database']['repo-key']) for b in j['backup']]:
        bad.append('backups are %r instead of %r' % ([(b['label'], b['database']['repo-key']) for b in j['backup']], [(b['label'], b['database']['repo-key']) for b in ex['backup']]))
    else:
        for a, b in zip(ex['backup'], j['backup']):
            bad += sub(a, b, a['label'])
            if b.get('annotation', {}) != a.get('annotation', {}):
                bad.append('%s has annotations %r instead of %r' % (a['label'], b.get('annotation'), a.get('annotation')))
    for a, b in zip(ex['repo'], j['repo']):
        if a['status']['code'] != b['status']['code'] or (a['status']['message'] is not None and a['status']['message'] != b['status']['message']) or a['key'] != b['key'] or a['cipher'] != b['cipher']:
            bad.append('repository status is %r instead of %r' % (b, a))
    if len(ex['repo']) != len(j['repo']):
        bad.append('repositories are %r' % j['repo'])
    if j['status']['code'] != ex['code']:
        bad.append('status is %r instead of %r' % (j['status'], ex['code']))
    return ['%s: %s' % (what, m) for m in bad]


def size_of(s):
    m = re.match(r'^([\d.]+)(B|KB|MB)$', s)
    return float(m.group(1)) * {'B': 1, 'KB': 1024, 'MB': 1 << 20}[m.group(2)] if m else -1


def text(ex, out, off, label, what):
    """the text output says the same as the expected JSON"""
    bad = []
    tm = lambda t: time.strftime('%Y-%m-%d %H:%M:%S', time.gmtime(t + off)) + ('%+03d' % (abs(off) // 3600 * (1 if off >= 0 else -1))) + (':%02d' % (abs(off) // 60 % 60) if off % 3600 else '')
    lines = out.split('\n')
    if lines[0] != 'stanza: demo':
        bad.append('first line %r' % lines[0])
    want = {0: 'ok', 4: 'mixed'}.get(ex['code'], 'error (')
    if not (len(lines) > 1 and lines[1].strip().startswith('status: ' + want)):
        bad.append('status line %r, expected %s' % (lines[1:2], want))
    if ex['code'] == 4:
        for r in ex['repo']:
            if ('        repo%d: ok' % r['key'] in lines) != (r['status']['code'] == 0):
                bad.append('status of repo%d is wrong' % r['key'])
    # blocks of backups in the order shown, per database
    blocks, cur, dbs = [], None, []
    for ln in lines:
        m = re.match(r'^    db \((current|prior)\)', ln)
        if m:
            dbs.append([m.group(1), None, []])
            cur = None
        m = re.match(r'^        wal archive min/max \((.*)\): (.*)$', ln)
        if m and dbs:
            dbs[-1][1] = (m.group(1), m.group(2))
        m = re.match(r'^        (full|diff|incr) backup: (.*)$', ln)
        if m:
            cur = [m.group(1), m.group(2)]
            dbs[-1][2].append(cur)
        elif cur is not None and ln.startswith('            '):
            cur.append(ln[12:])
    # expected groups
    ident = {(d['repo-key'], d['id']): (d['system-id'], d['version']) for d in ex['db']}
    groups = {}
    order = []
    for d in ex['db']:
        k = (d['system-id'], d['version'])
        if k not in groups:
            groups[k] = dict(w=[], b=[])
            order.append(k)
    for a in ex['archive']:
        if a['min']:
            groups[ident[a['database']['repo-key'], a['database']['id']]]['w'] += [a['min'], a['max']]
    for b in ex['backup']:
        groups[ident[b['database']['repo-key'], b['database']['id']]]['b'].append(b)
    currents = {}
    for d in ex['db']:
        currents[d['repo-key']] = (d['system-id'], d['version'])
    current = currents[min(currents)] if currents else None
    exp = []
    for k in order:
        g = groups[k]
        if label and not g['b']:
            continue
        if k != current and (g['w'] or g['b']):
            exp.append(('prior', k, g))
    if current and (not label or groups[current]['b']):
        exp.append(('current', current, groups[current]))
    if label and not ex['backup']:
        exp = dbs and [] or exp
    if len(exp) != len(dbs):
        return ['%s: %d databases shown instead of %d\n%s' % (what, len(dbs), len(exp), out)]
    for (n, k, g), (gn, gw, gb) in zip(exp, dbs):
        if n != gn or gw is None or gw[0] != k[1] or gw[1] != ('%s/%s' % (min(g['w']), max(g['w'])) if g['w'] else 'none present'):
            bad.append('database shown as %s %r instead of %s %s %r' % (gn, gw, n, k, g['w']))
        if [(b['type'], b['label']) for b in g['b']] != [tuple(b[:2]) for b in gb]:
            bad.append('backups shown are %r instead of %r' % ([b[:2] for b in gb], [(b['type'], b['label']) for b in g['b']]))
            continue
        for b, t in zip(g['b'], gb):
            t = t[2:]
            need = ['timestamp start/stop: %s / %s' % (tm(b['timestamp']['start']), tm(b['timestamp']['stop'])), 'wal start/stop: n/a']
            if b.get('reference'):
                if label:
                    need.append('backup reference list: ' + ', '.join(b['reference']))
                else:
                    f = sum('_' not in x for x in b['reference'])
                    d = sum(x.endswith('D') for x in b['reference'])
                    i = sum(x.endswith('I') for x in b['reference'])
                    need.append('backup reference total: %d full%s%s' % (f, ', %d diff' % d if d else '', ', %d incr' % i if i else ''))
            ann = b.get('annotation') or {}
            if label and ann:
                need.append('annotation(s)')
                need += ['    %s: %s' % kv for kv in ann.items()]
            for s in need:
                if s not in t:
                    bad.append('%s: line "%s" missing in %r' % (b['label'], s, t))
            if not ann and any(s.startswith('annotation') for s in t):
                bad.append('%s shown with annotations' % b['label'])
            if any(s.startswith('error') for s in t):
                bad.append('%s shown with errors' % b['label'])
            m = [re.match(r'^database size: (\S+), database backup size: (\S+)$', s) for s in t]
            m = [x for x in m if x]
            m2 = [re.match(r'^repo(\d): (?:backup set size: (\S+), )?backup size: (\S+)$', s) for s in t]
            m2 = [x for x in m2 if x]
            if len(m) != 1 or len(m2) != 1:
                bad.append('%s: sizes missing in %r' % (b['label'], t))
                continue
            pairs = [(m[0].group(1), b['info']['size']), (m2[0].group(3), b['info']['repository']['delta'])]
            if 'delta' in b['info']:
                pairs += [(m[0].group(2), b['info']['delta']), (m2[0].group(2) or '', b['info']['repository']['size'])]
            if int(m2[0].group(1)) != b['database']['repo-key']:
                bad.append('%s shown in repo%s' % (b['label'], m2[0].group(1)))
            for s, v in pairs:
                if abs(size_of(s) - v) > 0.06 * v + 0.5:
                    bad.append('%s: size shown as %s for %d' % (b['label'], s, v))
    return ['%s: %s' % (what, m) for m in bad]


ALPHA = [('b', 'full', 1), ('b', 'full', 2, 'k1'), ('b', 'incr', 1, 'k2'), ('b', 'diff', 1), ('b', 'incr', 2), ('a', 'first', None, 'k1'), ('a', 'last', 2, 'k2'), ('a', 'last', None, 'mix'), ('a', 'first', 1, 'rm'),
         ('x', 1, 'last'), ('x', 2, 'first'), ('w',), ('u',), ('t', 3600)]
MORE = [('a', 'first', 2, 'rmall'), ('a', 'none', None, 'k1'), ('d', 2), ('c', 1), ('c', 2), ('i', 2), ('b', 'diff', 2), ('x', 1, 'first'), ('t', 1)]
TERM = ('d', 'c', 'i')
BASE = [('b', 'full', 1, 'k1'), ('b', 'full', 2), ('b', 'incr', 1)]


def init(root, store):
    w = W(root, store)
    w.e.run('stanza-create', online=False, ok=True)
    for r in (1, 2):
        w.ids[r].append((1, w.e.sysid, w.e.ver))
    return w


def hist(a):
    """all continuations of a prefix up to a depth"""
    _, idx, store, base, prefix, depth, alpha, deep = a
    root = core.scratch('h%d' % idx)
    w = init(root, store)
    viol, keys, ev, n = [], set(), 0, 0
    save = root + '.s'
    for o in base:
        m = w.op(o)
        if m:
            viol.append(('history %r: %s' % (base, m), repr((store, base))))

    def step(o, hist):
        nonlocal ev
        m = w.op(o)
        ev += 1
        bad = [m] if m else w.check(deep)
        keys.add(core.h(repr((w.ids, [w.labels(1), w.labels(2)], sorted(w.ann.items()), sorted(w.gone.items()), w.wal))))
        if bad:
            viol.append(('after %s: %s' % (' ; '.join(' '.join(map(str, z)) for z in hist), bad[0]), repr((store, base, hist))))
            return False
        return True

    def dfs(d, hist):
        if d == 0 or len(viol) > 3:
            return
        s = save + str(d)
        st = w.save(s)
        for o in alpha:
            if hist and hist[-1][0] in TERM and o[0] in TERM:
                continue
            if o[0] == 't' and (d == 1 or hist and hist[-1][0] == 't'):
                continue
            w.load(s, st)
            if any(w.gone.values()) and o[0] not in ('t', 'a'):
                continue
            h = hist + [o]
            if step(o, h):
                dfs(d - 1, h)
            if len(viol) > 3:
                break
        w.load(s, st)
        pg.rmtree(s)

    if w.check():
        viol.append(('after the base: %s' % w.check()[0], repr((store, base))))
    ok = not viol
    h = []
    for o in prefix:
        if ok:
            h.append(o)
            ok = step(o, list(h))
    if ok:
        dfs(depth, h)
    pg.rmtree(root)
    return dict(evals=ev, trans=ev * 10, keys=keys, viol=viol[:4])


# ---------------------------------------------------------------------------------------------------------------------- labels
DT = [0, 3600, -3600]
LOPS = ['full', 'incr', 'diff', 'xlast']
B0 = 1704067199         # 2023-12-31 23:59:59 UTC


def labels(a):
    _, idx, prefix, depth, dts = a
    root = core.scratch('l%d' % idx)
    e = pg.Env(root)
    e.conf(repo1_retention_full='9')
    e.ctl.s.timeUs = B0 * 1000000
    e.cluster({'base/1/10': b'x' * 10})
    e.run('stanza-create', online=False, ok=True)
    viol, keys, ev = [], set(), 0
    bd = e.repo() + '/backup/demo'
    lst = lambda: sorted(x for x in os.listdir(bd) if re.match(r'^\d{8}-', x) and os.path.exists(bd + '/' + x + '/backup.manifest'))
    fmt = lambda t: time.strftime('%Y%m%d-%H%M%S', time.gmtime(t))
    cnt = [0]

    def one(o, ever):
        op, dt = o
        e.advance(dt)
        ls = lst()
        if op == 'xlast':
            if ls:
                e.run('expire', set=ls[-1])
            return None, ever
        cnt[0] += 1
        e.file('base/1/10', b'x' * (11 + cnt[0]), B0 - 90000 + cnt[0])
        t0 = e.now()
        prior = None
        if op != 'full':
            c = [l for l in ls if op == 'incr' or '_' not in l]
            prior = c[-1] if c else None
        pre = prior[:16] + '_' if prior else ''
        suf = {'full': 'F', 'incr': 'I', 'diff': 'D'}[op] if prior else 'F'
        rel = [l for l in ever if l.startswith(pre)] if pre else list(ever)
        latest = max(rel) if rel else ''
        x = e.run('backup', type=op, online=False)
        t1 = e.now()
        new = [l for l in lst() if l not in ls]
        may = [pre + fmt(t) + suf for t in range(t0, max(t0 + 2, t1 + 2))]
        must = pre + fmt(t0) + suf > latest or pre + fmt(t0 + 1) + suf > latest
        if x.rc == 0:
            if len(new) != 1 or not set(ls) <= set(lst()):
                return 'backup created %r, backups are now %r, were %r' % (new, lst(), ls), ever
            l = new[0]
            if l in ever:
                return 'label %s was used before' % l, ever
            if latest and l <= latest:
                return 'label %s is not later than %s' % (l, latest), ever
            if l not in may:
                return 'label %s at %s' % (l, fmt(t0)), ever
            return None, ever | {l}
        if must:
            return 'backup failed though the clock (%s) is not behind %s: %r' % (fmt(t0), latest, x), ever
        if new or set(ls) != set(lst()):
            return 'failed backup changed the backups from %r to %r' % (ls, lst()), ever
        return None, ever

    def dfs(d, ever, hist):
        nonlocal ev
        if d == 0 or len(viol) > 3:
            return
        s = root + '.s%d' % d
        for x in ('repo', 'pg'):
            pg.copytree(root + '/' + x, s + '/' + x)
        t, c = e.ctl.s.timeUs, cnt[0]
        for o in [(p, q) for p in LOPS for q in dts]:
            for x in ('repo', 'pg'):
                pg.copytree(s + '/' + x, root + '/' + x)
            e.ctl.s.timeUs, cnt[0] = t, c
            m, e2 = one(o, ever)
            ev += 1
            keys.add(core.h((sorted(e2), lst(), e.now())))
            if m:
                viol.append(('labels after %r: %s' % (hist + [o], m), repr(hist + [o])))
                if len(viol) > 3:
                    break
            else:
                dfs(d - 1, e2, hist + [o])
        pg.rmtree(s)

    ever, ok = frozenset(), True
    for i, o in enumerate(prefix):
        m, ever = one(o, ever)
        ev += 1
        if m:
            viol.append(('labels after %r: %s' % (prefix[:i + 1], m), repr(prefix[:i + 1])))
            ok = False
            break
    if ok:
        dfs(depth, ever, list(prefix))
    pg.rmtree(root)
    return dict(evals=ev, trans=ev, keys=keys, viol=viol[:4])


def job(a):
    return {'hist': hist, 'lab': labels}[a[0]](a)


def main():
    c = core.Check('P36', 'exploration')
    core.build()
    deep = c.thorough
    jobs = []
    alpha = ALPHA + (MORE if deep else [])
    for o in ALPHA + MORE:
        jobs.append(('hist', len(jobs), (), BASE, [o], 0 if o[0] == 't' else 1, ALPHA + MORE, True))
    for o in alpha:
        if o[0] in TERM:
            continue
        for o2 in alpha:
            if o2[0] in TERM or o2[0] == o[0] == 't':
                continue
            jobs.append(('hist', len(jobs), (), BASE, [o, o2], 1 if not deep else 2, ALPHA, False))
    for st in (('gz',), ('block', 'zst'), ('enc',)):
        for o in ALPHA:
            jobs.append(('hist', len(jobs), st, BASE, [o], 1 if not deep else 2, ALPHA, False))
    for o in ALPHA:
        if o[0] in 'bwu':
            jobs.append(('hist', len(jobs), (), [], [o], 1 if not deep else 2, ALPHA + MORE, False))
    dts = DT if not deep else DT + [1, -1]
    lp = [(p, q) for p in LOPS for q in dts]
    for p in lp:
        for p2 in lp:
            jobs.append(('lab', len(jobs), [('full', 0), p, p2], 1 if not deep else 2, dts))
    for p in (('full', 0), ('incr', 0), ('diff', 0)):
        for p2 in (('full', 3600), ('incr', 3600), ('full', 0)):
            jobs.append(('lab', len(jobs), [('full', 0), p, p2, ('xlast', 0), ('xlast', 0)], 1 if not deep else 2, dts))
    for r in core.pmap(job, jobs):
        c.merge(r)
    c.rule = ('every sequence of %d operations (full/diff/incr to either repository with annotations, annotate set/change/remove on one or all repositories, expire of a set, WAL push, cluster upgrade, '
              'time step) after a base of 3 backups in 2 repositories, plus repository loss/damage, x plain/gz/block+zst/encrypted; after each step info JSON/text over all, one repository, by type, by set, in 3 time '
              'zones against an independent scan; labels: every sequence of %d (backup type or expire newest) x clock (still, forward, back) around a year boundary' % (3 if not deep else 4, 4 if not deep else 5))
    c.assumptions = ['offline backups (WAL range of online backups is in P10)', 'two repositories']
    c.finish()


if __name__ == '__main__':
    main()
