#!/usr/bin/env python3
"""P17: expire against an independent model of the documented retention rules, over all backup histories up to a length x settings."""
import itertools, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pgb import core, pg, bk

DAY = 86400
PERLOG = 4096


class B:
    """one backup of a history"""
    pass


def label_time(t):
    return time.strftime('%Y%m%d-%H%M%S', time.gmtime(t))


def history(types, upgrade=None, offline=(), tlswitch=None, t0=pg.T0, base=None, step=4, day=DAY):
    """list of backups with labels, dependencies, WAL ranges; upgrade: index from which the second cluster is used; tlswitch: index from
    which timeline 2 is used"""
    L = len(types)
    base = PERLOG - 2 * L if base is None else base
    res = []
    for i, ty in enumerate(types):
        b = B()
        b.i = i
        b.type = ty
        b.pgid = 2 if upgrade is not None and i >= upgrade else 1
        b.start_t = t0 + i * day - 60
        b.stop_t = t0 + i * day
        same = [x for x in res if x.pgid == b.pgid]
        if ty == 'F':
            b.label = label_time(b.start_t) + 'F'
            b.prior = None
        else:
            full = [x for x in same if x.type == 'F'][-1]
            b.prior = full if ty == 'D' else same[-1]
            b.label = full.label + '_' + label_time(b.start_t) + ty
        b.tli = 2 if tlswitch is not None and i >= tlswitch else 1
        n = base + step * i + 1
        b.online = i not in offline
        b.wal = (pg.walname(b.tli, n), pg.walname(b.tli, n + 1)) if b.online else None
        res.append(b)
    return res


def valid(types, upgrade):
    if types[0] != 'F':
        return False
    return upgrade is None or types[upgrade] == 'F'


def refs(b):
    r = []
    while b.prior is not None:
        b = b.prior
        r.append(b)
    return r


# ---- the reference: what the documentation promises -------------------------------------------------------------------------------
def expire_set(kept, gone):
    """gone and everything depending on it"""
    out = set(gone)
    for b in kept:
        if any(r in out for r in refs(b)):
            out.add(b)
    return [b for b in kept if b not in out]


def policy(hist, o, now):
    """backups kept and the archive retention in force (type, count or None)"""
    kept = list(hist)
    full, diff = o.get('full'), o.get('diff')
    at, an = o.get('atype', 'full'), o.get('arch')
    ftype = o.get('ftype', 'count')
    if an is None:
        if at == 'full' and ftype == 'count':
            an = full
        elif at == 'diff':
            an = diff
    nf = len([b for b in kept if b.type == 'F'])
    if o.get('oldest') and nf > 1:
        ftype, full, at, an = 'count', nf - 1, 'full', nf - 1
    if 'set' in o:
        b = hist[o['set']]
        fulls = [x for x in kept if x.type == 'F']
        if b is fulls[-1] and (len(fulls) == 1 or fulls[-2].pgid != b.pgid):
            return None
        kept = expire_set(kept, [b])
        return kept, at, an
    if full is not None:
        fulls = [b for b in kept if b.type == 'F']
        if ftype == 'count':
            kept = expire_set(kept, fulls[:max(0, len(fulls) - full)])
        else:
            old = [b for b in fulls if b.stop_t < now - full * DAY]
            if old:
                kept = expire_set(kept, [b for b in fulls if b.i < old[-1].i])
                if an is None and at == 'full':
                    an = len([b for b in kept if b.type == 'F'])
    if diff is not None:
        fd = [b for b in kept if b.type in 'FD']
        kept = expire_set(kept, [b for b in fd[:max(0, len(fd) - diff)] if b.type == 'D'])
    return kept, at, an


def archive_policy(kept, at, an, files, cur, before=None):
    """files: {(pgid, name)}: those kept"""
    if an is None:
        return set(files)
    pick = {'full': 'F', 'diff': 'FD', 'incr': 'FDI'}[at]
    lst = [b for b in kept if b.type in pick]
    if before is None and (not lst or an > len(lst)):
        return set(files)
    newest = lst[-an:]
    out = set()
    for pid in sorted({p for p, n in files}):
        mine = [f for f in files if f[0] == pid]
        local = [b for b in lst if b.pgid == pid]
        if not local:
            if pid == cur:
                out.update(f for f in mine if before is None or f[1].endswith('.history') or f[1][:24] >= before)
            continue
        sel = [b for b in newest if b.pgid == pid] or [local[-1]]
        rb = sel[0]
        if rb.wal is None:
            out.update(mine)
            continue
        rng = [(b.wal[0], b.wal[1]) for b in kept if b.pgid == pid and b.wal and b.i < rb.i]
        for f in mine:
            n = f[1]
            if n.endswith('.history'):
                keep = n[:8] >= rb.wal[0][:8]
            else:
                s = n[:24]
                keep = s >= rb.wal[0] or any(a <= s <= z for a, z in rng) or (before is not None and s >= before)
            if keep:
                out.add(f)
    return out


def history_policy(hist, kept, days, now):
    """labels whose history manifest is kept"""
    if days is None:
        return {b.label for b in hist}
    lim = label_time(now - days * DAY) + 'F'
    return {b.label for b in hist if b in kept or b.label >= lim}


# ---- building a repository -------------------------------------------------------------------------------------------------------
def db_section(upgrade):
    hist = [('1', {'db-catalog-version': 202307071, 'db-control-version': 1300, 'db-system-id': 1000000000000000094, 'db-version': '16'})]
    if upgrade:
        hist.append(('2', {'db-catalog-version': 202406281, 'db-control-version': 1700, 'db-system-id': 1000000000000000095, 'db-version': '17'}))
    cur = hist[-1][1]
    return hist, cur, len(hist)


AID = {1: '16-1', 2: '17-2'}


def resumable(hist, resume):
    if resume is True:
        return label_time(hist[-1].start_t + 7200) + 'F', None
    ty, i = resume
    full = hist[i]
    while full.prior is not None:
        full = full.prior
    return full.label + '_' + label_time(hist[-1].start_t + 7200) + ty, hist[i]


def make(repo, stanza, hist, upgrade, version, extra=None, resume=False, orphan=False):
    """write a repository with exactly this history; returns the set of archive files {(pgid, name)}"""
    h, cur, cid = db_section(upgrade)
    backrest = ('backrest', [('backrest-format', 5), ('backrest-version', version)])
    bdb = ('db', [(k, v) for k, v in cur.items()] + [('db-id', cid)])
    rows = []
    for b in hist:
        d = {'backrest-format': 5, 'backrest-version': version, 'backup-info-repo-size': 100, 'backup-info-repo-size-delta': 100,
             'backup-info-size': 100, 'backup-info-size-delta': 100, 'backup-timestamp-start': b.start_t, 'backup-timestamp-stop': b.stop_t,
             'backup-type': {'F': 'full', 'D': 'diff', 'I': 'incr'}[b.type], 'db-id': b.pgid, 'option-archive-check': True,
             'option-archive-copy': False, 'option-backup-standby': False, 'option-checksum-page': False, 'option-compress': False,
             'option-hardlink': False, 'option-online': b.online, 'backup-error': False}
        if b.wal:
            d.update({'backup-archive-start': b.wal[0], 'backup-archive-stop': b.wal[1], 'backup-lsn-start': '0/1', 'backup-lsn-stop': '0/2'})
        if b.prior:
            d.update({'backup-prior': b.prior.label, 'backup-reference': sorted(r.label for r in refs(b))})
        rows.append((b.label, d))
    bd = repo + '/backup/' + stanza
    ad = repo + '/archive/' + stanza
    sec = [backrest, bdb, ('db:history', h)]
    if rows:
        sec.append(('backup:current', rows))
    os.makedirs(bd)
    bk.info_write(bd + '/backup.info', sec)
    bk.info_write(ad + '/archive.info', [backrest, ('db', [('db-id', cid), ('db-system-id', cur['db-system-id']), ('db-version', cur['db-version'])]),
                                         ('db:history', [(k, {'db-id': v['db-system-id'], 'db-version': v['db-version']}) for k, v in h])])
    for b in hist:
        os.makedirs(bd + '/' + b.label + '/pg_data')
        for f in ('backup.manifest', 'backup.manifest.copy', 'pg_data/PG_VERSION'):
            open(bd + '/' + b.label + '/' + f, 'w').close()
        y = bd + '/backup.history/' + b.label[:4]
        os.makedirs(y, exist_ok=True)
        open(y + '/' + b.label + '.manifest.gz', 'w').close()
    if hist:
        os.symlink(hist[-1].label, bd + '/latest')
    if resume:
        # an interrupted backup: complete in itself or depending on one of the history
        lab, prior = resumable(hist, resume)
        d = bd + '/' + lab
        os.makedirs(d)
        m = {k: dict(v) for k, v in MAN.items()}
        m['backup']['backup-label'] = lab
        m['backup']['backup-type'] = {'F': 'full', 'D': 'diff', 'I': 'incr'}[lab[-1]]
        m['backup']['backup-reference'] = ','.join([r.label for r in reversed(refs(prior))] + [prior.label] if prior else []) + (',' if prior else '') + lab
        if prior:
            m['backup']['backup-prior'] = prior.label
        bk.info_write(d + '/backup.manifest', [(k, list(v.items())) for k, v in m.items()])
        if os.path.exists(d + '/backup.manifest'):
            os.unlink(d + '/backup.manifest')
    if orphan:
        d = bd + '/' + label_time(hist[0].start_t - 7200) + 'F'
        os.makedirs(d)
        open(d + '/backup.manifest.copy', 'w').close()
    files = set()
    # every segment from before the first backup to after the last, on each timeline and cluster that was active
    lo = min(int(b.wal[0][8:16], 16) * PERLOG + int(b.wal[0][16:], 16) for b in hist if b.wal) - 2
    last = None
    n = lo
    for b in hist + [None]:
        if b is not None and not b.wal:
            continue
        end = n + 4 if b is None else int(b.wal[1][8:16], 16) * PERLOG + int(b.wal[1][16:], 16) + 1
        who = b or last
        if last is not None and (who.pgid, who.tli) != (last.pgid, last.tli):
            if who.tli != last.tli:
                files.add((who.pgid, '%08X.history' % who.tli))
            files.add((last.pgid, pg.walname(last.tli, n) + '.partial-' + 'a' * 40))
        for k in range(n, end):
            s = pg.walname(who.tli, k)
            files.add((who.pgid, s + '-' + 'b' * 40 + ('.gz' if k & 1 else '')))
        if b is not None:
            files.add((b.pgid, b.wal[0] + '.00000028.backup'))
            last = b
        n = end
    # a cluster the stanza was upgraded from long ago, without backups, and the present one
    for pid in {b.pgid for b in hist} | {1, cid}:
        files.add((pid, pg.walname(1, lo - 1) + '-' + 'c' * 40))
    for pid, nm in files:
        d = ad + '/' + AID[pid] + ('' if nm.endswith('.history') else '/' + nm[:16])
        if not os.path.isdir(d):
            os.makedirs(d)
        open(d + '/' + nm, 'w').close()
    return files


def scan(repo, stanza):
    arch, backs, hist = set(), set(), set()
    ad, bd = repo + '/archive/' + stanza, repo + '/backup/' + stanza
    inv = {v: k for k, v in AID.items()}
    for aid in os.listdir(ad):
        if aid in inv:
            for d, dn, fn in os.walk(ad + '/' + aid):
                for f in fn:
                    arch.add((inv[aid], f))
    for n in os.listdir(bd):
        if n == 'backup.history':
            for d, dn, fn in os.walk(bd + '/' + n):
                hist.update(f.split('.')[0] for f in fn)
        elif n[0].isdigit():
            backs.add(n)
    return arch, backs, hist


OPT = {'full': 'retention-full', 'diff': 'retention-diff', 'arch': 'retention-archive', 'atype': 'retention-archive-type', 'ftype': 'retention-full-type',
       'hist': 'retention-history'}


def judge(root, e, hist, o, upgrade, now, files, desc, viol, repo=1, resume=False, orphan=False, before=None):
    """compare the repository on disk with the reference"""
    pol = policy(hist, o, now)
    want_b = pol[0]
    cur = 2 if upgrade is not None else 1
    wa = archive_policy(want_b, pol[1], pol[2], files, cur, before)
    wh = history_policy(hist, want_b, o.get('hist'), now)
    arch, backs, hs = scan(e.repo(repo), 'demo')
    labels = {b.label for b in want_b}
    exp = set(labels)
    if resume:
        # it stays, unless the user asks for backups to be expired by name and what it depends on goes
        lab, prior = resumable(hist, resume)
        if not ('set' in o and prior is not None and prior not in want_b):
            # only the newest directory can be one that is resumed
            if max([lab] + [b.label for b in hist]) == lab:
                exp.add(lab)
    if backs != exp:
        viol.append(('%s: backups on disk: missing %r, left over %r' % (desc, sorted(exp - backs), sorted(backs - exp)), ''))
    listed = list(pg.info_ini(e.repo(repo) + '/backup/demo/backup.info').get('backup:current', {}))
    if set(listed) != labels:
        viol.append(('%s: backup.info lists %r, expected %r' % (desc, sorted(listed), sorted(labels)), ''))
    if arch != wa:
        viol.append(('%s: archive: removed though needed %r, left over %r' % (desc, sorted(wa - arch)[:6], sorted(arch - wa)[:6]), ''))
    if hs != wh:
        viol.append(('%s: backup history: removed though needed %r, left over %r' % (desc, sorted(wh - hs)[:6], sorted(hs - wh)[:6]), ''))
    for l in labels & backs:
        if sorted(os.listdir(e.repo(repo) + '/backup/demo/' + l)) != ['backup.manifest', 'backup.manifest.copy', 'pg_data']:
            viol.append(('%s: files of the kept backup %s were removed' % (desc, l), ''))
    lk = e.repo(repo) + '/backup/demo/latest'
    if not os.path.islink(lk) or os.readlink(lk) not in labels or os.readlink(lk) != max(labels):
        viol.append(('%s: link to the latest backup is %r' % (desc, os.path.islink(lk) and os.readlink(lk)), ''))


MAN = None


def reset(e, repos=1):
    for i in range(repos):
        pg.rmtree(e.repo(i + 1))
        os.makedirs(e.repo(i + 1))


def cmdopts(o, repo=1):
    d = {'repo%d-%s' % (repo, OPT[k]): str(v) for k, v in o.items() if k in OPT and v is not None}
    return d


def single(arg):
    """chunk of (types, upgrade, offline, tlswitch, options, flags)"""
    idx, version, cases = arg
    root = core.scratch('s%d' % idx)
    viol, keys, n = [], set(), 0
    e = pg.Env(root + '/w')
    e.conf(log_level_console='off')
    for types, upgrade, offline, tls, o, flags in cases:
        t0 = flags.get('t0', pg.T0)
        hist = history(types, upgrade, offline, tls, t0=t0)
        now = hist[-1].stop_t + flags.get('after', 0)
        if 'before' in o:
            w = hist[o['before'][0]].wal
            num = int(w[0][8:16], 16) * PERLOG + int(w[0][16:], 16) + o['before'][1]
            before = pg.walname(int(w[0][:8], 16), num)
        else:
            before = None
        reset(e)
        files = make(e.repo(), 'demo', hist, upgrade is not None, version, resume=flags.get('resume'), orphan=flags.get('orphan'))
        pol = policy(hist, o, now)
        e.ctl.s.timeUs = now * 1000000
        kw = cmdopts(o)
        if 'set' in o:
            kw['set'] = hist[o['set']].label
        if o.get('oldest'):
            kw['oldest'] = True
        if before:
            kw['archive-expire-before'] = before
        desc = 'history %s%s%s%s options %r%s' % (types, ' upgrade@%d' % upgrade if upgrade is not None else '', ' offline %r' % (offline,) if offline else '',
                                                  ' timeline@%d' % tls if tls is not None else '', o, ' %r' % flags if flags else '')
        pre = scan(e.repo(), 'demo') if pol is None or flags.get('dry') else None
        r = e.run('expire', **dict(kw, **({'dry-run': True} if flags.get('dry') else {})))
        n += 1
        keys.add(core.h((types, upgrade, offline, tls, sorted(o.items()), sorted(flags.items()))))
        if pol is None:
            if r.rc == 0 or scan(e.repo(), 'demo') != pre:
                viol.append(('%s: expiring the last full backup: rc=%d, changed=%r' % (desc, r.rc, scan(e.repo(), 'demo') != pre), repr(r)))
            continue
        if r.rc:
            viol.append(('%s: expire fails: %r' % (desc, r), ''))
            continue
        if flags.get('dry'):
            if scan(e.repo(), 'demo') != pre:
                viol.append(('%s: dry run changed the repository' % desc, ''))
            continue
        judge(root, e, hist, o, upgrade, now, files, desc, viol, resume=flags.get('resume'), orphan=flags.get('orphan'), before=before)
        if len(viol) > 4:
            break
    pg.rmtree(root)
    return dict(evals=n, keys=keys, viol=viol[:4], samples=['%s %r' % (cases[0][0], cases[0][4])])


def multi(arg):
    """two repositories with their own settings and another stanza in each"""
    idx, version, cases = arg
    root = core.scratch('m%d' % idx)
    viol, keys, n = [], set(), 0
    e = pg.Env(root + '/w', repos=2)
    e.conf(log_level_console='off')
    for types, o1, o2, sel, after, day in cases:
        h1 = history(types, day=day)
        h2 = history(types, day=day, t0=pg.T0 + 333)
        reset(e, 2)
        f1 = make(e.repo(1), 'demo', h1, False, version)
        f2 = make(e.repo(2), 'demo', h2, False, version)
        other = {}
        for r in (1, 2):
            make(e.repo(r), 'demo2', history('FFDI'), False, version)
            other[r] = [pg.tree(e.repo(r) + s) for s in ('/archive/demo2', '/backup/demo2')]
        now = h2[-1].stop_t + after
        e.ctl.s.timeUs = now * 1000000
        kw = dict(cmdopts(o1, 1), **cmdopts(o2, 2))
        if sel:
            kw['repo'] = str(sel)
        desc = 'two repositories, history %s, options %r / %r, --repo=%r' % (types, o1, o2, sel)
        untouched = {r: pg.tree(e.repo(r)) for r in (1, 2) if sel and r != sel}
        r = e.run('expire', **kw)
        n += 1
        keys.add(core.h((types, sorted(o1.items()), sorted(o2.items()), sel, after, day)))
        if r.rc:
            viol.append(('%s: expire fails: %r' % (desc, r), ''))
            continue
        for i, hh, oo, ff in ((1, h1, o1, f1), (2, h2, o2, f2)):
            if i in untouched:
                if pg.tree(e.repo(i)) != untouched[i]:
                    viol.append(('%s: repository %d was changed' % (desc, i), ''))
            else:
                judge(root, e, hh, oo, None, now, ff, '%s: repository %d' % (desc, i), viol, repo=i)
            if [pg.tree(e.repo(i) + s) for s in ('/archive/demo2', '/backup/demo2')] != other[i]:
                viol.append(('%s: another stanza in repository %d was changed' % (desc, i), ''))
        if len(viol) > 4:
            break
    pg.rmtree(root)
    return dict(evals=n, keys=keys, viol=viol[:4])


def auto(arg):
    """real backups with automatic expiration after each: every listed backup restores"""
    idx, types, names, o = arg
    root = core.scratch('a%d' % idx)
    viol, n = [], 0
    e = pg.Env(root + '/w')
    e.conf(**dict(bk.store(*names), **cmdopts(o)))
    e.cluster({'base/1/%d' % i: (bk.blob(i, 9000), pg.T0 - 5000) for i in range(4)})
    e.run('stanza-create', online=False, ok=True)
    hist, snaps = [], {}
    for i, ty in enumerate(types):
        e.advance(DAY)
        pg.put(e.pg + '/base/1/%d' % (i % 4), bk.blob(('v', i), 9000 + i), e.now() - 10)
        pg.put(e.pg + '/base/1/%d' % (100 + i), bk.blob(('n', i), 5000 + i), e.now() - 10)
        snap = bk.snap(e.pg)
        r = e.run('backup', type={'F': 'full', 'D': 'diff', 'I': 'incr'}[ty], online=False)
        desc = 'backups %s (%r, %r) after backup %d' % (types, names, o, i + 1)
        if r.rc:
            viol.append(('%s: backup fails %r' % (desc, r), ''))
            break
        lab = bk.backups(e)
        b = B()
        b.i, b.type, b.label, b.pgid, b.wal, b.stop_t = i, ty, lab[-1], 1, None, e.now()
        full = [x for x in hist if x.type == 'F']
        b.prior = None if ty == 'F' else full[-1] if ty == 'D' else hist[-1]
        snaps[b.label] = snap
        hist = policy(hist + [b], o, e.now())[0]
        if lab != [x.label for x in hist]:
            viol.append(('%s: %r listed, expected %r' % (desc, lab, [x.label for x in hist]), ''))
            break
        for l in lab:
            r = bk.restore(e, root + '/r', l)
            n += 1
            df = [repr(r)] if r.rc else pg.tree_diff(snaps[l], bk.snap(root + '/r'))
            if df:
                viol.append(('%s: %s does not restore: %s' % (desc, l, '\n'.join(df)), ''))
        disk = sorted(x for x in os.listdir(e.repo() + '/backup/demo') if x[0].isdigit())
        if disk != sorted(lab):
            viol.append(('%s: on disk %r, listed %r' % (desc, disk, lab), ''))
    pg.rmtree(root)
    return dict(evals=n, keys=[core.h((types, names, sorted(o.items())))], viol=viol[:3])


def conform(_):
    """the synthesised info file must be one the tool itself would have written: parse and re-synthesise a real one"""
    root = core.scratch('conf')
    e = pg.Env(root + '/w')
    e.cluster({'base/1/1': bk.blob(1, 9000)})
    e.run('stanza-create', online=False, ok=True)
    e.run('backup', type='full', online=False, ok=True)
    bad = []
    ver = None
    before = e.run('info', output='json', ok=True).out
    for f in ('/backup/demo/backup.info', '/archive/demo/archive.info'):
        ini = pg.info_ini(e.repo() + f)
        ver = ini['backrest'].get('backrest-version', ver)
        bk.info_write(e.repo() + f, [(s, list(kv.items())) for s, kv in ini.items()])
    r = e.run('info', output='json')
    if r.rc or r.out != before:
        bad.append(('info files rewritten with the same content are not accepted: %r' % r, before))
    man = pg.info_ini(e.repo() + '/backup/demo/' + bk.backups(e)[-1] + '/backup.manifest')
    pg.rmtree(root)
    return dict(evals=2, viol=bad, version=ver, manifest=man)


def chunks(lst, n):
    return [lst[i:i + n] for i in range(0, len(lst), n)]


def seqs(L, first='F'):
    return [first + ''.join(x) for x in itertools.product('FDI', repeat=L - 1)]


def main():
    c = core.Check('P17')
    core.build()
    r = list(core.pmap(conform, [0]))[0]
    c.merge(r)
    ver = r.get('version', '0')
    global MAN
    MAN = r.get('manifest')
    cases = []
    arch = [('full', None), ('full', 1), ('full', 2), ('diff', None), ('diff', 1), ('diff', 2), ('incr', None), ('incr', 1), ('incr', 2)]
    if c.thorough:
        arch += [('full', 3), ('diff', 3), ('incr', 3), ('incr', 4)]
    LF = 4 if not c.thorough else 6

    def mk(full, diff, at, an, **kw):
        d = dict(full=full, diff=diff, atype=at, arch=an, **kw)
        return {k: v for k, v in d.items() if v is not None}
    settings = [mk(f, d, a, n) for f in (None, 1, 2) for d in (None, 1, 2) for a, n in arch]
    if c.thorough:
        settings += [mk(3, d, a, n) for d in (None, 1, 2, 3) for a, n in arch]
    for L in range(1, LF + 1):
        for s in seqs(L):
            for o in settings:
                cases.append((s, None, (), None, o, {}))
    # longer histories, fewer settings
    for s in seqs(LF + 1):
        for o in (mk(1, None, 'full', None), mk(2, 1, 'full', 1), mk(2, 2, 'diff', None), mk(3, 1, 'incr', 2), mk(2, None, 'incr', 3)):
            cases.append((s, None, (), None, o, {}))
    LS = 3 if not c.thorough else 5
    small = [s for L in range(1, LS + 1) for s in seqs(L)]
    few = [mk(1, None, 'full', None), mk(2, 1, 'full', 1), mk(1, 1, 'diff', None), mk(2, None, 'incr', 2), mk(None, None, 'full', 1)]
    # time based, with the limit exactly at, before and after the end of a backup
    for s in small + (seqs(4) if not c.thorough else []):
        for days in (1, 2, 3):
            for after in (0, 1, DAY - 1):
                for d, a, n in ((None, 'full', None), (1, 'full', None), (None, 'diff', 1), (None, 'full', 1)):
                    cases.append((s, None, (), None, mk(days, d, a, n, ftype='time'), {'after': after}))
    # --set, --oldest, --archive-expire-before
    for s in small:
        for o in few:
            for i in range(len(s)):
                cases.append((s, None, (), None, dict(o, set=i), {}))
                for k in (-2, 0, 1, 3):
                    cases.append((s, None, (), None, dict(o, before=(i, k)), {}))
            cases.append((s, None, (), None, dict(o, oldest=True), {}))
            cases.append((s, None, (), None, o, {'dry': True}))
            cases.append((s, None, (), None, dict(o, oldest=True), {'dry': True}))
            cases.append((s, None, (), None, o, {'resume': True}))
            cases.append((s, None, (), None, o, {'orphan': True, 'resume': True}))
            for res in [True] + [('D', i) for i in range(len(s)) if s[i] == 'F'] + [('I', i) for i in range(len(s))]:
                for oo in [o, dict(o, oldest=True)] + [dict(o, set=i) for i in range(len(s))]:
                    cases.append((s, None, (), None, oo, {'resume': res}))
            for i in range(len(s)):
                cases.append((s, None, (i,), None, o, {}) if len(s) > 1 else (s, None, (), None, o, {}))
                cases.append((s, None, (), i, o, {}))
    # stanza upgrade at every position
    for L in range(2, LS + 2):
        for s in seqs(L):
            for u in range(1, L):
                if not valid(s, u):
                    continue
                for o in few:
                    cases.append((s, u, (), None, o, {}))
                    cases.append((s, u, (), None, dict(o, oldest=True), {}))
                    cases.append((s, u, (), None, dict(o, set=L - 1), {}))
                    cases.append((s, u, (), None, dict(o, set=0), {}))
    # history retention around the turn of the year
    yr = 1704067200
    for s in small:
        for k in range(-1, len(s)):
            for days in (0, 1, 2, 400):
                for o in (mk(1, None, 'full', None), mk(2, 1, 'full', None)):
                    cases.append((s, None, (), None, dict(o, hist=days), {'t0': yr + 60 - k * DAY}))
                # long after the last backup: backups that are kept are of a year that is over
                for after in (370 * DAY, 800 * DAY):
                    for o in (mk(1, None, 'full', None), mk(None, None, 'full', None), mk(None, 1, 'diff', None)):
                        cases.append((s, None, (), None, dict(o, hist=days), {'t0': yr + 60 - k * DAY, 'after': after}))
    cases = [x for x in cases if any(i not in x[2] for i in range(len(x[0])))]
    jobs = [(i, ver, ch) for i, ch in enumerate(chunks(cases, max(40, len(cases) // 160)))]
    c.phase('%d cases' % len(cases))
    for r in core.pmap(single, jobs):
        c.merge(r)
    c.phase('single')
    mc = []
    opts = [mk(1, None, 'full', None), mk(2, 1, 'full', 1), mk(None, None, 'full', None), mk(1, None, 'full', None, hist=1), mk(1, None, 'full', None, ftype='time'),
            mk(1, None, 'full', None, hist=0)]
    for s in ('F', 'FF', 'FDF', 'FFI', 'FIFD'):
        for a in opts:
            for b in opts:
                for sel in (None, 1, 2):
                    mc.append((s, a, b, sel, 5, DAY * 200))
    for r in core.pmap(multi, [(i, ver, ch) for i, ch in enumerate(chunks(mc, 20))]):
        c.merge(r)
    c.phase('multi')
    aj = []
    for s in (seqs(4) if not c.thorough else seqs(5)):
        for k, (names, o) in enumerate(((('plain',), mk(1, 1, 'full', None)), (('block', 'gz'), mk(1, None, 'full', None)), (('hard',), mk(2, 1, 'full', None)))):
            if c.thorough or k == sum(map(ord, s)) % 3 or k == 0:
                aj.append((len(aj), s, names, o))
    if not c.thorough:
        aj = [x for i, x in enumerate(aj) if i % 3 == 0]
        aj = [(i,) + x[1:] for i, x in enumerate(aj)]
    for r in core.pmap(auto, aj):
        c.merge(r)
    c.rule = 'every backup history (types F/D/I) up to the stated length x retention settings, stanza upgrade / timeline switch / offline backup at every position, --set, --oldest, --archive-expire-before at every position, time limits at and around each backup; repository compared with the reference policy'
    c.assumptions = ['repositories synthesised (format checked against the tool on every run), plus real backup histories with automatic expiration',
                     'a backup is never on a lower timeline than an earlier one']
    c.finish()


if __name__ == '__main__':
    main()
