#!/usr/bin/env python3
"""P16: every recovery target around every backup, every timeline history, every recovery option; oracle = independent selection rule,
PostgreSQL's timeline rule and the settings requested."""
import itertools, os, re, subprocess, sys
from datetime import datetime, timezone, timedelta
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pgb import core, pg, bk, fakepg

S = pg.MB


def online(e, n, tli, seg, type='full', repo=1, online=True, dur=30):
    """one backup: marker n, start and stop position in segment seg; takes dur seconds"""
    pg.put(e.pg + '/base/1/mark', b'%d' % n + b' ' * n, e.now() - 5)
    pg.put(e.pg + '/global/pg_control', pg.control(e.ver, e.sysid, seg=e.seg, tli=tli), e.now() - 50)
    if not online:
        e.run('backup', type=type, online=False, repo=str(repo), ok=True)
    else:
        p = fakepg.FakePg(e, tli=tli, start=seg * S + 40, stop=seg * S + 500)
        p.on_stop = lambda _: e.advance(dur)
        srv = fakepg.Server(e, p)
        e.run('backup', type=type, archive_check=False, start_fast=True, repo=str(repo), ok=True)
        srv.close()
    e.advance(1000)


def world(root, ver='16', repos=1, plan=(), store=('plain',)):
    e = pg.Env(root, ver=ver, repos=repos)
    e.conf(archive_async=None, **bk.store(*store))
    e.cluster({'base/1/1': bk.blob(1, 500), 'postgresql.auto.conf': b'# header\nwork_mem = \'4MB\'\n'})
    e.run('stanza-create', online=False, ok=True)
    for n, st in enumerate(plan):
        if st[0] == 'upgrade':
            e.ver = st[1]
            e.cluster()
            e.run('stanza-upgrade', online=False, ok=True)
            continue
        online(e, n, *st[:-1], **st[-1])
    return e


def listed(e, repo):
    j = bk.info(e, repo=str(repo))[0]
    out = []
    for b in j['backup']:
        out.append(dict(label=b['label'], stop=b['timestamp']['stop'], lsn=fakepg.unlsn(b['lsn']['stop']) if b.get('lsn') else None,
                        db=b['database']['id']))
    return out, max(d['id'] for d in j['db'])


def choose(reps, kind, target):
    """label a restore must use, or None if it must be refused"""
    for lst, cur in reps:
        if lst is None or not lst:
            continue
        if kind == 'time':
            c = [b for b in lst if b['stop'] < target]
            if c:
                return c[-1]['label']
        elif kind == 'lsn':
            for b in reversed(lst):
                if b['lsn'] is None:
                    break
                if b['lsn'] <= target:
                    return b['label']
        else:
            return lst[-1]['label'] if lst[-1]['db'] == cur else None
    return None


def used(e, dst):
    p = dst + '/base/1/mark'
    return int(open(p).read()) if os.path.exists(p) else None


def mark_of(e, labels):
    return {l: i for i, l in labels}


def selection(arg):
    idx, name, plan, repos, broken, store, chunk = arg
    root = core.scratch('a%d' % idx)
    viol, keys, n = [], set(), 0
    e = world(root + '/w', repos=repos, plan=plan, store=store)
    reps = [listed(e, r) for r in range(1, repos + 1)]
    # marker of each label: learned by restoring it explicitly
    marks = {}
    for r, (lst, _) in enumerate(reps):
        for b in lst:
            rr = bk.restore(e, root + '/r', b['label'], ok=True, repo=str(r + 1))
            marks[(b['label'])] = used(e, root + '/r')
    if broken:
        for x in ('', '.copy'):
            pg.put(e.repo(broken) + '/backup/demo/backup.info' + x, b'garbage', mode=0o640)
        reps[broken - 1] = (None, 0)
    stops = sorted({b['stop'] for l, _ in reps if l for b in l})
    lsns = sorted({b['lsn'] for l, _ in reps if l for b in l if b['lsn']})
    cases = []
    for t in stops:
        for d in (-1, 0, 1):
            u = datetime.fromtimestamp(t + d, timezone.utc)
            f = u.strftime('%Y-%m-%d %H:%M:%S')
            for s in (f, f + '+00', f + '.250', (u + timedelta(hours=5, minutes=30)).strftime('%Y-%m-%d %H:%M:%S') + '+0530',
                      (u - timedelta(hours=3)).strftime('%Y-%m-%d %H:%M:%S.999') + '-03:00'):
                cases.append(('time', s, t + d))
    cases += [('time', '2000-01-01 00:00:00', 946684800), ('time', '2100-01-01 00:00:00', 4102444800), ('time', 'yesterday', 'bad'), ('time', '2023-13-01 00:00:00', 'bad')]
    for l in lsns:
        for d in (-1, 0, 1):
            cases.append(('lsn', fakepg.lsn(l + d), l + d))
    cases += [('lsn', '0/1', 1), ('lsn', 'FF/0', 0xFF << 32)]
    cases += [('default', None, None), ('immediate', None, None), ('name', 'here', None), ('xid', '123', None)]
    allc = [(c, r) for c in cases for r in ([None] + list(range(1, repos + 1)) if repos > 1 else [None])]
    for (kind, s, v), ro in allc[chunk[0]::chunk[1]]:
        pg.rmtree(root + '/r')
        os.makedirs(root + '/r', mode=0o700)
        kw = dict(type=kind, pg1_path=root + '/r', target_timeline='current') if kind != 'immediate' else dict(type=kind, pg1_path=root + '/r')
        if s:
            kw['target'] = s
        if ro:
            kw['repo'] = str(ro)
        rr = e.run('restore', **kw)
        n += 1
        keys.add(core.h((name, broken, kind, s, ro)))
        want = None if v == 'bad' else choose([reps[ro - 1]] if ro else reps, kind, v)
        desc = 'history %s%s: restore type %s target %s repo %s' % (name, ' repo%d unreadable' % broken if broken else '', kind, s, ro)
        if want is None:
            if rr.rc == 0:
                viol.append(('%s: restored backup with marker %r although no backup qualifies' % (desc, used(e, root + '/r')), repr(rr)))
            elif os.listdir(root + '/r'):
                viol.append(('%s: refused but files were written: %r' % (desc, os.listdir(root + '/r')), repr(rr)))
        elif rr.rc:
            viol.append(('%s: failed although %s qualifies: %r' % (desc, want, rr), ''))
        elif used(e, root + '/r') != marks[want]:
            viol.append(('%s: backup with marker %r was restored instead of %s (marker %r)' % (desc, used(e, root + '/r'), want, marks[want]), repr(rr)))
        elif kind not in ('default', 'immediate'):
            txt = open(root + '/r/postgresql.auto.conf').read()
            if "recovery_target_%s = '%s'" % (kind, s) not in txt:
                viol.append(('%s: recovery settings are %r' % (desc, txt), ''))
        if len(viol) > 3:
            break
    pg.rmtree(root)
    return dict(evals=n, keys=keys, viol=viol, samples=['%s: %d targets' % (name, len(allc))])


def timelines(arg):
    """target timeline x history files x backup"""
    idx, ver, chunk, deep = arg
    root = core.scratch('t%d' % idx)
    viol, keys, n = [], set(), 0
    # backups at segments 4 (timeline 1), 8 (timeline 1), 12 (timeline 2), 16 (timeline 0x1A)
    e = world(root + '/w', ver=ver, plan=[(1, 4, {}), (1, 8, {}), (2, 12, {}), (0x1A, 16, {})])
    lst, _ = listed(e, 1)
    bks = [(b['label'], t, s * S + 40) for b, (t, s) in zip(lst, [(1, 4), (1, 8), (2, 12), (0x1A, 16)])]
    ad = e.repo() + '/archive/demo/%s-1' % ver
    os.makedirs(ad, exist_ok=True)
    # each history file: list of (timeline, switch segment)
    H2 = [None, [(1, 6)], [(1, 4, 40)], [(1, 4, 41)], [(1, 20)]]
    H3 = [None, [(1, 6), (2, 14)], [(1, 10)], [(1, 10), (2, 11)], 'junk']
    H1A = [None, [(1, 9), (2, 13)], [(1, 2), (2, 3), (0x19, 30)]]
    combos = list(itertools.product(H2, H3, H1A))
    targets = [None, 'current', 'latest', '1', '2', '3', '26', '0x2', '0x1A', '0x3', '9', 'abc'] if deep else [None, 'current', 'latest', '1', '2', '3', '0x1A', '26', 'abc']
    allc = [(c, b, t, ty) for c in combos for b in bks for t in targets for ty in ('default', 'immediate', 'time') if not (ty == 'immediate' and t)]
    if not deep:
        allc = [x for x in allc if x[3] != 'time' or x[2] in ('2', 'latest')]
    if len(chunk) > 2:      # only the default of the version
        allc = [x for x in allc if x[2] is None and x[3] == 'default']
    for (h2, h3, h1a), (lab, btli, blsn), tgt, ty in allc[chunk[0]::chunk[1]]:
        hist = {2: h2, 3: h3, 0x1A: h1a}
        for t, hh in hist.items():
            p = ad + '/%08X.history' % t
            if hh is None:
                if os.path.exists(p):
                    os.unlink(p)
            elif hh == 'junk':
                pg.put(p, b'1\n2\n', mode=0o640)
            else:
                pg.put(p, ('# comment\n\n' + ''.join('%d\t%s\tno recovery target specified\n\n' % (x[0], fakepg.lsn(x[1] * S + (x[2] if len(x) > 2 else 0))) for x in hh)).encode(), mode=0o640)
        pg.rmtree(root + '/r')
        os.makedirs(root + '/r', mode=0o700)
        kw = dict(type=ty, pg1_path=root + '/r', set=lab)
        if ty == 'time':
            kw['target'] = '2100-01-01 00:00:00'
        if tgt:
            kw['target_timeline'] = tgt
        rr = e.run('restore', **kw)
        n += 1
        keys.add(core.h((ver, h2, h3, h1a, lab, tgt, ty)))
        # PostgreSQL's rule
        old = ver in ('9.6', '10', '11')
        eff = tgt or ('current' if old or ty == 'immediate' else 'latest')
        if eff == 'current':
            ok = True
        else:
            if eff == 'latest':
                T = max([t for t, hh in hist.items() if hh is not None and t > btli], default=btli)
            else:
                try:
                    T = int(eff, 16) if eff.startswith('0x') else int(eff)
                except ValueError:
                    T = None
            if T is None:
                ok = False
            elif T == btli:
                ok = True
            else:
                hh = hist.get(T)
                if hh is None or hh == 'junk':
                    ok = False
                else:
                    ok = any(x[0] == btli and blsn < x[1] * S + (x[2] if len(x) > 2 else 0) for x in hh)
        desc = 'version %s: restore of backup on timeline %X at %s to timeline %s (type %s) with histories 2:%r 3:%r 1A:%r' % (ver, btli, fakepg.lsn(blsn), tgt, ty, h2, h3, h1a)
        if (rr.rc == 0) != ok:
            viol.append(('%s: %s' % (desc, 'accepted although the timeline cannot be reached' if rr.rc == 0 else 'refused although reachable: %r' % rr), repr(rr)))
        elif rr.rc and os.listdir(root + '/r'):
            viol.append(('%s: refused but files were written' % desc, repr(rr)))
        if len(viol) > 3:
            break
    pg.rmtree(root)
    return dict(evals=n, keys=keys, viol=viol, samples=['version %s: %d timeline cases' % (ver, len(allc))])


REC = ('recovery_target', 'recovery_target_action', 'recovery_target_inclusive', 'recovery_target_lsn', 'recovery_target_name', 'recovery_target_time',
       'recovery_target_timeline', 'recovery_target_xid')


def effective(txt):
    out = {}
    for ln in txt.split('\n'):
        m = re.match(r"^[ \t]*([A-Za-z_]+)[ \t]*=?[ \t]*'((?:[^']|'')*)'", ln)
        if m and not ln.lstrip().startswith('#'):
            out[m.group(1)] = m.group(2)
    return out


def settings(arg):
    idx, ver, chunk, deep = arg
    root = core.scratch('g%d' % idx)
    viol, keys, n = [], set(), 0
    old = ver in ('9.6', '10', '11')
    auto = ("# Do not edit\nwork_mem = '4MB'\n recovery_target_name = 'stale'\nrecovery_target='immediate'\nrecovery_target_time\t= '2001-01-01'\n"
            "restore_command = 'stale cmd'\nrecovery_target_xid ='7'\nprimary_conninfo = 'host=old'\n#recovery_target_lsn = '0/1'\nmy_recovery_target = 'x'\n"
            "recovery_target_inclusive = 'false'\nrecovery_target_action = 'shutdown'\nrecovery_target_timeline = '9'\nrecovery_target_lsn = '0/9'\n")
    e = pg.Env(root + '/w', ver=ver)
    e.conf(archive_async=None)
    walp = 'pg_xlog' if ver == '9.6' else 'pg_wal'
    e.cluster({'base/1/1': bk.blob(1, 500), 'postgresql.auto.conf': auto.encode()})
    e.run('stanza-create', online=False, ok=True)
    nm = pg.walname(1, 4)
    wal = pg.wal(ver, e.sysid, fill=4)
    pg.put(e.pg + '/' + walp + '/' + nm, wal, e.now())
    e.run('archive-push', e.pg + '/' + walp + '/' + nm, ok=True)
    online(e, 0, 1, 4)
    online(e, 1, 1, 5, online=False)
    labs = bk.backups(e)
    types = [('default', None), ('immediate', None), ('none', None), ('standby', None), ('preserve', None), ('time', '2100-01-01 00:00:00+00'), ('xid', '42'), ('lsn', '0/500500'), ('name', 'my point')]
    cases = []
    for (ty, tg), action, excl, tl, am, ro, prior, lab in itertools.product(
            types, (None, 'pause', 'promote', 'shutdown'), (None, True), (None, 'current', '1'), (None, 'off', 'preserve'),
            ((), ('primary_conninfo=host=new',), ('restore-command=/bin/false', 'recovery-end-command=x y')), ('fresh', 'stale'), labs):
        if action and ty not in ('immediate', 'time', 'xid', 'lsn', 'name'):
            continue
        if excl is not None and ty not in ('time', 'xid', 'lsn'):
            continue
        if tl and ty not in ('default', 'standby', 'time', 'xid', 'lsn', 'name'):
            continue
        if ty in ('preserve', 'none') and ro or ty == 'preserve' and am:
            continue
        if lab == labs[1] and (action or excl is not None or tl or ro):
            continue
        k = sum(x is not None for x in (action, excl, tl, am)) + (1 if ro else 0)
        if not deep and k > 2:
            continue
        cases.append((ty, tg, action, excl, tl, am, ro, prior, lab))
    for ty, tg, action, excl, tl, am, ro, prior, lab in cases[chunk[0]::chunk[1]]:
        dst = root + '/r'
        pg.rmtree(dst)
        os.makedirs(dst, mode=0o700)
        kw = dict(pg1_path=dst, set=lab, type=ty)
        if prior == 'stale':
            bk.restore(e, dst, lab, ok=True)
            pg.put(dst + '/recovery.signal', b'')
            pg.put(dst + '/standby.signal', b'')
            pg.put(dst + '/recovery.conf', b"recovery_target_name = 'staleconf'\n")
            pg.put(dst + '/postgresql.auto.conf', b"recovery_target_name = 'stale3'\nfsync = 'off'\n")
            kw['delta'] = True
        if tg:
            kw['target'] = tg
        if action:
            kw['target_action'] = action
        if excl is not None:
            kw['target_exclusive'] = excl
        if tl:
            kw['target_timeline'] = tl
        if am:
            kw['archive_mode'] = am
        if ro:
            kw['recovery_option'] = list(ro)
        if prior == 'stale' and old:
            # not a file of these versions: would be removed by the restore anyway
            os.unlink(dst + '/recovery.signal')
            os.unlink(dst + '/standby.signal')
        rr = e.run('restore', **kw)
        n += 1
        keys.add(core.h((ver, ty, action, excl, tl, am, ro, prior, lab)))
        desc = 'version %s %s backup, destination %s: type %s target %s action %s exclusive %s timeline %s archive-mode %s options %r' % (
            ver, 'online' if lab == labs[0] else 'offline', prior, ty, tg, action, excl, tl, am, ro)
        if am == 'off' and old and ty not in ('none', 'preserve'):
            if rr.rc == 0:
                viol.append(('%s: accepted' % desc, repr(rr)))
            continue
        if rr.rc:
            viol.append(('%s: failed: %r' % (desc, rr), ''))
            if len(viol) > 3:
                break
            continue
        want = {}
        if ty not in ('none', 'preserve'):
            if ty == 'immediate':
                want['recovery_target'] = 'immediate'
                if not old:
                    want['recovery_target_timeline'] = 'current'
            elif ty == 'standby':
                if old:
                    want['standby_mode'] = 'on'
            elif ty != 'default':
                want['recovery_target_' + ty] = tg
                if excl:
                    want['recovery_target_inclusive'] = 'false'
            if action and action != 'pause':
                want['recovery_target_action'] = action
            if tl and not (old and tl == 'current'):
                want['recovery_target_timeline'] = tl
            if am == 'off':
                want['archive_mode'] = 'off'
            for o in ro:
                k, v = o.split('=', 1)
                want[k.replace('-', '_')] = v
        if prior == 'stale' and ty == 'preserve':
            auto_in = "recovery_target_name = 'stale3'\nfsync = 'off'\n"
        else:
            auto_in = auto
        sig = {f for f in ('recovery.signal', 'standby.signal', 'recovery.conf') if os.path.exists(dst + '/' + f)}
        if old:
            wsig = set() if ty == 'none' else {'recovery.conf'}
            if ty == 'preserve':
                wsig = {'recovery.conf'} if prior == 'stale' else set()
        else:
            wsig = {'standby.signal'} if ty == 'standby' else set() if ty == 'none' else {'recovery.signal'}
            if ty == 'preserve':
                wsig = {'recovery.signal', 'standby.signal'} if prior == 'stale' else set()
        if sig != wsig:
            viol.append(('%s: signal/recovery files are %r, should be %r' % (desc, sorted(sig), sorted(wsig)), repr(rr)))
        if ty == 'preserve' and not old and prior == 'fresh':
            if os.path.exists(dst + '/postgresql.auto.conf'):
                viol.append(('%s: postgresql.auto.conf was written although the settings in the destination are to be kept' % desc, repr(rr)))
            continue
        ac = open(dst + '/postgresql.auto.conf').read()
        got = effective(ac)
        base = effective(auto_in)
        if old:
            if ac != (auto if True else ''):
                viol.append(('%s: postgresql.auto.conf was changed' % desc, ac))
            if ty == 'preserve':
                continue
            if ty == 'none':
                continue
            got = effective(open(dst + '/recovery.conf').read())
            base = {}
        elif ty == 'preserve':
            if ac != auto_in:
                viol.append(('%s: postgresql.auto.conf was changed' % desc, ac))
            continue
        else:
            for k in REC:
                base.pop(k, None)
            # everything that was not a recovery target stays in the file
            for ln in auto_in.split('\n'):
                if ln and not re.match(r'^[\t ]*(%s)[\t ]*=' % '|'.join(REC), ln) and ln not in ac.split('\n'):
                    viol.append(('%s: line %r was removed from postgresql.auto.conf' % (desc, ln), ac))
        exp = dict(base)
        rc = got.get('restore_command')
        if ty not in ('none',) and 'restore_command' not in want:
            exp['restore_command'] = rc
            dest = root + '/got'
            if os.path.exists(dest):
                os.unlink(dest)
            if not rc or rc == 'stale cmd':
                viol.append(('%s: no restore_command' % desc, ac))
            else:
                cl = rc.replace("''", "'").replace('%f', nm).replace('%p', dest)
                pr = subprocess.run(['sh', '-c', cl], env=e.environ(), cwd=dst, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if pr.returncode or not os.path.exists(dest) or open(dest, 'rb').read() != wal:
                    viol.append(('%s: the restore_command written does not get WAL: %s (%d) %s' % (desc, cl, pr.returncode, pr.stdout.decode()), ac))
        exp.update(want)
        if got != exp:
            viol.append(('%s: effective settings %r, should be %r' % (desc, got, exp), ac))
        if len(viol) > 3:
            break
    pg.rmtree(root)
    return dict(evals=n, keys=keys, viol=viol, samples=['version %s: %d combinations of recovery settings' % (ver, len(cases))])


def main():
    c = core.Check('P16')
    core.build()
    jobs = []
    F, I, D = dict(type='full'), dict(type='incr'), dict(type='diff')
    r2 = lambda d: dict(d, repo=2)
    hs = [('F I I', [(1, 4, F), (1, 6, I), (1, 9, I)], 1, 0, ('plain',)),
          ('F D F I', [(1, 4, F), (1, 6, D), (1, 9, F), (1, 12, I)], 1, 0, ('enc',)),
          ('F off I', [(1, 4, F), (1, 5, dict(type='full', online=False)), (1, 9, I)], 1, 0, ('plain',)),
          ('off F', [(1, 5, dict(type='full', online=False)), (1, 9, F)], 1, 0, ('plain',)),
          ('two repositories', [(1, 4, F), (1, 6, r2(F)), (1, 9, I), (1, 12, r2(I))], 2, 0, ('plain',)),
          ('two repositories', [(1, 4, F), (1, 6, r2(F)), (1, 9, I), (1, 12, r2(I))], 2, 1, ('plain',)),
          ('two repositories, first empty', [(1, 6, r2(F)), (1, 12, r2(I))], 2, 0, ('plain',)),
          ('upgraded without backup', [(1, 4, F), (1, 6, I), ('upgrade', '17')], 1, 0, ('plain',)),
          ('upgraded with backup', [(1, 4, F), (1, 6, I), ('upgrade', '17'), (1, 9, F)], 1, 0, ('plain',))]
    if c.thorough:
        hs += [('F I I two-' + s, [(1, 4, F), (1, 6, r2(F)), (2, 8, I), (2, 10, I), (2, 11, r2(D)), (3, 14, F)], 2, b, (s,)) for s in ('plain', 'enc', 'bundle') for b in (0, 1, 2)]
    for name, plan, repos, br, st in hs:
        for i in range(3):
            jobs.append((selection, (len(jobs), name, plan, repos, br, st, (i, 3))))
    for ver in ('16', '11') if not c.thorough else ('9.6', '11', '12', '16', '18'):
        for i in range(12):
            if not c.thorough and ver == '11' and i % 2:
                continue
            jobs.append((timelines, (len(jobs), ver, (i, 12), c.thorough)))
    for ver in ('9.6', '10', '12', '13', '14', '15', '17', '18'):
        jobs.append((timelines, (len(jobs), ver, (0, 1, 'default'), c.thorough)))
    for ver in ('16', '11', '18', '9.6') if not c.thorough else ('9.6', '10', '11', '12', '13', '14', '15', '16', '17', '18'):
        N = 8
        for i in range(N):
            jobs.append((settings, (len(jobs), ver, (i, N), c.thorough)))
    for r in core.pmap(call, jobs):
        c.merge(r)
    c.rule = 'every target value around every backup; every combination of timeline histories x target timeline x backup; every combination of recovery options x version x destination state'
    c.assumptions = ['target names and options without quote characters', 'PostgreSQL replaced by a scripted server for online backups']
    c.finish()


def call(a):
    return a[0](a[1])


if __name__ == '__main__':
    main()
