#!/usr/bin/env python3
"""P10: online backups against every pattern of present/missing/late/foreign WAL segments; oracle = the set of segments PostgreSQL needs."""
import itertools, os, sys, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pgb import core, pg, bk, fakepg

# state of a needed segment in the archive when the backup ends: present, missing, late (arrives while waiting), only as partial,
# only on another timeline, only for another cluster version, twice with different content, only in the other repository
STATES = 'PMLxtcd2'
BAD = 'Mxtcd2'


def arch(e, seg, fill, repo=1, aid=None, suffix='', gz=None, sha=None):
    import hashlib, zlib, gzip
    data = pg.wal(e.ver, e.sysid, e.seg, fill)
    s = sha or hashlib.sha1(data).hexdigest()
    p = '%s/archive/demo/%s/%s/%s%s-%s' % (e.repo(repo), aid or (e.ver + '-1'), seg[:16], seg, suffix, s)
    if gz:
        pg.put(p + '.gz', gzip.compress(data, 1, mtime=0), mode=0o640)
    else:
        pg.put(p, data, mode=0o640)
    return p


def case(e, root, tli, first, states, stopoff, opt, walgz, prev_same):
    """one backup; states[i] = state of segment first+i; returns (violation or None)"""
    seg = e.seg
    n = len(states)
    for r in range(1, e.repos + 1):
        pg.rmtree(e.repo(r) + '/archive/demo/' + e.ver + '-1')
        pg.rmtree(e.repo(r) + '/archive/demo/' + e.ver + '-2')
        os.makedirs(e.repo(r) + '/archive/demo/' + e.ver + '-1', exist_ok=True)
    start = first * seg + 40
    last = first + n - 1
    stop = last * seg + stopoff if n > 1 or stopoff > 40 else start
    if stop < start:
        stop = start
    p = fakepg.FakePg(e, tli=tli, start=start, stop=stop, current=start if prev_same else start - seg)
    srv = fakepg.Server(e, p)
    th = []
    names = [pg.walname(tli, first + i, seg) for i in range(n)]
    if first:
        arch(e, pg.walname(tli, first - 1, seg), 999)
    if n and names[0] and prev_same:
        pass

    def put(i, st):
        nm = names[i]
        if st == 'P':
            arch(e, nm, first + i, gz=walgz)
        elif st == 'x':
            arch(e, nm, first + i, suffix='.partial', gz=walgz)
        elif st == 't':
            arch(e, pg.walname(tli + 1, first + i, seg), first + i, gz=walgz)
        elif st == 'c':
            arch(e, nm, first + i, aid=e.ver + '-2', gz=walgz)
        elif st == 'd':
            arch(e, nm, first + i, gz=walgz)
            arch(e, nm, first + i + 7777, gz=walgz)
        elif st == '2':
            arch(e, nm, first + i, repo=2, gz=walgz)

    def on_start(_):
        if prev_same:
            # the check at the start looks for the segment the backup starts in
            put(0, states[0])

    def on_stop(_):
        for i, st in enumerate(states):
            if st != 'L':
                put(i, st)
        # a segment after the stop position is always there and one before the start
        arch(e, pg.walname(tli, last + 1, seg), 555, gz=walgz)
        if 'L' in states:
            t0 = e.ctl.s.timeUs

            def late():
                while e.ctl.s.timeUs < t0 + 1500000 and not done.is_set():
                    time.sleep(0.0005)
                for i, st in enumerate(states):
                    if st == 'L':
                        put(i, 'P')
            t = threading.Thread(target=late, daemon=True)
            th.append(t)
            t.start()
    done = threading.Event()
    p.on_start, p.on_stop = on_start, on_stop
    before = bk.backups(e)
    r = e.run('backup', type='full', archive_timeout='20', start_fast=True, **opt)
    done.set()
    for t in th:
        t.join()
    srv.close()
    if srv.err:
        raise RuntimeError(srv.err)
    after = bk.backups(e)
    new = [x for x in after if x not in before]
    check = opt.get('archive_check', True)
    good = not any(s in BAD for s in states) or not check
    if (r.rc == 0) != good:
        return 'backup %s although the segments are %s: %r' % ('succeeded' if r.rc == 0 else 'failed', states, r)
    if r.rc and new:
        return 'failed backup is listed'
    if r.rc:
        return None
    if len(new) != 1:
        return 'successful backup is not listed'
    lab = new[0]
    j = [b for b in bk.info(e)[0]['backup'] if b['label'] == lab][0]
    # a stop position exactly at the start of a segment needs nothing of that segment: both are acceptable as the last one
    need = list(names)
    allow = [need]
    if stop % seg == 0 and n > 1:
        allow.append(need[:-1])
    if not any(j['archive'] == dict(start=a[0], stop=a[-1]) for a in allow):
        return 'info shows archive range %r but the backup needs %s..%s' % (j['archive'], names[0], names[-1])
    if j['lsn'] != dict(start=fakepg.lsn(start), stop=fakepg.lsn(stop)):
        return 'info shows lsn range %r but the backup ran from %s to %s' % (j['lsn'], fakepg.lsn(start), fakepg.lsn(stop))
    dst = root + '/r'
    rr = bk.restore(e, dst, lab)
    if rr.rc:
        return 'backup cannot be restored: %r' % rr
    wd = dst + ('/pg_xlog/' if e.ver == '9.6' else '/pg_wal/')
    got = {f: open(wd + f, 'rb').read() for f in os.listdir(wd) if os.path.isfile(wd + f)}
    if opt.get('archive_copy') and check:
        want = {nm: pg.wal(e.ver, e.sysid, seg, first + i) for i, nm in enumerate(names)}
        ok = got == want or (len(allow) > 1 and got == {k: want[k] for k in allow[1]})
        if not ok:
            return 'WAL in the restored cluster is %r but the backup needs %r (equal content: %r)' % (
                sorted(got), sorted(want), [k for k in got if want.get(k) == got[k]])
    elif got:
        return 'WAL %r in the restored cluster although copying was not requested' % sorted(got)
    lb = open(dst + '/backup_label').read()
    if lb != p.label():
        return 'backup_label differs from the one PostgreSQL returned'
    pg.rmtree(dst)
    return None


def scenario(arg):
    idx, ver, seg, repos, store, cases = arg
    root = core.scratch('s%d' % idx)
    viol, keys, n = [], set(), 0
    e = pg.Env(root + '/w', ver=ver, seg=seg, repos=repos)
    e.conf(archive_async=None, repo1_retention_full='2', **bk.store(*store))
    e.cluster({'base/1/1': (bk.blob(1, 9000), pg.T0 - 5000)})
    e.run('stanza-create', online=False, ok=True)
    for tli, first, states, stopoff, opt, walgz, prev_same in cases:
        pg.put(e.pg + '/global/pg_control', pg.control(e.ver, e.sysid, seg=seg, tli=tli), pg.T0 - 10000)
        e.advance(100)
        v = case(e, root, tli, first, states, stopoff, opt, walgz, prev_same)
        n += 1
        keys.add(core.h((ver, seg, repos, store, tli, first, states, stopoff, opt, walgz, prev_same)))
        if v:
            viol.append(('version %s segment size %d store %r timeline %d first segment %s states %s stop offset %d options %r: %s' % (
                ver, seg, store, tli, pg.walname(tli, first, seg), states, stopoff, opt, v), repr(arg[:5])))
            if len(viol) > 3:
                break
    pg.rmtree(root)
    return dict(evals=n, keys=keys, viol=viol, samples=['%r' % (cases[0],)])


def main():
    c = core.Check('P10')
    core.build()
    S = pg.MB
    groups = []
    copy = dict(archive_copy=True)
    # every pattern of segment states for 1..N needed segments, at positions around the log-file boundary
    N = 4 if c.thorough else 3
    allc = []
    for first in ((2, 4093, 4094, 4095) if c.thorough else (2, 4094)):
        for n in range(1, N + 1):
            for st in itertools.product(STATES if n < 3 else 'PMLd2' if n < 4 else 'PM', repeat=n):
                st = ''.join(st)
                if st.count('L') > 1 or (n > 2 and sum(x not in 'P' for x in st) > 2):
                    continue
                allc.append((1, first, st, 300, copy if len(allc) % 2 else {}, False, False))
    # with two repositories the second one holds what the first lacks
    groups.append(('16', S, 2, ('plain',), allc))
    # positions of the stop inside its segment, timelines, versions, no switch at the start
    pos = []
    for tli in (1, 2, 0x1A):
        for first in (1, 2, 4094, 4095, 4096 * 3 - 1):
            for n in (1, 2, 3):
                for off in (0, 1, 40, 41, S - 1):
                    if n == 1 and off < 41:
                        continue
                    pos.append((tli, first, 'P' * n, off, copy, False, False))
                    if off and off != 1:
                        pos.append((tli, first, 'P' * (n - 1) + 'M', off, {}, False, False))
    groups.append(('16', S, 1, ('plain',), pos))
    opts = [{}, copy, dict(archive_check=False), dict(archive_copy=True, archive_check=True)]
    for st, gz in ((('gz',), True), (('zst',), True), (('plain',), True), (('zst',), False), (('enc',), None), (('bundle', 'gz'), True), (('block', 'zst'), True)):
        cs = []
        for o in opts:
            for sts in ('P', 'PP', 'PMP', 'ML', 'PL', 'M', 'PPP'):
                if st == ('enc',):
                    if o.get('archive_copy'):
                        continue        # the archive is synthesised here without encryption
                cs.append((1, 4095, sts, 5000, o, bool(gz), False))
        groups.append(('16', S, 1, st, cs))
    for ver in ('9.6', '11', '14', '18'):
        groups.append((ver, 16 * S if ver == '9.6' else S, 1, ('plain',), [(1, f, s, 5000, o, False, ps) for f in (1, 255, 4095) for s in ('P', 'PP', 'PM', 'MP', 'LP') for o in ({}, copy) for ps in (False, True)
                       if not (ps and s[0] != 'P')]))
    for seg in ((2 * S, 64 * S) if not c.thorough else (2 * S, 4 * S, 64 * S, 256 * S)):
        per = (1 << 32) // seg
        groups.append(('16', seg, 1, ('plain',), [(1, f, s, 5000, copy if seg < 16 * S else {}, False, False) for f in (1, per - 2, per - 1) for s in ('P', 'PP', 'PPP', 'PM', 'MP', 'PMP')]))
    jobs = []
    for g in groups:
        cs = g[4]
        k = max(1, len(cs) // 24)
        for i in range(k):
            if cs[i::k]:
                jobs.append((len(jobs),) + g[:4] + (cs[i::k],))
    jobs.sort(key=lambda j: -j[2])
    for r in core.pmap(scenario, jobs):
        c.merge(r)
    c.rule = ('every pattern of segment states (present, missing, late, partial only, other timeline, other cluster, duplicate, other repository) over the '
              'segments of a backup x position relative to log-file boundaries x stop offset x segment size x version x check/copy/storage options')
    c.assumptions = ['PostgreSQL is replaced by a scripted server behind the libpq interface', 'archived segments are placed by the check in the documented layout']
    c.finish()


if __name__ == '__main__':
    main()
