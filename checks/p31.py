#!/usr/bin/env python3
"""P31: page checksum failures are reported exactly: every assignment of page states to small relation files, in several segments, page
sizes, storage formats, incremental histories, interrupted backups, and every outcome of the second look at an invalid page."""
import itertools, json, os, re, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pgb import core, pg, bk, sched, remote

BASE = [0x5b1f36e9, 0xb8525960, 0x02ab50aa, 0x1de66d2a, 0x79ff467a, 0x9bb9f8a3, 0x217e7cd2, 0x83e13d2c, 0xf8d4474f, 0xe39eb970, 0x42c6ae16,
        0x993216fa, 0x7b093b5d, 0x98daff3c, 0xf718902a, 0x0b1c9cdb, 0xe58f764b, 0x187636bc, 0x5d7b3bb1, 0xe73de7de, 0x92bec979, 0xcca6c0b2,
        0x304a0979, 0x85aa43d4, 0x783125bb, 0x6ca8eaa2, 0xe407eac6, 0x4b5cfc3e, 0x9fbf8c76, 0x15ca20be, 0xf2ca9fd3, 0x959bd756]
SEG = 1 << 30


def checksum(page, blk):
    """PostgreSQL's pg_checksum_page, written from its specification"""
    b = bytearray(page)
    b[8:10] = b'\0\0'
    w = struct.unpack('<%dI' % (len(b) // 4), b)
    s = list(BASE)
    for i in range(0, len(w), 32):
        for j in range(32):
            t = s[j] ^ w[i + j]
            s[j] = (t * 16777619 ^ (t >> 17)) & 0xffffffff
    for _ in range(2):
        for j in range(32):
            t = s[j]
            s[j] = (t * 16777619 ^ (t >> 17)) & 0xffffffff
    r = 0
    for x in s:
        r ^= x
    return ((r ^ blk) % 65535) + 1


CACHE = {}


def page(st, ps, blk, rel):
    """one page; st: V valid, Z new, B wrong checksum, U upper zero but checksum right, O zero but for the last byte, X right for the next
    block, S right for the block number within the segment, C checksum zero"""
    k = (st, ps, blk, rel)
    if k in CACHE:
        return CACHE[k]
    if st == 'Z':
        b = bytes(ps)
    elif st == 'O':
        b = bytes(ps - 1) + b'\1'
    else:
        b = bytearray(bk.blob('%s%d' % (st, rel), ps))
        struct.pack_into('<QHHHHHH', b, 0, 0x1234, 0, 0, 24, 0 if st == 'U' else 512, ps, ps | 4)
        c = checksum(b, {'X': blk + 1, 'S': rel}.get(st, blk))
        if st == 'B':
            c = c % 65535 + 1
        if st == 'C':
            c = 0
        struct.pack_into('<H', b, 8, c)
        b = bytes(b)
    CACHE[k] = b
    return b


def bad(st, seg, head):
    return st in 'BOXC' or (st == 'S' and seg > 0) or (st == 'U' and head)


def ranges(l):
    out = []
    for x in l:
        if out and out[-1][1] == x - 1:
            out[-1][1] = x
        else:
            out.append([x, x])
    return [a if a == b else [a, b] for a, b in out]


def model(sts, tail, seg, ps, head):
    """(checksum-page, checksum-page-error or None)"""
    off = seg * (SEG // ps)
    e = [off + i for i, s in enumerate(sts) if bad(s, seg, head)]
    if tail:
        return (False, None)
    return (not e, ranges(e) or None)


def content(sts, tail, seg, ps):
    off = seg * (SEG // ps)
    return b''.join(page(s, ps, off + i, i) for i, s in enumerate(sts)) + bk.blob('tail', tail)


def entries(e, label):
    r = e.run('repo-get', 'backup/demo/%s/backup.manifest' % label, ok=True)
    ini = pg.parse_ini(r.out)
    return {k: (json.loads(v) if isinstance(v, str) else v) for k, v in ini['target:file'].items()}


def expect(e, label, want, what, viol, rep, warned=None):
    """compare the manifest (and info) with the model"""
    ent = entries(e, label)
    for f, m in want.items():
        g = ent.get('pg_data/' + f) or ent.get(f)
        if g is None:
            viol.append(('%s: %s is missing' % (what, f), rep))
            continue
        got = (g.get('checksum-page'), g.get('checksum-page-error'))
        if got != m:
            viol.append(('%s: %s is recorded as %r instead of %r' % (what, f, got, m), rep))
            if len(viol) > 4:
                return
    err = sorted(f for f, m in want.items() if m[0] is False)
    j = json.loads(e.run('info', set=label, output='json', ok=True).out)[0]['backup'][0]
    if bool(j.get('error')) != bool(err):
        viol.append(('%s: info says error %r but page errors are in %r' % (what, j.get('error'), err[:4]), rep))
    lst = sorted(re.sub('^pg_data/', '', x) for x in j.get('error-list') or [])
    if lst != err:
        viol.append(('%s: error list of info differs: %r' % (what, sorted(set(lst) ^ set(err))[:5]), rep))
    if warned is not None:
        for f, m in want.items():
            pat = r"WARN: (invalid page checksums? found|page misalignment) in file \S*%s[: ]" % re.escape(f)
            if bool(re.search(pat, warned)) != (m[0] is False):
                viol.append(('%s: warning for %s %s' % (what, f, 'missing' if m[0] is False else 'without reason'), rep))
                break


def setup(e, ps, files):
    e.cluster({})
    pg.put(e.pg + '/global/pg_control', pg.control(e.ver, e.sysid, checksum=1, page=ps))
    for f, d in files.items():
        pg.put(e.pg + '/' + f, d, e.now() - 5000)


def one(a):
    """all assignments as files of one cluster, backed up, then an incremental history"""
    _, idx, ps, buf, st, seg, head, alpha, n, tails = a
    root = core.scratch('p%d' % idx)
    e = pg.Env(root, ver='16')
    e.conf(**bk.store(*st), buffer_size=buf, checksum_page='y', page_header_check='y' if head else 'n', start_fast='y')
    viol, keys = [], set()
    files, want = {}, {}
    sfx = '.%d' % seg if seg else ''
    no = 20000
    lst = [(s, 0) for k in range(0, n + 1) for s in itertools.product(alpha, repeat=k)]
    lst += [(s, t) for k in range(0, 3) for s in itertools.product('VZB', repeat=k) for t in tails]
    dirs = ['base/1', 'global', 'base/16384']
    for s, t in lst:
        f = '%s/%d%s%s' % (dirs[no % 3], no, '_vm' if no % 7 == 0 else '', sfx)
        no += 1
        files[f] = content(s, t, seg, ps)
        want[f] = model(s, t, seg, ps, head)
        keys.add(core.h((a[2:7], s, t)))
    # files that are not relations
    other = {'pg_xact/0000': page('B', ps, 0, 0), 'base/1/PG_VERSION': b'16\n', 'base/1/pg_filenode.map': bk.blob('m', 512)}
    files.update(other)
    want.update({f: (None, None) for f in other})
    setup(e, ps, files)
    rep = repr(a)
    e.run('stanza-create', online=False, ok=True)
    r = e.run('backup', type='full', online=False, log_level_console='warn')
    if r.rc:
        return dict(evals=1, trans=1, keys=keys, viol=[('backup fails: %r' % r, rep)])
    L = bk.backups(e)
    expect(e, L[-1], want, 'full', viol, rep, r.out + r.err)
    src = bk.snap(e.pg)
    x = bk.restore(e, root + '/rst')
    if x.rc or bk.snap(root + '/rst') != src:
        viol.append(('restore of a backup with page errors differs: %r %r' % (x, pg.tree_diff(src, bk.snap(root + '/rst'))), rep))
    # incremental: a third unchanged, a third with new time only, a third with other content
    e.advance(4000)
    fs = [f for f in sorted(files) if f not in other]
    names = [(s, t) for s, t in lst]
    w2 = dict(want)
    by = dict(zip([f for f in files if f not in other], names))
    flip = dict(zip(alpha, reversed(alpha)))
    for i, f in enumerate(fs):
        if i % 3 == 1:
            os.utime(e.pg + '/' + f, (e.now() - 50, e.now() - 50))
        elif i % 3 == 2:
            s, t = by[f]
            s = tuple(flip.get(x, x) for x in s) or ('B',)
            pg.put(e.pg + '/' + f, content(s, t, seg, ps), e.now() - 40)
            w2[f] = model(s, t, seg, ps, head)
    for typ, dl in (('incr', 'n'), ('diff', 'y')):
        e.advance(4000)
        r = e.run('backup', type=typ, online=False, log_level_console='warn', delta=dl)
        if r.rc:
            viol.append(('%s backup fails: %r' % (typ, r), rep))
            break
        expect(e, bk.backups(e)[-1], w2, '%s delta=%s' % (typ, dl), viol, rep)
        x = bk.restore(e, root + '/rst')
        if x.rc or bk.snap(root + '/rst') != bk.snap(e.pg):
            viol.append(('restore of %s backup with page errors differs: %r' % (typ, x), rep))
    pg.rmtree(root)
    return dict(evals=3 * len(want), trans=3 * len(want), keys=keys, viol=viol[:5], samples=['page size %d buffer %s %s segment %d: %d files x 3 backups' % (ps, buf, '+'.join(st), seg, len(want))])


def resume(a):
    """the backup is killed at every operation; the next one resumes files and must report the same errors"""
    _, idx, st, lo, n = a
    root = core.scratch('q%d' % idx)
    e = pg.Env(root, ver='16')
    e.conf(**bk.store(*st), checksum_page='y', manifest_save_threshold='1B')
    files, want = {}, {}
    for i, s in enumerate(itertools.product('VB', repeat=3)):
        f = 'base/1/%d' % (20000 + i)
        files[f] = content(s, 0, 0, 8192)
        want[f] = model(s, 0, 0, 8192, True)
    files['base/1/30000'] = content('V', 600, 0, 8192)
    want['base/1/30000'] = (False, None)
    setup(e, 8192, files)
    e.run('stanza-create', online=False, ok=True)
    viol, keys, ev = [], set(), 0
    pg.copytree(e.repo(1), root + '/sav')
    e.ctl.reset()
    t0 = e.ctl.s.timeUs
    e.run('backup', type='full', online=False, ok=True)
    total = e.ctl.s.op
    for k in range(1 + lo, total + 1, n):
        pg.rmtree(e.repo(1))
        pg.copytree(root + '/sav', e.repo(1))
        e.ctl.reset()
        e.ctl.s.timeUs = t0
        e.ctl.fault(k, 4)
        e.run('backup', type='full', online=False)
        e.ctl.reset()
        e.advance(100)
        r = e.run('backup', type='full', online=False)
        ev += 1
        keys.add(core.h(('resume', st, k)))
        rep = repr((a, k))
        if r.rc:
            viol.append(('backup after interruption at operation %d fails: %r' % (k, r), rep))
        else:
            for l in bk.backups(e):
                expect(e, l, want, 'after interruption at operation %d' % k, viol, rep)
        if len(viol) > 3:
            break
    pg.rmtree(root)
    return dict(evals=ev, trans=ev, keys=keys, viol=viol[:4])


OUT = ('same', 'fixed', 'otherbad', 'zero', 'short', 'empty', 'gone')


def look2(a):
    """what the second look at an invalid page finds: unchanged page reported, changed one not, backup completes whatever it finds"""
    _, idx, st, seg, topo, cases = a
    root = core.scratch('l%d' % idx)
    e = pg.Env(root, ver='16')
    e.conf(**bk.store(*st), checksum_page='y')
    viol, keys, ev = [], set(), 0
    f = 'base/1/20000' + ('.%d' % seg if seg else '')
    off = seg * (SEG // 8192)
    setup(e, 8192, {f: b''})
    if topo == 'pg':
        remote.split(e, 'pg', **{'repo1-path': e.repo(1)})
    e.run('stanza-create', online=False, ok=True)
    for sts, outs in cases:
        pg.put(e.pg + '/' + f, content(sts, 0, seg, 8192), e.now() - 5000)
        todo = [i for i, s in enumerate(sts) if bad(s, seg, True)]
        exp = []
        for i, o in zip(todo, outs):
            if o == 'same':
                exp.append(off + i)
        seen = []

        def on(i, op, path):
            if op == 'openr' and path.endswith('/pg/' + f):
                seen.append(1)
                k = len(seen) - 2
                if 0 <= k < len(outs):
                    o, pgno = outs[k], todo[k]
                    p = e.pg + '/' + f
                    if o == 'gone':
                        os.unlink(p)
                    elif o in ('short', 'empty'):
                        os.truncate(p, pgno * 8192 + 100 if o == 'short' else 0)
                    elif o != 'same':
                        with open(p, 'r+b') as h:
                            h.seek(pgno * 8192)
                            h.write({'fixed': page('V', 8192, off + pgno, pgno), 'otherbad': page('X', 8192, off + pgno, pgno) if sts[pgno] != 'X' else page('C', 8192, off + pgno, pgno),
                                     'zero': bytes(8192)}[o])
            return 0
        env = e.environ()
        env['PGSHIM_SCHEDMATCH'] = '/pg/base/1/'
        r = sched.Run(root + '/sock', [(e.argv('backup', type='full', online=False), env)], cwd=e.root)
        r.go(lambda en, k: (0, 0), on_msg=on)
        ev += 1
        keys.add(core.h((st, seg, sts, outs)))
        rep = repr((a[:5], sts, outs))
        if r.rc[0]:
            viol.append(('backup fails when the second look at invalid pages of %s finds %r: %s' % (''.join(sts), outs, r.out[0][-300:]), rep))
        else:
            if len(seen) != 1 + len(todo) and 'gone' not in outs:
                viol.append(('pages looked at again: %d instead of %d' % (len(seen) - 1, len(todo)), rep))
            g = entries(e, bk.backups(e)[-1]).get('pg_data/' + f, {})
            got = (g.get('checksum-page'), g.get('checksum-page-error'))
            if got != (not exp, ranges(exp) or None):
                viol.append(('second look at pages of %s finding %r: recorded %r, expected errors %r' % (''.join(sts), outs, got, exp), rep))
        e.advance(100)
        if len(viol) > 3:
            break
    pg.rmtree(root)
    return dict(evals=ev, trans=ev, keys=keys, viol=viol[:4])


def job(a):
    return {'all': one, 'res': resume, 'look': look2}[a[0]](a)


def main():
    c = core.Check('P31', 'exploration')
    core.build()
    deep = c.thorough
    jobs = []
    full = 'VZBUOXSC'
    cfgs = [(8192, '1MiB', ()), (8192, '16KiB', ('bundle',)), (8192, '1MiB', ('block', 'zst')), (8192, '64KiB', ('gz', 'enc'))]
    for ps, buf, st in cfgs:
        for seg in (0, 1, 3, 32767):
            for head in (True, False):
                if not deep and (seg + head + cfgs.index((ps, buf, st))) % 2:
                    continue
                jobs.append(('all', len(jobs), ps, buf, st, seg, head, full if seg in (0, 1) else 'VBSX', 3 if deep or seg == 0 else 2, (1, 511, 512, 4096, ps - 1)))
    for ps in (1024, 2048, 4096, 16384, 32768):
        for buf in ('16KiB', '1MiB'):
            jobs.append(('all', len(jobs), ps, buf, (), 1, True, 'VZBS', 3 if deep else 2, (1, 511, 512, ps - 1)))
    for st in ((), ('bundle',), ('gz',)) + ((('block',), ('delta',), ('par',)) if deep else ()):
        for lo in range(4):
            jobs.append(('res', len(jobs), st, lo, 4))
    cases = []
    for sts in ('B', 'VB', 'BV', 'BB', 'BVB', 'BZB', 'XVC') + (('BBB', 'VBVB'),)[0:0]:
        todo = [i for i, s in enumerate(sts) if bad(s, 0, True)]
        for outs in itertools.product(OUT, repeat=len(todo)):
            # after the file is gone or cut nothing else can be found at later pages but its absence
            cut = False
            ok = True
            for o in outs:
                if cut and o not in ('gone', 'empty'):
                    ok = False
                if o in ('short', 'empty', 'gone'):
                    cut = True
            if 'gone' in outs and outs.index('gone') != len(outs) - 1:
                ok = False
            if ok:
                cases.append((sts, outs))
    for st, seg, topo in (((), 0, 'local'), (('bundle',), 1, 'local'), ((), 0, 'pg')):
        for lo in range(3):
            jobs.append(('look', len(jobs), st, seg, topo, cases[lo::3]))
    for r in core.pmap(job, jobs):
        c.merge(r)
    c.rule = ('every assignment of 8 page states to files of up to 3 pages x tails x segments {0,1,3,32767} x page sizes 1-32KiB x buffer sizes x storage formats, '
              'full/incr/diff; every interruption point of a backup; every outcome of the second look at each invalid page')
    c.assumptions = ['offline backups with checksum-page enabled', 'a file changes between the two looks only as enumerated']
    c.finish()


if __name__ == '__main__':
    main()
