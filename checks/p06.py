#!/usr/bin/env python3
"""P06: every history of backups over a cluster whose files go through every sequence of changes; each backup is restored and
compared with the cluster as it was."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pgb import core, pg, bk

# per step change of one file: keep, modify in place, touch, grow, shrink, empty, delete, revert to first content, chmod,
# older time stamp with new content, same size and time stamp with new content
BASE = 'KMTGSEDRP'
KINDS = [('base/1/', 3 * 8192), ('base/1/', 40000), ('pg_xact/', 0), ('', 10), ('base/5/', 6 * 8192 + 8192 * 8)]


class F:
    def __init__(self, path, size, seq, n):
        self.path, self.seq, self.n = path, seq, n
        self.v = 0
        self.data = bk.blob('%s.0' % n, size)
        self.first = self.data
        self.mtime = pg.T0 - 4000
        self.mode = 0o600
        self.there = True

    def step(self, a, t):
        self.v += 1
        if a == 'K':
            return
        if a == 'D':
            self.there = False
            return
        if not self.there:
            # the file comes back with other content
            self.there = True
            self.data = bk.blob('%s.%d' % (self.n, self.v), max(len(self.first), 1))
            self.mtime = t
            if a in 'KPT':
                pass
        elif a == 'M':
            d = bytearray(self.data)
            k = max(1, min(100, len(d) // 3))
            if d:
                d[len(d) // 2:len(d) // 2 + k] = bk.blob('m%s.%d' % (self.n, self.v), len(d[len(d) // 2:len(d) // 2 + k]))
            else:
                d = b'x'
            self.data = bytes(d)
        elif a == 'G':
            self.data += bk.blob('g%s.%d' % (self.n, self.v), 8192 + 5)
        elif a == 'S':
            self.data = self.data[:len(self.data) // 2]
        elif a == 'E':
            self.data = b''
        elif a == 'R':
            self.data = self.first
        elif a == 'P':
            self.mode = 0o640 if self.mode == 0o600 else 0o600
            return
        elif a in 'OZ':
            d = bytearray(self.data)
            if d:
                d[-1] ^= 1
                d[0] ^= 1
            self.data = bytes(d)
            if a == 'O':
                self.mtime -= 60
            return
        self.mtime = t

    def write(self, root):
        p = root + '/' + self.path
        if not self.there:
            if os.path.exists(p):
                os.unlink(p)
            return
        pg.put(p, self.data, self.mtime, self.mode)


def scenario(arg):
    idx, types, store, alphabet, kinds, opts = arg
    root = core.scratch('s%d' % idx)
    e = pg.Env(root)
    e.conf(**opts)
    e.cluster()
    steps = len(types) - 1
    files = []
    n = 0
    for seq in itertools.product(alphabet, repeat=steps):
        for k in kinds:
            d, sz = KINDS[k]
            f = F('%s%d' % (d, 20000 + n) if d.startswith('base') else '%sf%s.%d' % (d, ''.join(seq), n), sz, seq, n)
            files.append(f)
            n += 1
    for f in files:
        f.write(e.pg)
    os.makedirs(e.pg + '/empty_dir/sub', exist_ok=True)
    os.symlink('some/where', e.pg + '/pg_xact/rel_link') if False else None
    e.run('stanza-create', online=False, ok=True)
    snaps = []
    viol = []
    for i, t in enumerate(types):
        if i:
            e.advance(3600)
            for f in files:
                f.step(f.seq[i - 1], e.now() - 60)
                f.write(e.pg)
        want = bk.snap(e.pg)
        r = e.run('backup', type={'F': 'full', 'D': 'diff', 'I': 'incr'}[t], online=False)
        if r.rc:
            viol.append(('%s backup %d of history %s fails: %r' % (t, i, types, r), repr(arg)))
            break
        snaps.append(want)
    labels = bk.backups(e)
    if not viol and len(labels) != len(types):
        viol.append(('history %s lists backups %r' % (types, labels), repr(arg)))
    keys = set()
    for i, want in enumerate(snaps if len(labels) == len(types) else []):
        dest = root + '/r'
        r = bk.restore(e, dest, labels[i])
        if r.rc:
            viol.append(('restore of backup %d (%s) of history %s fails: %r' % (i, labels[i], types, r), repr(arg)))
            continue
        got = bk.snap(dest)
        df = pg.tree_diff(want, got)
        if df:
            fa = {f.path: ''.join(f.seq) for f in files}
            viol.append(('history %s store %r: backup %d (%s) restores to something else than the cluster was:\n%s' % (
                types, store, i, labels[i], '\n'.join(x + '  changes=' + fa.get(x.split(':')[0], '?') for x in df)), repr(arg)))
        keys.update(core.h((idx, i, f.path)) for f in files)
    pg.rmtree(root)
    return dict(evals=len(files) * len(types), trans=len(types), keys=keys, viol=viol[:4],
                samples=['%s %r %d files each its own change sequence over %s' % (types, store, len(files), alphabet)])


# ---- what is left out of a backup ------------------------------------------------------------------------------------------------
def exclusions(arg):
    """every path must be restored exactly or be absent, as the documentation says"""
    idx, ver, order = arg
    root = core.scratch('x%d' % idx)
    e = pg.Env(root, ver=ver)
    e.cluster()
    v = float(ver)
    wal, xact = ('pg_wal', 'pg_xact') if v >= 10 else ('pg_xlog', 'pg_clog')
    keep, drop = [], []
    D = bk.blob('d', 9000)
    for d in ('pg_dynshmem', 'pg_notify', 'pg_replslot', 'pg_serial', 'pg_snapshots', 'pg_stat_tmp', 'pg_subtrans'):
        drop += [d + '/f', d + '/sub/f']
    keep += ['pg_stat/f', 'pg_multixact/members/0000', 'pg_logical/mappings/x', 'pg_twophase/00000001', 'pg_commit_ts/0000', xact + '/0000']
    drop += ['pgsql_tmp/f', 'pgsql_tmpfoo', 'base/pgsql_tmp/pgsql_tmp1.1', 'base/1/pgsql_tmp.1']
    keep += ['recovery.signalx', 'mypgsql_tmp', 'base/1/apgsql_tmp', 'postgresql.conf', 'pg_hba.conf', 'base/1/PG_VERSION', 'base/1/pg_filenode.map']
    (drop if v >= 12 else keep).extend(['recovery.signal', 'standby.signal'])
    (keep if v >= 12 else drop).extend(['recovery.conf', 'recovery.done'])
    (drop if v >= 13 else keep).extend(['backup_manifest', 'backup_manifest.tmp'])
    drop += ['postgresql.auto.conf.tmp', 'backup_label.old', 'postmaster.opts']
    keep += ['base/postmaster.opts', 'base/1/backup_label.old', 'pg_stat/recovery.done']
    drop += ['global/pg_internal.init', 'base/1/pg_internal.init', 'base/1/pg_internal.init.1', 'base/1/pg_internal.init.123']
    keep += ['base/1/pg_internal.initx', 'base/1/pg_internal.init.a', 'base/1/pg_internal.init.', 'pg_internal.init']
    # temporary relations
    drop += ['base/1/t1_1', 'base/1/t1234_5678', 'base/1/t1234_5678.1', 'base/1/t1234_5678_fsm', 'base/1/t1234_5678_vm', 'base/1/t3_16384_fsm.1',
             'base/1/t9_1_vm.77']
    keep += ['base/1/t1', 'base/1/t1_', 'base/1/t_1', 'base/1/tt1_1', 'base/1/t1_1x', 'base/1/t1_1_', 'base/1/t1_1_xx', 'base/1/t1_1_fsm_', 'base/1/t1_1.',
             'base/1/t1_1.x', 'base/1/st1_1', 't1_1', xact + '/t1_1', 'base/1/t1_1_fsm.', 'base/1/t1_1_init']
    # unlogged relations: removed except for the init fork
    for o in ('base/1/100', 'base/1/20000', 'base/1/3000000000'):
        keep += [o + '_init', o + '_init.1']
        drop += [o, o + '.1', o + '_fsm', o + '_vm', o + '_fsm.1', o + '_vm.2']
    keep += ['base/1/101', 'base/1/101.1', 'base/1/101_fsm', 'base/1/10', 'base/1/1000', 'base/1/1000_vm', 'base/1/200000', 'base/1/2000', 'base/1/2000.1']
    # the same ids in other databases, in every adjacency: unlogged here, logged there
    for a, b in ((11, 12), (12, 13), (13, 14)):
        pass
    seqdb = order
    for i, flag in enumerate(seqdb):
        db = 'base/%d/' % (16500 + i)
        # flag: U = relation 777 unlogged, L = logged, N = not there
        if flag == 'U':
            keep.append(db + '777_init')
            drop += [db + '777', db + '777_vm']
        elif flag == 'L':
            keep += [db + '777', db + '777_vm', db + '777.1']
    drop += [wal + '/archive_status/x.ready'] if False else []
    for p in keep + drop:
        e.file(p, bk.blob(p, 9000 if p.startswith('base') else 30), pg.T0 - 3000)
    e.run('stanza-create', online=False, ok=True)
    want = bk.snap(e.pg)
    viol = []
    r = e.run('backup', type='full', online=False, ok=True)
    r = bk.restore(e, root + '/r', ok=True)
    got = bk.snap(root + '/r')
    for p in keep:
        if got.get(p) != want[p]:
            viol.append(('version %s: %s must be in a backup exactly, restored: %r' % (ver, p, got.get(p)), repr(arg)))
    for p in drop:
        if p in got:
            viol.append(('version %s: %s must not be in a backup' % (ver, p), repr(arg)))
    pg.rmtree(root)
    return dict(evals=len(keep) + len(drop), trans=2, keys=[core.h((ver, order, p)) for p in keep + drop], viol=viol[:6])


def main():
    c = core.Check('P06', 'exploration')
    core.build()
    jobs = []
    S = bk.store
    if not c.thorough:
        hist2 = ['FI', 'FD']
        confs = [('plain',), ('gz', 'bundle'), ('enc', 'block'), ('blockbig', 'zst'), ('hard', 'lz4'), ('delta', 'block', 'gz', 'enc'), ('delta',), ('bundle', 'par')]
        for s in confs:
            for t in ('FDI', 'FII'):
                al = BASE + ('Z' if 'delta' in s else '')
                jobs.append((t, s, al, (1, 2) if t == 'FDI' else (1,), S(*s)))
            jobs.append(('FID', s, BASE.replace('P', '') + 'O', (0,), S(*s)))
        for s in (('block', 'enc', 'zst'), ('plain',), ('bundle',)):
            jobs.append(('FIDI', s, 'KMGSDR', (0,), S(*s)))
            jobs.append(('FFII', s, 'KMSDR', (4,), S(*s)))
            jobs.append(('FI', s, BASE + 'O', (0, 1, 2, 3, 4), S(*s)))
    else:
        for comp in ('plain', 'gz', 'lz4', 'zst', 'bz2'):
            for enc in ((), ('enc',)):
                for st in ((), ('bundle',), ('block',), ('blockbig',), ('hard',)):
                    for de in ((), ('delta',)):
                        s = (comp,) + enc + st + de
                        al = BASE + ('Z' if de else '')
                        for t in ('FDI', 'FII', 'FID'):
                            jobs.append((t, s, al, (1, 2), S(*s)))
                        jobs.append(('FII', s, al + 'O', (0,), S(*s)))
                        if comp in ('plain', 'zst'):
                            jobs.append(('FIDI', s, 'KMGSDR', (0,), S(*s)))
                            jobs.append(('FIII', s, 'KMGSDRE', (0,), S(*s)))
                            jobs.append(('FIFII', s, 'KMSDR', (4,), S(*s)))
    jobs = [(i,) + j for i, j in enumerate(jobs)]
    for r in core.pmap(scenario, jobs):
        c.merge(r)
    vers = ['9.6', '12', '16'] if not c.thorough else list(pg.PG)
    orders = list(map(''.join, itertools.product('ULN', repeat=3)))
    xj = [(i, v, o) for i, (v, o) in enumerate((v, o) for v in vers for o in (orders if v == '16' or c.thorough else orders[:3]))]
    for r in core.pmap(exclusions, xj):
        c.merge(r)
    c.rule = 'all sequences over the change alphabet per file x backup histories x storage configurations; every backup of every history restored and compared; all exclusion rules x versions x adjacency of same-id relations'
    c.note(histories=len(jobs))
    c.assumptions = ['files that change without changing size or time stamp are covered only with checksum delta, as documented',
                     'offline backups (cluster does not change during copying; P09 covers that)']
    c.finish()


if __name__ == '__main__':
    main()
