#!/usr/bin/env python3
"""P22: parallel processing.  In process: the real executor, client and server with every completion order and failure assignment, and every
sequence of interleaved session operations.  With the real commands: every order in which their workers' results can be noticed, and the death
of a worker at every one of its operations."""
import os, re, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pgb import core, pg, bk, fsmodel
import p24

W = [pg.walname(1, n) for n in range(1, 9)]
DIRS = ('pg', 'repo', 'spool', 'lock', 'dst')


def base(e, store, backups=0, push=2):
    e.conf(**bk.store(*store))
    e.cluster({})
    for i, n in enumerate((9000, 20000, 3, 70000)):
        pg.put(e.pg + '/base/1/%d' % i, bk.blob(i, n), e.now() - 900)
    e.run('stanza-create', online=False, ok=True)
    os.makedirs(e.pg + '/pg_wal/archive_status', exist_ok=True)
    for n in range(1, 8):
        pg.put(e.pg + "/pg_wal/" + W[n], pg.wal(fill=n), e.now() - 900)
    for n in range(1, 1 + push):
        e.run('archive-push', e.pg + '/pg_wal/' + W[n], ok=True)
    for i in range(backups):
        e.run('backup', type='full' if i == 0 else 'incr', online=False, ok=True)
        e.advance(5000)
        pg.put(e.pg + '/base/1/2', bk.blob('n%d' % i, 19000), e.now() - 900)
        pg.put(e.pg + '/base/1/0', bk.blob('o%d' % i, 300), e.now() - 900)
        pg.put(e.pg + '/base/1/new%d' % i, bk.blob('w%d' % i, 500), e.now() - 900)


def manifest(e):
    lab = bk.backups(e)[-1]
    r = e.run('repo-get', 'backup/demo/%s/backup.manifest' % lab, ok=True)
    d = pg.parse_ini(r.out)
    out = {}
    for k, v in d['target:file'].items():
        out[k] = {x: y for x, y in v.items() if x not in ('bni', 'bno', 'repo-size', 'rck', 'timestamp')} if isinstance(v, dict) else v
    return out


def backup_look(e, r):
    out = {'files': manifest(e), 'n': len(bk.backups(e))}
    for lab in bk.backups(e):
        x = bk.restore(e, e.root + '/chk', lab)
        out[len(out)] = core.h(sorted(bk.snap(e.root + '/chk').items())) if x.rc == 0 else repr(x)
    v = e.run('verify', output='text')
    out['verify'] = (v.rc, 'status: ok' in v.out)
    # results are counted in the log: one line for each file copied, none twice
    names = re.findall(r'(?:backup|match|store zero-length|skip) file (\S+)', r.all)
    out['twice'] = sorted(n for n in set(names) if names.count(n) > 1)
    out['log'] = sorted(set(n.replace(e.root, '') for n in names))
    return out


def restore_look(e, r):
    out = {k: v for k, v in bk.snap(e.root + '/dst').items() if k not in ('.', '')}
    names = re.findall(r'(?:restore|zero) file (\S+)', r.all)
    out['twice'] = sorted(n for n in set(names) if names.count(n) > 1)
    return out


def dirty(e):
    bk.restore(e, e.root + '/dst', bk.backups(e)[0], ok=True)
    pg.put(e.root + '/dst/base/1/1', b'zz')
    pg.put(e.root + '/dst/base/1/3', bk.blob('other', 70000))
    pg.put(e.root + '/dst/base/1/extra', b'zz')


def damage(e):
    """damage of each kind, to be found whatever worker meets it"""
    bd = e.repo(1) + '/backup/demo/' + bk.backups(e)[0] + '/pg_data/base/1'
    for n, f in enumerate(sorted(os.listdir(bd))[:2]):
        p = bd + '/' + f
        d = open(p, 'rb').read()
        if n:
            pg.put(p, d[:-3] + b'zzz')
        else:
            os.unlink(p)
    for d, _, fn in os.walk(e.repo(1) + '/archive/demo/16-1'):
        for f in fn:
            if f.startswith(W[2]):
                pg.put(d + '/' + f, open(d + '/' + f, 'rb').read()[:-5] + b'zzzzz')


def ready(e, bad=False):
    os.makedirs(e.root + '/spool/archive/demo/out')
    for n in (3, 4, 5, 6):
        pg.put(e.pg + '/pg_wal/archive_status/' + W[n] + '.ready', b'')
    if bad:
        pg.put(e.pg + '/pg_wal/' + W[4], pg.wal(fill=4, sysid=5))


def push_look(e, r):
    out = {}
    d = e.root + '/spool/archive/demo/out'
    for f in sorted(os.listdir(d)):
        if f.endswith('.ok'):
            s = f[:-3]
            g = e.root + '/g'
            if os.path.exists(g):
                os.unlink(g)
            x = e.run('archive-get', s, g)
            out[f] = (x.rc, core.h(open(g, 'rb').read()) if x.rc == 0 else '')
        else:
            out[f] = f.split('.')[-1]
    return out


def push_check(e, got, ref, r):
    err = [k for k in got if k.endswith('.error')]
    for k, v in got.items():
        if k.endswith('.ok') and v != (0, core.h(open(e.pg + '/pg_wal/' + k[:-3], 'rb').read())):
            return 'acknowledged %s is %r' % (k, v)
    for n in (3, 4, 5, 6):
        # segments after a failed one are left for the next run
        if W[n] + '.ok' not in got and not err and r.rc == 0:
            return '%s neither acknowledged nor reported' % W[n]
    for k in ref:
        if k.endswith('.error') and not err:
            return '%s not reported' % k


def get_look(e, r):
    d = e.root + '/spool/archive/demo/in'
    return {f: core.h(open(d + '/' + f, 'rb').read()) if not f.endswith('.error') else '' for f in sorted(os.listdir(d))}


def get_check(e, got, ref, r):
    for k, v in got.items():
        if k in W and v != ref.get(k):
            return 'queued segment %s is not the archived one' % k
        if k.endswith('.ok') and k not in ref:
            return '%s reported as missing' % k
    if r.rc == 0 and not any(f.endswith('.error') for f in got) and got != ref:
        return 'queue is %s instead of %s' % (sorted(got), sorted(ref))


def same(e, got, ref, r):
    """a successful run did what it does with one worker"""
    if r.rc == 0 and got != ref:
        ks = [k for k in sorted(set(got) | set(ref), key=str) if got.get(k) != ref.get(k)]
        return 'outcome differs from that with one worker: %s' % '; '.join('%s: %s instead of %s' % (k, str(got.get(k))[:150], str(ref.get(k))[:150]) for k in ks[:3])


def vlook(e, r):
    return {'out': sorted(re.sub(r'^.*?(INFO|WARN|ERROR|P\d+)\S*:? *', '', x).replace(e.root, '') for x in r.out.split('\n') if 'command' not in x)}


def vsame(e, got, ref, r):
    if r.rc == 0 and got != ref and 'rror' not in r.out:
        return 'outcome differs from that with one worker'


S = {
    'backup': (lambda e: base(e, ()), lambda e: e.run('backup', type='full', online=False, log_level_console='detail'), backup_look, same),
    'backup-bundle': (lambda e: base(e, ('bundle', 'gz')), lambda e: e.run('backup', type='full', online=False, log_level_console='detail'), backup_look, same),
    'backup-incr-block': (lambda e: base(e, ('blockbig', 'zst', 'enc'), 1), lambda e: e.run('backup', type='incr', online=False, log_level_console='detail'), backup_look, same),
    'backup-incr-hard': (lambda e: base(e, ('hard', 'delta'), 1), lambda e: e.run('backup', type='incr', online=False, log_level_console='detail'), backup_look, same),
    'restore': (lambda e: (base(e, ('gz',), 2), os.makedirs(e.root + '/dst', mode=0o700)), lambda e: e.run('restore', type='preserve', pg1_path=e.root + '/dst', log_level_console='detail'), restore_look, same),
    'restore-delta': (lambda e: (base(e, ('block',), 2), dirty(e)), lambda e: e.run('restore', '--delta', type='preserve', pg1_path=e.root + '/dst', log_level_console='detail'), restore_look, same),
    'verify': (lambda e: (base(e, (), 2), damage(e)), lambda e: e.run('verify', '--verbose', output='text'), vlook, vsame),
    'push': (lambda e: (base(e, ('gz',)), ready(e)), lambda e: e.run('archive-push:async', e.pg + '/pg_wal', archive_async=True), push_look, push_check),
    'push-bad': (lambda e: (base(e, ()), ready(e, True)), lambda e: e.run('archive-push:async', e.pg + '/pg_wal', archive_async=True), push_look, push_check),
    'get': (lambda e: (base(e, ('gz',), 0, 4), os.makedirs(e.root + '/spool/archive/demo/in')),
            lambda e: e.run('archive-get:async', *W[1:6], archive_async=True), get_look, get_check),
}


class World:
    def __init__(self, name, root):
        self.setup, run, self.look, self.check = S[name]
        self.run = lambda e: run(e)
        e = self.e = pg.Env(root + '/w')
        e.extra_env['MALLOC_PERTURB_'] = '85'
        self.setup(e)
        self.t0 = e.ctl.s.timeUs
        self.sav = root + '/sav'
        for d in DIRS:
            if os.path.exists(e.root + '/' + d):
                pg.copytree(e.root + '/' + d, self.sav + '/' + d)
        e.conf(process_max='1')
        self.reset()
        r = self.run(e)
        if r.rc:
            raise pg.Unexpected('%s fails with one worker: %r' % (name, r))
        self.ref = self.look(e, r)

    def reset(self):
        e = self.e
        for d in DIRS:
            if os.path.lexists(e.root + '/' + d):
                pg.rmtree(e.root + '/' + d)
            if os.path.exists(self.sav + '/' + d):
                pg.copytree(self.sav + '/' + d, e.root + '/' + d)
        e.ctl.reset()
        e.ctl.s.timeUs = self.t0


def order(a):
    """every completion order: depth first over the choices at each wait for results"""
    _, name, idx, pm, cap, lo, n = a
    root = core.scratch('o%d' % idx)
    w = World(name, root)
    e = w.e
    e.conf(process_max=str(pm))
    viol, keys, ev, trans = [], set(), 0, 0
    cho = [lo] if n > 1 else []
    depth0 = len(cho)
    while ev < cap and not viol:
        w.reset()
        s = e.ctl.s
        for i in range(160):
            s.sel[i] = cho[i] if i < len(cho) else 0
        s.selOn = 1
        r = w.run(e)
        ln = min(int(s.selPos), 160)
        alts = [int(s.selN[i]) for i in range(ln)]
        taken = [int(s.sel[i]) for i in range(ln)]
        e.ctl.reset()
        if depth0 and (ln == 0 or lo >= alts[0]):
            break
        ev += 1
        trans += ln
        keys.add(core.h((name, pm, taken)))
        got = w.look(e, r) if r.rc == 0 else {}
        bad = 'fails: %r' % r if r.rc else w.check(e, got, w.ref, r) or (None if name == 'push-bad' else same(e, got, w.ref, r))
        if bad:
            viol.append(('%s with %d workers, results noticed in order %s of %s: %s' % (name, pm, taken, alts, bad), repr((a, taken))))
        while len(taken) > depth0 and taken[-1] + 1 >= alts[len(taken) - 1]:
            taken.pop()
        if len(taken) <= depth0:
            break
        taken[-1] += 1
        cho = taken
    pg.rmtree(root)
    return dict(evals=ev, trans=trans, keys=keys, viol=viol)


def death(a):
    """every operation in turn is the last one of the process which runs it; one of the main process ends the command and is not judged"""
    _, name, idx, pm, kind, lo, n = a
    root = core.scratch('d%d' % idx)
    w = World(name, root)
    e = w.e
    e.conf(process_max=str(pm))
    viol, keys, ev = [], set(), 0
    w.reset()
    log = root + '/log'
    e.ctl.s.selOn = 1
    r = w.run(e)
    total = e.ctl.s.op if kind == 'w' else e.ctl.s.rop
    for k in range(1 + lo, total + 1, n):
        w.reset()
        if kind == 'w':
            e.ctl.fault(k, 2)
        else:
            e.ctl.rfault(k, 2)
        e.ctl.s.selOn = 1
        r = w.run(e)
        hit = e.ctl.s.faultHit or e.ctl.s.rfaultHit
        e.ctl.reset()
        if not hit or r.rc == -9:
            continue
        ev += 1
        keys.add(core.h((name, pm, kind, k)))
        try:
            bad = 'dies with %d' % r.rc if r.rc < 0 else w.check(e, w.look(e, r), w.ref, r) if r.rc == 0 or name.startswith(('push', 'get')) else None
        except (pg.Unexpected, ValueError, OSError, KeyError) as x:
            bad = 'repository is not usable afterwards: %s' % x
        if bad:
            viol.append(('%s with %d workers, one killed at operation %d (%s): %s' % (name, pm, k, kind, bad), repr((a, k))))
    pg.rmtree(root)
    return dict(evals=ev, trans=ev, keys=keys, viol=viol[:3])


def job(a):
    return {'order': order, 'death': death, 'mem': lambda a: p24.job(a[1:])}[a[0]](a)


def main():
    c = core.Check('P22', 'model_checking')
    exe = core.build().harness('par.c')
    os.chmod(exe, 0o755)
    jobs = []
    th = c.thorough
    for name in S:
        for pm, cap in ((2, 600 if th else 40), (3, 1500 if th else 40)):
            if pm == 3 and not th and name not in ('backup-bundle', 'push', 'restore-delta'):
                continue
            na = 2 ** pm - 1
            for lo in range(na):
                jobs.append(('order', name, len(jobs), pm, cap // na + 1, lo, na))
        for kind in 'wr':
            n = 4 if th else 2
            for lo in range(n):
                jobs.append(('death', name, len(jobs), 2, kind, lo if th else lo * 3, n if th else (5 if name.startswith('backup') else 4)))
    for mode in ('par', 'ses'):
        jobs += [('mem', exe, mode, i, 32, th) for i in range(32)]
    for r in core.pmap(job, jobs):
        c.merge(r)
    c.rule = ('in process: every assignment of {result, big result, error, error once, error always, death before or within the answer} to up to 4 (thorough 5) jobs x 1-3 workers x '
              'hand-out policies x retries x every order and grouping of completions; every sequence of 6 (thorough 8) operations {open, request, failing request, closing request, '
              'close, free, read answer, plain request} on 2-3 interleaved sessions; commands: orders of noticing the results of 2-3 workers (depth first, capped) and a worker killed at '
              'each of its operations x %d command scenarios' % len(S))
    c.sample('par: 3 workers, 4 jobs o e d o; each nonempty subset of finished workers reported by each wait')
    c.sample('ses: O0 Q0 O1 F0 C1 p0: session freed while another session has stored its answer')
    c.assumptions = ['a job is not interrupted by the death of the main process', 'completion orders of commands are explored up to the cap given in the rule']
    c.finish()


if __name__ == '__main__':
    main()
