#!/usr/bin/env python3
"""P39: check against every combination of cluster settings, stanza states and fates of the switched WAL segment in every repository, for
all topologies of primary and standby and several stanzas. What check says is compared with what the state means and with what a backup
started in the same state does."""
import itertools, os, shutil, sys, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pgb import core, pg, bk, fakepg

SYS = 1000000000000000094
INFO = ['good', 'noarch', 'nobackup', 'sys', 'ver', 'arcsys', 'baksys', 'upg', 'onecopy', 'arcold', 'swapped']
WAL = ['P', 'M', 'L', 'x', 't', 'c', 'd', 'n']
GOODI, GOODW = ('good', 'upg', 'onecopy'), ('P', 'L')


def arch(e, seg, fill, repo, aid, suffix='', stanza='demo'):
    import hashlib
    data = pg.wal(e.ver, e.sysid, e.seg, fill)
    pg.put('%s/archive/%s/%s/%s/%s%s-%s' % (e.repo(repo), stanza, aid, seg[:16], seg, suffix, hashlib.sha1(data).hexdigest()), data, mode=0o640)


def library(root):
    """directories with the repository of each kind of stanza"""
    def mk(name, *steps):
        x = pg.Env(root + '/lib-' + name)
        for i, (ver, sysid) in enumerate(steps):
            x.ver, x.sysid = ver, sysid
            pg.rmtree(x.pg)
            os.makedirs(x.pg)
            x.cluster()
            x.run('stanza-create' if i == 0 else 'stanza-upgrade', online=False, ok=True)
        return x.repo()
    good, other, ver = mk('good', ('16', SYS)), mk('sys', ('16', SYS + 1)), mk('ver', ('15', SYS))
    upg = mk('upg', ('16', SYS + 1), ('16', SYS))
    swapped = mk('swapped', ('16', SYS), ('16', SYS + 1))
    return dict(good=good, sys=other, ver=ver, upg=upg, swapped=swapped)


def setinfo(e, lib, r, st):
    """bring the stanza in repository r into a state; returns the archive id in use"""
    pg.rmtree(e.repo(r))
    shutil.copytree(lib.get(st, lib['good']), e.repo(r))
    b = e.repo(r)
    if st in ('noarch', 'nobackup'):
        d = b + ('/archive/demo/archive.info' if st == 'noarch' else '/backup/demo/backup.info')
        for s in ('', '.copy'):
            os.unlink(d + s)
    if st in ('arcsys', 'baksys', 'arcold'):
        n = '/archive/demo/archive.info' if st != 'baksys' else '/backup/demo/backup.info'
        for s in ('', '.copy'):
            shutil.copy((lib['upg'] if st == 'arcold' else lib['sys']) + n + s, b + n + s)
    if st == 'onecopy':
        for n in ('/archive/demo/archive.info', '/backup/demo/backup.info.copy'):
            x = bytearray(open(b + n, 'rb').read())
            x[len(x) // 2] ^= 1
            open(b + n, 'wb').write(x)
    return '16-2' if st == 'upg' else '16-1'


def attach(e, p, repos, fates, aids, done, threads, stanza='demo'):
    """what happens to the segment the cluster switches away from"""
    def put(r, st):
        n = p.current // e.seg
        nm = p.segname(p.current)
        if st == 'P':
            arch(e, nm, n, r, aids[r], stanza=stanza)
        elif st == 'x':
            arch(e, nm, n, r, aids[r], '.partial', stanza=stanza)
        elif st == 't':
            arch(e, pg.walname(p.tli + 1, n, e.seg), n, r, aids[r], stanza=stanza)
        elif st == 'c':
            arch(e, nm, n, r, '16-1' if aids[r] == '16-2' else '16-2', stanza=stanza)
        elif st == 'd':
            arch(e, nm, n, r, aids[r], stanza=stanza)
            arch(e, nm, n + 7777, r, aids[r], stanza=stanza)
        elif st == 'n':
            for k in (n - 1, n + 1):
                arch(e, pg.walname(p.tli, k, e.seg), k, r, aids[r], stanza=stanza)

    def on_switch(_):
        t0 = e.ctl.s.timeUs
        late = []
        for r in repos:
            if fates[r] == 'L':
                late.append(r)
            else:
                put(r, fates[r])
        if late:
            def f():
                while e.ctl.s.timeUs < t0 + 1500000 and not done.is_set():
                    time.sleep(0.0005)
                for r in late:
                    put(r, 'P')
            t = threading.Thread(target=f, daemon=True)
            threads.append(t)
            t.start()
    p.on_switch = on_switch


def one(arg):
    """chunk of (mode, modecheck, command, path, version, infos, fates)"""
    idx, cases = arg
    root = core.scratch('c%d' % idx)
    viol, keys, n = [], set(), 0
    lib = library(root)
    for mode, mcheck, cmd, path, ver, infos, fates, other in cases:
        R = range(1, len(infos) + 1)
        w = root + '/w'
        pg.rmtree(w)
        e = pg.Env(w, repos=len(infos))
        e.cluster({'base/1/1': bk.blob(1, 5000)})
        os.makedirs(e.pg + '/pg_wal', exist_ok=True)
        if not other.get('vermatch', True):
            e.ver = '15'
        aids = {r: setinfo(e, lib, r, infos[r - 1]) for r in R}
        p = fakepg.FakePg(e)
        p.archive_mode = mode
        p.archive_command = {'pgb': e.bin + ' archive-push %p', 'other': 'cp %p /x', 'none': ''}[cmd]
        if path == 'other':
            p.pgpath = e.pg + '2'
        done, threads = threading.Event(), []
        attach(e, p, R, {r: fates[r - 1] for r in R}, aids, done, threads)
        e.ver = '16' if ver == 'same' else '15'
        srv = fakepg.Server(e, p)
        before = {r: pg.tree(e.repo(r)) for r in R}, pg.tree(e.pg)
        opt = dict(archive_timeout='20')
        if not mcheck:
            opt['archive_mode_check'] = False
        try:
            r = e.run('check', **opt)
        finally:
            done.set()
            for t in threads:
                t.join()
        n += 1
        switched = any('pg_switch' in q for q in p.log)
        desc = 'check with archive_mode=%s (checked: %s), archive_command %s, data_directory %s, server version %s, stanzas %r, fate of the segment %r' % (
            mode, mcheck, cmd, path, ver, infos, fates)
        keys.add(core.h((mode, mcheck, cmd, path, ver, infos, fates)))
        cfgok = mode != 'off' and (mode != 'always' or not mcheck) and cmd == 'pgb' and path == 'same' and ver == 'same'
        infok = all(i in GOODI for i in infos)
        want = cfgok and infok and all(f in GOODW for f in fates)
        if (r.rc == 0) != want:
            viol.append(('%s: must %s' % (desc, 'succeed' if want else 'fail'), repr(r)))
        if r.rc and 'ERROR' not in r.all:
            viol.append(('%s: fails without an error message' % desc, repr(r)))
        if switched and not (cfgok and infok):
            viol.append(('%s: a WAL segment was switched although the configuration is wrong' % desc, repr(r)))
        if not switched and cfgok and infok:
            viol.append(('%s: nothing was archived to check' % desc, repr(r)))
        # nothing else is changed
        after = {r2: {k: v for k, v in pg.tree(e.repo(r2)).items() if 'archive/demo/16' not in k} for r2 in R}, pg.tree(e.pg)
        b0 = {r2: {k: v for k, v in t.items() if 'archive/demo/16' not in k} for r2, t in before[0].items()}, before[1]
        if after != b0:
            viol.append(('%s: check changed something' % desc, ''))
        srv.close()
        # a backup of what check approved of works, with settings it refused it does not
        if r.rc == 0 or not cfgok:
            for rr in R:
                q = fakepg.FakePg(e)
                q.archive_mode, q.archive_command, q.pgpath = p.archive_mode, p.archive_command, p.pgpath

                def on_stop(_, rr=rr):
                    for k in range(q.start // e.seg, q.stop // e.seg + 1):
                        arch(e, pg.walname(1, k, e.seg), k, rr, aids[rr])
                q.on_stop = on_stop
                if path == 'same':
                    pg.put(e.pg + '/global/pg_control', pg.control('16', SYS), pg.T0 - 10000)
                arch(e, q.segname(q.current), q.current // e.seg, rr, aids[rr])
                srv = fakepg.Server(e, q)
                x = e.run('backup', type='full', start_fast=True, repo=str(rr), **opt)
                srv.close()
                n += 1
                if (x.rc == 0) != (r.rc == 0):
                    viol.append(('%s: check gives rc=%d but a backup to repository %d rc=%d' % (desc, r.rc, rr, x.rc), repr(r) + repr(x)))
        if len(viol) > 4:
            break
    pg.rmtree(root)
    return dict(evals=n, trans=n, keys=keys, viol=viol[:4], samples=[repr(cases[0])])


def topo(arg):
    """primary, standby, unreachable or foreign server at each of two or three pg-paths x backup from standby x where the segment goes"""
    idx, cases = arg
    root = core.scratch('t%d' % idx)
    viol, keys, n = [], set(), 0
    for kinds, standbyopt, fate in cases:
        w = root + '/w'
        pg.rmtree(w)
        e = pg.Env(w)
        e.cluster()
        e.run('stanza-create', online=False, ok=True)
        pgs = []
        for i, k in enumerate(kinds):
            d = e.pg if i == 0 else e.root + '/pg%d' % (i + 1)
            sid = SYS + 5 if 'foreign' in k else SYS
            pg.put(d + '/PG_VERSION', b'16\n')
            pg.put(d + '/global/pg_control', pg.control('16', sid))
            if i:
                e.sopts['pg%d-path' % (i + 1)] = d
            e.sopts['pg%d-port' % (i + 1)] = str(5432 + i)
            p = fakepg.FakePg(e, port=5432 + i, pgpath=d, standby='standby' in k)
            if k == 'down':
                p.connect_error = 'no route'
            pgs.append(p)
        e.conf(backup_standby=standbyopt)
        done, threads = threading.Event(), []
        for p, k in zip(pgs, kinds):
            attach(e, p, [1], {1: fate}, {1: '16-1'}, done, threads)
        srv = fakepg.Server(e, *pgs)
        r = e.run('check', archive_timeout='20')
        done.set()
        for t in threads:
            t.join()
        srv.close()
        n += 1
        keys.add(core.h((kinds, standbyopt, fate)))
        desc = 'check of servers %r, backup-standby=%s, fate of the segment %s' % (kinds, standbyopt, fate)
        prim = [k for k in kinds if k.startswith('primary')]
        stand = [k for k in kinds if k.startswith('standby')]
        sw = [i for i, p in enumerate(pgs) if any('pg_switch' in q for q in p.log)]
        bad = None
        if len(prim) != 1:
            bad = 'there is not exactly one primary'
        elif 'foreign' in prim[0]:
            bad = 'the primary is not the cluster of the stanza'
        elif stand and 'foreign' in stand[0]:
            bad = 'the standby is not of the cluster of the stanza'
        elif fate not in GOODW:
            bad = 'the segment is not archived'
        if bad and r.rc == 0:
            viol.append(('%s: succeeds although %s' % (desc, bad), repr(r)))
        if not bad and r.rc != 0:
            viol.append(('%s: fails' % desc, repr(r)))
        if any(not kinds[i].startswith('primary') for i in sw):
            viol.append(('%s: WAL switched on a standby' % desc, repr(r)))
        if not bad and not sw:
            viol.append(('%s: no segment was switched' % desc, repr(r)))
        if not bad and 'down' in kinds and 'WARN' not in r.all:
            viol.append(('%s: the unreachable server is not mentioned' % desc, repr(r)))
        if not bad and standbyopt != 'n' and not stand and 'WARN' not in r.all:
            viol.append(('%s: backup from standby is configured without a standby but nothing is said' % desc, repr(r)))
        if len(viol) > 4:
            break
    pg.rmtree(root)
    return dict(evals=n, trans=n, keys=keys, viol=viol[:4], samples=[repr(cases[0])])


def stanzas(arg):
    """check without a stanza looks at all of them: it succeeds exactly when each is fine"""
    idx, cases = arg
    root = core.scratch('z%d' % idx)
    viol, keys, n = [], set(), 0
    for fates in cases:
        w = root + '/w'
        pg.rmtree(w)
        e = pg.Env(w)
        e.cluster()
        e.run('stanza-create', online=False, ok=True)
        names = ['demo', 'demo2', 'other'][:len(fates)]
        pgs, txt = [], ''
        done, threads = threading.Event(), []
        for i, (nm, f) in enumerate(zip(names, fates)):
            d = e.pg if i == 0 else e.root + '/pg%d' % (i + 1)
            pg.put(d + '/PG_VERSION', b'16\n')
            pg.put(d + '/global/pg_control', pg.control('16', SYS))
            if i:
                txt += '\n[%s]\npg1-path=%s\npg1-port=%d\n' % (nm, d, 5432 + i)
                for x in ('archive', 'backup'):
                    shutil.copytree(e.repo() + '/%s/demo' % x, e.repo() + '/%s/%s' % (x, nm))
            p = fakepg.FakePg(e, port=5432 + i, pgpath=d)
            attach(e, p, [1], {1: f if f in WAL else 'P'}, {1: '16-1'}, done, threads, stanza=nm)
            if f == 'down':
                p.connect_error = 'no route'
            pgs.append(p)
        for nm, f in zip(names, fates):
            if f == 'gone':
                pg.rmtree(e.repo() + '/archive/' + nm)
        p = open(e.root + '/pgbackrest.conf').read()
        open(e.root + '/all.conf', 'w').write(p + txt)
        srv = fakepg.Server(e, *pgs)
        r = e.run('check', archive_timeout='20', stanza_opt=False, config=e.root + '/all.conf')
        done.set()
        for t in threads:
            t.join()
        srv.close()
        n += 1
        keys.add(core.h(fates))
        want = all(f in GOODW for f in fates)
        if (r.rc == 0) != want:
            viol.append(('check of all stanzas %r: must %s' % (fates, 'succeed' if want else 'fail'), repr(r)))
        if want and not all(any('pg_switch' in q for q in x.log) for x in pgs):
            viol.append(('check of all stanzas %r: a stanza was left out' % (fates,), repr(r)))
    pg.rmtree(root)
    return dict(evals=n, trans=n, keys=keys, viol=viol[:4], samples=[repr(cases[0])])


def main():
    c = core.Check('P39', 'exploration')
    core.build()
    T = c.thorough
    cases = []
    for mode, mc, cmd, path, ver in itertools.product(('on', 'off', 'always'), (True, False), ('pgb', 'other', 'none'), ('same', 'other'), ('same', 'other')):
        cases.append((mode, mc, cmd, path, ver, ('good',), ('P',), {}))
    for infos in itertools.product(INFO, repeat=2):
        cases.append(('on', True, 'pgb', 'same', 'same', infos, ('P', 'P'), {}))
    for fates in itertools.product(WAL, repeat=2):
        cases.append(('on', True, 'pgb', 'same', 'same', ('good', 'good'), fates, {}))
    for i in INFO:
        for f in WAL:
            cases.append(('on', True, 'pgb', 'same', 'same', (i,), (f,), {}))
    if T:
        for infos in itertools.product(('good', 'upg', 'onecopy'), repeat=2):
            for fates in itertools.product(WAL, repeat=2):
                cases.append(('on', True, 'pgb', 'same', 'same', infos, fates, {}))
        for infos in itertools.product(INFO, repeat=3):
            cases.append(('on', True, 'pgb', 'same', 'same', infos, ('P', 'P', 'P'), {}))
        for fates in itertools.product(WAL, repeat=3):
            cases.append(('always', False, 'pgb', 'same', 'same', ('good', 'upg', 'good'), fates, {}))
        for mode, cmd, path, i, f in itertools.product(('on', 'off'), ('pgb', 'other'), ('same', 'other'), INFO, WAL):
            cases.append((mode, True, cmd, path, 'same', (i,), (f,), {}))
    cases = list({repr(x): x for x in cases}.values())
    k = max(4, len(cases) // 48)
    for r in core.pmap(one, [(i, cases[i * k:i * k + k]) for i in range((len(cases) + k - 1) // k)]):
        c.merge(r)
    c.phase('settings, stanzas and segments (%d)' % len(cases))
    kinds = ('primary', 'standby', 'down', 'primary-foreign', 'standby-foreign')
    tc = [(ks, so, f) for nn in ((1, 2, 3) if T else (1, 2)) for ks in itertools.product(kinds, repeat=nn) for so in ('n', 'y', 'prefer') for f in ('P', 'M', 'L')]
    k = max(4, len(tc) // 32)
    for r in core.pmap(topo, [(i, tc[i * k:i * k + k]) for i in range((len(tc) + k - 1) // k)]):
        c.merge(r)
    c.phase('topologies (%d)' % len(tc))
    zc = [z for nn in (1, 2, 3) for z in itertools.product(('P', 'M', 'L', 'gone', 'down'), repeat=nn)]
    k = 8
    for r in core.pmap(stanzas, [(i, zc[i * k:i * k + k]) for i in range((len(zc) + k - 1) // k)]):
        c.merge(r)
    c.phase('stanzas (%d)' % len(zc))
    c.rule = 'all combinations of cluster settings, of stanza states per repository, of fates of the switched segment per repository, of server topologies and of stanzas; every verdict compared with what a backup does'
    c.assumptions = ['PostgreSQL is a scripted server behind a libpq stand-in', 'the archiver runs between the switch and the timeout, or not at all']
    c.finish()


if __name__ == '__main__':
    main()
