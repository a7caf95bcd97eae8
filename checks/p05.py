#!/usr/bin/env python3
"""P05: crash points of every command that rewrites info files; every single-byte damage and truncation of each copy."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pgb import core, pg, bk, fsmodel

ENC = dict(repo1_cipher_type='aes-256-cbc', repo1_cipher_pass='abcdefgh')


def view(e, repos=1):
    """what the tool says about the stanza, without what legitimately varies"""
    r = e.run('info', output='json')
    if r.rc != 0:
        return ('rc', r.rc, r.all[-400:])
    j = json.loads(r.out, strict=False)      # an error message quotes the damaged bytes
    if not j:
        return ('none',)
    s = j[0]
    return json.dumps(dict(backup=[(b['label'], b['type'], b['reference'], b['info']['size'], b.get('annotation'), b['database']) for b in s['backup']],
                           db=[(d['id'], d['repo-key'], d['system-id'], d['version']) for d in s['db']], code=s['status']['code'],
                           cipher=s['cipher']), sort_keys=True)


def prepare(e, what):
    e.cluster({'base/1/100': b'x' * 3000})
    if what == 'stanza-create':
        return
    e.run('stanza-create', online=False, ok=True)
    if what in ('stanza-upgrade',):
        e.run('backup', type='full', online=False, ok=True)
        e.ver = '17'
        e.sysid = 1000000000000000095
        pg.put(e.pg + '/global/pg_control', pg.control('17', e.sysid))
        pg.put(e.pg + '/PG_VERSION', b'17\n')
        return
    if what == 'backup-first':
        return
    e.run('backup', type='full', online=False, ok=True)
    e.advance(60)
    if what in ('expire', 'annotate', 'diff'):
        e.run('backup', type='full', online=False, ok=True)
        e.advance(60)


def command(e, what, log=None):
    if what in ('stanza-create', 'stanza-upgrade'):
        return e.run(what, online=False, log=log)
    if what in ('backup-first', 'backup'):
        return e.run('backup', type='full', online=False, log=log)
    if what == 'diff':
        pg.put(e.pg + '/base/1/101', b'y' * 2000)
        return e.run('backup', type='diff', online=False, log=log)
    if what == 'expire':
        return e.run('expire', repo1_retention_full='1', log=log)
    if what == 'annotate':
        return e.run('annotate', set=bk.backups(e)[0], annotation='who=me', log=log)


def crash(arg):
    idx, what, opts, repos = arg
    viol, keys, n, trans = [], set(), 0, 0
    root = core.scratch('c%d' % idx)
    e = pg.Env(root + '/w', repos=repos)
    e.conf(**opts)
    prepare(e, what)
    before = view(e)
    fs = fsmodel.FS(e.root)
    r = command(e, what, log=root + '/log')
    if r.rc:
        return dict(evals=1, viol=[('%s fails: %r' % (what, r), '')])
    after = view(e)
    ops = fsmodel.read_log(root + '/log')
    if before == after and what not in ('backup', 'diff'):
        viol.append(('%s does not change what info shows: %s' % (what, before), ''))
    seen = set()
    for k, v, snap, key in fsmodel.crash_states(e.root, fs, ops):
        trans += 1
        ik = core.h(sorted((p, x[1] if x[0] == 'file' and '.info' in p else x[0]) for p, x in snap.items() if '/repo' in p))
        if ik in seen:
            continue
        seen.add(ik)
        keys.add(core.h((idx, ik)))
        rr = root + '/r'
        pg.rmtree(rr)
        e2 = pg.Env(rr, repos=repos)
        e2.ver, e2.sysid = e.ver, e.sysid
        e2.conf(**opts)
        e2.ctl.s.timeUs = e.ctl.s.timeUs
        fsmodel.materialise(snap, e.root, rr, only=['repo', 'repo2', 'pg'])
        n += 1
        got = view(e2)
        op = '%s %s' % (ops[k - 1]['op'], ops[k - 1]['path'].replace(e.root, '')) if k else 'start'
        desc = '%s %r: crash (%s) after operation %d (%s)' % (what, opts, v, k, op)
        if got not in (before, after):
            part = what in ('stanza-create', 'stanza-upgrade')
            # creating and upgrading touch two files (in two repositories); in between the tool reports the stanza as incomplete but
            # never as something else
            if not part or (got[0] == 'rc' and got[1] == 25):
                viol.append(('%s: info shows neither the state before nor after: %r' % (desc, got), 'before=%r\nafter=%r' % (before, after)))
        if what == 'stanza-create':
            # may be refused because of what is left over (never with a result other than the complete stanza)
            if command(e2, what).rc == 0 and view(e2) != after:
                viol.append(('%s: repeating the command leads to %r instead of %r' % (desc, view(e2), after), ''))
        elif what in ('stanza-upgrade', 'expire', 'annotate'):
            r2 = command(e2, what)
            if r2.rc:
                viol.append(('%s: repeating the command fails: %r' % (desc, r2), ''))
            elif view(e2) != after:
                viol.append(('%s: repeating the command leads to %r instead of %r' % (desc, view(e2), after), ''))
        if len(viol) > 3:
            break
    pg.rmtree(root)
    return dict(evals=n, trans=trans, keys=keys, viol=viol[:4], samples=['%s %r: %d ops, %d crash states' % (what, opts, len(ops), trans)])


def damage(arg):
    """one copy of one info file damaged in every way: results must not change; both damaged: commands must refuse"""
    idx, opts, fname, part, parts = arg
    viol, keys, n = [], set(), 0
    root = core.scratch('d%d' % idx)
    e = pg.Env(root)
    e.conf(**opts)
    e.cluster({'base/1/100': b'x' * 3000})
    e.run('stanza-create', online=False, ok=True)
    e.run('backup', type='full', online=False, ok=True)
    e.advance(60)
    pg.put(e.pg + '/base/1/101', b'y' * 2000)
    e.run('backup', type='incr', online=False, ok=True)
    pg.put(e.pg + '/pg_wal/' + pg.walname(1, 3), pg.wal(fill=3))
    e.run('archive-push', e.pg + '/pg_wal/' + pg.walname(1, 3), ok=True)
    kind = 'archive' if 'archive' in fname else 'backup'
    p = e.repo(1) + '/%s/demo/%s' % (kind, fname)
    orig = open(p, 'rb').read()
    base = fname.replace('.copy', '')
    other = p[:-5] if fname.endswith('.copy') else p + '.copy'
    oorig = open(other, 'rb').read()

    def probe():
        if kind == 'backup':
            return view(e)
        r = e.run('archive-get', pg.walname(1, 3), root + '/got')
        return (r.rc, open(root + '/got', 'rb').read() == pg.wal(fill=3) if r.rc == 0 else None)
    good = probe()
    muts = [('missing', None), ('empty', b''), ('junk', b'junk'), ('doubled', orig + orig)]
    # a consistent file of another kind or stanza
    muts.append(('other kind', open(e.repo(1) + '/%s/demo/%s.info' % (('backup', 'backup') if kind == 'archive' else ('archive', 'archive')), 'rb').read()))
    step = 1 if part[0] == 'all' else 1
    for i in range(len(orig)):
        b = bytearray(orig)
        b[i] ^= 1
        muts.append(('byte %d flipped' % i, bytes(b)))
        if part[0] == 'all':
            b = bytearray(orig)
            b[i] ^= 0x80
            muts.append(('byte %d high bit' % i, bytes(b)))
            b = bytearray(orig)
            del b[i]
            muts.append(('byte %d removed' % i, bytes(b)))
        muts.append(('truncated to %d' % i, orig[:i]))
    # replace a digit inside a value by another: still valid json
    for i, ch in enumerate(orig):
        if 48 <= ch <= 57:
            b = bytearray(orig)
            b[i] = 48 + (ch - 48 + 1) % 10
            muts.append(('digit at %d changed' % i, bytes(b)))
    for j, (name, b) in enumerate(muts):
        if j % parts != part[1]:
            continue
        if b is None:
            os.unlink(p)
        else:
            open(p, 'wb').write(b)
        got = probe()
        n += 1
        keys.add(core.h((idx, fname, name)))
        if got != good:
            viol.append(('%s %s: result with the other copy intact differs: %r instead of %r' % (fname, name, got, good), repr(opts)))
        if (j % 3 == 0 or b is None or len(b) < 10) and (b is None or b + b'\n' != orig):   # the last line feed carries no information
            # both copies damaged the same way: nothing may be done on wrong information
            if b is None:
                os.unlink(other)
            else:
                open(other, 'wb').write(b)
            got2 = probe()
            n += 1
            if kind == 'archive':
                if got2[0] == 0 or got2[0] == 1:
                    viol.append(('both copies of %s %s: archive-get returns %r' % (base, name, got2), repr(opts)))
            elif got2 == good:
                viol.append(('both copies of %s %s: info shows the stanza as if intact' % (base, name), repr(opts)))
            if name != 'other kind' and j % 30 == 0:
                cmds = ['backup'] if kind == 'backup' else ['push']
                for cm in cmds:
                    t0 = pg.tree(e.repo(1), content=False)
                    r = e.run('backup', type='full', online=False) if cm == 'backup' else e.run('archive-push', e.pg + '/pg_wal/' + pg.walname(1, 3))
                    n += 1
                    if r.rc == 0:
                        viol.append(('both copies of %s %s: %s succeeds' % (base, name, cm), repr(r)))
                        e.advance(60)
                    df = pg.tree_diff(t0, pg.tree(e.repo(1), content=False))
                    if df:
                        viol.append(('both copies of %s %s: %s changed the repository: %r' % (base, name, cm, df), ''))
            open(other, 'wb').write(oorig)
        open(p, 'wb').write(orig)
        if len(viol) > 4:
            break
    pg.rmtree(root)
    return dict(evals=n, trans=n, keys=keys, viol=viol[:4])


def main():
    c = core.Check('P05', 'fault_enumeration')
    core.build()
    jobs = []
    for what in ('stanza-create', 'stanza-upgrade', 'backup-first', 'backup', 'diff', 'expire', 'annotate'):
        for o, rp in (({}, 1), (ENC, 1)) + ((({}, 2),) if what.startswith('stanza') or c.thorough else ()) + ((dict(bk.store('block', 'gz'))and (bk.store('block', 'gz'), 1),) if c.thorough else ()):
            jobs.append((len(jobs), what, o, rp))
    for r in core.pmap(crash, jobs):
        c.merge(r)
    c.phase('crash')
    dj = []
    for o in ({}, ENC):
        for f in ('archive.info', 'archive.info.copy', 'backup.info', 'backup.info.copy'):
            parts = 4 if c.thorough or not o else 4
            for k in range(parts):
                dj.append((len(dj), o, f, ('all' if c.thorough else 'q', k), parts if c.thorough or not f.startswith('backup') else parts * 2))
    for r in core.pmap(damage, dj):
        c.merge(r)
    c.rule = 'every crash point (three survival models) of the info-writing commands; every single-byte flip, digit change and truncation of each info file copy, alone and in both copies'
    c.assumptions = ['ordered-metadata journalling file system']
    c.finish()


if __name__ == '__main__':
    main()
