"""Backup/restore scenario helpers shared by the checks."""
import hashlib, os, random, stat, struct
from . import core, pg

PASS = 'Xq7ZplainSecretPassphrase'


def blob(seed, n):
    """n bytes that depend on seed only, page aligned blocks all different, moderately compressible"""
    out = bytearray()
    i = 0
    while len(out) < n:
        d = hashlib.sha256(b'%s:%d' % (str(seed).encode(), i)).digest()
        out += d * 4
        i += 1
    return bytes(out[:n])


def snap(path, skip=('postmaster.pid',)):
    return pg.tree(path, content=False, mtime=True, skip=skip)


def restore(e, dest, label=None, ok=None, fresh=True, **opt):
    if fresh:
        pg.rmtree(dest)
        os.makedirs(dest, mode=0o700)
    kw = dict(type='preserve')
    kw.update(opt)
    if label:
        kw['set'] = label
    kw['pg1_path'] = dest
    return e.run('restore', ok=ok, **kw)


def backups(e, repo=1):
    """labels listed in backup.info, oldest first, as the tool itself reports them"""
    import json
    r = e.run('info', output='json', ok=True, repo=str(repo))
    j = json.loads(r.out)
    return [b['label'] for b in j[0]['backup']] if j else []


def info(e, **kw):
    import json
    r = e.run('info', output='json', ok=True, **kw)
    return json.loads(r.out)


STORES = {
    'plain': {},
    'gz': dict(compress_type='gz', compress_level='1'),
    'lz4': dict(compress_type='lz4'),
    'zst': dict(compress_type='zst'),
    'bz2': dict(compress_type='bz2', compress_level='1'),
    'enc': dict(repo1_cipher_type='aes-256-cbc', repo1_cipher_pass=PASS),
    'bundle': dict(repo1_bundle='y', repo1_bundle_limit='24KiB', repo1_bundle_size='1MiB'),
    'block': dict(repo1_bundle='y', repo1_block='y', repo1_bundle_limit='24KiB', repo1_bundle_size='1MiB'),
    'blockbig': dict(repo1_bundle='y', repo1_block='y', repo1_bundle_size='1MiB'),
    'delta': dict(delta='y'),
    'hard': dict(repo1_hardlink='y'),
    'par': dict(process_max='3'),
    'sym': {},
}


def store(*names):
    o = {}
    for n in names:
        o.update(STORES[n])
    return o


def clone_env(e, root, snap=None, only=('repo', 'repo2', 'pg', 'ts', 'lnk', 'spool', 'dest'), src=None):
    """an environment at another root with the configuration of e and its files (or those of a crash state)"""
    from . import fsmodel
    pg.rmtree(root)
    e2 = pg.Env(root, ver=e.ver, seg=e.seg, sysid=e.sysid, stanza=e.stanza, repos=e.repos, vtime=bool(e.ctl.s.timeOn))
    e2.pgs = [p.replace(e.root, root) for p in e.pgs]
    e2.opts = {k: v.replace(e.root, root) if isinstance(v, str) else v for k, v in e.opts.items()}
    e2.sopts = {k: v.replace(e.root, root) if isinstance(v, str) else v for k, v in e.sopts.items()}
    e2.extra_env = dict(e.extra_env)
    e2.stub = e.stub
    e2.conf()
    e2.ctl.s.timeUs = e.ctl.s.timeUs
    if snap is not None:
        fsmodel.materialise(snap, e.root, root, only=list(only))
    else:
        import shutil
        for o in only:
            p = e.root + '/' + o
            if os.path.isdir(p):
                pg.rmtree(root + '/' + o)
                shutil.copytree(p, root + '/' + o, symlinks=True)
                for d, dn, fn in os.walk(root + '/' + o):
                    for n in dn + fn:
                        q = os.path.join(d, n)
                        if os.path.islink(q) and os.readlink(q).startswith(e.root + '/'):
                            t = os.readlink(q)
                            os.unlink(q)
                            os.symlink(root + t[len(e.root):], q)
    return e2


def crashes(e, run, log, where='/repo', chunk=(0, 1), variants=('proc', 'power', 'reord'), root=None):
    """run a command with logging and yield (description, environment) for every distinct crash state; chunk=(i, n) selects every
    n-th state.  The result of the run itself is yielded first as ('result', Result, ops)."""
    from . import fsmodel
    fs = fsmodel.FS(e.root)
    if os.path.exists(log):
        os.unlink(log)
    r = run(e, log)
    ops = fsmodel.read_log(log)
    yield ('result', r, ops)
    seen = set()
    n = 0
    for k, v, snap, key in fsmodel.crash_states(e.root, fs, ops, variants):
        ik = hash(frozenset((p, x[0], x[1]) for p, x in snap.items() if where in p))
        if ik in seen:
            continue
        seen.add(ik)
        n += 1
        if n % chunk[1] != chunk[0]:
            continue
        op = '%s %s' % (ops[k - 1]['op'], ops[k - 1]['path'].replace(e.root, '')) if k else 'start'
        e2 = clone_env(e, (root or e.root) + '.c', snap)
        yield ('crash (%s) after operation %d of %d (%s)' % (v, k, len(ops), op), e2, core.h(ik))


def info_text(sections):
    """text of an info file [(section, [(key, value)])] with its checksum, independent of the code under test"""
    import json
    js = lambda v: json.dumps(v, separators=(',', ':'), sort_keys=True)
    sec = [(s, sorted((k, js(v)) for k, v in kv if k != 'backrest-checksum')) for s, kv in sorted(sections)]
    body = '{' + ','.join('"%s":{%s}' % (s, ','.join('%s:%s' % (json.dumps(k), v) for k, v in kv)) for s, kv in sec) + '}'
    sha = hashlib.sha1(body.encode()).hexdigest()
    out = []
    for s, kv in sec:
        out.append('[%s]' % s)
        out += ['%s=%s' % x for x in kv] + ['']
    return '\n'.join(out + ['[backrest]', 'backrest-checksum="%s"' % sha]) + '\n'


def info_write(path, sections):
    t = info_text(sections).encode()
    for s in ('', '.copy'):
        pg.put(path + s, t, mode=0o640)
