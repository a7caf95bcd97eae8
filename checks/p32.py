#!/usr/bin/env python3
"""P32: encryption and secrets. Histories on an encrypted repository and on an unencrypted twin; no block of the twin may appear in the
encrypted repository, at any step and at any crash point; wrong keys; every secret option searched for in everything the commands emit."""
import http.server, itertools, json, os, re, ssl, subprocess, sys, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pgb import core, pg, bk, remote

PASS = 'Xq7Z+plain/Secret=Pass'
WRONG = 'Xq7Z+plain/Secret=Pasz'


class Oracle:
    def __init__(self):
        self.plain = set()
        self.seen = set()
        self.files = {}
        self.salt = {}
        self.blocks = {}
        self.viol = []
        self.n = 0

    def twin(self, root):
        for p, d in files(root):
            k = core.h(d) if len(d) < 4096 else hash(d)
            if k in self.seen:
                continue
            self.seen.add(k)
            self.plain.update(d[i:i + 16] for i in range(len(d) - 15))

    def check(self, root, what):
        for p, d in files(root):
            k = hash(d)
            self.n += 1
            if k in self.files or not d:
                continue
            rel = os.path.relpath(p, root)
            self.files[k] = rel
            hit = None
            for i in range(0, len(d) - 15, 8):
                c = d[i:i + 16]
                if c in self.plain:
                    hit = 'holds data in clear at offset %d: %r' % (i, c)
                    break
                if self.blocks.setdefault(c, k) != k:
                    hit = 'repeats at offset %d encrypted bytes also found in %s: same data under the same key and salt gives the same bytes' % (
                        i, self.files.get(self.blocks[c]))
                    break
            if hit is None and len(d) >= 64:
                s = [d[i:i + 16] for i in range(0, len(d) - 15, 8)]
                if len(set(s)) != len(s):
                    hit = 'repeats encrypted blocks inside the file'
            bundle = '/bundle/' in rel or re.search(r'\.pgbi(\.|$)', rel)
            if hit is None and not bundle:
                if not d.startswith(b'Salted__'[:len(d)]):
                    hit = 'is not an encrypted file: starts with %r' % d[:16]
                elif len(d) >= 16 and self.salt.setdefault(d[8:16], k) != k:
                    hit = 'uses the salt of %s again' % self.files.get(self.salt[d[8:16]])
            if hit:
                self.viol.append(('encrypted repository: %s: file %s %s' % (what, rel, hit), dict(file=rel, what=what)))


def files(root):
    for d, dn, fn in os.walk(root):
        for f in sorted(fn):
            p = os.path.join(d, f)
            if os.path.islink(p):
                continue
            try:
                with open(p, 'rb') as fh:
                    yield p, fh.read()
            except OSError:
                pass


def cluster(e):
    e.cluster({'base/1/%d' % i: (bk.blob(('s', i), 9000 + 3000 * i), pg.T0 - 5000) for i in range(3)})
    e.file('base/1/same', bk.blob(('s', 1), 12000))
    e.file('base/1/40960', bk.blob('big', 60000))
    e.file('pg_secret_named_file_with_long_name', b'the content of this small file in clear')
    e.file('base/1/rep', b'0123456789abcdef' * 600)
    e.file('base/1/empty', b'')


def push(e, n, **kw):
    w = e.pg + '/pg_wal/' + pg.walname(1, n)
    pg.put(w, pg.wal(fill=n, sysid=e.sysid), e.now())
    pg.put(e.pg + '/pg_wal/archive_status/' + pg.walname(1, n) + '.ready', b'', e.now())
    r = e.run('archive-push', w, ok=True, **kw)
    if kw.get('archive_async'):
        e.wait_async()
    return r


def mod(e, i):
    d = bytearray(open(e.pg + '/base/1/40960', 'rb').read())
    d[20000 + i * 100:20008 + i * 100] = b'%08d' % i
    pg.put(e.pg + '/base/1/40960', bytes(d), e.now() - 10)
    pg.put(e.pg + '/base/1/0', bk.blob(('s0', i), 9000), e.now() - 10)


def key_of(e, f):
    r = e.run('repo-get', f)
    if r.rc:
        raise pg.Unexpected('repo-get %s: %r' % (f, r))
    m = re.search(r'^cipher-pass="([^"]*)"', r.out, re.M)
    return m.group(1) if m else None


STEPS = ('create', 'push', 'full', 'async', 'push2', 'diff', 'incr', 'fullcrash', 'full2', 'annotate', 'upgrade', 'expire', 'delete', 'create2', 'push', 'full')


def step(e, s, o):
    if s in ('create', 'create2'):
        if s == 'create2':
            e.run('start')
        e.run('stanza-create', online=False, ok=True)
    elif s == 'push':
        push(e, 1)
    elif s == 'push2':
        push(e, 2)
    elif s == 'async':
        push(e, 3, archive_async=True)
    elif s in ('full', 'full2', 'diff', 'incr'):
        e.advance(3600)
        mod(e, STEPS.index(s))
        e.run('backup', type=s.rstrip('2'), online=False, ok=True)
    elif s == 'fullcrash':
        e.advance(3600)
        e.ctl.fault(60, 4)
        e.run('backup', type='full', online=False, ok=None)
        e.ctl.reset()
    elif s == 'annotate':
        e.run('annotate', set=bk.backups(e)[-1], annotation='k=secret annotation text', ok=True)
    elif s == 'upgrade':
        pg.put(e.pg + '/PG_VERSION', b'17\n')
        pg.put(e.pg + '/global/pg_control', pg.control('17', e.sysid + 1, seg=e.seg))
        e.run('stanza-upgrade', online=False, ok=True)
        pg.put(e.pg + '/PG_VERSION', b'16\n')
        pg.put(e.pg + '/global/pg_control', pg.control('16', e.sysid, seg=e.seg))
        e.run('stanza-upgrade', online=False, ok=True)
    elif s == 'expire':
        e.run('expire', repo1_retention_full='1', ok=True)
    elif s == 'delete':
        e.run('stop')
        e.run('stanza-delete', force=True, ok=True)


def history(arg):
    names, topo = arg
    root = core.scratch('p32h-' + core.h(arg))
    envs = []
    for enc in (0, 1):
        e = pg.Env(root + '/%d' % enc, vtime=True)
        o = bk.store(*names)
        if enc:
            o.update(repo1_cipher_type='aes-256-cbc', repo1_cipher_pass=PASS)
        if topo == 'repo':
            rc = {'repo1-path': e.repo()}
            if enc:
                rc.update({'repo1-cipher-type': 'aes-256-cbc', 'repo1-cipher-pass': PASS})
                o.pop('repo1_cipher_type'), o.pop('repo1_cipher_pass')
                o.update(repo1_cipher_type='aes-256-cbc', repo1_cipher_pass=PASS)
            remote.split(e, 'repo', **rc)
        e.conf(**o)
        cluster(e)
        envs.append(e)
    o = Oracle()
    keys = []
    subs = {}
    gen = 0
    for i, s in enumerate(STEPS):
        for e in envs:
            step(e, s, o)
        o.twin(envs[0].repo())
        o.check(envs[1].repo(), 'after step %d (%s), storage %s %s' % (i, s, '+'.join(names), topo))
        keys.append(core.h((arg, i)))
        if s == 'delete':
            gen += 1
            continue
        # the keys held inside the repository
        e = envs[1]
        tr = list(files(e.repo()))
        for p, _ in tr:
            rel = os.path.relpath(p, e.repo())
            if rel.endswith('/archive.info') or rel.endswith('/backup.info') or rel.endswith('/backup.manifest'):
                k = key_of(e, rel)
                full = re.sub(r'_\d{8}-\d{6}[DI]', '', rel)
                if k is None or len(k) < 32:
                    o.viol.append(('%s of an encrypted repository holds no (or a short) key for the files below it: %r' % (rel, k), dict(step=s)))
                elif k == PASS:
                    o.viol.append(('%s: files below it are encrypted with the repository passphrase itself' % rel, dict(step=s)))
                else:
                    w = subs.setdefault(k, (gen, full))
                    if w != (gen, full):
                        o.viol.append(('key in %s is the one already used in %s' % (rel, w), dict(step=s)))
    # the same inputs in another stanza give other keys
    viol = o.viol
    # the data is really there
    e = envs[1]
    r = bk.restore(e, root + '/dest')
    a, b = pg.tree(e.pg, skip=('pg_wal',)), pg.tree(root + '/dest', skip=('pg_wal', 'backup_label', 'tablespace_map', 'postgresql.auto.conf', 'recovery.signal'))
    if r.rc or {k: v[1] for k, v in a.items() if v[0] == 'file'} != {k: v[1] for k, v in b.items() if v[0] == 'file'}:
        viol.append(('restore from the encrypted repository failed or differs (%s)' % (names,), repr(r)))
    pg.rmtree(root)
    return dict(evals=o.n, trans=len(STEPS), keys=keys, viol=viol[:5], samples=[dict(storage=names, topology=topo, steps=STEPS, subkeys=len(subs), files=len(o.files))])


def crash(arg):
    names, s, lo, n = arg
    root = core.scratch('p32c-' + core.h(arg))
    pre = {'create': (), 'push': ('create',), 'full': ('create', 'push'), 'diff': ('create', 'full'), 'annotate': ('create', 'full'), 'expire': ('create', 'full', 'full2')}[s]
    o = Oracle()
    envs = []
    for enc in (0, 1):
        e = pg.Env(root + '/%d' % enc)
        st = bk.store(*names)
        if enc:
            st.update(repo1_cipher_type='aes-256-cbc', repo1_cipher_pass=PASS)
        e.conf(**st)
        cluster(e)
        for x in pre:
            step(e, x, o)
        envs.append(e)
    save = root + '/save'
    t = envs[1].ctl.s.timeUs
    t0 = envs[0].ctl.s.timeUs
    pg.copytree(envs[1].repo(), save)
    o.twin(envs[0].repo())
    step(envs[0], s, o)
    o.twin(envs[0].repo())
    res = dict(evals=0, trans=0, keys=[], viol=[])
    k = lo
    while True:
        e = envs[1]
        pg.rmtree(e.repo())
        pg.copytree(save, e.repo())
        pg.rmtree(e.root + '/spool')
        os.makedirs(e.root + '/spool')
        for f in os.listdir(e.root + '/lock'):
            os.unlink(e.root + '/lock/' + f)
        e.ctl.s.timeUs = t
        e.ctl.fault(k + 1, 4)
        try:
            step(e, s, o)
        except pg.Unexpected:
            pass
        hit = e.ctl.s.faultHit
        e.ctl.reset()
        o.check(e.repo(), 'crash at system call %d of %s, storage %s' % (k, s, '+'.join(names)))
        o.blocks.clear()            # the same plain text is legitimately encrypted again by the next run, under a new salt
        o.salt.clear()
        o.files.clear()
        res['trans'] += 1
        res['keys'].append(core.h((names, s, k)))
        if not hit or res['trans'] > 4000:
            break
        k += n
    res['evals'] = o.n
    res['viol'] = o.viol[:4]
    pg.rmtree(root)
    return res


def wrong(names):
    """every command with a wrong key configuration: fails, writes nothing, shows nothing"""
    root = core.scratch('p32w-' + core.h(names))
    res = dict(evals=0, trans=0, keys=[], viol=[], samples=[])
    enc = dict(repo1_cipher_type='aes-256-cbc', repo1_cipher_pass=PASS)
    for how in ('pass', 'none', 'encrypted-config'):
        e = pg.Env(root + '/' + how)
        good = dict(bk.store(*names))
        bad = dict(good)
        if how == 'pass':
            good.update(enc)
            bad.update(enc, repo1_cipher_pass=WRONG)
        elif how == 'none':
            good.update(enc)
            bad.update(repo1_cipher_type=None, repo1_cipher_pass=None)
        else:
            bad.update(enc)
            good.update(repo1_cipher_type=None, repo1_cipher_pass=None)
        e.conf(**good)
        cluster(e)
        for s in ('create', 'push', 'full', 'diff'):
            step(e, s, None)
        label = bk.backups(e)[-1]
        e.conf(**bad)
        w = e.pg + '/pg_wal/' + pg.walname(1, 9)
        pg.put(w, pg.wal(fill=9), e.now())
        dest = root + '/dest'
        pg.rmtree(dest)
        os.makedirs(dest, mode=0o700)
        before = pg.tree(e.repo())
        cmds = [('info', (), dict(output='json')), ('info', (), dict(output='text')), ('info', (), dict(output='json', set=label)),
                ('backup', (), dict(type='full', online=False)),
                ('backup', (), dict(type='diff', online=False)), ('archive-get', (pg.walname(1, 1), root + '/got'), {}),
                ('archive-push', (w,), {}), ('restore', (), dict(pg1_path=dest, type='none')), ('restore', (), dict(pg1_path=dest, set=label, type='none')),
                ('verify', (), dict(output='text')), ('expire', (), dict(repo1_retention_full='1')), ('expire', (), dict(set=label)),
                ('annotate', (), dict(set=label, annotation='a=b')), ('stanza-upgrade', (), dict(online=False)), ('stanza-create', (), dict(online=False)),
                ('repo-get', ('backup/demo/backup.info',), {}), ('repo-get', ('archive/demo/archive.info',), {}),
                ('repo-get', ('backup/demo/%s/backup.manifest' % label,), {})]
        for c, a, kw in cmds:
            r = e.run(c, *a, **kw)
            res['evals'] += 1
            res['trans'] += 1
            res['keys'].append(core.h((names, how, c, kw)))
            what = '%s %s with %s' % (c, kw, {'pass': 'a wrong passphrase', 'none': 'no encryption configured', 'encrypted-config': 'encryption configured for an unencrypted repository'}[how])
            failed = r.rc != 0
            if c == 'repo-get' and how == 'none':
                failed = b'db-system-id' not in r.raw and b'backup:current' not in r.raw          # raw bytes may be shown
            elif c == 'info':
                if kw.get('output') == 'json' and r.rc == 0:
                    j = json.loads(r.out, strict=False)
                    failed = not any(x.get('backup') for x in j) and all(x['status']['code'] != 0 for x in j)
                elif r.rc == 0:
                    failed = 'status: error' in r.out and 'full backup' not in r.out
            elif c == 'verify' and r.rc == 0:
                failed = 'status: error' in r.all
            if not failed:
                res['viol'].append(('%s did not fail (rc=%d)' % (what, r.rc), repr(r)))
            if b'pg_secret_named_file' in r.raw or 'the content of this small' in r.all:
                res['viol'].append(('%s shows repository content' % what, repr(r)))
            d = pg.tree_diff(before, pg.tree(e.repo()))
            if d:
                res['viol'].append(('%s changed the repository: %s' % (what, d[:3]), repr(r)))
                break
            if os.path.exists(root + '/got') and os.path.getsize(root + '/got'):
                res['viol'].append(('%s produced a WAL file' % what, repr(r)))
                os.unlink(root + '/got')
            if [x for x in pg.tree(dest) if x not in ('lost+found',)]:
                res['viol'].append(('%s wrote to the restore destination: %s' % (what, list(pg.tree(dest))[:3]), repr(r)))
                pg.rmtree(dest)
                os.makedirs(dest, mode=0o700)
        # and with the right key everything is as before
        e.conf(**{k: None for k in bad})
        e.conf(**good)
        if label not in bk.backups(e):
            res['viol'].append(('backup no longer listed after the attempts with wrong keys', names))
    pg.rmtree(root)
    return res


# ---- secrets
def sec(n):
    return 'Zk9' + core.h(('secret', n))[:14] + 'Wq'


import base64
SEC = {'repo1-cipher-pass': sec('cipher'), 'repo1-s3-key': 'AKIA' + sec('s3k'), 'repo1-s3-key-secret': sec('s3s'), 'repo1-s3-token': sec('s3t'),
       'repo1-s3-sse-customer-key': base64.b64encode((sec('sse') * 2)[:32].encode()).decode(), 'repo1-azure-account': 'acct' + sec('aza').lower(),
       'repo1-azure-key': base64.b64encode(sec('azk').encode() + b'xxxxx').decode(), 'repo1-gcs-key': sec('gcs'),
       'repo1-sftp-private-key-passphrase': sec('sftp')}
TYPES = {
    'posix': (dict(), ['repo1-cipher-pass']),
    's3': ({'repo1-s3-bucket': 'bkt', 'repo1-s3-endpoint': 's3.example.org', 'repo1-s3-region': 'r1', 'repo1-s3-uri-style': 'path'},
           ['repo1-s3-key', 'repo1-s3-key-secret', 'repo1-s3-token', 'repo1-s3-sse-customer-key', 'repo1-cipher-pass']),
    'azure': ({'repo1-azure-container': 'ctr', 'repo1-azure-uri-style': 'path'}, ['repo1-azure-account', 'repo1-azure-key', 'repo1-cipher-pass']),
    'azure-sas': ({'repo1-azure-container': 'ctr', 'repo1-azure-key-type': 'sas', 'repo1-azure-uri-style': 'path'}, ['repo1-azure-account', 'repo1-azure-key']),
    'gcs': ({'repo1-gcs-bucket': 'bkt', 'repo1-gcs-key-type': 'token'}, ['repo1-gcs-key', 'repo1-cipher-pass']),
    'sftp': ({'repo1-sftp-host': '127.0.0.1', 'repo1-sftp-host-user': 'u', 'repo1-sftp-private-key-file': '/dev/null', 'repo1-sftp-host-key-hash-type': 'sha1', 'repo1-sftp-host-port': '1',
              'repo1-sftp-host-key-check-type': 'none'},
             ['repo1-sftp-private-key-passphrase', 'repo1-cipher-pass']),
}


class H(http.server.BaseHTTPRequestHandler):
    protocol_version = 'HTTP/1.1'
    code = 403
    reqs = []

    def any(self):
        n = int(self.headers.get('content-length') or 0)
        if n:
            self.rfile.read(n)
        H.reqs.append((self.command, self.path, dict(self.headers)))
        b = b'<?xml version="1.0"?><Error><Code>AccessDenied</Code><Message>no</Message></Error>'
        self.send_response(H.code)
        self.send_header('content-length', str(len(b)))
        self.end_headers()
        if self.command != 'HEAD':
            self.wfile.write(b)
    do_GET = do_PUT = do_POST = do_HEAD = do_DELETE = any

    def log_message(self, *a):
        pass


def server(root):
    subprocess.run(['openssl', 'req', '-x509', '-newkey', 'ec', '-pkeyopt', 'ec_paramgen_curve:P-256', '-nodes', '-keyout', root + '/k.pem', '-out', root + '/c.pem', '-days', '3650', '-subj',
                    '/CN=s3.example.org'], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    s = http.server.ThreadingHTTPServer(('127.0.0.1', 0), H)
    s.daemon_threads = True
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
    c.load_cert_chain(root + '/c.pem', root + '/k.pem')
    s.socket = c.wrap_socket(s.socket, server_side=True, do_handshake_on_connect=False)
    threading.Thread(target=s.serve_forever, daemon=True).start()
    return s


def look(e, r, secrets, what, res, skip=()):
    res['evals'] += 1
    blob = [('output', r.out + r.err)]
    for p, d in files(e.root):
        if p.endswith(('pgbackrest.conf', 'r.conf', '/ctl')) or p.endswith('.pem'):
            continue
        blob.append((os.path.relpath(p, e.root), d.decode('latin-1')))
    for n, v in secrets.items():
        for w, t in blob:
            if v in t:
                ln = [x for x in t.split('\n') if v in x][0]
                res['viol'].append(('value of %s shown in %s: %s' % (n, w, what), ln[:600]))
                break


WRAP = '''#!/bin/sh
{ for a; do printf '%%s\\n' "$a"; done; echo; } >> %s/argv.log
exec %s "$@"
'''
SSHREC = '''#!/bin/sh
{ for a; do printf '%%s\\n' "$a"; done; echo; } >> %s/argv.log
for a; do :; done
exec /bin/sh -c "exec $a"
'''
LEVELS = ('info', 'debug', 'trace')


def wrapcmd(e):
    with open(e.root + '/cmd.sh', 'w') as f:
        f.write(WRAP % (e.root, e.bin))
    os.chmod(e.root + '/cmd.sh', 0o755)
    e.conf(cmd=e.root + '/cmd.sh')


def local(arg):
    """a whole history with the passphrase in the configuration or environment, at one log level; everything emitted is searched"""
    level, src, topo, names = arg
    root = core.scratch('p32l-' + core.h(arg))
    e = pg.Env(root)
    secrets = {'repo1-cipher-pass': PASS}
    res = dict(evals=0, trans=0, keys=[], viol=[], samples=[])
    o = bk.store(*names)
    o.update(repo1_cipher_type='aes-256-cbc', process_max='2', log_level_file=level, log_level_console=level, log_level_stderr='warn', log_subprocess='y')
    e.conf(**o)
    wrapcmd(e)
    if src == 'env':
        e.extra_env['PGBACKREST_REPO1_CIPHER_PASS'] = PASS
    elif src == 'stanza':
        e.sopts['repo1-cipher-pass'] = PASS
        e.conf()
    else:
        e.conf(repo1_cipher_pass=PASS)
    if topo == 'repo':
        remote.split(e, 'repo', ssh=SSHREC % e.root, **{'repo1-path': e.repo(), 'repo1-cipher-type': 'aes-256-cbc', 'repo1-cipher-pass': PASS,
                                                        'log-level-file': level, 'log-level-console': level, 'log-subprocess': 'y', 'log-path': e.root + '/log'})
    elif topo == 'pg':
        remote.split(e, 'pg', ssh=SSHREC % e.root, **{'log-level-file': level, 'log-level-console': level, 'log-subprocess': 'y', 'log-path': e.root + '/log'})
        with open(e.root + '/r.conf', 'a') as f:
            f.write('[demo]\npg1-path=%s\n' % e.pg)
    cluster(e)
    onpg = topo != 'pg'

    def run(c, *a, **kw):
        env = kw.pop('env', None)
        r = e.run(c, *a, env=env, **kw)
        look(e, r, secrets, '%s at log level %s, from %s, topology %s' % (' '.join([c] + [os.path.basename(x) for x in a]), level, src, topo), res)
        res['keys'].append(core.h((arg, c, a, kw)))
        res['trans'] += 1
        return r
    r = run('stanza-create', online=False)
    if r.rc:
        raise pg.Unexpected('stanza-create: %r' % r)
    if onpg:
        for i in (1, 2):
            w = e.pg + '/pg_wal/' + pg.walname(1, i)
            pg.put(w, pg.wal(fill=i), e.now())
            pg.put(e.pg + '/pg_wal/archive_status/' + pg.walname(1, i) + '.ready', b'', e.now())
            if i == 1:
                r = run('archive-push', w)
                r2 = run('archive-get', pg.walname(1, 1), root + '/got')
            else:
                r = e.run('archive-push', w, archive_async=True)
                e.wait_async()
                look(e, r, secrets, 'archive-push async at log level %s' % level, res)
            if r.rc:
                raise pg.Unexpected('push: %r' % r)
    e.advance(3600)
    r = run('backup', type='full', online=False)
    e.advance(3600)
    mod(e, 1)
    r = run('backup', type='incr', online=False)
    if r.rc:
        raise pg.Unexpected('backup: %r' % r)
    # keys inside the repository are secrets as well
    quiet = dict(log_level_console='off', log_level_file='off')
    for p, _ in list(files(e.repo())):
        rel = os.path.relpath(p, e.repo())
        if rel.endswith(('/archive.info', '/backup.info', '/backup.manifest')):
            r = e.run('repo-get', rel, **quiet) if topo != 'repo' else remote.rrun(e, 'repo-get', rel, **quiet)
            m = re.search(r'^cipher-pass="([^"]*)"', r.out, re.M)
            if m:
                secrets['key in ' + os.path.basename(rel)] = m.group(1)
    if len(secrets) < 4:
        raise pg.Unexpected('could not read the keys held in the repository: %r' % r)
    look(e, pg.Result(0, '', ''), secrets, 'after the backups at log level %s' % level, res)
    run('info')
    run('info', output='json')
    run('verify')
    run('annotate', set=bk.backups_quiet(e)[-1] if hasattr(bk, 'backups_quiet') else labels(e)[-1], annotation='k=v')
    run('expire', repo1_retention_full='1')
    run('repo-ls', 'backup', recurse=True)
    run('check', online=False) if False else None
    run('help', 'backup')
    run('help', 'backup', 'repo-cipher-pass')
    run('check', report=True)
    if onpg:
        dest = root + '/dest'
        os.makedirs(dest, mode=0o700)
        r = run('restore', pg1_path=dest, type='default')
        if r.rc:
            raise pg.Unexpected('restore: %r' % r)
        run('restore', pg1_path=dest, delta=True, type='standby')
    run('stop')
    run('backup', type='full', online=False)
    run('start')
    e.conf(repo1_cipher_pass=None)
    if not res['samples']:
        res['samples'] = [dict(level=level, source=src, topology=topo, commands=res['trans'], secrets=sorted(secrets))]
    pg.rmtree(root)
    return res


def labels(e):
    j = json.loads(e.run('info', output='json', log_level_console='off', log_level_file='off', ok=True).out)
    return [b['label'] for b in j[0]['backup']]


def objstore(arg):
    """object store and sftp options: requests refused by the server, connection refused; every output and log searched"""
    ty, src, level, code = arg
    root = core.scratch('p32o-' + core.h(arg))
    e = pg.Env(root, vtime=False)
    e.stub = False
    res = dict(evals=0, trans=0, keys=[], viol=[], samples=[])
    opts, names = TYPES[ty]
    s = server(root)
    outs = []
    H.code = code
    H.reqs = []
    port = str(s.server_address[1])
    secrets = {n: SEC[n] for n in names}
    val = dict(secrets)
    secrets.pop('repo1-azure-account', None)       # the account is part of every URL
    if ty == 'azure-sas':
        secrets['repo1-azure-key'] = sec('sig')
        val['repo1-azure-key'] = '?sv=2018&sig=' + sec('sig')
    o = {k: v for k, v in opts.items()}
    o['repo1-type'] = ty.split('-')[0]
    o['repo1-path'] = '/r'
    if ty != 'sftp':
        o.update({'repo1-storage-verify-tls': 'n', 'repo1-storage-host': '127.0.0.1', 'repo1-storage-port': port})
    if 'repo1-cipher-pass' in names:
        o['repo1-cipher-type'] = 'aes-256-cbc'
    o.update({'log-level-console': level, 'log-level-file': level, 'io-timeout': '1', 'log-subprocess': 'y', 'protocol-timeout': '2', 'db-timeout': '1'})
    if ty == 'gcs':
        o['repo1-gcs-endpoint'] = '127.0.0.1:' + port
        for k in ('repo1-storage-host', 'repo1-storage-port'):
            o.pop(k)
    e.conf(**{k.replace('-', '_'): v for k, v in o.items()})
    if src == 'conf':
        e.conf(**{k.replace('-', '_'): v for k, v in val.items()})
    elif src == 'stanza':
        e.sopts.update(val)
        e.conf()
    else:
        e.extra_env.update({'PGBACKREST_' + k.upper().replace('-', '_'): v for k, v in val.items()})
    wrapcmd(e)
    cluster(e)
    w = e.pg + '/pg_wal/' + pg.walname(1, 1)
    pg.put(w, pg.wal(fill=1))
    for c, a, kw in (('info', (), {}), ('repo-ls', (), {}), ('repo-get', ('backup/demo/backup.info',), {}), ('archive-push', (w,), {}), ('stanza-create', (), dict(online=False)),
                     ('backup', (), dict(online=False)), ('archive-get', (pg.walname(1, 1), root + '/got'), {}), ('expire', (), {}), ('verify', (), {}),
                     ('repo-put', ('x/y',), dict(stdin=b'data')), ('repo-rm', ('x/y',), {}),
                     ('check', (), dict(report=True)), ('help', ('backup', names[0].replace('repo1', 'repo')), {})):
        if c == 'repo-put' and ty == 'sftp':
            continue
        r = e.run(c, *a, timeout=60, **kw)
        outs.append(r.all[-300:])
        look(e, r, secrets, '%s, repository type %s, options from %s, log level %s, server answers %d' % (c, ty, src, level, code), res)
        res['keys'].append(core.h((arg, c)))
        res['trans'] += 1
        if r.rc == 0 and c == 'repo-get':
            raise pg.Unexpected('repo-get did not fail: %r' % r)
    if ty != 'sftp' and not H.reqs:
        raise pg.Unexpected('no request reached the server (%s): %s' % (ty, outs))
    s.shutdown()
    res['samples'] = [dict(type=ty, source=src, level=level, requests=len(H.reqs), secrets=sorted(secrets))]
    pg.rmtree(root)
    return res


def cmdline(_):
    """secrets on the command line are refused and not repeated; wrong placements of secrets in the configuration do not show them"""
    root = core.scratch('p32cl')
    res = dict(evals=0, trans=0, keys=[], viol=[], samples=[])
    e = pg.Env(root)
    cluster(e)
    for n, v in SEC.items():
        if n == 'repo1-azure-account':
            continue
        for c, a in (('info', ()), ('backup', ()), ('restore', ()), ('archive-push', ('x',)), ('archive-get', ('a', 'b')), ('repo-ls', ()), ('check', ()), ('verify', ())):
            for form in ('opt', 'two', 'reset', 'neg'):
                kw = {}
                argv = {'opt': ['--%s=%s' % (n, v)], 'two': ['--' + n, v], 'reset': ['--reset-' + n], 'neg': ['--no-' + n]}[form]
                p = subprocess.run(e.argv(c, *a) + argv, env=e.environ(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=root)
                r = pg.Result(p.returncode, p.stdout.decode(), p.stderr.decode())
                res['trans'] += 1
                res['keys'].append(core.h((n, c, form)))
                if form in ('opt', 'two') and r.rc == 0:
                    res['viol'].append(('secret option %s accepted on the command line of %s' % (n, c), repr(r)))
                if form in ('opt', 'two'):
                    look(e, r, {n: v}, '%s on the command line of %s' % (n, c), res)
        for kind in ('dup', 'section', 'cmdsection', 'dupenv', 'badtype', 'index', 'noindex'):
            lines = {'dup': '[global]\n%s=%s\n%s=%s\n' % (n, v, n, v), 'section': '[global]\n%s=%s\n[demo]\n%s=%s\n' % (n, v, n, v), 'cmdsection': '[global:info]\n%s=%s\n[demo:backup]\n%s=%s\n' % (n, v, n, v),
                     'dupenv': '[global]\n%s=%s\n' % (n, v), 'badtype': '[global]\n%s=%s\nrepo1-type=bogus\n' % (n, v), 'index': '[global]\n%s=%s\n' % (n.replace('1', '900', 1), v),
                     'noindex': '[global]\n%s=%s\n' % (n.replace('repo1', 'repo'), v)}[kind]
            base = open(e.root + '/pgbackrest.conf').read()
            with open(root + '/x.conf', 'w') as f:
                f.write(base + '\n' + lines if kind not in () else lines)
            env = {'PGBACKREST_' + n.upper().replace('-', '_'): v} if kind == 'dupenv' else {}
            for c, a in (('info', ()), ('backup', ()), ('repo-ls', ()), ('help', ('info',))):
                for lv in ('warn', 'trace'):
                    r = e.run(c, *a, config=root + '/x.conf', env=env, log_level_console=lv)
                    os.path.exists(root + '/x.conf')
                    keep = open(root + '/x.conf').read()
                    os.unlink(root + '/x.conf')
                    look(e, r, {n: v}, '%s with %s misplaced in the configuration (%s), level %s' % (c, n, kind, lv), res)
                    with open(root + '/x.conf', 'w') as f:
                        f.write(keep)
                    res['trans'] += 1
                    res['keys'].append(core.h((n, kind, c, lv)))
            os.unlink(root + '/x.conf')
    pg.rmtree(root)
    return res


def main():
    c = core.Check('P32', 'exploration')
    c.rule = ('a 16 byte window of a file of an unencrypted twin repository never occurs in the encrypted repository (and neither does any encrypted block twice) after any step of the '
              'history, nor at any crash point of a command; sub keys differ; with wrong keys commands fail and change nothing; no secret value in any output, log, lock, spool, '
              'destination file or child argument vector')
    core.build()
    stores = [(), ('gz',), ('bundle',), ('block',), ('gz', 'block'), ('hard', 'gz')]
    if c.thorough:
        stores += [('lz4',), ('zst',), ('bz2',), ('lz4', 'block'), ('zst', 'block'), ('zst', 'bundle'), ('par',), ('par', 'block'), ('delta', 'block'), ('delta', 'gz', 'hard')]
    jobs = [(s, 'local') for s in stores] + [(s, 'repo') for s in (stores if c.thorough else [('gz', 'block')])]
    for r in core.pmap(history, jobs):
        c.merge(r)
    c.phase('history')
    n = 4
    for r in core.pmap(crash, [(s, x, i, n) for s in ([('gz',), ('gz', 'block')] if not c.thorough else stores) for x in ('create', 'push', 'full', 'diff', 'annotate', 'expire') for i in range(n)]):
        c.merge(r)
    c.phase('crash')
    for r in core.pmap(wrong, [(), ('gz', 'block'), ('hard', 'gz')] + ([('bundle',), ('zst',)] if c.thorough else [])):
        c.merge(r)
    c.phase('wrong')
    lj = [(lv, 'conf', t, s) for lv in LEVELS for t in ('local', 'repo', 'pg') for s in ([('gz', 'block')] if not c.thorough else [(), ('gz',), ('gz', 'block'), ('hard',)])]
    lj += [(lv, s, 'local', ('gz',)) for lv in (LEVELS if c.thorough else ('debug', 'trace')) for s in ('env', 'stanza')]
    for r in core.pmap(local, lj):
        c.merge(r)
    c.phase('local')
    oj = [(t, s, lv, 403) for t in TYPES if t != 'posix' for s in ('conf', 'env') for lv in ('info', 'debug', 'trace') if c.thorough or lv == 'trace' or s == 'conf']
    if c.thorough:
        oj += [(t, 'stanza', lv, code) for t in TYPES if t != 'posix' for lv in LEVELS for code in (404, 500)]
    for r in core.pmap(objstore, oj):
        c.merge(r)
    c.phase('objstore')
    for r in core.pmap(cmdline, [0]):
        c.merge(r)
    c.assumptions = ['configuration files that cannot be parsed at all are outside the claim (the offending line is quoted in the error)', 'the tool is run as shipped; debug builds are outside the claim']
    c.finish()


main()
