"""Small helper for the demonstrations: a scratch world and the built binary, everything below one temporary directory, run as nobody."""
import atexit, hashlib, os, shutil, struct, subprocess, sys, tempfile, time

BIN = os.path.join(os.getcwd(), '_build/src/pgbackrest')
MB = 1 << 20
SYSID = 1000000000000000094
T = []
for i in range(256):
    c = i
    for _ in range(8):
        c = (c >> 1) ^ 0x82F63B78 if c & 1 else c >> 1
    T.append(c)


def crc32c(b):
    c = 0xFFFFFFFF
    for x in b:
        c = T[(c ^ x) & 255] ^ (c >> 8)
    return c ^ 0xFFFFFFFF


def control(sysid=SYSID, ckpt=0x1000028, tli=1, seg=MB, checksum=0):
    b = bytearray(8192)
    struct.pack_into('<QII', b, 0, sysid, 1300, 202307071)
    struct.pack_into('<I', b, 16, 1)
    struct.pack_into('<Q', b, 32, ckpt)
    struct.pack_into('<I', b, 48, tli)
    struct.pack_into('<I', b, 216, 8192)
    struct.pack_into('<I', b, 228, seg)
    struct.pack_into('<I', b, 252, checksum)
    struct.pack_into('<I', b, 288, crc32c(bytes(b[:288])))
    return bytes(b)


def wal(fill=0, sysid=SYSID, seg=MB):
    h = struct.pack('<HHIQIIQII', 0xd113, 2, 1, 0, 0, 0, sysid, seg, 8192)
    blk = hashlib.sha256(b'%d' % fill).digest() * 32
    return (h + blk * (seg // len(blk) + 1))[:seg]


def blob(seed, n):
    out, i = bytearray(), 0
    while len(out) < n:
        out += hashlib.sha256(b'%s:%d' % (str(seed).encode(), i)).digest() * 4
        i += 1
    return bytes(out[:n])


def put(p, data, mtime=None, mode=0o600):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'wb') as f:
        f.write(data)
    os.chmod(p, mode)
    if mtime is not None:
        os.utime(p, (mtime, mtime))


def tree(p):
    r = {}
    for d, dn, fn in os.walk(p):
        for n in dn + fn:
            q = os.path.join(d, n)
            k = os.path.relpath(q, p)
            if os.path.islink(q):
                r[k] = 'link ' + os.readlink(q)
            elif os.path.isdir(q):
                r[k] = 'dir'
            else:
                r[k] = hashlib.sha1(open(q, 'rb').read()).hexdigest()
    return r


class World:
    def __init__(self, **opts):
        base = tempfile.mkdtemp(prefix='seeddemo.')
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(base, ignore_errors=True))
        self.bin = BIN
        if os.getuid() == 0:                                    # an unprivileged user owning nothing but this directory
            os.chmod(base, 0o700)
            os.chown(base, 65534, 65534)
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
        os.umask(0o022)
        self.root = base
        self.pg, self.repo = base + '/pg', base + '/repo'
        for d in ('pg', 'repo', 'repo2', 'lock', 'log', 'spool'):
            os.makedirs(base + '/' + d)
        os.chmod(self.pg, 0o700)
        self.opts = opts
        self.conf()
        self.env = {k: v for k, v in os.environ.items() if not k.startswith('PGBACKREST_')}
        self.env.update(HOME=base, TZ='UTC')

    def conf(self, **kw):
        self.opts.update(kw)
        g = {'log-level-console': 'warn', 'log-level-file': 'off', 'log-level-stderr': 'off', 'lock-path': self.root + '/lock', 'log-path': self.root + '/log',
             'spool-path': self.root + '/spool', 'repo1-path': self.repo, 'compress-type': 'none', 'process-max': '1', 'repo1-retention-full': '9999999'}
        g.update({k.replace('_', '-'): v for k, v in self.opts.items()})
        with open(self.root + '/pgbackrest.conf', 'w') as f:
            f.write('[global]\n' + ''.join('%s=%s\n' % x for x in g.items() if x[1] is not None) + '\n[demo]\npg1-path=%s\n' % self.pg)

    def cluster(self, files=None):
        put(self.pg + '/PG_VERSION', b'16\n', time.time() - 10000)
        put(self.pg + '/global/pg_control', control(), time.time() - 10000)
        for d in ('base/1', 'pg_wal', 'pg_tblspc', 'pg_xact'):
            os.makedirs(self.pg + '/' + d, exist_ok=True)
        for k, v in (files or {}).items():
            put(self.pg + '/' + k, v, time.time() - 5000)

    def run(self, cmd, *args, env=None, timeout=120, preload=None, **opt):
        a = [self.bin, '--config=' + self.root + '/pgbackrest.conf', '--stanza=demo']
        for k, v in opt.items():
            k = k.replace('_', '-')
            a.append('--' + k if v is True else '--no-' + k if v is False else '--%s=%s' % (k, v))
        e = dict(self.env)
        if preload:
            e['LD_PRELOAD'] = preload
        e.update(env or {})
        r = subprocess.run(a + [cmd] + list(args), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, text=True, errors='replace', env=e,
                           timeout=timeout, cwd=self.root)
        r.cmd = cmd
        return r

    def ok(self, cmd, *args, **opt):
        r = self.run(cmd, *args, **opt)
        if r.returncode:
            fail('%s failed (%d): %s' % (cmd, r.returncode, r.stdout))
        return r

    def restore(self, dest='r', **kw):
        d = self.root + '/' + dest
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d, mode=0o700)
        kw.setdefault('type', 'preserve')
        return self.run('restore', pg1_path=d, **kw), d

    def labels(self):
        import json
        j = json.loads(self.ok('info', output='json').stdout)
        return [b['label'] for b in j[0]['backup']]


def so(world, src):
    """compile a preload library"""
    c = world.root + '/pre.c'
    open(c, 'w').write(src)
    subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', world.root + '/pre.so', c, '-ldl'], check=True)
    return world.root + '/pre.so'


def fail(msg):
    print('DEMO FAILED: ' + msg)
    sys.exit(1)


def passed():
    print('demo ok')
    sys.exit(0)
