"""Fake PostgreSQL clusters (pg_control, WAL) and a runner for the real pgbackrest binary under the shim."""
import ctypes, mmap, os, shutil, stat, struct, subprocess, hashlib, json, re, time
from . import core

PG = {
    '9.6': dict(ctlver=960, catver=201608131, magic=0xd093, ckpt=32, tli=56, blcksz=216, segsz=228, sumver=252, crc=256),
    '10': dict(ctlver=1002, catver=201707211, magic=0xd097, ckpt=32, tli=56, blcksz=216, segsz=228, sumver=252, crc=288),
    '11': dict(ctlver=1100, catver=201809051, magic=0xd098, ckpt=32, tli=48, blcksz=208, segsz=220, sumver=244, crc=280),
    '12': dict(ctlver=1201, catver=201909212, magic=0xd101, ckpt=32, tli=48, blcksz=216, segsz=228, sumver=252, crc=288),
    '13': dict(ctlver=1300, catver=202007201, magic=0xd106, ckpt=32, tli=48, blcksz=216, segsz=228, sumver=252, crc=288),
    '14': dict(ctlver=1300, catver=202107181, magic=0xd10d, ckpt=32, tli=48, blcksz=216, segsz=228, sumver=252, crc=288),
    '15': dict(ctlver=1300, catver=202209061, magic=0xd110, ckpt=32, tli=48, blcksz=216, segsz=228, sumver=252, crc=288),
    '16': dict(ctlver=1300, catver=202307071, magic=0xd113, ckpt=32, tli=48, blcksz=216, segsz=228, sumver=252, crc=288),
    '17': dict(ctlver=1700, catver=202406281, magic=0xd116, ckpt=32, tli=48, blcksz=216, segsz=228, sumver=252, crc=288),
    '18': dict(ctlver=1800, catver=202506291, magic=0xd118, ckpt=32, tli=48, blcksz=216, segsz=228, sumver=252, crc=292),
}

MB = 1 << 20
PAGE = 8192
T0 = 1700000000            # virtual time at which every scenario starts (2023-11-14 22:13:20 UTC)

_crc_t = []
for _i in range(256):
    _c = _i
    for _ in range(8):
        _c = (_c >> 1) ^ 0x82F63B78 if _c & 1 else _c >> 1
    _crc_t.append(_c)


def crc32c(b):
    c = 0xFFFFFFFF
    for x in b:
        c = _crc_t[(c ^ x) & 255] ^ (c >> 8)
    return c ^ 0xFFFFFFFF


def control(ver='16', sysid=1000000000000000094, ckpt=0x1000028, tli=1, seg=MB, checksum=0, extra=0, page=PAGE):
    v = PG[ver]
    b = bytearray(8192)
    struct.pack_into('<QII', b, 0, sysid, v['ctlver'], v['catver'])
    struct.pack_into('<I', b, 16, 1 + extra)
    struct.pack_into('<Q', b, v['ckpt'], ckpt)
    struct.pack_into('<I', b, v['tli'], tli)
    struct.pack_into("<I", b, v["blcksz"], page)
    struct.pack_into('<I', b, v['segsz'], seg)
    struct.pack_into('<I', b, v['sumver'], checksum)
    struct.pack_into('<I', b, v['crc'], crc32c(bytes(b[:v['crc']])))
    return bytes(b)


def control_ckpt(b, ver='16'):
    return struct.unpack_from('<Q', b, PG[ver]['ckpt'])[0]


def control_valid(b, ver='16'):
    v = PG[ver]
    return len(b) == 8192 and struct.unpack_from('<I', b, v['crc'])[0] == crc32c(b[:v['crc']])


def wal(ver='16', sysid=1000000000000000094, seg=MB, fill=0, tail=b''):
    """one WAL segment: long header then pattern"""
    h = struct.pack('<HHIQIIQII', PG[ver]['magic'], 2, 1, 0, 0, 0, sysid, seg, 8192)
    blk = hashlib.sha256(b'%d' % fill).digest() * 32
    body = h + (blk * (seg // len(blk) + 1))
    body = body[:seg - len(tail)] + tail
    return body


def walname(tli, n, seg=MB):
    per = 0x100000000 // seg
    return '%08X%08X%08X' % (tli, n // per, n % per)


def put(path, data, mtime=None, mode=0o600):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(data)
    os.chmod(path, mode)
    if mtime is not None:
        os.utime(path, (mtime, mtime))


class CtlS(ctypes.Structure):
    _fields_ = [(n, ctypes.c_int64) for n in (
        'magic', 'op', 'rop', 'faultOp', 'faultKind', 'faultErr', 'faultHit', 'faultSticky', 'timeOn', 'timeUs', 'timeStep', 'rfaultOp',
        'rfaultKind', 'rfaultErr', 'rfaultHit')] + [('faultOpName', ctypes.c_char * 64), ('rfaultName', ctypes.c_char * 256)] + [
        ('selOn', ctypes.c_int64), ('selPos', ctypes.c_int64), ('sel', ctypes.c_ubyte * 160), ('selN', ctypes.c_ubyte * 160)]


class Ctl:
    """control page shared with the shim"""

    def __init__(self, path):
        self.path = path
        with open(path, 'wb') as f:
            f.write(b'\0' * 4096)
        self.f = open(path, 'r+b')
        self.m = mmap.mmap(self.f.fileno(), 4096)
        self.s = CtlS.from_buffer(self.m)
        self.s.magic = 0x7067627273686d31
        self.s.timeOn = 1
        self.s.timeUs = T0 * 1000000
        self.s.timeStep = 20

    def reset(self):
        for n in ('op', 'rop', 'faultOp', 'faultKind', 'faultErr', 'faultHit', 'faultSticky', 'rfaultOp', 'rfaultKind', 'rfaultErr',
                  'rfaultHit', 'selOn', 'selPos'):
            setattr(self.s, n, 0)
        self.s.faultOpName = b''
        self.s.rfaultName = b''

    def rfault(self, op, kind=1, err=5):
        self.reset()
        self.s.rfaultOp = op
        self.s.rfaultKind = kind
        self.s.rfaultErr = err

    def fault(self, op, kind, err=28, sticky=0, name=b''):
        self.reset()
        self.s.faultOp = op
        self.s.faultKind = kind
        self.s.faultErr = err
        self.s.faultSticky = sticky
        self.s.faultOpName = name


class Result:
    def __init__(self, rc, out, err):
        self.rc = rc
        self.out = out
        self.err = err

    @property
    def all(self):
        return self.out + self.err

    def __repr__(self):
        return 'rc=%d\n%s' % (self.rc, (self.out + self.err)[-3000:])


class Unexpected(Exception):
    pass


class Env:
    """A scratch world: <root>/{repo,repo2,pg,spool,lock,log,pgbackrest.conf}. Everything pgbackrest touches lies under root."""

    def __init__(self, root, ver='16', seg=MB, sysid=1000000000000000094, stanza='demo', repos=1, vtime=True):
        self.root = root
        self.ver = ver
        self.seg = seg
        self.sysid = sysid
        self.stanza = stanza
        self.repos = repos
        self.pg = root + '/pg'
        self.pgs = [self.pg]
        self.opts = {}
        self.sopts = {}
        os.makedirs(root, exist_ok=True)
        self.ctl = Ctl(root + '/ctl')
        self.ctl.s.timeOn = 1 if vtime else 0
        self.bin = core.build().bin
        self.preload = [core.build().shim]
        self.extra_env = {}
        self.stub = True
        self.history = []
        for d in ('pg', 'lock', 'log', 'spool'):
            os.makedirs(root + '/' + d, exist_ok=True)
        for i in range(repos):
            os.makedirs(self.repo(i + 1), exist_ok=True)
        self.conf()

    def repo(self, i=1):
        return self.root + ('/repo' if i == 1 else '/repo%d' % i)

    def conf(self, **kw):
        """(re)write the configuration; kw keys use _ for - in option names"""
        self.opts.update({k.replace('_', '-'): v for k, v in kw.items()})
        g = {'log-level-console': 'warn', 'log-level-file': 'off', 'log-level-stderr': 'off', 'lock-path': self.root + '/lock',
             'log-path': self.root + '/log', 'spool-path': self.root + '/spool', 'process-max': '1', 'compress-type': 'none',
             'job-retry': '0'}
        for i in range(self.repos):
            g['repo%d-path' % (i + 1)] = self.repo(i + 1)
        for k, v in self.opts.items():
            if v is None:
                g.pop(k, None)
            else:
                g[k] = v
        lines = ['[global]']
        for k, v in g.items():
            for x in (v if isinstance(v, (list, tuple)) else [v]):
                lines.append('%s=%s' % (k, x))
        lines += ['', '[%s]' % self.stanza]
        for i, p in enumerate(self.pgs):
            lines.append('pg%d-path=%s' % (i + 1, p))
        for k, v in self.sopts.items():
            lines.append('%s=%s' % (k, v))
        with open(self.root + '/pgbackrest.conf', 'w') as f:
            f.write('\n'.join(lines) + '\n')

    def environ(self, log=None, shim_root=None):
        e = dict(core.CLEAN_ENV)
        e['PGSHIM_CTL'] = self.ctl.path
        e['PGSHIM_ROOT'] = shim_root or self.root
        if log:
            e['PGSHIM_LOG'] = log
        e['LD_PRELOAD'] = ':'.join(self.preload)
        if self.stub and core.build().stub:
            e['LD_LIBRARY_PATH'] = core.build().stub
        e.update(self.extra_env)
        return e

    def argv(self, cmd, *args, stanza=True, **opt):
        a = [self.bin, '--config=' + (opt.pop('config', None) or self.root + '/pgbackrest.conf')]
        if stanza:
            a.append('--stanza=' + self.stanza)
        for k, v in opt.items():
            k = k.replace('_', '-')
            if v is True:
                a.append('--' + k)
            elif v is False:
                a.append('--no-' + k)
            elif isinstance(v, (list, tuple)):
                a += ['--%s=%s' % (k, x) for x in v]
            else:
                a.append('--%s=%s' % (k, v))
        return a + [cmd] + list(args)

    def run(self, cmd, *args, log=None, ok=None, timeout=120, shim_root=None, stdin=None, env=None, cwd=None, **opt):
        stz = opt.pop('stanza_opt', True)
        argv = self.argv(cmd, *args, stanza=stz, **opt)
        e = self.environ(log, shim_root)
        if env:
            e.update(env)
        p = subprocess.Popen(argv, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, env=e, cwd=cwd or self.root, start_new_session=True)
        try:
            out, err = p.communicate(stdin, timeout=timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            out, err = p.communicate()
            p.returncode = -99
        if p.returncode == -9:              # killed by an injected fault: its workers must not go on
            try:
                for _ in range(10):
                    os.killpg(p.pid, 9)
                    time.sleep(0.002)
            except OSError:
                pass
        r = Result(p.returncode, out.decode('utf-8', 'replace'), err.decode('utf-8', 'replace'))
        r.raw = out
        self.history.append((' '.join(argv[2:]), p.returncode))
        if ok is True and r.rc != 0:
            raise Unexpected('%s failed unexpectedly: %r' % (' '.join(argv), r))
        if ok is False and r.rc == 0:
            raise Unexpected('%s succeeded unexpectedly: %r' % (' '.join(argv), r))
        return r

    def wait_procs(self, limit=30.0):
        """wait until no process started on this environment is left (workers outlive a killed parent for a moment)"""
        t, me, needle = time.time(), os.getpid(), (self.root + '/').encode()
        while time.time() - t < limit:
            busy = False
            for n in os.listdir('/proc'):
                if n.isdigit() and int(n) != me:
                    try:
                        with open('/proc/%s/cmdline' % n, 'rb') as f:
                            busy = busy or needle in f.read()
                    except OSError:
                        pass
            if not busy:
                return True
            time.sleep(0.002)
        return False

    def wait_async(self, limit=30.0):
        """wait until no background process of this environment runs or holds a lock"""
        import fcntl
        t = time.time()
        while time.time() - t < limit:
            busy = False
            for n in os.listdir(self.root + '/lock'):
                if not n.endswith('.lock'):
                    continue
                try:
                    with open(self.root + '/lock/' + n, 'rb') as f:
                        fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
                except BlockingIOError:
                    busy = True
                except OSError:
                    pass
            # a process that was only just started does not hold the lock yet
            if not busy and not self.archiving():
                return
            time.sleep(0.002)
        raise Unexpected('background process did not finish')

    def archiving(self):
        me = self.root.encode()
        for p in os.listdir('/proc'):
            if p.isdigit():
                try:
                    with open('/proc/%s/cmdline' % p, 'rb') as f:
                        c = f.read()
                except OSError:
                    continue
                if me + b'/' in c and b'pgbackrest' in c.split(b'\0')[0] and (b'archive-get' in c or b'archive-push' in c):
                    return True
        return False

    # ---- cluster
    def cluster(self, files=None, **ctl):
        """minimal cluster: PG_VERSION, global/pg_control, given files {relpath: bytes or (bytes, mtime) or None (directory)}"""
        put(self.pg + '/PG_VERSION', (self.ver + '\n').encode(), T0 - 10000)
        put(self.pg + '/global/pg_control', control(self.ver, self.sysid, seg=self.seg, **ctl), T0 - 10000)
        for d in ('base/1', 'pg_xlog' if self.ver == '9.6' else 'pg_wal', 'pg_tblspc', 'pg_clog' if self.ver == '9.6' else 'pg_xact'):
            os.makedirs(self.pg + '/' + d, exist_ok=True)
        os.chmod(self.pg, 0o700)
        for k, v in (files or {}).items():
            self.file(k, v)

    def file(self, rel, v, mtime=None):
        p = self.pg + '/' + rel
        if v is None:
            os.makedirs(p, exist_ok=True)
        elif isinstance(v, tuple):
            put(p, v[0], v[1])
        else:
            put(p, v, mtime or T0 - 5000)

    def now(self):
        return self.ctl.s.timeUs // 1000000

    def advance(self, sec):
        self.ctl.s.timeUs += int(sec * 1000000)


def tree(path, content=True, mtime=False, skip=()):
    """{relpath: descriptor} of a directory tree, without following links"""
    res = {}
    for d, dn, fn in os.walk(path):
        for n in dn + fn:
            p = os.path.join(d, n)
            rel = os.path.relpath(p, path)
            if any(rel == s or rel.startswith(s + '/') for s in skip):
                continue
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                res[rel] = ('link', os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                res[rel] = ('dir', oct(st.st_mode & 0o7777))
            elif not stat.S_ISREG(st.st_mode):
                res[rel] = ('special', oct(st.st_mode))
            else:
                with open(p, 'rb') as f:
                    data = f.read()
                t = ('file', data if content is True else hashlib.sha1(data).hexdigest(), oct(st.st_mode & 0o7777))
                if mtime:
                    t += (int(st.st_mtime),)
                res[rel] = t
    return res


def tree_diff(a, b, limit=8):
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            def d(x):
                if x is None:
                    return 'absent'
                if x[0] == 'file' and isinstance(x[1], bytes):
                    return 'file(len=%d sha=%s)%s' % (len(x[1]), hashlib.sha1(x[1]).hexdigest()[:8], x[2:])
                return str(x)
            out.append('%s: %s -> %s' % (k, d(a.get(k)), d(b.get(k))))
            if len(out) >= limit:
                break
    return out


def copytree(a, b):
    if os.path.exists(b):
        shutil.rmtree(b)
    shutil.copytree(a, b, symlinks=True)


def rmtree(p):
    if os.path.lexists(p):
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p, ignore_errors=True)
        else:
            os.unlink(p)


def info_ini(path):
    """independent parser of pgbackrest info/manifest files: {section: {key: json value}}"""
    return parse_ini(open(path, 'rb').read().decode())


def parse_ini(txt):
    res, sec = {}, None
    for ln in txt.split('\n'):
        if not ln:
            continue
        if ln.startswith('[') and ln.endswith(']'):
            sec = ln[1:-1]
            res.setdefault(sec, {})
        else:
            # keys may contain '=' so find the split where the rest is valid json
            i = ln.find('=')
            while i != -1:
                try:
                    res[sec][ln[:i]] = json.loads(ln[i + 1:])
                    break
                except ValueError:
                    i = ln.find('=', i + 1)
    return res
