#!/usr/bin/env python3
"""P33: the TLS server serves only authorised clients and stanzas, before anything is processed; clients accept only the right server.

The real server on the loopback interface; every combination of certificate, authorisation list and requested stanza, and every sequence of
protocol messages up to a bound, against a reference of what may be served (observed as directories created and listings returned)."""
import ctypes, itertools, mmap, os, signal, socket, ssl, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pgb import core, pg, bk

LISTED = 'VERYSECRETNAME'


# ------------------------------------------------------------------------------------------------ certificates
def sh(*a, inp=None):
    p = subprocess.run(a, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise pg.Unexpected('%r: %s' % (a, p.stderr.decode()[-300:]))
    return p.stdout


def der_len(n):
    return bytes([n]) if n < 128 else bytes([0x82, n >> 8, n & 255]) if n > 255 else bytes([0x81, n])


class Certs:
    """a small authority: files <name>.crt and <name>.key (chain in .crt)"""

    def __init__(self, d):
        self.d = d
        os.makedirs(d)
        self.n = 0
        self.ca('ca', 'authority')
        self.ca('other', 'authority')

    def key(self, name):
        sh('openssl', 'ecparam', '-name', 'prime256v1', '-genkey', '-noout', '-out', self.d + '/%s.key' % name)
        os.chmod(self.d + '/%s.key' % name, 0o600)

    def ca(self, name, cn):
        self.key(name)
        sh('openssl', 'req', '-x509', '-new', '-key', self.d + '/%s.key' % name, '-subj', '/CN=' + cn, '-days', '30', '-out', self.d + '/%s.crt' % name)

    def cert(self, name, subj, ca='ca', ext='', start=None, end=None, chain=False):
        d = self.d
        self.key(name)
        self.n += 1
        with open(d + '/x.cnf', 'w') as f:
            f.write('[req]\ndistinguished_name=dn\nprompt=no\n[dn]\n[ext]\nbasicConstraints=CA:%s\n%s\n[ca]\ndefault_ca=c\n[c]\ndatabase=%s/db\nserial=%s/ser\nnew_certs_dir=%s\ndefault_md=sha256\n'
                    'policy=p\nunique_subject=no\nemail_in_dn=no\nx509_extensions=ext\n[p]\nCN=optional\nO=optional\n' % ('TRUE' if name == 'int' else 'FALSE', ext, d, d, d))
        pg.put(d + '/db', b'')
        pg.put(d + '/ser', b'%04X\n' % (4096 + self.n))
        sh('openssl', 'req', '-new', '-key', d + '/%s.key' % name, '-subj', subj, '-out', d + '/x.csr')
        sh('openssl', 'ca', '-batch', '-notext', '-config', d + '/x.cnf', '-in', d + '/x.csr', '-cert', d + '/%s.crt' % ca, '-keyfile', d + '/%s.key' % ca, '-preserveDN',
           '-startdate', start or '20200101000000Z', '-enddate', end or '20491231000000Z', '-out', d + '/%s.crt' % name)
        if chain:
            with open(d + '/%s.crt' % name, 'a') as f:
                f.write(open(d + '/%s.crt' % ca).read())

    def patch(self, name, old, new, ca='ca'):
        """change bytes in a certificate and sign it again (names that the tools refuse to make)"""
        d = self.d
        der = sh('openssl', 'x509', '-in', d + '/%s.crt' % name, '-outform', 'DER')

        def item(b, i):
            n, k = b[i + 1], 2
            if n & 0x80:
                k = 2 + (n & 0x7f)
                n = int.from_bytes(b[i + 2:i + k], 'big')
            return i + k + n
        p = 4 if der[1] == 0x82 else 3
        te = item(der, p)
        ae = item(der, te)
        tbs = der[p:te].replace(old, new)
        pg.put(d + '/tbs', tbs)
        sig = sh('openssl', 'dgst', '-sha256', '-sign', d + '/%s.key' % ca, d + '/tbs')
        body = tbs + der[te:ae] + b'\x03' + der_len(len(sig) + 1) + b'\0' + sig
        pg.put(d + '/x.der', b'\x30' + der_len(len(body)) + body)
        sh('openssl', 'x509', '-inform', 'DER', '-in', d + '/x.der', '-out', d + '/%s.crt' % name)


# ------------------------------------------------------------------------------------------------ protocol messages
def var(n):
    out = b''
    while n > 127:
        out += bytes([n & 127 | 128])
        n >>= 7
    return out + bytes([n])


STRBITS = {**{c: i + 1 for i, c in enumerate('abcdefghijklmnopqrstuvwxyz')}, '-': 27, '2': 28, '5': 29, '6': 30}


def strid(s):
    v = 0
    for i, c in enumerate(s):
        v |= STRBITS[c] << (4 + 5 * i)
    return v


MAP = dict(arr=1, bool=2, str=7, u32=8, u64=9, id=10, time=15, pack=17, mode=18)


def pack(*fields):
    """fields (type, value); None leaves a gap"""
    out, gap = b'', 0
    for f in fields:
        if f is None:
            gap += 1
            continue
        t, v = f
        m = MAP[t]
        d, gap, after, data = gap, 0, None, b''
        tag = (m if m < 15 else 15) << 4
        if t in ('u32', 'u64', 'id', 'mode', 'time'):
            if t == 'time':
                v = v << 1
            if v < 2:
                tag |= (v & 1) << 2 | d & 1 | (2 if d >> 1 else 0)
                d >>= 1
            else:
                tag |= 8 | d & 3 | (4 if d >> 2 else 0)
                d >>= 2
                after = v
        elif t in ('bool', 'str'):
            tag |= (8 if v else 0) | d & 3 | (4 if d >> 2 else 0)
            d >>= 2
            if t == 'str' and v:
                data = var(len(v)) + v
        else:
            tag |= d & 7 | (8 if d >> 3 else 0)
            d >>= 3
            if t == 'pack':
                data = var(len(v)) + v
            else:
                data = v
        out += bytes([tag]) + (var(m - 15) if m >= 15 else b'') + (var(d) if d else b'') + (var(after) if after is not None else b'') + data
    return out + b'\0'


def request(cmd, param=None, sess=1):
    return pack(('u32', 1), ('id', strid(cmd)), ('id', strid('prc')), ('u64', sess), None, ('pack', param) if param is not None else None)


# ------------------------------------------------------------------------------------------------ the world
class World:
    def __init__(self, root, idx):
        self.root = root
        self.e = e = pg.Env(root + '/w', vtime=False)
        e.preload = []
        e.stub = False
        e.conf()
        e.cluster({})
        e.run('stanza-create', online=False, ok=True)
        pg.put(e.repo(1) + '/archive/demo/' + LISTED, b'x')
        self.c = c = Certs(root + '/c')
        c.cert('server', '/CN=localhost')
        c.cert('alice', '/CN=alice')
        c.cert('Alice', '/CN=Alice')
        c.cert('alice2', '/CN=alice2')
        c.cert('ali', '/CN=ali')
        c.cert('bob', '/CN=bob')
        c.cert('otherca', '/CN=alice', ca='other')
        c.cert('expired', '/CN=alice', end='20210101000000Z')
        c.cert('future', '/CN=alice', start='20400101000000Z')
        c.cert('nocn', '/O=alice')
        c.cert('nul', '/CN=alice-evil')
        c.patch('nul', b'alice-evil', b'alice\0evil')
        c.cert('spoof', '/CN=alicX')
        c.patch('spoof', b'alicX', b'alice', ca='other')
        c.cert('int', '/CN=intermediate')
        c.cert('chained', '/CN=alice', ca='int', chain=True)
        c.key('self')
        sh('openssl', 'req', '-x509', '-new', '-key', c.d + '/self.key', '-subj', '/CN=alice', '-days', '30', '-out', c.d + '/self.crt')
        self.proc = None
        self.port = 0
        self.nth = 0

    def env(self):
        return dict({k: v for k, v in self.e.environ().items() if not k.startswith(('PGSHIM', 'LD_PRELOAD'))}, HOME=self.root)

    def config(self, auth, ca=True, cert='server'):
        d = self.c.d
        g = ['[global]', 'log-level-console=off', 'log-level-file=off', 'log-level-stderr=off', 'lock-path=' + self.root + '/slock', 'log-path=' + self.root + '/slog',
             'tls-server-address=127.0.0.1', 'tls-server-port=%d' % self.port, 'tls-server-cert-file=%s/%s.crt' % (d, cert), 'tls-server-key-file=%s/%s.key' % (d, cert),
             'tls-server-ca-file=%s/ca.crt' % d, 'protocol-timeout=20', 'io-timeout=10', 'db-timeout=5']
        g += ['tls-server-auth=' + a for a in auth]
        pg.put(self.root + '/s.conf', '\n'.join(g).encode() + b'\n')

    def start(self, auth, cert='server', env={}):
        for _ in range(20):
            s = socket.socket()
            s.bind(('127.0.0.1', 0))
            self.port = s.getsockname()[1]
            s.close()
            self.config(auth, cert=cert)
            self.proc = subprocess.Popen([self.e.bin, 'server', '--config=' + self.root + '/s.conf'], env=dict(self.env(), **env), cwd=self.root, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                         stderr=subprocess.STDOUT, start_new_session=True)
            t = time.time()
            while time.time() - t < 10 and self.proc.poll() is None:
                try:
                    socket.create_connection(('127.0.0.1', self.port), 5).close()
                    return
                except OSError:
                    time.sleep(0.01)
            self.stop()
        raise pg.Unexpected('server does not start: %s' % self.proc.stdout.read()[-500:])

    def ended(self):
        if self.proc.poll() is None:
            return ''
        return ' (server ended with %s: %r)' % (self.proc.returncode, self.proc.stdout.read()[-500:])

    def stop(self):
        if self.proc:
            try:
                os.killpg(self.proc.pid, 9)
            except OSError:
                pass
            self.proc.wait()

    def config_msg(self, stanza, extra=()):
        a = ['--exec-id=1-a', '--log-path=' + self.root + '/slog', '--log-level-console=off', '--log-level-file=off', '--log-level-stderr=error', '--process=0',
             '--remote-type=repo', '--repo=1', '--repo1-path=' + self.e.repo(1)] + list(extra)
        if stanza is not None:
            a += ['--stanza=' + stanza, '--lock-path=' + self.root + '/slock']
        a.append('info:remote' if stanza is not None else 'repo-ls:remote')
        arr = b''.join(pack(('str', x.encode()))[:-1] for x in a) + b'\0'
        return request('config', pack(('arr', arr)))

    def talk(self, cert, msgs):
        """send the messages at once, read everything; returns (greeting seen, bytes after it)"""
        c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        c.check_hostname = False
        c.verify_mode = ssl.CERT_NONE
        if cert:
            c.load_cert_chain(self.c.d + '/%s.crt' % cert, self.c.d + '/%s.key' % cert)
        got = b''
        try:
            with socket.create_connection(('127.0.0.1', self.port), 10) as s:
                with c.wrap_socket(s, server_hostname='localhost') as t:
                    t.settimeout(10)
                    t.sendall(b''.join(msgs))
                    while True:
                        b = t.recv(65536)
                        if not b:
                            break
                        got += b
        except socket.timeout:
            got += b'\nTIMEOUT'
        except (ssl.SSLError, OSError):
            pass
        i = got.find(b'\n')
        return i >= 0 and got.startswith(b'{"name":"pgBackRest"'), got[i + 1:]

    def probe(self, cert, first):
        """is anything served after this first message? -> (listing returned, directory made)"""
        self.nth += 1
        d = 'probe%d' % self.nth
        ok, b = self.talk(cert, first + [request('noop'), request('s-f'), LIST(self.e), MKDIR(self.e, d), request('exit')])
        return ok, LISTED.encode() in b, os.path.isdir(self.e.repo(1) + '/' + d), b


def LIST(e):
    return request('s-l', pack(('str', (e.repo(1) + '/archive/demo').encode()), ('u32', 1)))


def MKDIR(e, d):
    return request('s-pc', pack(('str', (e.repo(1) + '/' + d).encode()), None, None, ('mode', 0o750)))


CERTS = {None: None, 'alice': 'alice', 'Alice': 'Alice', 'alice2': 'alice2', 'ali': 'ali', 'bob': 'bob', 'otherca': 0, 'expired': 0, 'future': 0, 'nocn': 0, 'nul': 0, 'spoof': 0, 'self': 0,
         'chained': 'alice'}
LISTS = ['demo', '*', 'demo,other', 'other', 'dem', 'demo2', 'other , demo', ' demo ', 'dem,demo2,Demo', 'demo,*', 'other,,x', 'DEMO']
STANZAS = ['demo', 'other', 'dem', 'demo2', 'DEMO', 'x', None]


def allowed(name, auth, stanza):
    """reference: auth is a list of name=list entries"""
    t = dict(a.split('=', 1) for a in auth)
    if not name or name not in t:
        return False
    v = t[name].strip()
    if v == '*':
        return True
    return stanza is not None and stanza in [x.strip() for x in v.split(',')]


def matrix(a):
    _, idx, lists = a
    root = core.scratch('m%d' % idx)
    w = World(root, idx)
    viol, keys, ev = [], set(), 0
    for ls in lists:
        auth = ['alice=' + ls, 'bob=other']
        w.start(auth)
        for cert, name in CERTS.items():
            for st in STANZAS:
                want = allowed(name, auth, st)
                for _ in range(3):
                    up, lst, made, b = w.probe(cert, [w.config_msg(st)])
                    ev += 1
                    if (lst and made) or not want:
                        break
                keys.add(core.h((ls, cert, st)))
                what = 'certificate %s, authorisation %r, stanza %s' % (cert, ls, st)
                if (lst or made) and not want:
                    viol.append(('served without authorisation: %s (listing %s, directory made %s)' % (what, lst, made), repr((a, what))))
                if want and not (lst and made):
                    viol.append(('not served although authorised: %s: %s' % (what, str(b[:600]) + w.ended()), repr((a, what))))
            # an unauthenticated client learns that the server is there, others nothing
            up, b = w.talk(cert, [request('noop')])
            ev += 1
            if cert is None and not (up and b):
                viol.append(('server does not answer a client without certificate: %r' % b, repr((a, cert))))
            if name == 0 and up:
                viol.append(('handshake completed with certificate %s' % cert, repr((a, cert))))
        w.stop()
    pg.rmtree(root)
    return dict(evals=ev, trans=ev, keys=keys, viol=viol[:5])


def sequences(a):
    """all sequences of messages: served exactly when the first is the configuration of an allowed stanza and the second a noop"""
    _, idx, cert, name, depth, lo, n = a
    root = core.scratch('q%d' % idx)
    w = World(root, idx)
    auth = ['alice=demo', 'bob=*']
    w.start(auth)
    e = w.e
    viol, keys, ev = [], set(), 0
    seqs = [s for k in range(1, depth + 1) for s in itertools.product('CDANFLPX', repeat=k)]
    # longer ones behind the two messages which open the service
    seqs += [p + s for p in (('C', 'N'), ('D', 'N'), ('A', 'N'), ('N', 'C', 'N')) for s in itertools.product('CDNFLP', repeat=3)]
    for s in seqs[lo::n]:
        for _ in range(3):
            dirs = []
            msgs = []
            stz = {'C': 'demo', 'D': 'other', 'A': None}
            # what the server may do
            state, feature, want, mk, may, maymk = 'new', False, False, [], False, set()
            for k, m in enumerate(s):
                if m in 'CDA':
                    msgs.append(w.config_msg(stz[m]))
                elif m == 'N':
                    msgs.append(request('noop'))
                elif m == 'F':
                    msgs.append(request('s-f'))
                elif m == 'L':
                    msgs.append(LIST(e))
                elif m == 'P':
                    w.nth += 1
                    dirs.append('d%d' % w.nth)
                    msgs.append(MKDIR(e, dirs[-1]))
                else:
                    msgs.append(b'\xff\x01garbage\n')
                if state == 'new':
                    state = 'conf' if m in 'CDA' and allowed(name, auth, stz[m]) else 'closed'
                elif state == 'conf':
                    state = 'open' if m == 'N' else 'closed'
                elif state == 'open':
                    if m in 'CDAX':
                        state = 'undefined'         # not a request of a client of pgBackRest
                    elif m in 'LP' and not feature:
                        state = 'undefined'         # storage used before it was set up: the client's own fault
                    elif m == 'F':
                        feature = True
                    elif m == 'L':
                        want = True
                    elif m == 'P':
                        mk.append(dirs[-1])
                if state == 'undefined':
                    may |= m == 'L'
                    maymk |= {dirs[-1]} if m == 'P' else set()
            msgs.append(request('exit'))
            up, b = w.talk(cert, msgs)
            ev += 1
            keys.add(core.h((cert, s)))
            lst = LISTED.encode() in b
            made = [d for d in dirs if os.path.isdir(e.repo(1) + '/' + d)]
            for d in made:
                os.rmdir(e.repo(1) + '/' + d)
            if state != 'open' or lst == want and made == mk:
                break                   # (a connection cut early is tried again)
        if lst and not (want or may) or set(made) - set(mk) - maymk:
            viol.append(('certificate %s, messages %s: served without authorisation: listing %s, directories %s' % (cert, ''.join(s), lst, made), repr((a, s))))
        elif state == 'open' and (want and not lst or made != mk):
            viol.append(('certificate %s, messages %s: not served: listing %s, directories %s instead of %s: %r' % (cert, ''.join(s), lst, made, mk, b[-200:]), repr((a, s))))
        if w.proc.poll() is not None:
            viol.append(('server ended with %s after messages %s' % (w.proc.returncode, ''.join(s)), repr((a, s))))
            break
    up, b = w.talk(None, [request('noop')])
    if not up:
        viol.append(('server no longer answers', repr(a)))
    w.stop()
    pg.rmtree(root)
    return dict(evals=ev, trans=ev, keys=keys, viol=viol[:5])


def reload(a):
    """authorisation follows the configuration after a reload, for every change"""
    _, idx, lo, n = a
    root = core.scratch('r%d' % idx)
    w = World(root, idx)
    viol, keys, ev = [], set(), 0
    confs = [['alice=demo'], ['alice=*'], ['alice=other'], ['bob=*'], ['bob=demo', 'alice=dem'], ['alice=demo', 'bob=other']]
    for x, y in list(itertools.permutations(confs, 2))[lo::n]:
        w.start(x)

        def view():
            return [tuple(w.probe(c, [w.config_msg(st)])[1:3]) for c, st in (('alice', 'demo'), ('alice', None), ('bob', 'other'), ('bob', 'demo'))]

        def ref(z):
            return [(allowed(c, z, st),) * 2 for c, st in (('alice', 'demo'), ('alice', None), ('bob', 'other'), ('bob', 'demo'))]
        v = view()
        if v != ref(x):
            viol.append(('before reload %r: %r instead of %r' % (x, v, ref(x)), repr((a, x))))
        w.config(y)
        w.proc.send_signal(signal.SIGHUP)
        t = time.time()
        while time.time() - t < 15:
            v = view()
            if v == ref(y):
                break
            time.sleep(0.05)
        else:
            viol.append(('after reload %r -> %r: %r instead of %r' % (x, y, v, ref(y)), repr((a, x, y))))
        for _ in range(2):
            v = view()
            if v != ref(y):
                viol.append(('some time after reload %r -> %r: %r' % (x, y, v), repr((a, x, y))))
        ev += 3
        keys.add(core.h((x, y)))
        w.stop()
    pg.rmtree(root)
    return dict(evals=ev, trans=ev, keys=keys, viol=viol[:5])


# ------------------------------------------------------------------------------------------------ what happens at every library call of the main process
class SCtl(ctypes.Structure):
    _fields_ = [(n, ctypes.c_int) for n in ('pid', 'on', 'n')] + [('at', ctypes.c_int * 2), ('kind', ctypes.c_int * 2)] + [(n, ctypes.c_int) for n in ('fired', 'forks', 'accepts')] + [
        ('kids', ctypes.c_int * 256), ('dead', ctypes.c_int * 256), ('kills', ctypes.c_int), ('kill', ctypes.c_int * 256), ('src', ctypes.c_char * 400), ('to', ctypes.c_char * 200)]


def until(f, secs=20):
    t = time.time()
    while not f():
        if time.time() - t > secs:
            return False
        time.sleep(0.0005)
    return True


def preloaded(root):
    sh('gcc', '-O1', '-fno-builtin', '-fno-tree-loop-distribute-patterns', '-shared', '-fPIC', '-o', root + '/srvpre.so', core.VERIF + '/lib/srvpre.c', '-ldl')
    with open(root + '/sctl', 'wb') as f:
        f.write(b'\0' * 8192)
    f = open(root + '/sctl', 'r+b')
    return SCtl.from_buffer(mmap.mmap(f.fileno(), 8192))


def gone(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            return f.read().rsplit(')', 1)[1].split()[0] in 'ZX'
    except OSError:
        return True


def settled(s):
    """the connection which found the server ready has been served and the next one is awaited"""
    if not until(lambda: s.forks >= 1 and s.accepts >= 2) or not until(lambda: all(gone(s.kids[i]) for i in range(s.forks))):
        return False
    for i in range(s.forks):
        s.dead[i] = 1
    time.sleep(0.005)
    return True


def children(w, s, at, kind, conns):
    """one execution: connections one after the other, the children (1 all, 2 the oldest, 3 the newest) end at a call; -> (calls, what is wrong)"""
    ctypes.memset(ctypes.addressof(s), 0, ctypes.sizeof(s))
    w.start(['alice=demo'], env=dict(SRVCTL=w.root + '/sctl', LD_PRELOAD=w.root + '/srvpre.so'))
    socks = []
    try:
        if not settled(s):
            return s.n, 'server does not start'
        base = s.forks
        s.at[0], s.kind[0] = at, kind
        s.on = 1
        for i in range(conns):
            socks.append(socket.create_connection(('127.0.0.1', w.port), 10))
            if not until(lambda: s.forks > base + i or w.proc.poll() is not None):
                return s.n, 'connection %d of %d is not served%s' % (i + 1, conns, w.ended())
            if w.proc.poll() is not None:
                return s.n, 'connection %d of %d:%s' % (i + 1, conns, w.ended())
        acc = s.accepts
        n = s.n
        kids = s.forks
        for _ in range(3):
            up, lst, made, b = w.probe('alice', [w.config_msg('demo')])
            if lst and made:
                break
        else:
            return n, 'no longer served: %r%s' % (b[-200:], w.ended())
        for i in range(kids, s.forks):
            if not until(lambda: gone(s.kids[i])):
                return n, 'a child does not end'
            s.dead[i] = 1
        live = sorted(s.kids[i] for i in range(s.forks) if not s.dead[i])
        w.proc.send_signal(signal.SIGTERM)
        try:
            w.proc.wait(3)
        except subprocess.TimeoutExpired:
            # (a signal just before the server waits is seen with the next connection)
            live = None
            try:
                socks.append(socket.create_connection(('127.0.0.1', w.port), 10))
                w.proc.wait(20)
            except (OSError, subprocess.TimeoutExpired):
                return n, 'server does not end' + w.ended()
            live = sorted(s.kids[i] for i in range(s.forks) if not s.dead[i])
        if w.proc.returncode < 0:
            return n, 'SIGTERM:' + w.ended()
        killed = sorted(s.kill[i] for i in range(s.kills))
        if killed != live:
            return n, 'at its end the server signals %d processes (%d of them its live children) instead of its %d live children' % (len(killed), len(set(killed) & set(live)), len(live))
        return n, None
    finally:
        s.on = 0
        w.stop()
        for i in range(min(256, s.forks)):
            if not s.dead[i] and not gone(s.kids[i]):
                try:
                    os.kill(s.kids[i], 9)
                except OSError:
                    pass
        for x in socks:
            x.close()


def hup(w, s, at):
    """one execution: the configuration changes and SIGHUP arrives at a call (twice); -> (calls, what is wrong)"""
    ctypes.memset(ctypes.addressof(s), 0, ctypes.sizeof(s))
    confs = [['alice=demo'], ['alice=other'], ['alice=dem']][:len(at) + 1]
    w.start(confs[0], env=dict(SRVCTL=w.root + '/sctl', LD_PRELOAD=w.root + '/srvpre.so'))
    try:
        if not settled(s):
            return s.n, 'server does not start'
        src = []
        for i, c in enumerate(confs[1:]):
            w.config(c)
            os.rename(w.root + '/s.conf', w.root + '/s.conf.%d' % i)
            src.append((w.root + '/s.conf.%d' % i).encode().ljust(200, b'\0'))
        w.config(confs[0])
        s.src = b''.join(src)
        ctypes.memmove(ctypes.addressof(s) + SCtl.src.offset, b''.join(src), 200 * len(src))
        s.to = (w.root + '/s.conf').encode()
        for i, k in enumerate(at):
            s.at[i], s.kind[i] = k, 4
        s.on = 1
        for _ in range(2):
            for st in ('demo', 'other', 'dem'):
                for k in range(6):
                    was = s.fired
                    up, lst, made, b = w.probe('alice', [w.config_msg(st)])
                    may = {confs[j][0] == 'alice=' + st for j in range(was, s.fired + 1)}
                    if (lst or made) not in may and (lst or made):
                        return s.n, 'stanza %s served with %r after the signal of change %d (now %d)' % (st, confs[was], was, s.fired)
                    if (lst or made) in may:
                        break
                else:
                    return s.n, 'stanza %s not served with %r (change %d): %r%s' % (st, confs[was], was, b[-200:], w.ended())
        return s.n, None
    finally:
        s.on = 0
        w.stop()


def signals(a):
    _, idx, what, lo, n = a
    root = core.scratch('g%d' % idx)
    w = World(root, idx)
    s = preloaded(root)
    viol, keys, ev = [], set(), 0
    if what[0] == 'kids':
        _, kind, conns, step = what
        total, bad = children(w, s, 0, 0, conns)
        points = range(1 + lo * step, total + 1, n * step)
        run = lambda k: children(w, s, k, kind, conns)[1]
    elif what[0] == 'hup':
        total, bad = hup(w, s, [0])
        points = range(1 + lo * what[1], total + 1, n * what[1])
        run = lambda k: hup(w, s, [k])[1]
    else:
        total, bad = hup(w, s, [1, 0])
        points = range(2 + lo * what[1], total + 1, n * what[1])
        run = lambda k: hup(w, s, [1, k])[1]
    if bad:
        viol.append(('%s without an event: %s' % (what, bad), repr(a)))
    for k in points:
        bad = run(k)
        ev += 1
        keys.add(core.h((what, k)))
        if bad:
            viol.append(('%s at call %d of the server: %s' % (what, k, bad), repr((a, k))))
            if len(viol) > 3:
                break
    pg.rmtree(root)
    return dict(evals=ev, trans=ev * total, keys=keys, viol=viol[:5], total=total)


GAI = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <netdb.h>
#include <string.h>
#include <stdlib.h>
int getaddrinfo(const char *n, const char *s, const struct addrinfo *h, struct addrinfo **r)
{
    int (*f)(const char *, const char *, const struct addrinfo *, struct addrinfo **) = dlsym(RTLD_NEXT, "getaddrinfo");
    return f(n && strcasestr(n, ".test") ? "127.0.0.1" : n, s, h, r);
}
'''

# server certificate -> (subject, extension, authority, dates)
SERVERS = {
    'cn': ('/CN=h.a.test', '', 'ca', {}),
    'cn-case': ('/CN=H.A.test', '', 'ca', {}),
    'san': ('/CN=zz.test', 'subjectAltName=DNS:h.a.test', 'ca', {}),
    'san2': ('/CN=zz.test', 'subjectAltName=DNS:q.test,DNS:h.a.test,DNS:r.test', 'ca', {}),
    'san-hides-cn': ('/CN=h.a.test', 'subjectAltName=DNS:q.test', 'ca', {}),
    'wild': ('/CN=*.a.test', '', 'ca', {}),
    'wild-san': ('/CN=q.test', 'subjectAltName=DNS:*.a.test', 'ca', {}),
    'wild-top': ('/CN=*.test', '', 'ca', {}),
    'ip': ('/CN=q.test', 'subjectAltName=IP:127.0.0.1', 'ca', {}),
    'ip-other': ('/CN=q.test', 'subjectAltName=IP:127.0.0.2', 'ca', {}),
    'otherca': ('/CN=h.a.test', '', 'other', {}),
    'expired': ('/CN=h.a.test', '', 'ca', dict(end='20210101000000Z')),
    'future': ('/CN=h.a.test', '', 'ca', dict(start='20400101000000Z')),
    'nul': ('/CN=h.a.test-evil.test', '', 'ca', {}),
}
HOSTS = ['h.a.test', 'host.a.test', 'a.test', 'x.h.a.test', 'xh.a.test', 'h.a.test.test', 'H.A.TEST', '127.0.0.1', 'q.test', 'zz.test', 'r.test']


def names(s):
    subj, ext, ca, dates = SERVERS[s]
    if ca != 'ca' or dates or s == 'nul':
        return []
    if ext:
        return ext.split('=')[1].split(',')
    return ['DNS:' + subj[4:]]


def server_ok(s, host):
    """(must be accepted, may be accepted)"""
    must = may = False
    for n in names(s):
        k, v = n.split(':', 1)
        if k == 'IP':
            x = y = v == host
        elif v.startswith('*.'):
            y = host.lower().endswith(v[1:].lower()) and host.count('.') == v.count('.') and len(host) > len(v) - 1
            x = y and len(host) > len(v)                # a label of one character need not match
        else:
            x = y = v.lower() == host.lower()
        must, may = must or x, may or y
    return must, may


def client(a):
    """which server the client talks to"""
    _, idx, lo, n = a
    root = core.scratch('c%d' % idx)
    w = World(root, idx)
    e = w.e
    pg.put(root + '/gai.c', GAI.encode())
    sh('gcc', '-shared', '-fPIC', '-o', root + '/gai.so', root + '/gai.c', '-ldl')
    viol, keys, ev = [], set(), 0
    for s in list(SERVERS)[lo::n]:
        subj, ext, ca, dates = SERVERS[s]
        w.c.cert('srv', subj, ca=ca, ext=ext, **dates)
        if s == 'nul':
            w.c.patch('srv', b'h.a.test-evil.test', b'h.a.test\0evil.test')
        w.start(['alice=*'], cert='srv')
        for h in HOSTS:
            d = w.c.d
            argv = [e.bin, '--config=/dev/null', '--stanza=demo', '--repo1-path=' + e.repo(1), '--repo1-host=' + h, '--repo1-host-type=tls', '--repo1-host-port=%d' % w.port,
                    '--repo1-host-ca-file=%s/ca.crt' % d, '--repo1-host-cert-file=%s/alice.crt' % d, '--repo1-host-key-file=%s/alice.key' % d, 
                    '--log-path=' + root + '/cl', '--log-level-console=off', '--log-level-file=off', '--log-level-stderr=error', '--io-timeout=1', '--repo1-host-config=' + root + '/s.conf', 'repo-ls', 'archive/demo']
            p = subprocess.run(argv, env=dict(w.env(), LD_PRELOAD=root + '/gai.so'), cwd=root, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
            must, may = server_ok(s, h)
            got = p.returncode == 0 and LISTED in p.stdout
            ev += 1
            keys.add(core.h((s, h)))
            if got and not may:
                viol.append(('client accepts the server with certificate %s (%s %s) as host %s' % (s, subj, ext, h), repr((a, s, h))))
            if must and not got:
                viol.append(('client refuses the server with certificate %s (%s %s) as host %s: %s' % (s, subj, ext, h, p.stdout[-300:]), repr((a, s, h))))
        w.stop()
    pg.rmtree(root)
    return dict(evals=ev, trans=ev, keys=keys, viol=viol[:5])


def job(a):
    return globals()[a[0]](a)


def main():
    c = core.Check('P33', 'model_checking')
    core.build()
    jobs = []
    th = c.thorough
    for i in range(6):
        jobs.append(('matrix', len(jobs), LISTS[i::6]))
    for cert, name, depth in (('alice', 'alice', 4 if th else 3), (None, None, 4 if th else 3), ('bob', 'bob', 3 if th else 2), ('ali', 'ali', 3 if th else 2), ('otherca', None, 2)):
        n = 2 if depth == 3 else 8 if depth == 4 else 1
        for lo in range(n):
            jobs.append(('sequences', len(jobs), cert, name, depth, lo, n))
    for lo in range(3):
        jobs.append(('reload', len(jobs), lo, 3))
    for lo in range(4):
        jobs.append(('client', len(jobs), lo, 4))
    for what, n in ((('kids', 1, 10 if th else 3, 1), 8), (('kids', 2, 10, 1 if th else 5), 8), (('kids', 3, 10, 1 if th else 7), 4), (('hup', 1 if th else 3), 8), (('hup2', 5 if th else 150), 4)):
        for lo in range(n * (4 if th else 1)):
            jobs.append(('signals', len(jobs), what, lo, n * (4 if th else 1)))
    for r in core.pmap(job, jobs):
        c.merge(r)
    c.rule = ('%d client certificates x %d authorisation lists x %d requested stanzas; every sequence of up to 3 (thorough 4) messages of 8 kinds and every 3 messages behind the opening '
              'ones x certificates; every change of 6 configurations by reload; %d server certificates x %d host names for the client; '
              'the end of children (all, oldest, newest) and SIGHUP (also twice) at library calls of the main process of the server' % (len(CERTS), len(LISTS), len(STANZAS), len(SERVERS), len(HOSTS)))
    c.sample('alice (listed for demo): config(other), noop, storage, list: nothing is returned and no directory made')
    c.assumptions = ['OpenSSL verifies chains and dates correctly', 'the messages of a client arrive at once', 'signals arrive at calls of library functions of the server (memory functions included), not between other instructions']
    c.finish()


if __name__ == '__main__':
    main()
