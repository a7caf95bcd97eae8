"""S3 store for the checks: the objects are the files below a directory; requests are verified (signature, hashes) and may be answered with
faults. Every decision is taken by position in the sequence of requests."""
import base64, calendar, hashlib, hmac, itertools, os, socket, threading, time, urllib.parse
from xml.sax.saxutils import escape
import xml.etree.ElementTree as ET

KEY, SECRET, REGION, SERIAL = 'AKIAVERIF', 'sEcRet/+key', 'rg-1', itertools.count()
CODES = {200: 'OK', 201: 'Created', 202: 'Accepted', 308: 'Permanent Redirect', 204: 'No Content', 206: 'Partial Content', 301: 'Moved Permanently', 307: 'Temporary Redirect', 400: 'Bad Request', 403: 'Forbidden', 404: 'Not Found', 408: 'Request Timeout',
         409: 'Conflict', 412: 'Precondition Failed', 416: 'Range Not Satisfiable', 429: 'Too Many Requests', 500: 'Internal Server Error', 501: 'Not Implemented', 503: 'Slow Down', 504: 'Gateway Timeout'}


def uri(s, safe='/'):
    return urllib.parse.quote(s, safe=safe + '-_.~')


class Reply:
    def __init__(self, code=200, body=b'', head=None, xml=False):
        self.code, self.body, self.head, self.xml = code, body, dict(head or {}), xml


def error(code, name='InternalError'):
    return Reply(code, ('<?xml version="1.0" encoding="UTF-8"?><Error><Code>%s</Code><Message>m</Message></Error>' % name).encode(), xml=True)


class Store:
    def __init__(self, root, clock=time.time, page=1000, versions=False, token=None, base='/'):
        self.base = base.strip('/') + '/' if base != '/' else ''
        self.root, self.clock, self.page, self.token = root, clock, page, token
        self.mode = None                # how every reply is sent: None, 'chunk:n', 'close', 'split:n', 'idle'
        self.lock = threading.RLock()
        self.versioned = versions
        self.hist = {}                  # key -> [(time, version id, data or None)], oldest first
        self.bucket = 'bkt-%d-%d' % (os.getpid(), next(SERIAL))       # no two stores look alike
        self.s = socket.socket()
        self.s.bind(('127.0.0.1', 0))
        self.s.listen(64)
        self.port = self.s.getsockname()[1]
        self.reset()
        threading.Thread(target=self.accept, daemon=True).start()

    def reset(self, fault=None, page=None):
        """fault: (request number from 0, kind) or None"""
        with self.lock:
            self.log, self.fault, self.hit, self.uploads, self.bad, self.tokens = [], fault, None, {}, [], {}
            self.left = []
            if page:
                self.page = page

    def opts(self, repo=1, style='path'):
        p = 'repo%d-' % repo
        o = {p + 'type': 's3', p + 's3-bucket': self.bucket, p + 's3-endpoint': 's3.example.org', p + 's3-region': REGION, p + 's3-key': KEY, p + 's3-key-secret': SECRET, p + 's3-uri-style': style,
             p + 'path': '/' + self.base.rstrip('/'), p + 'storage-host': 'http://127.0.0.1', p + 'storage-port': str(self.port)}
        if self.token:
            o[p + 's3-token'] = self.token
        return o

    # ---- connections
    def accept(self):
        while True:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def close(self):
        try:
            self.s.shutdown(socket.SHUT_RDWR)      # ends the thread waiting for connections
        except OSError:
            pass
        self.s.close()

    def serve(self, c):
        c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        f = c.makefile('rb')
        try:
            while True:
                line = f.readline()
                if not line:
                    return
                verb, target, _ = line.decode('latin1').split(' ')
                head = {}
                while True:
                    h = f.readline().decode('latin1')
                    if h in ('\r\n', '\n', ''):
                        break
                    k, v = h.split(':', 1)
                    head[k.strip().lower()] = v.strip()
                n = int(head.get('content-length', 0))
                body = f.read(n)
                if len(body) != n:
                    return
                if not self.answer(c, verb, target, head, body):
                    return
        except (OSError, ValueError):
            pass
        finally:
            try:
                f.close()
                c.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
            c.close()

    def answer(self, c, verb, target, head, body):
        with self.lock:
            n = len(self.log)
            path, _, q = target.partition('?')
            self.log.append([verb, target, None, 0])
            kind = None
            if self.fault:
                at, k = self.fault[:2]
                if n == at or n > at and (k.startswith('all:') or k.startswith('same:') and self.hit and self.log[at][:2] == [verb, target]):
                    kind = k.split(':', 1)[1] if k.startswith(('all:', 'same:')) else k
            perform = not (kind and (kind.startswith(('st:', 'ste:')) or kind in ('drop0', 'garble', 'err200')))
            if kind == 'err200' and not (verb == 'POST' or verb == 'GET' and 'prefix=' in q + '&prefix='):
                perform = True
            if perform:
                try:
                    r = self.request(verb, path, q, head, body, kind)
                except Exception as x:
                    self.bad.append('%s %s: %r' % (verb, target, x))
                    r = error(400, 'BadRequest')
            else:
                r = Reply()
            self.log[n][2] = r.xml
            if kind and self.applies(kind, verb, path, q, r):
                self.hit = (verb, target, kind)
            else:
                kind = None
        return self.send(c, verb, r, kind, n)

    @staticmethod
    def final(verb, target):
        """cannot be repeated"""
        return 'uploadId=' in target and verb == 'POST'

    @staticmethod
    def usable(kind, verb, target):
        """can this store answer this request so without lying"""
        obj = '?' not in target
        if kind in ('st:404', 'ste:404') and obj and verb in ('GET', 'HEAD'):
            return False
        if kind == 'delerr':
            return 'delete=' in target or target.endswith('?delete')
        if kind == 'noetag':
            return 'partNumber' in target
        if kind == 'err200' and 'delete' in target or kind == 'badsum':
            return False
        if kind in ('trunc', 'empty', 'notxml', 'err200'):
            return not obj and verb in ('GET', 'POST') and (kind != 'empty' or verb == 'GET' or 'upload' in target)
        if kind.startswith('cut:body') or kind in ('cut:mid', 'cut:last'):
            return verb == 'GET' or verb == 'POST' or kind == 'cut:mid'
        return True

    @staticmethod
    def applies(kind, verb, path, q, r):
        """is the fault possible for this request"""
        if kind in ('trunc', 'empty', 'notxml', 'err200'):
            return r.xml and r.code == 200 or kind == 'err200' and verb == 'POST'
        if kind.startswith('cut:'):
            return True
        if kind == 'noetag':
            return verb == 'PUT' and 'uploadId' in q
        if kind == 'delerr':
            return verb == 'POST' and 'delete' in q
        return True

    def send(self, c, verb, r, kind, n):
        """-> False when the connection is to be closed"""
        body, head, code = r.body, dict(r.head), r.code
        mode = self.mode
        if kind:
            if kind in ('drop0', 'drop1'):
                return False
            if kind.startswith(('st:', 'sta:')):
                r = error(int(kind.split(':')[1]))
                body, head, code = r.body, {}, r.code
            elif kind.startswith(('ste:', 'stae:')):
                body, head, code = b'', {}, int(kind.split(':')[1])
            elif kind == 'err200':
                body, head, code = error(500).body, {}, 200
            elif kind == 'trunc':
                body = body[:len(body) * 2 // 3]
            elif kind == 'empty':
                body = b''
            elif kind == 'notxml':
                body = b'hello'
            elif kind == 'noetag':
                head.pop('ETag', None)
        out = 'HTTP/1.1 %d %s\r\n' % (code, CODES.get(code, 'X'))
        if kind == 'garble':
            out = 'XTTP/9 %d\r\n' % code
        chunk = None
        if mode and mode.startswith('chunk:') and verb != 'HEAD' and code not in (204,):
            chunk = int(mode[6:])
            head['Transfer-Encoding'] = 'chunked'
        elif kind == 'badlen':
            head['Content-Length'] = 'x1'
        elif verb == 'HEAD' and code == 200 and not kind:
            head.setdefault('Content-Length', '0')
        else:
            head['Content-Length'] = head.get('Content-Length', str(len(body))) if verb == 'HEAD' else str(len(body))
        if mode == 'close':
            head['Connection'] = 'close'
        out += ''.join('%s: %s\r\n' % h for h in head.items()) + '\r\n'
        out = out.encode()
        hl = len(out)
        if verb != 'HEAD':
            if chunk:
                out += b''.join(b'%x%s\r\n%s\r\n' % (len(body[i:i + chunk]), b';x=y' if i % 2 else b'', body[i:i + chunk]) for i in range(0, len(body), chunk)) + b'0\r\nT: v\r\n\r\n'
            else:
                out += body
        if kind and kind.startswith('cut:'):
            w = kind[4:]
            at = {'status': 9, 'line': out.index(b'\n') + 1, 'head': hl - 3, 'body0': hl, 'body1': hl + 1, 'mid': (hl + len(out)) // 2, 'last': len(out) - 1}[w]
            out = out[:min(at, len(out) - 1)]
        try:
            if mode and mode.startswith('split:'):
                k = int(mode[6:])
                for i in range(0, len(out), k):
                    c.sendall(out[i:i + k])
            else:
                c.sendall(out)
        except OSError:
            return False
        if kind and kind.startswith('cut:') or kind == 'idle' or mode in ('close', 'idle'):
            return False
        return True

    # ---- requests
    def auth(self, verb, path, q, head, body):
        a = head.get('authorization', '')
        if not a.startswith('AWS4-HMAC-SHA256 '):
            return 'no signature'
        p = dict(x.split('=', 1) for x in a[len('AWS4-HMAC-SHA256 '):].replace(' ', '').split(','))
        cred = p['Credential'].split('/')
        if cred[0] != KEY or cred[2:] != [REGION, 's3', 'aws4_request']:
            return 'wrong credential %s' % p['Credential']
        if self.token and head.get('x-amz-security-token') != self.token:
            return 'wrong token'
        if hashlib.sha256(body).hexdigest() != head.get('x-amz-content-sha256'):
            return 'content hash is not that of the content'
        sh = p['SignedHeaders'].split(';')
        for h in head:
            if (h == 'host' or h.startswith('x-amz-')) and h not in sh:
                return 'header %s is not signed' % h
        if sh != sorted(sh):
            return 'signed headers not sorted'
        qs = '&'.join(sorted('%s=%s' % (uri(urllib.parse.unquote(k), ''), uri(urllib.parse.unquote(v), '')) for k, _, v in (x.partition('=') for x in q.split('&') if x)))
        canon = '\n'.join([verb, uri(urllib.parse.unquote(path)), qs, ''.join('%s:%s\n' % (h, ' '.join(head[h].split())) for h in sh), p['SignedHeaders'], head['x-amz-content-sha256']])
        dt = head['x-amz-date']
        if cred[1] != dt[:8]:
            return 'date of the credential'
        now = self.clock()
        if abs(calendar.timegm(time.strptime(dt, '%Y%m%dT%H%M%SZ')) - now) > 900:
            return 'request time too skewed: %s' % dt
        sts = '\n'.join(['AWS4-HMAC-SHA256', dt, '/'.join(cred[1:]), hashlib.sha256(canon.encode()).hexdigest()])
        k = ('AWS4' + SECRET).encode()
        for x in cred[1:]:
            k = hmac.new(k, x.encode(), 'sha256').digest()
        if hmac.new(k, sts.encode(), 'sha256').hexdigest() != p['Signature']:
            return 'signature'
        return None

    def file(self, key):
        if not key.startswith(self.base):
            self.bad.append('key %s is not below the path of the repository' % key)
            raise ValueError('key')
        p = self.root + '/' + key[len(self.base):]
        if '/../' in p or p.endswith('/'):
            raise ValueError('key %s' % key)
        return p

    def get(self, key):
        if not key.startswith(self.base) or key.endswith('/'):
            return None
        p = self.file(key)
        return open(p, 'rb').read() if os.path.isfile(p) and not os.path.islink(p) else None

    def put(self, key, data):
        p = self.file(key)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        t = self.clock()
        with open(p + '.s3tmp', 'wb') as f:
            f.write(data)
        os.utime(p + '.s3tmp', (t, t))
        os.rename(p + '.s3tmp', p)
        self.note(key, data)

    def note(self, key, data):
        if self.versioned:
            h = self.hist.setdefault(key, [])
            h.append((int(self.clock()), 'v%d' % len(h), data))

    def delete(self, key):
        p = self.file(key)
        if os.path.isfile(p):
            os.unlink(p)
            self.note(key, None)
            d = os.path.dirname(p)
            while d != self.root and not os.listdir(d):
                os.rmdir(d)
                d = os.path.dirname(d)

    def keys(self):
        out = []
        for d, dn, fn in os.walk(self.root):
            out += [self.base + os.path.relpath(os.path.join(d, f), self.root) for f in fn if not f.endswith('.s3tmp') and not os.path.islink(os.path.join(d, f))]
        return sorted(out, key=lambda k: k.encode())

    def request(self, verb, path, q, head, body, kind=None):
        bad = self.auth(verb, path, q, head, body)
        if bad:
            self.bad.append('%s %s?%s: %s' % (verb, path, q, bad))
            return error(403, 'SignatureDoesNotMatch')
        path = urllib.parse.unquote(path)
        if head.get('host', '').startswith(self.bucket + '.'):
            path = '/' + self.bucket + path
        if not path.startswith('/' + self.bucket + '/'):
            self.bad.append('%s %s: not for bucket %s' % (verb, path, self.bucket))
            return error(404, 'NoSuchBucket')
        key = path[len(self.bucket) + 2:]
        a = {urllib.parse.unquote(k): urllib.parse.unquote(v) for k, _, v in (x.partition('=') for x in q.split('&') if x)}
        if 'content-md5' in head and base64.b64encode(hashlib.md5(body).digest()).decode() != head['content-md5']:
            self.bad.append('content-md5 of %s %s' % (verb, path))
            return error(400, 'BadDigest')
        if key == '':
            if verb == 'GET' and (a.get('list-type') == '2' or 'versions' in a):
                return self.list(a)
            if verb == 'POST' and 'delete' in a:
                if 'content-md5' not in head:
                    return error(400, 'MissingContentMD5')
                return self.multidelete(body, kind)
            return error(501, 'NotImplemented')
        if verb in ('GET', 'HEAD'):
            if 'versionId' in a:
                v = [d for t, i, d in self.hist.get(key, []) if i == a['versionId']]
                d = v[0] if v else None
            else:
                d = self.get(key)
            if d is None:
                r = error(404, 'NoSuchKey')
                return r if verb == 'GET' else Reply(404, b'')
            h = {'ETag': '"%s"' % hashlib.md5(d).hexdigest(), 'Last-Modified': time.strftime('%a, %d %b %Y %H:%M:%S GMT', time.gmtime(os.path.getmtime(self.file(key)) if os.path.exists(self.file(key)) else 0)),
                 'Content-Type': 'binary/octet-stream'}
            if verb == 'HEAD':
                h['Content-Length'] = str(len(d))
                return Reply(200, b'', h)
            if 'range' in head:
                lo, _, hi = head['range'].partition('=')[2].partition('-')
                lo, hi = int(lo), int(hi) if hi else len(d) - 1
                if lo >= len(d) or hi < lo:
                    return error(416, 'InvalidRange')
                hi = min(hi, len(d) - 1)
                h['Content-Range'] = 'bytes %d-%d/%d' % (lo, hi, len(d))
                return Reply(206, d[lo:hi + 1], h)
            return Reply(200, d, h)
        if verb == 'PUT' and 'uploadId' in a:
            u = self.uploads.get(a['uploadId'])
            if u is None or u[0] != key:
                return error(404, 'NoSuchUpload')
            n = int(a['partNumber'])
            if not 1 <= n <= 10000:
                return error(400, 'InvalidArgument')
            tag = '"%s"' % hashlib.md5(body + b'%d' % n).hexdigest()
            u[1][n] = (tag, body)
            return Reply(200, b'', {'ETag': tag})
        if verb == 'PUT':
            self.put(key, body)
            return Reply(200, b'', {'ETag': '"%s"' % hashlib.md5(body).hexdigest()})
        if verb == 'POST' and 'uploads' in a:
            i = 'up/%d+=' % len(self.uploads)
            self.uploads[i] = (key, {})
            return Reply(200, ('<?xml version="1.0" encoding="UTF-8"?><InitiateMultipartUploadResult xmlns="http://s3.amazonaws.com/doc/2006-03-01/"><Bucket>%s</Bucket><Key>%s</Key><UploadId>%s</UploadId></InitiateMultipartUploadResult>' % (
                self.bucket, escape(key), i)).encode(), xml=True)
        if verb == 'POST' and 'uploadId' in a:
            u = self.uploads.get(a['uploadId'])
            if u is None or u[0] != key:
                return error(404, 'NoSuchUpload')
            parts = [(int(x.find('PartNumber').text), x.find('ETag').text) for x in ET.fromstring(body)]
            if [n for n, _ in parts] != sorted({n for n, _ in parts}) or not parts:
                return error(400, 'InvalidPartOrder')
            data = []
            for i, (n, tag) in enumerate(parts):
                if n not in u[1] or u[1][n][0] != tag:
                    return error(400, 'InvalidPart')
                if i < len(parts) - 1 and len(u[1][n][1]) < 5 * 1024 * 1024:
                    return error(400, 'EntityTooSmall')
                data.append(u[1][n][1])
            self.put(key, b''.join(data))
            del self.uploads[a['uploadId']]
            return Reply(200, ('<?xml version="1.0" encoding="UTF-8"?><CompleteMultipartUploadResult><Key>%s</Key><ETag>"x-%d"</ETag></CompleteMultipartUploadResult>' % (escape(key), len(parts))).encode(), xml=True)
        if verb == 'DELETE':
            self.delete(key)
            return Reply(204)
        return error(501, 'NotImplemented')

    def multidelete(self, body, kind):
        x = ET.fromstring(body)
        keys = [o.find('Key').text for o in x.findall('Object')]
        if len(keys) > 1000:
            return error(400, 'MalformedXML')
        quiet = x.find('Quiet') is not None and x.find('Quiet').text == 'true'
        out = ''
        for i, k in enumerate(keys):
            if kind == 'delerr' and i == len(keys) // 2:
                out += '<Error><Key>%s</Key><Code>AccessDenied</Code><Message>m</Message></Error>' % escape(k)
                self.left.append(k)
                continue
            self.delete(k)
            if not quiet:
                out += '<Deleted><Key>%s</Key></Deleted>' % escape(k)
        return Reply(200, ('<?xml version="1.0" encoding="UTF-8"?><DeleteResult>%s</DeleteResult>' % out).encode(), xml=True)

    def list(self, a):
        prefix, delim, vers = a.get('prefix', ''), a.get('delimiter', ''), 'versions' in a
        items, seen = [], set()
        keys = sorted(self.hist, key=lambda k: k.encode()) if vers else self.keys()
        for k in keys:
            if not k.startswith(prefix):
                continue
            i = k.find(delim, len(prefix)) if delim else -1
            if i >= 0:
                p = k[:i + 1]
                if p not in seen:
                    seen.add(p)
                    items.append(('p', p))
            elif vers:
                items += [('v', k, h) for h in reversed(self.hist[k])]
            else:
                items.append(('k', k))
        start = 0
        if vers and ('key-marker' in a or 'version-id-marker' in a):
            km, vm = a.get('key-marker', ''), a.get('version-id-marker')
            if vm == '' or vm is not None and not km:
                return error(400, 'InvalidArgument')
            pos = [i for i, x in enumerate(items) if x[1] == km and (x[0] == 'p' or vm is None or x[2][1] == vm)]
            if not pos:
                return error(400, 'InvalidArgument')
            start = pos[-1] + 1
        if 'continuation-token' in a and not vers:
            if a['continuation-token'] not in self.tokens:
                return error(400, 'InvalidArgument')
            start, what, last = self.tokens[a['continuation-token']]
            start = sum(1 for i in items if i[1].encode() <= last.encode())     # objects may have been removed meanwhile
            if what != (prefix, delim, vers):
                return error(400, 'InvalidArgument')
        part = items[start:start + self.page]
        more = start + self.page < len(items)
        out = '<?xml version="1.0" encoding="UTF-8"?><ListBucketResult xmlns="http://s3.amazonaws.com/doc/2006-03-01/"><Name>%s</Name><IsTruncated>%s</IsTruncated>' % (self.bucket, 'true' if more else 'false')
        if more and vers:
            x = part[-1]
            out += '<NextKeyMarker>%s</NextKeyMarker>' % escape(x[1]) + ('<NextVersionIdMarker>%s</NextVersionIdMarker>' % escape(x[2][1]) if x[0] == 'v' else '')
        elif more:
            t = 'tk/%d+=&x %d' % (start + self.page, len(self.tokens))
            self.tokens[t] = (start + self.page, (prefix, delim, vers), part[-1][1])
            out += '<NextContinuationToken>%s</NextContinuationToken>' % escape(t)
        iso = lambda t: time.strftime('%Y-%m-%dT%H:%M:%S.000Z', time.gmtime(t))
        for i in part:
            if i[0] == 'p':
                out += '<CommonPrefixes><Prefix>%s</Prefix></CommonPrefixes>' % escape(i[1])
            elif i[0] == 'k':
                st = os.stat(self.file(i[1]))
                out += '<Contents><Key>%s</Key><LastModified>%s</LastModified><Size>%d</Size></Contents>' % (escape(i[1]), iso(st.st_mtime), st.st_size)
            elif i[2][2] is None:
                out += '<DeleteMarker><Key>%s</Key><VersionId>%s</VersionId><LastModified>%s</LastModified></DeleteMarker>' % (escape(i[1]), i[2][1], iso(i[2][0]))
            else:
                out += '<Version><Key>%s</Key><VersionId>%s</VersionId><LastModified>%s</LastModified><Size>%d</Size></Version>' % (escape(i[1]), i[2][1], iso(i[2][0]), len(i[2][2]))
        return Reply(200, (out + '</ListBucketResult>').encode(), xml=True)
