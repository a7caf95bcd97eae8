"""Azure and GCS stores for the checks, on the machinery of s3.Store."""
import base64, hashlib, hmac, json, os, re, time, urllib.parse
from email.utils import parsedate_to_datetime
from xml.sax.saxutils import escape
import xml.etree.ElementTree as ET
from . import s3
from .s3 import Reply, error

unq = urllib.parse.unquote


def query(q):
    return {unq(k): unq(v) for k, _, v in (x.partition('=') for x in q.split('&') if x)}


def http_date(t):
    return time.strftime('%a, %d %b %Y %H:%M:%S GMT', time.gmtime(t))


def js(x):
    """the way Google writes it"""
    s = json.dumps(x, ensure_ascii=False)
    for c in '<>&':
        s = s.replace(c, '\\u%04x' % ord(c))
    return s.encode()


class Cloud(s3.Store):
    """what both have in common"""
    @staticmethod
    def applies(kind, verb, path, q, r):
        if kind in ('trunc', 'empty', 'notxml', 'noetag', 'badsum'):
            return r.xml and r.code // 100 == 2
        return kind != 'delerr' or verb == 'POST'

    def mtime(self, key):
        return os.path.getmtime(self.file(key))

    def read(self, key, d, head, h):
        r = head.get('range')
        if not r:
            return Reply(200, d, h)
        m = re.fullmatch(r'bytes=(\d+)-(\d*)', r)
        lo, hi = int(m[1]), int(m[2]) if m[2] else len(d) - 1
        if lo >= len(d) or hi < lo:
            return error(416, 'InvalidRange')
        hi = min(hi, len(d) - 1)
        h['Content-Range'] = 'bytes %d-%d/%d' % (lo, hi, len(d))
        return Reply(206, d[lo:hi + 1], h)

    def items(self, prefix, delim, vers):
        out, seen = [], set()
        for k in sorted(self.hist, key=lambda k: k.encode()) if vers else self.keys():
            if not k.startswith(prefix):
                continue
            i = k.find(delim, len(prefix)) if delim else -1
            if i >= 0:
                if k[:i + 1] not in seen:
                    seen.add(k[:i + 1])
                    out.append(('p', k[:i + 1]))
            elif vers:
                out += [('v', k, h) for h in self.hist[k] if h[2] is not None]
            else:
                out.append(('k', k))
        return out

    def part(self, items, tok, what):
        """-> items of the page, token of the next or None; None, None on a bad token"""
        start = 0
        if tok is not None:
            if tok not in self.tokens or self.tokens[tok][1] != what:
                return None, None
            n, last = self.tokens[tok][0]
            start = n if what[2] else sum(1 for i in items if i[1].encode() <= last.encode())      # objects may have been removed meanwhile
        nxt = None
        if start + self.page < len(items):
            nxt = 'tk/%d+=&x %d' % (start + self.page, len(self.tokens))
            self.tokens[nxt] = ((start + self.page, items[start + self.page - 1][1]), what)
        return items[start:start + self.page], nxt

    def batch(self, head, body, kind, limit, prefix):
        """multipart/mixed of DELETE requests"""
        m = re.fullmatch(r'multipart/mixed; ?boundary="?([^"]+)"?', head.get('content-type', ''))
        if not m:
            return error(400, 'InvalidHeaderValue')
        parts = (b'\r\n' + body).split(b'\r\n--' + m[1].encode())
        if parts[0].strip() or not parts[-1].startswith(b'--') or len(parts) < 3 or len(parts) - 2 > limit:
            return error(400, 'InvalidInput')
        out, todo = b'', parts[1:-1]
        for i, p in enumerate(todo):
            mime, _, inner = p.decode('latin1').lstrip('\r\n').partition('\r\n\r\n')
            mh = {k.strip().lower(): v.strip() for k, _, v in (x.partition(':') for x in mime.split('\r\n'))}
            lines = inner.partition('\r\n\r\n')[0].split('\r\n')
            w = lines[0].split(' ')
            code = 400
            if mh.get('content-type') == 'application/http' and len(w) == 3 and w[0] == 'DELETE' and w[2] == 'HTTP/1.1' and mh.get('content-id') == str(i):
                ih = {k.strip().lower(): v.strip() for k, _, v in (x.partition(':') for x in lines[1:] if x)}
                path, _, q = w[1].partition('?')
                bad = self.subauth(path, q, ih)
                if bad:
                    self.bad.append('part %d of a batch (%s): %s' % (i, w[1], bad))
                    code = 403
                elif not unq(path).startswith(prefix):
                    self.bad.append('part %d of a batch is for %s' % (i, path))
                    code = 404
                elif kind == 'delerr' and i == len(todo) // 2:
                    code = 503
                else:
                    key = unq(path)[len(prefix):]
                    try:
                        code = self.GONE if self.get(key) is not None else 404
                        self.delete(key)
                    except ValueError:
                        code = 404
            out += ('--batchresponse_66925647-d0cb\r\nContent-Type: application/http\r\nContent-ID: %s\r\n\r\nHTTP/1.1 %d %s\r\nx-a: b\r\n' % (self.CONTENTID % i, code, s3.CODES.get(code, 'Accepted'))).encode()
            if code // 100 != 2:
                b = b'<Error><Code>BlobNotFound</Code></Error>'
                out += b'Content-Length: %d\r\n\r\n' % len(b) + b + b'\r\n'
            else:
                out += b'Content-Length: 0\r\n\r\n\r\n' if i % 2 else b'\r\n'
        return Reply(self.BATCH, out + b'--batchresponse_66925647-d0cb--\r\n', {'Content-Type': 'multipart/mixed; boundary=batchresponse_66925647-d0cb'}, xml=True)


class Azure(Cloud):
    GONE, BATCH, CONTENTID = 202, 202, '%d'
    KEY = base64.b64encode(b'azure secret key+/').decode()
    SAS = {'sv': '2020-08-04', 'ss': 'b', 'sig': 'a+b/c=='}

    def opts(self, repo=1, style='path'):
        p = 'repo%d-' % repo
        self.sas = bool(self.token)
        return {p + 'type': 'azure', p + 'azure-account': 'acct', p + 'azure-container': self.bucket, p + 'path': '/' + self.base.rstrip('/'),
                p + 'azure-key': '&'.join('%s=%s' % (k, urllib.parse.quote(v, safe='')) for k, v in self.SAS.items()) if self.sas else self.KEY, p + 'azure-key-type': 'sas' if self.sas else 'shared',
                p + 'storage-host': 'http://127.0.0.1', p + 'storage-port': str(self.port)}

    @staticmethod
    def final(verb, target):
        """cannot be repeated"""
        return 'comp=blocklist' in target

    @staticmethod
    def usable(kind, verb, target):
        obj = '?' not in target
        if kind in ('st:404', 'ste:404'):
            return not obj or verb == 'PUT'
        if kind == 'delerr':
            return 'comp=batch' in target
        if kind in ('trunc', 'empty', 'notxml'):
            return 'comp=list' in target or kind != 'trunc' and 'comp=batch' in target
        if kind in ('noetag', 'err200', 'badsum'):
            return False
        return True

    def subauth(self, path, q, head):
        if 'x-ms-version' in head or 'host' in head:
            return 'header not allowed in a part'
        return self.auth('DELETE', path, q, head, b'', True)

    def auth(self, verb, path, q, head, body, sub=False):
        a = query(q)
        if self.sas:
            for k, v in self.SAS.items():
                if a.get(k) != v:
                    return 'parameter %s of the key is missing' % k
            return None if 'authorization' not in head else 'two keys'
        if not sub and head.get('x-ms-version', '') < '2019-12-12':
            return 'x-ms-version'
        if abs(parsedate_to_datetime(head['date']).timestamp() - self.clock()) > 900:
            return 'request time too skewed: %s' % head['date']
        n = head.get('content-length', '')
        sts = '\n'.join([verb, '', '', '' if n == '0' else n, head.get('content-md5', ''), head.get('content-type', ''), head['date'], '', '', '', '', head.get('range', '')]) + '\n'
        sts += ''.join('%s:%s\n' % (k, head[k]) for k in sorted(head) if k.startswith('x-ms-')) + '/acct' + path + ''.join('\n%s:%s' % (k.lower(), a[k]) for k in sorted(a))
        sig = base64.b64encode(hmac.new(base64.b64decode(self.KEY), sts.encode(), 'sha256').digest()).decode()
        return None if head.get('authorization') == 'SharedKey acct:' + sig else 'signature'

    def request(self, verb, path, q, head, body, kind=None):
        bad = self.auth(verb, path, q, head, body)
        if bad:
            self.bad.append('%s %s?%s: %s' % (verb, path, q, bad))
            return error(403, 'AuthenticationFailed')
        path, a = unq(path), query(q)
        for k in self.SAS if self.sas else ():
            a.pop(k, None)
        root = '/acct/' + self.bucket
        if path != root and not path.startswith(root + '/'):
            self.bad.append('%s %s: not for container %s' % (verb, path, self.bucket))
            return error(404, 'ContainerNotFound')
        if (body or 'content-md5' in head) and base64.b64encode(hashlib.md5(body).digest()).decode() != head.get('content-md5'):
            self.bad.append('content-md5 of %s %s' % (verb, path))
            return error(400, 'Md5Mismatch')
        key = path[len(root) + 1:]
        if key == '':
            if a.get('restype') == 'container' and a.get('comp') == 'list' and verb == 'GET':
                return self.list(a)
            if a.get('restype') == 'container' and a.get('comp') == 'batch' and verb == 'POST':
                return self.batch(head, body, kind, 256, root + '/')
            return error(501, 'NotImplemented')
        if verb in ('GET', 'HEAD'):
            if 'versionid' in a:
                d = next((d for t, i, d in self.hist.get(key, []) if i == a['versionid']), None)
            else:
                d = self.get(key)
            if d is None:
                return error(404, 'BlobNotFound') if verb == 'GET' else Reply(404, b'')
            h = {'ETag': '"x"', 'Last-Modified': http_date(self.mtime(key) if os.path.exists(self.file(key)) else 0), 'Content-Type': 'application/octet-stream'}
            if verb == 'HEAD':
                h['Content-Length'] = str(len(d))
                return Reply(200, b'', h)
            return self.read(key, d, head, h)
        if verb == 'PUT' and a.get('comp') == 'block':
            b = self.uploads.setdefault(key, {})
            i = a['blockid']
            base64.b64decode(i, validate=True)
            if not body or b and len(next(iter(b))) != len(i):
                return error(400, 'InvalidBlobOrBlock')
            b[i] = body
            return Reply(201)
        if verb == 'PUT' and a.get('comp') == 'blocklist':
            b = self.uploads.get(key, {})
            ids = [x.text for x in ET.fromstring(body)]
            if not ids or any(i not in b for i in ids):
                return error(400, 'InvalidBlockList')
            self.put(key, b''.join(b[i] for i in ids))
            del self.uploads[key]
            return Reply(201)
        if verb == 'PUT' and not a:
            if head.get('x-ms-blob-type') != 'BlockBlob':
                return error(400, 'MissingRequiredHeader')
            self.uploads.pop(key, None)
            self.put(key, body)
            return Reply(201)
        if verb == 'DELETE':
            if self.get(key) is None:
                return error(404, 'BlobNotFound')
            self.delete(key)
            return Reply(202)
        return error(501, 'NotImplemented')

    def list(self, a):
        prefix, delim, vers = a.get('prefix', ''), a.get('delimiter', ''), a.get('include') == 'versions'
        part, nxt = self.part(self.items(prefix, delim, vers), a.get('marker'), (prefix, delim, vers))
        if part is None:
            return error(400, 'OutOfRangeInput')
        out = '<?xml version="1.0" encoding="utf-8"?><EnumerationResults ServiceEndpoint="x" ContainerName="%s"><Delimiter>%s</Delimiter><Blobs>' % (self.bucket, delim)
        prop = lambda t, n: '<Properties><Creation-Time>x</Creation-Time><Last-Modified>%s</Last-Modified><Etag>0x</Etag><Content-Length>%d</Content-Length></Properties>' % (http_date(t), n)
        for i in part:
            if i[0] == 'p':
                out += '<BlobPrefix><Name>%s</Name></BlobPrefix>' % escape(i[1])
            elif i[0] == 'k':
                out += '<Blob><Name>%s</Name>%s</Blob>' % (escape(i[1]), prop(self.mtime(i[1]), os.path.getsize(self.file(i[1]))))
            else:
                out += '<Blob><Name>%s</Name><VersionId>%s</VersionId>%s</Blob>' % (escape(i[1]), i[2][1], prop(i[2][0], len(i[2][2])))
        out += '</Blobs>' + ('<NextMarker>%s</NextMarker>' % escape(nxt) if nxt else '<NextMarker/>') + '</EnumerationResults>'
        return Reply(200, out.encode(), xml=True)


class Gcs(Cloud):
    GONE, BATCH, CONTENTID = 204, 200, 'response-%d'
    TOKEN = 'Bearer tOkEn+/=='

    def opts(self, repo=1, style='path'):
        p = 'repo%d-' % repo
        return {p + 'type': 'gcs', p + 'gcs-bucket': self.bucket, p + 'gcs-key-type': 'token', p + 'gcs-key': self.TOKEN, p + 'gcs-endpoint': 'http://127.0.0.1:%d' % self.port,
                p + 'path': '/' + self.base.rstrip('/'), **({p + 'gcs-user-project': self.token} if self.token else {})}

    @staticmethod
    def final(verb, target):
        return False

    @staticmethod
    def usable(kind, verb, target):
        obj = '/o/' in target.partition('?')[0]
        up = target.startswith('/upload/')
        ls = verb == 'GET' and not obj
        if kind in ('st:404', 'ste:404'):
            return not obj
        if kind == 'delerr':
            return target.startswith('/batch/')
        if kind in ('noetag', 'badsum'):
            return up
        if kind == 'err200':
            return False
        if kind in ('trunc', 'empty', 'notxml'):
            return ls or up or kind != 'trunc' and target.startswith('/batch/') or obj and verb == 'GET' and 'alt=media' not in target
        if kind.startswith('cut:body') or kind in ('cut:mid', 'cut:last'):
            return verb in ('GET', 'POST', 'PUT')
        return True

    def auth(self, verb, path, q, head, body):
        a = query(q)
        if self.token and a.get('userProject') != self.token:
            return 'no user project'
        if 'upload_id' in a and verb == 'PUT':
            return None
        return None if head.get('authorization') == self.TOKEN else 'wrong token'

    def subauth(self, path, q, head):
        return None

    def meta(self, key, d, fields, kind, t=None):
        full = {'name': key, 'size': str(len(d)), 'updated': time.strftime('%Y-%m-%dT%H:%M:%S.123Z', time.gmtime(self.mtime(key) if t is None else t)), 'md5Hash': base64.b64encode(hashlib.md5(d).digest()).decode(), 'kind': 'storage#object',
                'generation': '1'}
        if kind == 'badsum':
            full['md5Hash'] = base64.b64encode(hashlib.md5(d + b'x').digest()).decode()
        if kind == 'noetag':
            del full['md5Hash']
        out = {k: v for k, v in full.items() if not fields or k in fields.split(',')}
        return Reply(200, js(out), {'Content-Type': 'application/json'}, xml=True)

    def request(self, verb, path, q, head, body, kind=None):
        bad = self.auth(verb, path, q, head, body)
        if bad:
            self.bad.append('%s %s?%s: %s' % (verb, path, q, bad))
            return error(401, 'Unauthorized')
        a = query(q)
        root = '/storage/v1/b/%s/o' % self.bucket
        if path == '/batch/storage/v1' and verb == 'POST':
            return self.batch(head, body, kind, 100, root + '/')
        if path == '/upload' + root:
            key, how = a['name'], a['uploadType']
            if verb == 'POST' and how == 'media':
                self.put(key, body)
                return self.meta(key, body, a.get('fields'), kind)
            if verb == 'POST' and how == 'resumable':
                if body:
                    json.loads(body)['metadata']
                i = 'up/%d+=' % len(self.tokens)
                self.tokens[i] = 1
                self.uploads[i] = [key, b'']
                return Reply(200, b'', {} if kind == 'noetag' else {'x-guploader-uploadid': i}, xml=kind == 'noetag')
            if verb == 'PUT' and how == 'resumable':
                i = a['upload_id']
                if i not in self.uploads:
                    if self.tokens.get(i) != 'done':
                        return error(404, 'NotFound')
                    return self.meta(key, self.get(key), a.get('fields'), kind)     # completed before
                m = re.fullmatch(r'bytes (?:(\d+)-(\d+)|\*)/(\d+|\*)', head.get('content-range', ''))
                u = self.uploads[i]
                if u[0] != key:
                    return error(400, 'name')
                if m[1] is not None:
                    lo, hi = int(m[1]), int(m[2])
                    if hi - lo + 1 != len(body) or lo > len(u[1]) or m[3] == '*' and len(body) % (256 << 10):
                        self.bad.append('chunk %s with %d bytes, stored %d' % (head['content-range'], len(body), len(u[1])))
                        return error(400, 'range')
                    u[1] += body[len(u[1]) - lo:]
                elif body:
                    return error(400, 'range')
                if m[3] == '*':
                    return Reply(308, b'', {'Range': 'bytes=0-%d' % (len(u[1]) - 1)} if u[1] else {})
                if int(m[3]) != len(u[1]):
                    self.bad.append('upload of %s ends at %s, stored %d' % (key, m[3], len(u[1])))
                    return error(400, 'size')
                self.put(key, u[1])
                del self.uploads[i]
                self.tokens[i] = 'done'
                return self.meta(key, u[1], a.get('fields'), kind)
            return error(501, 'NotImplemented')
        if path == root and verb == 'GET':
            return self.list(a)
        if not path.startswith(root + '/') or '/' in path[len(root) + 1:]:
            self.bad.append('%s %s: not for bucket %s' % (verb, path, self.bucket))
            return error(404, 'NotFound')
        key = unq(path[len(root) + 1:])
        if verb == 'GET':
            if 'generation' in a:
                d = next((d for t, i, d in self.hist.get(key, []) if i == a['generation']), None)
            else:
                d = self.get(key)
            if d is None:
                return error(404, 'NotFound')
            if a.get('alt') == 'media':
                return self.read(key, d, head, {'Content-Type': 'application/octet-stream', 'x-goog-hash': 'md5=x'})
            return self.meta(key, d, a.get('fields'), None)
        if verb == 'DELETE':
            if self.get(key) is None:
                return error(404, 'NotFound')
            self.delete(key)
            return Reply(204)
        return error(501, 'NotImplemented')

    def list(self, a):
        prefix, delim, vers = a.get('prefix', ''), a.get('delimiter', ''), a.get('versions') == 'true'
        m = re.fullmatch(r'nextPageToken,prefixes,items\(([a-zA-Z,]+)\)', a['fields'])
        want = m[1].split(',')
        part, nxt = self.part(self.items(prefix, delim, vers), a.get('pageToken'), (prefix, delim, vers))
        if part is None:
            return error(400, 'invalid')
        out = {'prefixes': [], 'items': []}
        for i in part:
            if i[0] == 'p':
                out['prefixes'].append(i[1])
                continue
            t, n, g = (self.mtime(i[1]), os.path.getsize(self.file(i[1])), '1') if i[0] == 'k' else (i[2][0], len(i[2][2]), i[2][1])
            full = {'name': i[1], 'size': str(n), 'updated': time.strftime('%Y-%m-%dT%H:%M:%S.000Z', time.gmtime(t)), 'generation': g}
            out['items'].append({k: v for k, v in full.items() if k in want})
        out = {k: v for k, v in out.items() if v}
        if nxt:
            out['nextPageToken'] = nxt
        return Reply(200, js(out), {'Content-Type': 'application/json'}, xml=True)
