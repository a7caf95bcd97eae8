"""Crash model: replays the shim's log of a run on a model file system and materialises every crash state.

Model (stated assumption): a journalling file system in ordered-metadata mode (ext4/xfs).  Metadata operations (create, rename,
unlink, mkdir, ...) become durable in order, all of those issued before any fsync; file data becomes durable only by fsync of that
file.  For every prefix of the operation log three states are possible extremes of what can survive:

  proc   only the processes died: everything issued is there
  power  power loss, minimum: only durable metadata, only fsynced data
  reord  power loss, metadata raced ahead of data: all metadata issued so far, but only fsynced data (never-synced files are empty)
"""
import os, stat, shutil


def read_log(path):
    with open(path, 'rb') as f:
        b = f.read()
    i, ops = 0, []
    while i < len(b):
        j = b.index(b'\n', i)
        t = b[i:j].decode().split(' ')
        al, bl = int(t[4]), int(t[5])
        i = j + 1
        a = b[i:i + al].decode()
        i += al
        d = b[i:i + bl]
        i += bl
        ops.append(dict(op=t[0], pid=int(t[1]), ret=int(t[2]), err=int(t[3]), path=a, data=d, x=int(t[6]), y=int(t[7]), seq=int(t[8])))
    return ops


class Inode:
    __slots__ = ('data', 'dur', 'mode', 'mtime')

    def __init__(self, data=b'', dur=b'', mode=0o640):
        self.data = bytearray(data)
        self.dur = bytes(dur)
        self.mode = mode
        self.mtime = None


class FS:
    """path -> ('dir', mode) | ('link', target) | Inode"""

    def __init__(self, root):
        self.root = root
        self.vol = {}
        for d, dn, fn in os.walk(root):
            for n in dn + fn:
                p = os.path.join(d, n)
                st = os.lstat(p)
                if stat.S_ISLNK(st.st_mode):
                    self.vol[p] = ('link', os.readlink(p))
                elif stat.S_ISDIR(st.st_mode):
                    self.vol[p] = ('dir', st.st_mode & 0o7777)
                else:
                    b = open(p, 'rb').read()
                    ino = Inode(b, b, st.st_mode & 0o7777)
                    ino.mtime = st.st_mtime
                    self.vol[p] = ino
        self.dur = dict(self.vol)          # metadata durable so far
        self.fds = {}

    def resolve(self, p):
        """resolve symlinks in the parent directories and collapse // and .. textually"""
        p = os.path.normpath(p)
        for _ in range(20):
            parts = p.split('/')
            for i in range(1, len(parts)):
                q = '/'.join(parts[:i])
                e = self.vol.get(q)
                if isinstance(e, tuple) and e[0] == 'link':
                    t = e[1] if e[1].startswith('/') else os.path.join(os.path.dirname(q), e[1])
                    p = os.path.normpath(t + '/' + '/'.join(parts[i:]))
                    break
            else:
                break
        return p

    def follow(self, p):
        p = self.resolve(p)
        for _ in range(20):
            e = self.vol.get(p)
            if isinstance(e, tuple) and e[0] == 'link':
                p = self.resolve(e[1] if e[1].startswith('/') else os.path.join(os.path.dirname(p), e[1]))
            else:
                return p
        return p

    def apply(self, o):
        op = o['op']
        if op == 'FAULT' or (o['ret'] < 0 and op not in ('write',)):
            return False
        if op == 'open':
            p = self.follow(o['path'])
            if not p.startswith(self.root):
                return False
            ino = self.vol.get(p)
            if not isinstance(ino, Inode):
                ino = Inode()
                self.vol[p] = ino
            elif o['x']:
                ino.data = bytearray()
            self.fds[(o['pid'], o['ret'])] = ino
        elif op == 'write':
            ino = self.fds.get((o['pid'], o['y']))
            if ino is None or o['ret'] <= 0:
                return False
            off = o['x']
            if len(ino.data) < off:
                ino.data.extend(b'\0' * (off - len(ino.data)))
            ino.data[off:off + len(o['data'])] = o['data']
        elif op == 'ftruncate':
            ino = self.fds.get((o['pid'], o['y']))
            if ino is not None:
                del ino.data[o['x']:]
                ino.data.extend(b'\0' * (o['x'] - len(ino.data)))
        elif op == 'fsync':
            if o['x']:
                self.dur = dict(self.vol)
            else:
                ino = self.fds.get((o['pid'], o['y']))
                if ino is None:
                    ino = self.vol.get(self.follow(o['path']))
                if isinstance(ino, Inode):
                    ino.dur = bytes(ino.data)
                self.dur = dict(self.vol)
        elif op == 'close':
            self.fds.pop((o['pid'], o['ret']), None)
            return False
        elif op == 'rename':
            a, b = self.resolve(o['path']), self.resolve(o['data'].decode())
            e = self.vol.pop(a)
            self.vol[b] = e
            for q in [q for q in self.vol if q.startswith(a + '/')]:
                self.vol[b + q[len(a):]] = self.vol.pop(q)
        elif op in ('unlink', 'rmdir'):
            self.vol.pop(self.resolve(o['path']), None)
        elif op == 'mkdir':
            self.vol[self.resolve(o['path'])] = ('dir', o['x'] & 0o777)
        elif op == 'symlink':
            self.vol[self.resolve(o['path'])] = ('link', o['data'].decode())
        elif op == 'link':
            self.vol[self.resolve(o['path'])] = self.vol[self.resolve(o['data'].decode())]
        elif op == 'chmod':
            p = self.follow(o['path'])
            e = self.vol.get(p)
            if isinstance(e, Inode):
                e.mode = o['x']
            elif isinstance(e, tuple) and e[0] == 'dir':
                self.vol[p] = ('dir', o['x'] & 0o7777)
            return False
        elif op == 'utime':
            e = self.vol.get(self.follow(o['path']))
            if isinstance(e, Inode):
                e.mtime = o['x']
            return False
        else:
            return False
        return True

    def snapshot(self, variant):
        meta = self.dur if variant == 'power' else self.vol
        s = {}
        for p, e in meta.items():
            if isinstance(e, Inode):
                s[p] = ('file', bytes(e.data) if variant == 'proc' else e.dur, e.mode, e.mtime)
            else:
                s[p] = e
        return s


def materialise(snap, root, dest, only=None):
    """write a snapshot under dest (paths relative to root); only = list of path prefixes (relative to root) to write"""
    for p in sorted(snap):
        rel = os.path.relpath(p, root)
        if only is not None and not any(rel == o or rel.startswith(o + '/') for o in only):
            continue
        q = os.path.join(dest, rel)
        e = snap[p]
        if e[0] == 'dir':
            os.makedirs(q, exist_ok=True)
            os.chmod(q, e[1])
        elif e[0] == 'link':
            t = e[1]
            if t.startswith(root + '/'):
                t = dest + t[len(root):]
            os.makedirs(os.path.dirname(q), exist_ok=True)
            os.symlink(t, q)
        else:
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, 'wb') as f:
                f.write(e[1])
            os.chmod(q, e[2])
            if e[3] is not None:
                os.utime(q, (e[3], e[3]))


def crash_states(root, initial_fs, ops, variants=('proc', 'power', 'reord')):
    """yield (k, variant, snapshot) for each prefix; consecutive identical states are skipped"""
    fs = initial_fs
    last = {}
    for k in range(len(ops) + 1):
        if k > 0:
            if not fs.apply(ops[k - 1]) and k != len(ops):
                continue
        for v in variants:
            s = fs.snapshot(v)
            key = hash(frozenset((p, e[0], e[1]) for p, e in s.items()))
            if last.get(v) == key and k != len(ops):
                continue
            if v != 'proc' and last.get('proc') == key and False:
                continue
            last[v] = key
            yield k, v, s, key
