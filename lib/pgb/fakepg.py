"""A scripted PostgreSQL server behind the libpq stand-in (lib/fakepq.c)."""
import os, re, socket, struct, threading, traceback
from . import core, pg

BOOL, TEXT, INT8, INT4, OID = 16, 25, 20, 23, 26


def lsn(n):
    return '%X/%X' % (n >> 32, n & 0xFFFFFFFF)


def unlsn(s):
    a, b = s.split('/')
    return (int(a, 16) << 32) | int(b, 16)


class FakePg:
    """One cluster. `env` is the pg.Env; hooks: on_start(self), on_stop(self), on_switch(self) are called at those queries."""

    def __init__(self, env, port=5432, pgpath=None, standby=False, tli=1, start=None, stop=None, current=None, archive=True):
        self.env, self.port, self.standby, self.tli = env, port, standby, tli
        self.pgpath = pgpath or env.pg
        seg = env.seg
        self.start = 2 * seg + 40 if start is None else start
        self.stop = self.start + 256 if stop is None else stop
        self.current = self.start - seg if current is None else current
        self.switched = None
        self.log = []
        self.on_start = self.on_stop = self.on_switch = None
        self.archive_mode, self.archive_command = 'on', env.bin + ' archive-push %p'
        self.dbs = [(1, 'template1'), (4, 'template0'), (5, 'postgres'), (16384, 'test1'), (16385, 'test2')]
        self.tablespaces = [(1663, 'pg_default'), (1664, 'pg_global')]
        self.label_extra = ''
        self.tablespace_map = ''
        self.archive = archive
        self.connect_error = None
        self.fail_query = None
        self.replay = None
        self.checkpoint_written = True
        self.in_backup = False

    def segname(self, pos):
        return pg.walname(self.tli, pos // self.env.seg, self.env.seg)

    def stop_segname(self, pos):
        # pg_walfile_name() of a position exactly at a segment start names the previous segment
        return pg.walname(self.tli, (pos - 1) // self.env.seg, self.env.seg)

    def pushwal(self, n, fill=None):
        name = pg.walname(self.tli, n, self.env.seg)
        p = self.pgpath + '/pg_wal/' + name
        pg.put(p, pg.wal(self.env.ver, self.env.sysid, self.env.seg, fill if fill is not None else n), pg.T0 - 20)
        r = self.env.run('archive-push', p, archive_async=False)
        return r

    def label(self):
        return ('START WAL LOCATION: %s (file %s)\nCHECKPOINT LOCATION: %s\nBACKUP METHOD: streamed\nBACKUP FROM: primary\n'
                'LABEL: pgBackRest backup\nSTART TIMELINE: %d\n%s' % (
                    lsn(self.start), self.segname(self.start), lsn(self.start + 8), self.tli, self.label_extra))

    def query(self, q):
        self.log.append(q)
        if self.fail_query and self.fail_query in q:
            return ('err', 'scripted failure')
        if q.startswith('set ') or q == 'checkpoint':
            return ('ok',)
        if 'server_version_num' in q:
            v = self.env.ver
            num = 90600 if v == '9.6' else int(v) * 10000
            return ('rows', [INT4, TEXT, TEXT, TEXT, INT4], [[str(num), self.pgpath, self.archive_mode, self.archive_command, '300']])
        if 'pg_is_in_recovery' in q:
            return ('rows', [BOOL], [['t' if self.standby else 'f']])
        if 'clock_timestamp' in q:
            if self.env.ctl.s.timeOn:
                self.env.ctl.s.timeUs += self.env.ctl.s.timeStep
                ms = self.env.ctl.s.timeUs // 1000
            else:
                import time
                ms = int(time.time() * 1000)
            return ('rows', [INT8], [[str(ms)]])
        if 'insert_l' in q:
            return ('rows', [TEXT], [[self.segname(self.current)]])
        if re.search(r'pg_(backup_start|start_backup)\(', q):
            # the backup start checkpoint lands in pg_control
            self.in_backup = True
            if self.checkpoint_written:
                p = self.pgpath + '/global/pg_control'
                pg.put(p, pg.control(self.env.ver, self.env.sysid, ckpt=self.start + 8, tli=self.tli, seg=self.env.seg,
                                     checksum=getattr(self, 'checksum', 0)), self.env.now() - 100)
            if self.on_start:
                self.on_start(self)
            return ('rows', [TEXT, TEXT], [[lsn(self.start), self.segname(self.start)]])
        if re.search(r'pg_(backup_stop|stop_backup)\(', q):
            self.in_backup = False
            if self.on_stop:
                self.on_stop(self)
            return ('rows', [TEXT, TEXT, TEXT, TEXT], [[lsn(self.stop), self.stop_segname(self.stop), self.label(), self.tablespace_map]])
        if 'pg_create_restore_point' in q:
            return ('rows', [TEXT], [[lsn(self.current)]])
        if re.search(r'pg_switch_(wal|xlog)', q):
            seg = self.segname(self.current)
            if self.on_switch:
                self.on_switch(self)
            return ('rows', [TEXT], [[seg]])
        if 'pg_database' in q:
            return ('rows', [OID, TEXT, OID], [[str(o), n, '4'] for o, n in self.dbs])
        if 'pg_tablespace' in q:
            return ('rows', [OID, TEXT], [[str(o), n] for o, n in self.tablespaces])
        if 'replayLsn' in q:
            r = self.replay if self.replay is not None else self.start + 1000
            m = re.findall(r"replayLsn > '([0-9A-F/]+)'", q)
            return ('rows', [TEXT] + [BOOL] * len(m), [[lsn(r)] + ['t' if r > unlsn(x) else 'f' for x in m]])
        if 'pg_control_checkpoint' in q:
            return ('rows', [BOOL, TEXT], [['t', lsn(self.start + 8)]])
        return ('err', 'unknown query ' + q)


class Server:
    def __init__(self, env, *pgs):
        self.env = env
        self.pgs = {p.port: p for p in pgs}
        self.path = env.root + '/pq.sock'
        if os.path.exists(self.path):
            os.unlink(self.path)
        self.s = socket.socket(socket.AF_UNIX)
        self.s.bind(self.path)
        self.s.listen(16)
        self.err = None
        env.extra_env['FAKEPQ_SOCK'] = self.path
        so = fakepq_so()
        if so not in env.preload:
            env.preload.append(so)
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()

    def loop(self):
        while True:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def rd(self, c, n):
        b = b''
        while len(b) < n:
            x = c.recv(n - len(b))
            if not x:
                raise EOFError
            b += x
        return b

    def serve(self, c):
        p = None
        try:
            while True:
                n, = struct.unpack('<i', self.rd(c, 4))
                q = self.rd(c, n).decode()
                if q.startswith('CONNECT '):
                    m = re.search(r'port=(\d+)', q)
                    p = self.pgs.get(int(m.group(1)))
                    r = ('err', 'no such server') if p is None else (('err', p.connect_error) if p.connect_error else ('ok',))
                else:
                    r = p.query(q)
                if r[0] == 'ok':
                    c.sendall(struct.pack('<i', 1))
                elif r[0] == 'err':
                    m = r[1].encode()
                    c.sendall(struct.pack('<ii', 7, len(m)) + m)
                else:
                    out = struct.pack('<iii', 2, len(r[1]), len(r[2])) + b''.join(struct.pack('<i', t) for t in r[1])
                    for row in r[2]:
                        for v in row:
                            if v is None:
                                out += struct.pack('<i', -1)
                            else:
                                v = v.encode()
                                out += struct.pack('<i', len(v)) + v
                    c.sendall(out)
        except (EOFError, OSError):
            pass
        except Exception:
            self.err = traceback.format_exc()
        finally:
            c.close()

    def close(self):
        try:
            self.s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.s.close()


_so = None


def fakepq_so():
    return os.path.join(core.build().dir, 'libfakepq.so')
