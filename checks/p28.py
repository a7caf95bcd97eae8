#!/usr/bin/env python3
"""P28: option values come from the documented source in the documented order; invalid, duplicate or conflicting ones are refused;
child processes get the same values.

The real configuration loader (cfgLoad) runs in-process (lib/cfg.c) on every configuration of a bounded space; the effective value
of every option is read back and compared with an independent reference of the documented rules."""
import itertools
import os
import shlex
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import yaml
from pgb import core

EXE = None


class R:
    def __init__(self):
        self.evals, self.trans, self.keys, self.viol, self.samples = 0, 0, [], [], []


SECS = ['demo:%s', 'demo', 'global:%s', 'global']      # decreasing precedence


def hx(s):
    return s.encode().hex() or '-'


def uhx(s):
    return '' if s == '-' else bytes.fromhex(s).decode('utf-8', 'replace')


# ---------------------------------------------------------------------------------------------------- running the real loader
class Case:
    __slots__ = ('args', 'env', 'files', 'x', 'expect', 'what', 'q')

    def __init__(self, args, env=(), files=None, x=(), expect=None, what='', q=None):
        self.args, self.env, self.files, self.x, self.expect, self.what = args, env, files or {}, x, expect, what
        self.q = q

    def line(self, d):
        t = ['f=%s/%s:%s' % (d, n, hx(c.replace('@D', d))) for n, c in self.files.items()]
        t += ['a=' + hx(a.replace('@D', d)) for a in ['/bin/pgb'] + list(self.args)]
        t += ['e=' + hx(a.replace('@D', d)) for a in self.env] + ['x=' + a for a in self.x]
        if self.q:
            t.append('q=' + self.q)
        return ' '.join(t) + '\n'

    def show(self):
        return dict(args=self.args, env=list(self.env), files=self.files, what=self.what)


class Res:
    def __init__(self, text, d):
        self.err, self.opt, self.groups, self.x, self.warn, self.flag = None, {}, {}, {}, '', {}
        self.hash = None
        for ln in text.split('\n'):
            w = ln.split(' ')
            if w[0] == 'E':
                self.err = (int(w[1]), uhx(w[2]).replace(d, '@D'))
            elif w[0] == 'O':
                self.opt[w[1]] = w[4].replace(hx(d), hx('@D'))
                self.flag[w[1]] = (int(w[2]), w[3])
            elif w[0] == 'H':
                self.hash = w[1]
            elif w[0] == 'G':
                self.groups.setdefault(int(w[1]), []).append(int(w[3]))
            elif w[0] == 'X':
                self.x[w[1]] = [uhx(q).replace(d, '@D') for q in w[2].split(',')]
            elif w[0] == 'Y':
                self.x[w[1]] = uhx(w[2])
            elif w[0] == 'W':
                self.warn = uhx(w[1]).replace(d, '@D')

    def short(self):
        return 'refused (%d: %s)' % (self.err[0], self.err[1].split('\n')[0]) if self.err else 'accepted'


_proc = {}


def run(cases, d):
    p = _proc.get(d)
    if p is None:
        p = _proc[d] = subprocess.Popen([EXE, d + '/log'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd=d, env={})
    res = []
    for c in cases:
        p.stdin.write(c.line(d).encode())
        p.stdin.flush()
        t = []
        while True:
            ln = p.stdout.readline()
            if not ln:
                raise RuntimeError('harness ended')
            if ln == b'.\n':
                break
            t.append(ln)
        res.append(Res(b''.join(t).decode().rstrip('\n'), d))
    return res


def dirs(name):
    d = core.scratch(name)
    for s in ('conf.d', 'inc', 'alt', 'alt/conf.d'):
        os.makedirs(os.path.join(d, s), exist_ok=True)
    return d


def enc(typ, v):
    """the value as the harness prints it"""
    if v is None:
        return 'null'
    if typ in ('boolean',):
        return v
    if typ in ('integer', 'size', 'time'):
        return str(v)
    if typ == 'list':
        return ','.join(hx(q) for q in v)
    if typ == 'hash':
        return ','.join(hx(q.split('=', 1)[0]) + '=' + hx(q.split('=', 1)[1]) for q in v)
    return hx(v)


def conf(secs):
    secs = dict(secs)
    secs['global'] = [('lock-path', '@D/lock'), ('log-path', '@D/log.d'), ('log-level-file', 'off')] + secs.get('global', [])
    return ''.join('[%s]\n%s\n' % (s, '\n'.join('%s=%s' % kv for kv in kvs)) for s, kvs in secs.items() if kvs)


STD = ['--config=@D/c.conf']


# ---------------------------------------------------------------------------------------------------- A: all sources of an option
def conv(typ, s):
    """documented meaning of a (valid) value"""
    if typ == 'integer':
        return int(s)
    if typ == 'size':
        n = s.lower().rstrip('ib') if s[-1] in 'bB' else s.lower()
        return int(n[:-1]) * 1024 ** 'kmgtp'.index(n[-1]).__add__(1) if n[-1] in 'kmgtp' else int(n)
    if typ == 'time':
        for suf, m in (('ms', 1), ('s', 1000), ('m', 60000), ('h', 3600000), ('d', 86400000), ('w', 604800000)):
            if s.lower().endswith(suf):
                return int(s[:-len(suf)]) * m
        return int(s) * 1000
    if typ == 'path':
        return s.rstrip('/') if len(s) > 1 else s
    return s


# name, type, default, six values (cli, env, stanza:cmd, stanza, global:cmd, global), bad values, attributes
S = dict
OPTS = [
    S(n='start-fast', t='boolean', d='n', neg=1, reset=1, bad=['x', 'true', 'Y', '1']),
    S(n='resume', t='boolean', d='y', neg=1, reset=1, bad=['', 'no']),
    S(n='archive-check', t='boolean', d='y', neg=1, reset=1, bad=['yes']),
    S(n='backup-standby', t='string-id', d='n', neg=1, reset=1, boollike=1, v=['prefer', 'y', 'n', 'prefer', 'y', 'prefer'],
      bad=['x', 'Y']),
    S(n='compress-type', t='string-id', d='gz', reset=1, v=['bz2', 'lz4', 'none', 'zst', 'gz', 'lz4'], bad=['xz', 'GZ', 'g']),
    S(n='process-max', t='integer', d=1, reset=1, v=['2', '3', '4', '5', '6', '7'], bad=['0', '1000', '-1', 'x', '1x', '1.5']),
    S(n='compress-level-network', t='integer', d=1, reset=1, v=['-5', '0', '2', '3', '4', '9'], bad=['x', '100', '-6']),
    S(n='buffer-size', t='size', d=1 << 20, reset=1, v=['16KiB', '32k', '65536', '128kB', '256K', '2MiB'],
      bad=['3k', '0', '16', '17KiB', '1kk', 'k', '32MiB']),
    S(n='db-timeout', t='time', d=1800000, reset=1, v=['10', '11s', '5m', '100ms', '1000', '29m'],
      bad=['0', '99ms', '8d', 'x', '1.5', '1y', '-1', '-2305843009213693922']),
    S(n='cmd-ssh', t='string', d='ssh', reset=1, v=['a b', 'bb', 'c=c', 'd#d', 'e', '/usr/bin/ssh'], bad=['']),
    S(n='exclude', t='list', d=None, reset=1, v=[['a'], ['b', 'c'], ['d'], ['e', 'f'], ['g', 'g'], ['h']], bad=[]),
    S(n='repo1-path', t='path', d='/var/lib/pgbackrest', reset=1, v=['/a', '/b/', '/c/d', '/', '/e', '/f f'],
      bad=['a', '//', '/a//b', ''], dep=['repo-path']),
    S(n='pg1-path', t='path', d='ERR', stanza=1, reset=1, v=['/a', '/b', '/c/', '/d', '/e', '/f'], bad=['a', '/x//y'],
      dep=['db-path', 'db1-path']),
    S(n='pg1-port', t='integer', d=5432, stanza=1, reset=1, v=['1', '2', '3', '4', '5', '65535'], bad=['65536', 'x', '-1'],
      dep=['db-port', 'db1-port'], base=[('pg1-path', '/pg')]),
    S(n='repo1-retention-full', t='integer', d=None, reset=1, v=['1', '2', '3', '4', '5', '6'], bad=['0', '-1', 'a'],
      dep=['retention-full']),
    S(n='repo1-bundle-size', t='size', d=20 << 20, reset=1, v=['1MiB', '2m', '3MB', '4M', '5MiB', '6MiB'], bad=['1KiB', 'q'],
      base=[('repo1-bundle', 'y')]),
    S(n='repo1-cipher-pass', t='string', d='ERR', reset=1, secure=1, v=['p1', 'p2', 'p3', 'p4', 'p5', 'p6'], bad=[''],
      base=[('repo1-cipher-type', 'aes-256-cbc')], dep=['repo-cipher-pass']),
    S(n='type', t='string-id', d='incr', cl=1, v=['full', 'diff', 'incr', 'full', 'diff', 'full'], bad=['x', 'FULL']),
    S(n='force', t='boolean', d='n', cl=1, bad=['x'], cli=['--no-online']),
    S(n='annotation', t='hash', d=None, reset=1, v=[['a=1', 'b=2'], ['c=3'], ['d=4'], ['e=5'], ['f=6'], ['g=7']], bad=['x']),
    S(n='repo2-hardlink', t='boolean', d='n', neg=1, reset=1, bad=['x'], base=[('repo2-path', '/r2')], dep=[]),
    S(n='recovery-option', c='restore', t='hash', d=None, reset=1,
      v=[['a=1', 'b=2'], ['c=3', 'c2=x=y'], ['d=4'], ['e=5', 'e2='], ['f=6'], ['g=7', 'g=8']], bad=['x']),
    S(n='link-map', c='restore', t='hash', d=None, reset=1, v=[['l=/1'], ['l=/2', 'm=/3'], ['l=/4'], ['n=/5'], ['o=/6'], ['p=/7']],
      bad=['zz']),
    S(n='db-include', c='restore', t='list', d=None, reset=1, v=[['a', 'b'], ['c'], ['d', 'e'], ['f'], ['g'], ['h', 'i']], bad=[]),
    S(n='target-timeline', c='restore', t='string', d=None, cl=1, v=['1', '2', '3', '4', '5', '6'], bad=[''],
      cli=['--type=xid', '--target=9']),
    S(n='archive-async', c='archive-push', t='boolean', d='n', neg=1, reset=1, bad=['q']),
    S(n='spool-path', c='archive-push', t='path', d='/var/spool/pgbackrest', reset=1, v=['/a', '/b', '/c', '/d', '/e', '/f'],
      bad=['x'], base=[('archive-async', 'y')]),
    S(n='archive-push-queue-max', c='archive-push', t='size', d=None, reset=1, v=['1GiB', '2g', '3GB', '4t', '3p', '4503599627370496'],
      bad=['-1', '1x', '1024p', '9223372036854775808']),
    S(n='process-max', c='archive-push', t='integer', d=1, reset=1, v=['2', '3', '4', '5', '6', '7'], bad=['0']),
]


def forms(o):
    """command line forms: (tokens, outcome) with outcome None (not given), ('v', value), 'err', 'reset', 'neg'"""
    n, t = o['n'], o['t']
    r = [([], None)]
    if t == 'boolean':
        r += [(['--' + n], ('v', 'y')), (['--%s=y' % n], ('v', 'y')), (['--%s=n' % n], ('v', 'n')), (['--%s=x' % n], 'err'),
              (['--' + n, '--' + n], 'err')]
        neg = ('v', 'n') if o.get('neg') else 'err'
    else:
        v = o['v'][0]
        many = t in ('list', 'hash')
        vs = v if many else [v]
        r += [(['--%s=%s' % (n, q) for q in vs], ('v', vs)), ] if o.get('boollike') else [(['--%s=%s' % (n, q) for q in vs], ('v', vs)),
                                            (sum([['--' + n, q] for q in vs], []), ('v', vs))]
        if many:
            r += [(['--%s=%s' % (n, q) for q in vs + o['v'][2]], ('v', vs + o['v'][2]))]
        else:
            r += [(['--%s=%s' % (n, v), '--%s=%s' % (n, v)], 'err')]
        neg = 'err' if not o.get('neg') else ('v', ['n']) if o.get('boollike') else 'neg'
        if o.get('boollike'):
            r += [(['--' + n], ('v', ['y']))]
    first = r[1][0]
    r += [(['--no-' + n], neg), (['--no-' + n, '--no-' + n], 'err'), (['--no-%s=y' % n], 'err'), (first + ['--no-' + n], 'err'),
          (['--reset-' + n], 'reset' if o.get('reset') else 'err'), (['--reset-' + n] + first, 'err'),
          (['--reset-%s=x' % n], 'err'), (['--reset-' + n, '--reset-' + n], 'err'), (['--reset-' + n, '--no-' + n], 'err')]
    if o.get('boollike'):
        # a second value is refused whatever it is
        r = [q for q in r if q[0] != ['--no-' + n, '--no-' + n]] + [(['--no-' + n, '--no-' + n], 'err')]
    for dn in o.get('dep', ()):
        if t != 'boolean':
            r += [(['--%s=%s' % (dn, v)], ('v', [v])), (['--%s=%s' % (dn, v), '--%s=%s' % (n, v)], 'err')]
    if o.get('secure'):
        r = [(a, 'err' if a else None) for a, _ in r]
    return r


def final(o, vals):
    """the value the documented rules give to a list of source strings"""
    t = o['t']
    if t == 'boolean':
        return vals
    if t == 'hash':
        kv = {}
        for q in vals:
            k, v = q.split('=', 1)
            kv[k] = v
        return ['%s=%s' % q for q in kv.items()]
    if t == 'list':
        return vals
    return conv(t, vals[0])


def base_conf(o, cmd):
    secs = {}
    for k, v in o.get('base', ()):
        secs.setdefault('demo' if k.startswith('pg') else 'global', []).append((k, v))
    if o['n'] != 'pg1-path' and not any(k == 'pg1-path' for k, _ in o.get('base', ())):
        secs.setdefault('demo', []).insert(0, ('pg1-path', '/pgdata'))
    return secs


def setin(secs, sec, o, val):
    for q in (val if isinstance(val, list) else [val]):
        secs.setdefault(sec, []).append((o['n'], q))


def envname(n):
    return 'PGBACKREST_' + n.upper().replace('-', '_')


def cmdargs(cmd):
    return ['--stanza=demo', cmd] + (['x'] if cmd.startswith('archive-') else [])


def cases_a(o, deep):
    cmd = o.get('c', 'backup')
    t = o['t']
    if t == 'boolean':
        envs, secv = [None, 'y', 'n'], [None, 'y', 'n']
    else:
        envs, secv = [None, 1], [None, 1]
    fs = forms(o)
    for fi, (tokens, f) in enumerate(fs):
        # the refused forms need only a few surroundings
        combos = itertools.product(envs, *[secv] * 4)
        if f == 'err' and not deep:
            combos = [(None,) * 5, (secv[1],) * 5]
        for combo in combos:
            secs = base_conf(o, cmd)
            poison = ('n' if o['d'] == 'y' else 'y') if t == 'boolean' else (o['v'][5])
            for s in ('other', 'other:' + cmd, 'demo:verify', 'global:verify', 'demo2', 'dem', 'demo2:' + cmd):
                setin(secs, s, o, poison)
            env, src = [], None
            for i, c in enumerate(combo):
                if c is None:
                    continue
                v = c if t == 'boolean' else o['v'][1 + i]
                if i == 0:
                    env.append('%s=%s' % (envname(o['n']), ':'.join(v) if isinstance(v, list) else v))
                    ok = True
                else:
                    setin(secs, SECS[i - 1] % cmd if '%' in SECS[i - 1] else SECS[i - 1], o, v)
                    ok = not o.get('cl') and not (o.get('stanza') and i > 2)
                if ok and src is None:
                    src = v
            if f == 'err':
                exp = 'err'
            elif f == 'neg':
                exp = None
            elif f == 'reset' or (f is None and src is None):
                exp = 'err' if o['d'] == 'ERR' else ('raw', o['d'])
            else:
                v = src if f is None else f[1]
                exp = ('raw', final(o, v if isinstance(v, list) or t == 'boolean' else [v]))
            yield Case(STD + cmdargs(cmd) + o.get('cli', []) + tokens, env, {'c.conf': conf(secs)}, expect=exp, q=o['n'],
                       what='%s: %s from sources cli=%r env/sections=%r' % (cmd, o['n'], tokens, combo))


def cases_bad(o):
    """a bad value is refused from every source it comes from, and does not matter where a higher source overrides it"""
    cmd = o.get('c', 'backup')
    t = o['t']
    if t == 'boolean':
        good = 'y'
    else:
        good = o['v'][0]
    for b in o['bad']:
        for i in range(6):
            for over in [None] + list(range(i)):
                secs, env, args = base_conf(o, cmd), [], []
                for j, v in ((i, b), (over, good)):
                    if j is None:
                        continue
                    if j == 0:
                        args += ['--%s=%s' % (o['n'], q) for q in (v if isinstance(v, list) else [v])]
                    elif j == 1:
                        env.append('%s=%s' % (envname(o['n']), ':'.join(v) if isinstance(v, list) else v))
                    else:
                        setin(secs, SECS[j - 2] % cmd if '%' in SECS[j - 2] else SECS[j - 2], o, v)
                used = [j for j in (over, i) if j is not None and not (o.get('secure') and j == 0) and
                        not (o.get('cl') and j > 1) and not (o.get('stanza') and j > 3)]
                if o.get('secure') and (i == 0 or over == 0):
                    exp = 'err'
                elif not used:
                    exp = 'err' if o['d'] == 'ERR' else ('raw', o['d'])
                elif used[0] == i:
                    exp = 'err'
                else:
                    # an empty environment variable is refused in any case
                    exp = 'err' if b == '' and i == 1 else \
                        ('raw', final(o, good if isinstance(good, list) or t == 'boolean' else [good]))
                yield Case(STD + cmdargs(cmd) + o.get('cli', []) + args, env, {'c.conf': conf(secs)}, expect=exp, q=o['n'],
                           what='%s: %s bad value %r in source %d overridden by %r' % (cmd, o['n'], b, i, over))


def cases_dup(o):
    """the same option twice in one section, also by an old name"""
    cmd = o.get('c', 'backup')
    if o['t'] in ('list', 'hash') or o.get('cl'):
        return
    v = 'y' if o['t'] == 'boolean' else o['v'][0]
    for s in SECS:
        s = s % cmd if '%' in s else s
        if o.get('stanza') and s.startswith('global'):
            continue
        secs = base_conf(o, cmd)
        setin(secs, s, o, [v, v])
        yield Case(STD + cmdargs(cmd) + o.get('cli', []), [], {'c.conf': conf(secs)}, expect='err',
                   what='%s: %s twice in [%s]' % (cmd, o['n'], s))
        for dn in o.get('dep', ()):
            secs = base_conf(o, cmd)
            setin(secs, s, o, v)
            secs[s].append((dn, v))
            yield Case(STD + cmdargs(cmd) + o.get('cli', []), [], {'c.conf': conf(secs)}, expect='err',
                       what='%s: %s and old name %s in [%s]' % (cmd, o['n'], dn, s))
            secs = base_conf(o, cmd)
            secs.setdefault(s, []).append((dn, v))
            yield Case(STD + cmdargs(cmd) + o.get('cli', []), [], {'c.conf': conf(secs)}, expect=('raw', final(o, [v])),
                       what='%s: old name %s in [%s]' % (cmd, dn, s))
            yield Case(STD + cmdargs(cmd) + o.get('cli', []), ['%s=%s' % (envname(dn), v)], {'c.conf': conf(base_conf(o, cmd))},
                       expect=('raw', final(o, [v])), what='%s: old name %s in the environment' % (cmd, dn))


def job_opt(arg):
    i, deep = arg
    o = OPTS[i]
    d = dirs('p28.o%d' % i)
    cs = list(cases_a(o, deep)) + list(cases_bad(o)) + list(cases_dup(o))
    return judge(o, cs, run(cs, d))


def judge(o, cs, rs):
    r = R()
    for c, res in zip(cs, rs):
        r.evals += 1
        r.trans += 1
        r.keys.append(core.h((c.what,)))
        if res.err and res.err[0] in (25, -1):
            r.viol.append(('internal error instead of a defined result: %s: %s' % (c.what, res.short()), c.show()))
            continue
        if c.expect == 'err':
            if not res.err:
                r.viol.append(('accepted but must be refused: %s (value %s)' % (c.what, res.opt.get(o['n'])), c.show()))
            continue
        if res.err:
            r.viol.append(('must be accepted: %s: %s' % (c.what, res.short()), c.show()))
            continue
        want = enc(o['t'], None if c.expect is None else c.expect[1])
        got = res.opt.get(o['n'])
        if got != want:
            r.viol.append(('wrong value: %s: got %s, documented %s' % (c.what, got, want), c.show()))
    r.samples = [cs[0].what, cs[-1].what]
    return r


# ---------------------------------------------------------------------------------------------------- B: indexes
REPO = {                                                # what a repository key is given
    'none': [], 'path': [('repo#-path', '/r#')], 'phantom': [('repo#-s3-bucket', 'b')],
    'both': [('repo#-path', '/r#'), ('repo#-s3-bucket', 'b')], 'host': [('repo#-host', 'h#')],
    'ret': [('repo#-path', '/q#'), ('repo#-retention-full', '#')],
}


def cases_idx(deep):
    keys = (1, 2, 3, 256) if deep else (1, 3, 256)
    names = list(REPO)
    for combo in itertools.product(names, repeat=len(keys)):
        for where in range(3):
            for repo in [None] + list(keys):
                args, env, secs = [], [], {'demo': [('pg1-path', '/pg')], 'global': []}
                for k, nm in zip(keys, combo):
                    for n, v in REPO[nm]:
                        n, v = n.replace('#', str(k)), v.replace('#', str(k))
                        if where == 0:
                            secs['global'].append((n, v))
                        elif where == 1:
                            env.append('%s=%s' % (envname(n), v))
                        else:
                            if 's3' in n:
                                secs['demo'].append((n, v))
                            else:
                                args.append('--%s=%s' % (n, v))
                real = [k for k, nm in zip(keys, combo) if nm not in ('none', 'phantom')]
                exp = dict(keys=real or [1], paths={}, ret={}, host={})
                for k, nm in zip(keys, combo):
                    if k in exp['keys']:
                        exp['paths'][k] = '/q%d' % k if nm == 'ret' else '/r%d' % k if nm in ('path', 'both') else \
                            '/var/lib/pgbackrest'
                        exp['ret'][k] = str(k) if nm == 'ret' else 'null'
                        exp['host'][k] = hx('h%d' % k) if nm == 'host' else 'null'
                if repo is not None:
                    args.append('--repo=%d' % repo)
                    if repo not in exp['keys']:
                        exp = 'err'
                yield Case(STD + ['--stanza=demo', 'backup'] + args, env, {'c.conf': conf(secs)}, expect=exp,
                           what='repositories %s given by %s, --repo=%s' %
                           (dict(zip(keys, combo)), ('file', 'environment', 'command line')[where], repo))


def cases_idx_src(deep):
    """one indexed option, every key from its own source"""
    srcs = [None, 'cli', 'env', 'demo:backup', 'demo', 'global:backup', 'global']
    for combo in itertools.product(srcs, repeat=3):
        args, env, secs = [], [], {'demo': [('pg1-path', '/pg'), ('repo1-path', '/r1'), ('repo2-path', '/r2'), ('repo3-path', '/r3')]}
        exp = dict(keys=[1, 2, 3], paths={1: '/r1', 2: '/r2', 3: '/r3'}, ret={}, host={})
        for i, s in enumerate(combo):
            n, v = 'repo%d-retention-full' % (i + 1), str(10 + i)
            exp['ret'][i + 1] = 'null' if s is None else v
            if s == 'cli':
                args.append('--%s=%s' % (n, v))
            elif s == 'env':
                env.append('%s=%s' % (envname(n), v))
            elif s:
                secs.setdefault(s, []).append((n, v))
        yield Case(STD + ['--stanza=demo', 'backup'] + args, env, {'c.conf': conf(secs)}, expect=exp,
                   what='retention of repositories 1..3 from %r' % (combo,))


def cases_pg(deep):
    """pg keys: key 1 is always there, the others keep their key"""
    keys = (1, 2, 5)
    for combo in itertools.product((0, 1, 2), repeat=3):
        for pg in [None, 1, 2, 5]:
            secs = {'demo': []}
            for k, s in zip(keys, combo):
                if s:
                    secs['demo'] += [('pg%d-path' % k, '/pg%d' % k)]
                if s == 2:
                    secs['demo'] += [('pg%d-port' % k, str(1000 + k))]
            exp = dict(pg=[k for k, s in zip(keys, combo) if s], port={k: 1000 + k if s == 2 else 5432 for k, s in zip(keys, combo)})
            if not combo[0]:
                exp = 'err'                              # pg1-path is required
            yield Case(STD + ['--stanza=demo', 'backup', '--repo1-path=/r'] + ([] if pg is None else ['--pg=%d' % pg]), [],
                       {'c.conf': conf(secs)}, expect='err' if pg is not None else exp,
                       what='pg keys %r --pg=%r' % (dict(zip(keys, combo)), pg))


def job_idx(arg):
    kind, part, parts, deep = arg
    gen = dict(idx=cases_idx, src=cases_idx_src, pg=cases_pg)[kind]
    cs = [c for i, c in enumerate(gen(deep)) if i % parts == part]
    d = dirs('p28.%s%d' % (kind, part))
    r = R()
    for c, res in zip(cs, run(cs, d)):
        r.evals += 1
        r.trans += 1
        r.keys.append(core.h(c.what))
        bad = None
        if res.err and res.err[0] in (25, -1):
            bad = 'internal error'
        elif c.expect == 'err':
            bad = None if res.err else 'must be refused'
        elif res.err:
            bad = 'must be accepted'
        elif 'pg' in c.expect:
            got = [k for k in res.groups[0] if res.opt.get('pg%d-path' % k, 'null') != 'null']
            if got != c.expect['pg']:
                bad = 'pg keys %r, configured %r' % (res.groups[0], c.expect['pg'])
            for k in c.expect['pg']:
                if res.opt.get('pg%d-path' % k) != hx('/pg%d' % k) or res.opt.get('pg%d-port' % k) != str(c.expect['port'][k]):
                    bad = 'pg%d has path %s port %s' % (k, uhx(res.opt.get('pg%d-path' % k, '-')), res.opt.get('pg%d-port' % k))
        else:
            if res.groups[1] != c.expect['keys']:
                bad = 'repository keys %r, configured %r' % (res.groups[1], c.expect['keys'])
            else:
                for k in c.expect['paths']:
                    for n, w in (('path', hx(c.expect['paths'][k])), ('retention-full', c.expect['ret'].get(k)),
                                 ('host', c.expect['host'].get(k, 'null'))):
                        if w is not None and res.opt.get('repo%d-%s' % (k, n)) != w:
                            bad = 'repo%d-%s is %s, documented %s' % (k, n, res.opt.get('repo%d-%s' % (k, n)), w)
        if bad:
            r.viol.append(('%s: %s: %s' % (bad, c.what, res.short()), c.show()))
    r.samples = [cs[0].what] if cs else []
    return r


# ---------------------------------------------------------------------------------------------------- C: every option, every command
def spec():
    y = yaml.safe_load(open(os.path.join(core.REPO, 'build', 'config.yaml')))
    opts = {}
    for n, d in y['option'].items():
        if isinstance(d, str):
            d = dict(inherit=d)
        d = dict(d or {})
        if 'inherit' in d:
            b = dict(opts.get(d['inherit']) or y['option'][d['inherit']])
            b.pop('deprecate', None)
            b.update({k: v for k, v in d.items() if k != 'inherit'})
            d = b
        opts[n] = d
    return list(y['command']), opts


def legal(n, d, cmd):
    """two values of the option's type, the second different from the first when possible"""
    t = d['type']
    c = d.get('command')
    o = dict(d)
    if isinstance(c, dict) and isinstance(c.get(cmd), dict):
        o.update(c[cmd])
    if t == 'boolean':
        return ['y', 'n']
    if t in ('string-id', 'size', 'integer', 'time') and isinstance(o.get('allow-list'), list):
        l = [(list(q)[0] if isinstance(q, dict) else str(q)) for q in o['allow-list']]
        l = ['y' if q == 'True' else 'n' if q == 'False' else q for q in l]
        return (l * 2)[:2]
    if t in ('integer', 'size', 'time'):
        rng = o.get('allow-range')
        if isinstance(rng, list) and isinstance(rng[0], dict):
            return ['1', '2']
        if isinstance(rng, list):
            lo, hi = str(rng[0]), str(rng[1])
            if t == 'integer':
                return [lo, str(min(int(lo) + 1, int(hi)))]
            return [lo, hi]
        return ['5', '6']
    return dict(string=['va', 'vb'], path=['/va', '/vb'], hash=['k=a', 'k=b'], list=['va', 'vb']).get(t, ['va', 'vb'])


BASE = {'annotate': ['--set=20200101-000000F', '--annotation=k=v'], 'archive-get': ['x', 'y'], 'archive-push': ['x'], 'repo-get': ['x'],
        'repo-rm': ['x'], 'repo-ls': [], 'server': ['--tls-server-cert-file=/c', '--tls-server-key-file=/k', '--tls-server-ca-file=/a',
                                                    '--tls-server-address=*'],
        'restore': [], 'server-ping': [], 'manifest': []}
SKIP = {'config', 'config-path', 'config-include-path', 'stanza', 'exec-id', 'lock-path', 'log-path', 'log-level-file', 'process',
        'remote-type', 'priority', 'lock', 'raw', 'beta', 'version', 'compress'}


NEED = {('repo1-type', 'azure'): [('repo1-azure-account', 'a'), ('repo1-azure-container', 'c'), ('repo1-azure-key', 'YQ==')],
        ('repo1-type', 's3'): [('repo1-s3-bucket', 'b'), ('repo1-s3-endpoint', 'e'), ('repo1-s3-region', 'r'), ('repo1-s3-key', 'k'),
                               ('repo1-s3-key-secret', 's')],
        ('repo1-type', 'gcs'): [('repo1-gcs-bucket', 'b'), ('repo1-gcs-key', 'k')],
        ('repo1-type', 'sftp'): [('repo1-sftp-host', 'h'), ('repo1-sftp-host-user', 'u'), ('repo1-sftp-private-key-file', 'f'),
                                 ('repo1-sftp-host-key-hash-type', 'sha1')],
        ('repo1-host-type', 'tls'): [('repo1-host-cert-file', '/c'), ('repo1-host-key-file', '/k')],
        ('pg1-host-type', 'tls'): [('pg1-host-cert-file', '/c'), ('pg1-host-key-file', '/k')],
        ('repo1-cipher-type', 'aes-256-cbc'): [('repo1-cipher-pass', 'p')]}


QUICKPAIR = ('backup', 'restore', 'archive-push', 'server')


def depends(n, opts, cmd, seen=()):
    d = opts[n]
    dep = d.get('depend')
    c = d.get('command')
    if isinstance(c, dict) and isinstance(c.get(cmd), dict) and 'depend' in c[cmd]:
        dep = c[cmd]['depend']
    while isinstance(dep, str):
        dep = opts[dep].get('depend')
    if not dep or dep['option'] in seen:
        return []
    do = dep['option']
    l = dep.get('list')
    v = l[0] if l else legal(do, opts[do], cmd)[0]
    v = list(v)[0] if isinstance(v, dict) else v
    v = {True: 'y', False: 'n'}.get(v, v) if isinstance(v, bool) else str(v)
    return depends(do, opts, cmd, seen + (n,)) + [(do, v)]


def job_all(arg):
    part, parts, deep = arg
    cmds, opts = spec()
    d = dirs('p28.all%d' % part)
    r = R()
    todo = []
    names = [n for n in sorted(opts) if n not in SKIP]
    for i, n in enumerate(names):
        for j, cmd in enumerate(cmds):
            if cmd in ('help', 'version'):
                continue
            if (i * len(cmds) + j) % parts == part:
                todo.append((n, cmd))
    for n, cmd in todo:
        o = opts[n]
        grp = o.get('group')
        idx = (lambda q: q if not opts[q].get('group') else opts[q]['group'] + '1' + q[len(opts[q]['group']):])
        full = idx(n)
        vals = legal(n, o, cmd)
        deps = [(idx(k), v, opts[k].get('section'), opts[k].get('secure')) for k, v in depends(n, opts, cmd)]
        secure = o.get('secure')

        def mk(assign):
            """assign: source index -> value"""
            args, env, secs = list(BASE.get(cmd, [])), [], {'demo': [], 'global': []}
            args = [cmd] + args
            if n != 'set':
                pass
            if cmd not in ('server', 'server-ping', 'repo-get', 'repo-ls', 'repo-rm'):
                args = ['--stanza=demo'] + args
            if cmd == 'stanza-delete':
                args.append('--repo=1') if n != 'repo' else None
            args = [a for a in args if not a.startswith('--%s=' % full)]
            if full != 'pg1-path':
                secs['demo'].append(('pg1-path', '/pgx'))
            if cmd == 'server' and n != 'tls-server-auth':
                secs['global'].append(('tls-server-auth', 'h=*'))
            for k, v, sec, sc in deps:
                if k in ('stanza', full, 'pg1-path'):
                    continue
                for k2, v2 in NEED.get((k, v), ()):
                    if k2 != full and k2 not in [q[0] for q in deps]:
                        secs['demo' if k2.startswith('pg') else 'global'].append((k2, v2))
                if sec in ('global', 'stanza'):
                    secs['global' if sec == 'global' else 'demo'].append((k, v))
                else:
                    a = '--' + k if v == 'y' else '--no-' + k if v == 'n' else '--%s=%s' % (k, v)
                    if a not in args:
                        args.append(a)
            for s, v in assign.items():
                if s == 0:
                    args += ['--%s=%s' % (full, v)]
                elif s == 1:
                    env.append('%s=%s' % (envname(full), v))
                else:
                    sec = SECS[s - 2] % cmd if '%' in SECS[s - 2] else SECS[s - 2]
                    if cmd in ('server', 'server-ping', 'repo-get', 'repo-ls', 'repo-rm'):
                        sec = sec.replace('demo', 'demo')
                    secs.setdefault(sec, []).append((full, v))
            return Case(STD + args, env, {'c.conf': conf(secs)}, what='%s: %s by %r' % (cmd, full, assign), q=full)

        assigns = [{}] + [{s: v} for s in range(6) for v in vals]
        cs = [mk(a) for a in assigns]
        rs = run(cs, d)
        if all(q.err for q in rs) and deps:
            deps = []                                   # neither the option nor what it depends on exists for this command
            cs = [mk(a) for a in assigns]
            rs = run(cs, d)
        r.evals += len(cs)
        r.trans += len(cs)
        r.keys.append(core.h((n, cmd)))
        for c, res in zip(cs, rs):
            if res.err and res.err[0] in (25, -1):
                r.viol.append(('internal error: %s: %s' % (c.what, res.short()), c.show()))
        if rs[0].err and all(q.err for q in rs):
            r.viol.append(('no configuration accepted for %s %s: %s' % (cmd, full, rs[0].short()), cs[0].show()))
            continue
        one = {(list(a)[0], list(a.values())[0]): (c, res) for a, c, res in zip(assigns, cs, rs) if a}
        valid = full in (rs[0].opt if not rs[0].err else next(q for q in rs if not q.err).opt)
        # an option that a command does not have is refused on the command line and has no effect elsewhere
        if not valid:
            for (s, v), (c, res) in one.items():
                if s == 0 and not res.err:
                    r.viol.append(('option not valid for the command accepted: ' + c.what, c.show()))
                if s > 0 and not rs[0].err and (res.err or res.hash != rs[0].hash):
                    r.viol.append(('option not valid for the command has an effect: %s: %s' % (c.what, res.short()), c.show()))
            continue
        # secure options are refused on the command line, command line options in the file are ignored
        for (s, v), (c, res) in one.items():
            if s == 0 and secure and not res.err:
                r.viol.append(('secret option accepted on the command line: ' + c.what, c.show()))
            if s > 1 and not o.get('section') and not rs[0].err and (res.err or res.hash != rs[0].hash):
                r.viol.append(('command line option in the file has an effect: %s: %s' % (c.what, res.short()), c.show()))
            if s in (4, 5) and o.get('section') == 'stanza' and not rs[0].err and (res.err or res.hash != rs[0].hash):
                r.viol.append(('stanza option in a global section has an effect: %s: %s' % (c.what, res.short()), c.show()))
        # the value given is the value used, whatever the source
        applies = [s for s in range(6) if not (s == 0 and secure) and not (s > 1 and not o.get('section')) and
                   not (s > 3 and o.get('section') == 'stanza')]
        if cmd in ('server', 'server-ping', 'repo-get', 'repo-ls', 'repo-rm'):
            applies = [s for s in applies if s not in (2, 3)]
        for v in vals:
            got = {s: (one[(s, v)][1].opt.get(full) if not one[(s, v)][1].err else 'refused') for s in applies}
            if len(set(got.values())) > 1:
                c = one[(applies[0], v)][0]
                # a value without its dependency is an error on the command line only
                g2 = {s: q for s, q in got.items() if not (s == 0 and q == 'refused')}
                if len(set(g2.values())) > 1 or set(g2.values()) == {got.get(0)}:
                    r.viol.append(('value of %s=%s for %s depends on where it is set: %r' % (full, v, cmd, got), c.show()))
        # and the higher source wins for every pair
        pairs = [(a, b) for a in applies for b in applies if a < b] if vals[0] != vals[1] and not rs[0].err or deep else []
        if vals[0] == vals[1] or (not deep and cmd not in QUICKPAIR):
            pairs = []
        pa = [((a, b), dict([(a, vals[0]), (b, vals[1])])) for a, b in pairs] + \
             [((a, b), dict([(a, vals[1]), (b, vals[0])])) for a, b in pairs]
        cs2 = [mk(q) for _, q in pa]
        rs2 = run(cs2, d) if cs2 else []
        r.evals += len(cs2)
        r.trans += len(cs2)
        for ((a, b), q), c, res in zip(pa, cs2, rs2):
            ref = one[(a, q[a])][1]
            if bool(ref.err) != bool(res.err) or (not res.err and res.opt.get(full) != ref.opt.get(full)):
                r.viol.append(('lower source not overridden: %s: %s, alone %s' % (c.what, res.opt.get(full, res.short()),
                                                                              ref.opt.get(full, ref.short())), c.show()))
    r.samples = ['%s %s' % t for t in todo[:2]]
    return r


# ---------------------------------------------------------------------------------------------------- D: values of sizes and times
def ref_size(s):
    import re
    m = re.match(r'^([0-9]+)(kib|kb|k|mib|mb|m|gib|gb|g|tib|tb|t|pib|pb|p|b|)$', s.lower())
    if not m:
        return None
    v = int(m.group(1)) * (1024 ** ('kmgtp'.index(m.group(2)[0]) + 1) if m.group(2) and m.group(2) != 'b' else 1)
    return v if v < 2 ** 63 and int(m.group(1)) < 2 ** 63 else None


def ref_time(s):
    import re
    m = re.match(r'^(-?[0-9]+)(ms|s|m|h|d|w|)$', s.lower())
    if not m:
        return None
    v = int(m.group(1)) * dict(ms=1, s=1000, m=60000, h=3600000, d=86400000, w=604800000)[m.group(2) or 's']
    return v


def job_val(arg):
    part, parts, deep = arg
    nums = ['0', '1', '7', '16', '1024', '4096', '59', '100', '604800', '604801', '9999', '9223372036854775807', '9223372036854775808',
            '18446744073709551616', '9007199254740993', '-1', '-0', '1.5', '', '0x10', '1e3', 'k', '4503599627370496', '8191', '8192',
            '8193', '-9223372036854775808', '9223372036854776', '-2305843009213693922', '-2305843009213693952', '99', '00100', '168', '169',
            '10080', '10081', '2305843009213693953', '576460752303423489']
    sufs = ['', 'b', 'k', 'kb', 'kib', 'K', 'KB', 'KiB', 'm', 'mb', 'mib', 'M', 'g', 'gb', 'gib', 't', 'tb', 'tib', 'p', 'pb', 'pib', 'ms',
            's', 'h', 'd', 'w', 'MS', 'S', 'H', 'D', 'W', 'y', 'kk', 'bb', 'ib', 'i', ' k', '.', 'mss', 'sm', 'bk']
    if deep:
        sufs += [a + b for a in 'bkmgtpiswhd' for b in 'bkmgtpiswhd']
    vals = sorted({n + s for n in nums for s in sufs})
    vals = [v for i, v in enumerate(vals) if i % parts == part and v]
    d = dirs('p28.v%d' % part)
    conf0 = conf({'demo': [('pg1-path', '/pg')]})
    r = R()
    for name, ref, lo, hi in (('archive-push-queue-max', ref_size, 0, 4 << 50), ('io-timeout', ref_time, 100, 3600000),
                              ('protocol-timeout', ref_time, 100, 7 * 86400000)):
        cs = [Case(STD + ['--stanza=demo', 'archive-push', 'x', '--%s=%s' % (name, v)], [], {'c.conf': conf0}, what=v) for v in vals]
        for c, res in zip(cs, run(cs, d)):
            r.evals += 1
            r.trans += 1
            r.keys.append(core.h((name, c.what)))
            w = ref(c.what)
            w = None if w is None or w < lo or w > hi else w
            got = None if res.err else int(res.opt[name])
            if got != w:
                r.viol.append(('--%s=%s: effective %r, documented %r (%s)' % (name, c.what, got, w, res.short()), c.show()))
    return r


# ---------------------------------------------------------------------------------------------------- E: configuration files
def job_file(arg):
    """which files are read: --config, --config-path, --config-include-path, --no-config; which are required; fragments are one file"""
    d = dirs('p28.f')
    for s in ('empty',):
        os.makedirs(os.path.join(d, s), exist_ok=True)
    r = R()
    files = {'c.conf': ('cmd-ssh', 'main'), 'conf.d/a.conf': ('pg1-user', 'a'), 'conf.d/b.conf': ('pg1-database', 'b'),
             'conf.d/x.txt': ('repo1-path', '/never'), 'inc/i.conf': ('pg1-port', '77'), 'alt/pgbackrest.conf': ('cmd-ssh', 'alt'),
             'alt/conf.d/z.conf': ('compress-type', 'lz4')}
    names = dict([v for v in files.values()])
    defaults = {'cmd-ssh': hx('ssh'), 'pg1-user': 'null', 'pg1-database': hx('postgres'), 'repo1-path': hx('/var/lib/pgbackrest'),
                'pg1-port': '5432', 'compress-type': hx('gz')}
    typ = {'pg1-port': lambda v: v}
    for cfg in (None, 'c.conf', 'missing.conf', 'no'):
        for inc in (None, 'inc', 'conf.d', 'missing', 'empty'):
            for path in (None, 'alt', 'empty', 'missing'):
                args = ['--lock-path=@D/lock', '--log-path=@D/log.d', '--log-level-file=off', '--stanza=demo', '--pg1-path=/pg', 'backup']
                if cfg:
                    args.append('--no-config' if cfg == 'no' else '--config=@D/' + cfg)
                if inc:
                    args.append('--config-include-path=@D/' + inc)
                if path:
                    args.append('--config-path=@D/' + path)
                contents = {f: '[%s]\n%s=%s\n' % ('demo' if k.startswith('pg') else 'global', k, v) for f, (k, v) in files.items()}
                read = []
                err = False
                if cfg == 'c.conf':
                    read.append('c.conf')
                elif cfg == 'missing.conf':
                    err = True
                elif cfg is None and path == 'alt':
                    read.append('alt/pgbackrest.conf')
                if inc:
                    read += dict(inc=['inc/i.conf'], missing=[], empty=[]).get(inc, ['conf.d/a.conf', 'conf.d/b.conf'])
                    err = err or inc == 'missing'
                elif path == 'alt':
                    read += ['alt/conf.d/z.conf']
                want = dict(defaults)
                for f in read:
                    k, v = files[f]
                    want[k] = typ.get(k, hx)(v)
                c = Case(args, [], contents, what='--config=%s --config-include-path=%s --config-path=%s' % (cfg, inc, path))
                res = run([c], d)[0]
                r.evals += 1
                r.trans += 1
                r.keys.append(core.h(c.what))
                if res.err and res.err[0] in (25, -1):
                    r.viol.append(('internal error: %s %s' % (c.what, res.short()), c.show()))
                elif bool(res.err) != err:
                    r.viol.append(('%s: %s' % (c.what, res.short()), c.show()))
                elif not err:
                    bad = {k: (res.opt.get(k), v) for k, v in want.items() if res.opt.get(k) != v}
                    if bad:
                        r.viol.append(('%s: values (got, documented) %r' % (c.what, bad), c.show()))
    # fragments count as one file: the same option in the same section twice is refused, lists are joined, sections may be split
    for main, a, b, want in (
            ('[global]\ncmd-ssh=x\n', '[global]\ncmd-ssh=y\n', '', 'err'),
            ('[global]\ncmd-ssh=x', '[global]\ncompress-type=lz4', '[demo]\npg1-user=q', {'cmd-ssh': hx('x'), 'compress-type': hx('lz4'),
                                                                                       'pg1-user': hx('q')}),
            ('[global]\nexclude=m\n', '[global]\nexclude=n\n', '[global]\nexclude=o', {'exclude': ','.join(map(hx, 'mno'))}),
            ('[global]\ncmd-ssh=x\n', '', '[demo]\ncmd-ssh=z\n', {'cmd-ssh': hx('z')}),
            ('[demo]\ncmd-ssh=x\n', '', '[global:backup]\ncmd-ssh=z\n', {'cmd-ssh': hx('x')}),
            ('', '', '[global]\ncmd-ssh=x\n', {'cmd-ssh': hx('x')}),
            ('[global]\ncmd-ssh=x\n', 'junk\n', '', 'err'), ('junk\n', '', '', 'err'), ('[global\n', '', '', 'err'),
            ('[global]\nnovalue\n', '', '', 'err'), ('[global]\n=v\n', '', '', 'err'), ('cmd-ssh=x\n', '', '', 'err'),
            ('[global]\ncmd-ssh=\n', '', '', 'err'), ('[global]\n# cmd-ssh=y\ncmd-ssh=x\n\n', '', '', {'cmd-ssh': hx('x')}),
            ('[global]\n  cmd-ssh = x y  \n', '', '', {'cmd-ssh': hx('x y')}),
            ('[global]\ncmd-ssh=x\r\n', '', '', {'cmd-ssh': hx('x')}),
            ('[global]\nbogus=1\ncmd-ssh=x\n', '', '', {'cmd-ssh': hx('x')})):
        c = Case(['--lock-path=@D/lock', '--log-path=@D/log.d', '--log-level-file=off', '--stanza=demo', '--pg1-path=/pg', 'backup',
                  '--config=@D/c.conf', '--config-include-path=@D/conf.d'], [],
                 {'c.conf': main, 'conf.d/a.conf': a, 'conf.d/b.conf': b}, what='fragments %r' % ((main, a, b),))
        res = run([c], d)[0]
        r.evals += 1
        r.trans += 1
        r.keys.append(core.h(c.what))
        if (want == 'err') != bool(res.err):
            r.viol.append(('%s: %s' % (c.what, res.short()), c.show()))
        elif want != 'err':
            bad = {k: (res.opt.get(k), v) for k, v in want.items() if res.opt.get(k) != v}
            if bad:
                r.viol.append(('%s: values (got, documented) %r' % (c.what, bad), c.show()))
        if 'bogus' in main and 'bogus' not in res.warn:
            r.viol.append(('unknown option in the file not reported', c.show()))
    # command line syntax
    for args, want in (
            (['--nope=1'], 'err'), (['-s', 'x'], 'err'), (['--cmd-ss=q'], {'cmd-ssh': hx('q')}), (['--cmd-s', 'q'], {'cmd-ssh': hx('q')}),
            (['--cmd-ssh'], 'err'), (['--pg1-pa=/pg9'], {'pg1-path': hx('/pg9')}), (['--pg0-user=x'], 'err'), (['--pg257-user=x'], 'err'),
            (['--pg-user=x'], 'err'), (['--pg1-=x'], 'err'), (['--pg01-user=x'], {'pg1-user': hx('x')}), (['--1-path=/x'], 'err'),
            (['--=x'], 'err'), (['extra'], 'err'), (['--compress1-type=gz'], 'err'), (['--repo-path=/x'], {'repo1-path': hx('/x')}),
            (['--compress=n'], {'compress-type': hx('none')}), (['--no-compress'], {'compress-type': hx('none')}),
            (['--compress'], {'compress-type': hx('gz')}), (['--compress', '--compress-type=lz4'], {'compress-type': hx('lz4')}),
            (['--cmd-ssh=--x'], {'cmd-ssh': hx('--x')}), (['--cmd-ssh', '--x'], {'cmd-ssh': hx('--x')}),
            (['--protocol-timeout=60', '--db-timeout=60'], 'err'), (['--protocol-timeout=60', '--db-timeout=61'], 'err'),
            (['--protocol-timeout=60'], {'db-timeout': '30000', 'protocol-timeout': '60000'}),
            (['--protocol-timeout=40'], {'db-timeout': '20000'}), (['--db-timeout=40m'], {'protocol-timeout': str(2430000)}),
            (['--repo1-retention-full=3'], {'repo1-retention-archive': '3'}),
            (['--repo1-retention-full=3', '--repo1-retention-archive=2'], {'repo1-retention-archive': '2'}),
            (['--repo1-retention-full=3', '--repo1-retention-full-type=time'], {'repo1-retention-archive': 'null'}),
            (['--repo1-retention-diff=4', '--repo1-retention-archive-type=diff'], {'repo1-retention-archive': '4'}),
            (['--pg1-host=a', '--repo1-host=b'], 'err'), (['--repo1-path=/x', '--repo2-path=/x'], 'err'),
            (['--repo1-path=/x', '--repo2-path=/x/'], 'err'),
            (['--repo1-path=/x', '--repo2-path=/y'], {'repo1-path': hx('/x'), 'repo2-path': hx('/y')})):
        pg = [] if any('pg1-pa' in a for a in args) else ['--pg1-path=/pg']
        # last, so that a missing argument is missing
        c = Case(['--lock-path=@D/lock', '--log-path=@D/log.d', '--log-level-file=off', '--stanza=demo', '--no-config'] + pg + ['backup'] +
                 args, [], {}, what='arguments %r' % (args,))
        res = run([c], d)[0]
        r.evals += 1
        r.trans += 1
        r.keys.append(core.h(c.what))
        if (want == 'err') != bool(res.err) or (res.err and res.err[0] in (25, -1)):
            r.viol.append(('%s: %s' % (c.what, res.short()), c.show()))
        elif want != 'err':
            bad = {k: (res.opt.get(k), v) for k, v in want.items() if res.opt.get(k) != v}
            if bad:
                r.viol.append(('%s: values (got, documented) %r' % (c.what, bad), c.show()))
    return r


# ---------------------------------------------------------------------------------------------------- F: child processes
PROC = {'process', 'remote-type', 'log-level-console', 'log-level-stderr', 'log-level-file', 'lock', 'exec-id', 'pg', 'repo', 'raw',
        'config', 'config-path', 'config-include-path', 'lock-path', 'log-path', 'cmd', 'process-max'}


def child_cases(deep):
    """(parent case, list of (x, description))"""
    # 1: every option of the table from each source, local processes, and remote ones where a host is configured
    for o in OPTS:
        cmd = o.get('c', 'backup')
        if cmd == 'archive-push':
            continue
        t = o['t']
        vals = ['y', 'n'] if t == 'boolean' else [o['v'][0], o['v'][1]]
        for host in ('none', 'pg', 'repo'):
            if host == 'pg' and cmd == 'restore':
                continue
            for s in range(6):
                for v in vals + (['reset'] if s == 0 else []) + (['no'] if s == 0 and o.get('neg') else []):
                    if (s == 0 and o.get('secure')) or (s > 1 and o.get('cl')) or (s > 3 and o.get('stanza')):
                        continue
                    secs, env, args = base_conf(o, cmd), [], list(o.get('cli', []))
                    if v == 'reset':
                        if not o.get('reset'):
                            continue
                        if o['d'] == 'ERR':
                            continue
                        args += ['--reset-' + o['n']]
                        setin(secs, 'demo', o, vals[1])
                    elif v == 'no':
                        args += ['--no-' + o['n']]
                        setin(secs, 'demo', o, 'y')
                    elif s == 0:
                        args += ['--%s=%s' % (o['n'], q) for q in (v if isinstance(v, list) else [v])]
                        if not o.get('cl'):
                            setin(secs, 'demo', o, vals[1])
                    elif s == 1:
                        env += ['%s=%s' % (envname(o['n']), ':'.join(v) if isinstance(v, list) else v)]
                    else:
                        setin(secs, SECS[s - 2] % cmd if '%' in SECS[s - 2] else SECS[s - 2], o, v)
                    if host == 'pg':
                        secs.setdefault('demo', []).append(('pg1-host', 'hpg'))
                        x = ['l:pg:0', 'r:pg:0']
                    elif host == 'repo':
                        secs.setdefault('global', []).append(('repo1-host', 'hrepo'))
                        x = ['l:repo:0', 'r:repo:0']
                    else:
                        x = ['l:pg:0', 'l:repo:0']
                    yield Case(STD + cmdargs(cmd) + args, env, {'c.conf': conf(secs)}, x=x,
                               what='%s %s=%s from source %d, host %s' % (cmd, o['n'], v, s, host))
    # 2: several clusters and repositories
    for combo in itertools.product((0, 1, 2, 3), repeat=3):
        secs = {'demo': [], 'global': [('repo1-path', '/r1'), ('repo2-path', '/r2')]}
        keys = (1, 2, 4)
        x = []
        i = 0
        for k, s in zip(keys, combo):
            if k == 1 or s:
                secs['demo'] += [('pg%d-path' % k, '/pg/%d' % k)]
                if s > 1:
                    secs['demo'] += [('pg%d-host' % k, 'h%d' % k), ('pg%d-host-user' % k, 'u%d' % k),
                                     ('pg%d-socket-path' % k, '/sock/%d' % k)]
                    x.append('r:pg:%d' % i)
                if s > 2:
                    secs['demo'] += [('pg%d-port' % k, str(5000 + k)), ('pg%d-host-port' % k, str(2200 + k)),
                                     ('pg%d-host-cmd' % k, '/opt/b%d' % k), ('pg%d-host-config' % k, '/etc/c%d' % k),
                                     ('pg%d-user' % k, 'dbu%d' % k)]
                x.append('l:pg:%d' % i)
                i += 1
        yield Case(STD + ['--stanza=demo', 'backup'], [], {'c.conf': conf(secs)}, x=x, what='pg keys %r' % (combo,))
    for combo in itertools.product((0, 1, 2, 3), repeat=3):
        secs = {'demo': [('pg1-path', '/pg/1')], 'global': []}
        keys = (1, 2, 4)
        x = []
        i = 0
        for k, s in zip(keys, combo):
            if s:
                secs['global'] += [('repo%d-path' % k, '/r/%d' % k)]
                if s > 1:
                    secs['global'] += [('repo%d-host' % k, 'h%d' % k), ('repo%d-host-user' % k, 'u%d' % k)]
                    x.append('r:repo:%d' % i)
                if s > 2:
                    secs['global'] += [('repo%d-host-port' % k, str(2200 + k)), ('repo%d-host-cmd' % k, '/opt/b%d' % k),
                                       ('repo%d-host-config' % k, '/etc/c%d' % k), ('repo%d-retention-full' % k, str(k)),
                                       ('repo%d-hardlink' % k, 'y')]
                i += 1
        x.append('l:repo:0')
        for cmd in ('archive-get', 'restore', 'verify', 'archive-push'):
            yield Case(STD + ['--stanza=demo', cmd] + dict([('archive-get', ['a', 'b']), ('archive-push', ['a'])]).get(cmd, []), [],
                       {'c.conf': conf(secs)}, x=x if cmd != 'archive-get' else x, what='%s repository keys %r' % (cmd, combo))


def job_child(arg):
    part, parts, deep = arg
    d = dirs('p28.c%d' % part)
    cs = [c for i, c in enumerate(child_cases(deep)) if i % parts == part]
    rs = run(cs, d)
    r = R()
    second = []
    for c, res in zip(cs, rs):
        r.evals += 1
        r.trans += 1
        r.keys.append(core.h(c.what))
        if res.err:
            if res.err[0] in (25, -1):
                r.viol.append(('internal error: %s: %s' % (c.what, res.short()), c.show()))
            continue
        for x in c.x:
            cmdl = res.x.get(x)
            if cmdl is None or isinstance(cmdl, str):
                r.viol.append(('no process started for %s: %s: %s' % (x, c.what, cmdl), c.show()))
                continue
            kind, typ, idx = x.split(':')
            idx = int(idx)
            if kind == 'l':
                second.append((c, res, x, Case(cmdl[1:], c.env, c.files, what=c.what + ' -> ' + x)))
            else:
                key = res.groups[0 if typ == 'pg' else 1][idx]
                g = '%s%d-' % (typ, key)
                rest = list(cmdl[1:])
                port = None
                while rest and rest[0].startswith('-'):
                    if rest[0] == '-o':
                        rest = rest[2:]
                    elif rest[0] == '-p':
                        port = rest[1]
                        rest = rest[2:]
                    else:
                        break
                want = '%s@%s' % (uhx(res.opt[g + 'host-user']), uhx(res.opt[g + 'host']))
                wport = None if res.opt[g + 'host-port'] == 'null' else res.opt[g + 'host-port']
                if cmdl[0] != uhx(res.opt['cmd-ssh']) or rest[0] != want or port != wport or len(rest) != 2:
                    r.viol.append(('wrong remote: %s -> %s: executes %r, documented %s port %s' % (c.what, x, cmdl, want, wport), c.show()))
                    continue
                words = shlex.split(rest[1])
                if words[0] != uhx(res.opt[g + 'host-cmd']):
                    r.viol.append(('wrong remote command: %s -> %s: %r' % (c.what, x, words), c.show()))
                for n in ('config', 'config-path', 'config-include-path'):
                    w = [q for q in words if q.startswith('--%s=' % n)]
                    v = res.opt.get(g + 'host-' + n)
                    src = res.flag.get(g + 'host-' + n, (0,))[0]
                    if w != (['--%s=%s' % (n, uhx(v))] if src else []):
                        r.viol.append(('wrong remote configuration: %s -> %s: %r' % (c.what, x, words), c.show()))
                words = [q for q in words if not q.startswith('--config')]
                # the remote host has a configuration of its own: here only the options that are never passed on
                own = {'c.conf': conf({'global': [('repo%d-cipher-%s' % (k, n), uhx(res.opt['repo%d-cipher-%s' % (k, n)]))
                                                  for k in res.groups[1] for n in ('type', 'pass')
                                                  if res.opt.get('repo%d-cipher-type' % k, hx('none')) != hx('none')]})}
                second.append((c, res, x, Case(words[1:] + ['--config=@D/c.conf'], [], own,
                                               what=c.what + ' -> ' + x)))
    rs2 = run([q[3] for q in second], d) if second else []
    for (c, res, x, c2), r2 in zip(second, rs2):
        r.evals += 1
        r.trans += 1
        kind, typ, idx = x.split(':')
        idx = int(idx)
        if r2.err:
            r.viol.append(('child refuses its options: %s: %s' % (c2.what, r2.short()), c2.show()))
            continue
        key = res.groups[0 if typ == 'pg' else 1][idx]
        role = c2.args[-1] if kind == 'l' else [a for a in c2.args if ':' in a and not a.startswith('-')][0]
        want = {}
        for n, v in res.opt.items():
            if n in PROC:
                continue
            if kind == 'r':
                g = 'pg' if n.startswith('pg') and n[2:3].isdigit() else 'repo' if n.startswith('repo') and n[4:5].isdigit() else None
                if g:
                    if g != typ:
                        continue
                    k = n[len(g):].split('-')[0]
                    if int(k) != key:
                        continue
                    if g == 'pg':
                        n = 'pg1' + n[2 + len(k):]
            want[n] = v
        bad = {n: (r2.opt[n], v) for n, v in want.items() if n in r2.opt and r2.opt[n] != v}
        if bad:
            r.viol.append(('child process has other values (child, parent): %s: %r' % (c2.what, bad), dict(parent=c.show(), child=c2.show())))
        if r2.opt.get('stanza') != res.opt.get('stanza') or r2.opt.get('exec-id') != res.opt.get('exec-id'):
            r.viol.append(('child process has another stanza or exec id: %s' % c2.what, c2.show()))
        if uhx(r2.opt.get('remote-type', '-')) != typ or not role.endswith(':local' if kind == 'l' else ':remote'):
            r.viol.append(('child process has the wrong role: %s: %s' % (c2.what, role), c2.show()))
        if kind == 'l' and typ == 'pg' and r2.opt.get('pg') not in (None, str(key)):
            r.viol.append(('local process works on pg%s, not pg%d: %s' % (r2.opt.get('pg'), key, c2.what), c2.show()))
        if kind == 'r' and typ == 'repo' and r2.opt.get('repo') not in (None, str(key)):
            r.viol.append(('remote process works on repo%s, not repo%d: %s' % (r2.opt.get('repo'), key, c2.what), c2.show()))
    r.samples = [c.what for c in cs[:2]]
    return r


def job(a):
    return dict(opt=job_opt, idx=job_idx, all=job_all, val=job_val, file=job_file, child=job_child)[a[0]](a[1]).__dict__


def main():
    global EXE
    chk = core.Check('P28', 'exploration')
    deep = chk.thorough
    EXE = core.build().harness('cfg.c', extra=['-Wl,-z,muldefs'], out=os.path.join(core.SCRATCH, 'cfg.exe'))
    chk.rule = ('every combination of sources (command line in every form, environment, four sections, foreign sections) of 28 options of '
                'all types; bad and duplicate values from every source; every option of every command from every source and pair of '
                'sources; repository and cluster keys; sizes and times; file selection; options of the child processes')
    chk.assumptions = ['the reference of the rules is written from the documentation (configuration section of the user guide and help texts)',
                       'generic sweep takes option types and legal values from build/config.yaml']
    jobs = [('opt', (i, deep)) for i in range(len(OPTS))]
    jobs += [('all', (i, 64, deep)) for i in range(64)]
    jobs += [('idx', ('idx', i, 16, deep)) for i in range(16)] + [('idx', ('src', i, 4, deep)) for i in range(4)] + [('idx', ('pg', 0, 1, deep))]
    jobs += [('val', (i, 8, deep)) for i in range(8)] + [('file', None)] + [('child', (i, 16, deep)) for i in range(16)]
    chk.phase('build')
    for r in core.pmap(job, jobs):
        chk.merge(r)
    chk.phase('explore')
    chk.finish()


if __name__ == '__main__':
    main()
