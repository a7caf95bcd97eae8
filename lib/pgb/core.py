"""Build of the tree under test, scratch space, evidence and violation reporting, process pool."""
import atexit, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time, multiprocessing, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('VERIF_REPO', '/repo')
NPROC = int(os.environ.get('VERIF_NPROC', str(os.cpu_count() or 4)))

_main_pid = os.getpid()


def _scratch_base():
    for d in ('/dev/shm', '/tmp'):
        try:
            st = os.statvfs(d)
            if os.access(d, os.W_OK) and st.f_bavail * st.f_frsize > 6 << 30:
                return d
        except OSError:
            pass
    return '/tmp'


SCRATCH = tempfile.mkdtemp(prefix='pgbv.', dir=_scratch_base())
os.chmod(SCRATCH, 0o1777)
os.umask(0o022)


def _cleanup():
    if os.getpid() == _main_pid:
        shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_cleanup)


def _term(sig, frm):
    if os.getpid() == _main_pid:
        _cleanup()
    os._exit(2)


signal.signal(signal.SIGTERM, _term)
signal.signal(signal.SIGINT, _term)


def scratch(name):
    p = os.path.join(SCRATCH, name)
    os.makedirs(p, exist_ok=True)
    return p


CLEAN_ENV = {k: v for k, v in os.environ.items() if not k.startswith('PGBACKREST_') and not k.startswith('PGSHIM')
             and k not in ('LD_PRELOAD', 'CFLAGS', 'LDFLAGS', 'LD_LIBRARY_PATH')}
CLEAN_ENV.update(HOME=SCRATCH, LC_ALL='C.UTF-8', TZ='UTC',
                 PYTHONDONTWRITEBYTECODE='1', PATH='/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin')


class Build:
    """pgbackrest built from the current working tree of the repository, outside of it."""

    def __init__(self):
        t0 = time.time()
        self.dir = os.environ.get('VERIF_BUILD_DIR') or os.path.join(SCRATCH, 'build')
        env = dict(CLEAN_ENV, CC='gcc')
        if not os.path.exists(os.path.join(self.dir, 'build.ninja')):
            os.makedirs(self.dir, exist_ok=True)
            # a release build as users run it (little optimisation to build faster)
            self._sh(['meson', 'setup', self.dir, REPO, '--buildtype=release', '-Doptimization=1', '-Dc_args=-g0', '--wrap-mode=nodownload',
                      '-Dwerror=false'], env)
            # stack traces in error messages are expensive and of no interest here
            p = os.path.join(self.dir, 'src', 'build.auto.h')
            try:
                txt = open(p).read().replace('#define HAVE_LIBBACKTRACE\n', '/* #undef HAVE_LIBBACKTRACE */\n')
                open(p, 'w').write(txt)
            except OSError:
                pass
        self._sh(['ninja', '-C', self.dir], env)
        self.bin = os.path.join(self.dir, 'src', 'pgbackrest')
        self.objdir = os.path.join(self.dir, 'src', 'pgbackrest.p')
        self.shim = os.path.join(self.dir, 'libpgshim.so')
        self._sh(['gcc', '-shared', '-fPIC', '-O1', '-g', '-o', self.shim, os.path.join(VERIF, 'lib', 'shim.c'), '-ldl'], env)
        self.fakepq = os.path.join(self.dir, 'libfakepq.so')
        self._sh(['gcc', '-shared', '-fPIC', '-O1', '-g', '-o', self.fakepq, os.path.join(VERIF, 'lib', 'fakepq.c')], env)
        self.stub = self._stubs(env)
        self.wall = time.time() - t0

    def _stubs(self, env):
        """Empty stand-ins for shared libraries the scenarios never call (their dependencies make up most of the start-up time)"""
        d = os.path.join(self.dir, 'stub')
        try:
            os.makedirs(d, exist_ok=True)
            syms = {}
            for ln in subprocess.run(['nm', '-D', self.bin], stdout=subprocess.PIPE, text=True, check=True).stdout.split('\n'):
                t = ln.split()
                if len(t) >= 2:
                    n = t[-1].split('@')
                    for lib, pre in (('libssh2.so.1', 'libssh2_'), ('libsystemd.so.0', 'sd_'), ('libxml2.so.2', 'xml')):
                        if n[0].startswith(pre):
                            syms.setdefault(lib, []).append((n[0], n[-1] if len(n) > 1 else '', t[-2]))
            for lib, lst in syms.items():
                src, vers = '', {}
                for n, v, ty in lst:
                    src += 'void *%s;\n' % n if ty in 'BbDdVv' else 'int %s(void) { return 0; }\n' % n
                    vers.setdefault(v, []).append(n)
                b = os.path.join(d, lib)
                open(b + '.c', 'w').write(src)
                args = []
                if list(vers) != ['']:
                    open(b + '.map', 'w').write('\n'.join('%s { global: %s; };' % (v, ' '.join(x + ';' for x in ns)[:-1]) for v, ns in vers.items()))
                    args = ['-Wl,--version-script=' + b + '.map']
                subprocess.run(['gcc', '-w', '-shared', '-fPIC', '-Wl,-soname,' + lib] + args + ['-o', b, b + '.c'], check=True, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            b = os.path.join(d, 'libpq.so.5')
            subprocess.run(['gcc', '-shared', '-fPIC', '-Wl,-soname,libpq.so.5', '-o', b, os.path.join(VERIF, 'lib', 'fakepq.c')], check=True, env=env)
            r = subprocess.run([self.bin, 'version'], env=dict(env, LD_LIBRARY_PATH=d, LD_BIND_NOW='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0 or 'ymbol' in r.stdout or 'version information' in r.stdout:
                raise OSError(r.stdout)
            return d
        except (OSError, subprocess.CalledProcessError) as x:
            if os.environ.get('VERIF_VERBOSE'):
                sys.stderr.write('no stubs: %s\n' % x)
            return None

    @staticmethod
    def _sh(cmd, env, cwd=None):
        r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if r.returncode != 0:
            sys.stderr.write(r.stdout[-6000:] + '\nBUILD FAILED: %s\n' % ' '.join(cmd))
            sys.exit(3)
        return r.stdout

    def objects(self):
        return sorted(os.path.join(self.objdir, f) for f in os.listdir(self.objdir) if f.endswith('.c.o') and f != 'main.c.o')

    def compile_flags(self):
        """those meson uses for the sources themselves"""
        for c in json.load(open(os.path.join(self.dir, 'compile_commands.json'))):
            if c['file'].endswith('src/main.c') and '/pgbackrest.p/' in c['command']:
                fl = [a.strip("'\"") for a in c['command'].split() if a.startswith(('-I', "'-I", '-D', "'-D", '-std', '-f', "'-f"))]
                fl = [('-I' + os.path.normpath(os.path.join(c['directory'], f[2:]))) if f.startswith('-I') else f for f in fl]
                return fl + ['-g0', '-w', '-I' + os.path.join(REPO, 'src')]
        return ['-I' + os.path.join(self.dir, 'src'), '-I' + os.path.join(REPO, 'src'), '-I' + self.objdir, '-I/usr/include/postgresql',
                '-I/usr/include/libxml2', '-D_FILE_OFFSET_BITS=64', '-std=gnu11', '-DNDEBUG', '-w']

    LIBS = ['-lbz2', '-lssl', '-lcrypto', '-llz4', '-lsystemd', '-lpq', '-lssh2', '-lxml2', '-lz', '-lzstd', '-lbacktrace', '-lm',
            '-lpthread', '-ldl']

    def link_libs(self):
        """take the link line meson uses so that an added library is picked up"""
        try:
            txt = open(os.path.join(self.dir, 'build.ninja')).read()
            i = txt.index('build src/pgbackrest:')
            j = txt.index('LINK_ARGS =', i)
            line = txt[j + len('LINK_ARGS ='):txt.index('\n', j)].replace('$', '')
            args = [a for a in line.split() if a]
            return args + ['-lm', '-lpthread', '-ldl']
        except ValueError:
            return self.LIBS

    def harness(self, src, extra=(), out=None, opt='-O1'):
        """compile one of our C explorers against the real objects"""
        out = out or os.path.join(SCRATCH, os.path.basename(src).replace('.c', ''))
        env = dict(CLEAN_ENV)
        self._sh(['gcc', opt] + self.compile_flags() + ['-o', out, os.path.join(VERIF, 'lib', src)] + list(extra) + self.objects() +
                 self.link_libs(), env, cwd=self.dir)
        return out


_build = None


def build():
    global _build
    if _build is None:
        _build = Build()
    return _build


def load_known():
    """known findings: lines 'KNOWN property=<id> key=<key> <text>'"""
    res = {}
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('known: property='):
                rest = ln[len('known: property='):]
                pid, rest = rest.split(' ', 1)
                key, text = rest.split(' ', 1)
                assert key.startswith('key=')
                res.setdefault(pid, {})[key[4:]] = text
    return res


class Check:
    """One property's run: counts what was covered, collects violations, writes evidence, sets the exit code."""

    def __init__(self, prop, level='exploration'):
        self.prop = prop
        self.tier = 'thorough' if 'thorough' in sys.argv[1:] else os.environ.get('VERIF_TIER', 'quick')
        if 'quick' in sys.argv[1:]:
            self.tier = 'quick'
        self.thorough = self.tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.cov = {}
        self.samples = []
        self.viol = []
        self.known = load_known().get(prop, {})
        self.known_hit = {}
        self.level = level
        self.assumptions = []
        self.rule = ''
        self.evaluations = 0
        self.distinct = set()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.exhaustive = True
        self.budget = float(os.environ.get('VERIF_BUDGET', '3000' if self.thorough else '600'))
        self.cut = []

    def over(self):
        return time.time() - self.t0 > self.budget

    def phase(self, name):
        if os.environ.get('VERIF_VERBOSE'):
            sys.stderr.write('[%6.1fs] %s evals=%d viol=%d\n' % (time.time() - self.t0, name, self.evaluations, len(self.viol)))

    def note(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                self.cov[k] = self.cov.get(k, 0) + v
            else:
                self.cov[k] = v

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s if isinstance(s, str) else json.dumps(s, sort_keys=True, default=str)[:600])

    def violation(self, msg, replay=None, key=None):
        if key is not None and key in self.known:
            self.known_hit[key] = self.known_hit.get(key, 0) + 1
            return
        if len(self.viol) < 25:
            self.viol.append((msg, replay))
        else:
            self.viol.append((msg[:80], None))

    def merge(self, r):
        """fold a worker result dict(evals=, keys=[...], viol=[(msg, replay[, key])], sample=..., note={...}) into this check"""
        if 'broken' in r:
            self.violation('scenario could not be completed: ' + r['broken'].strip().split('\narg=')[0].strip().split('\n')[-1], r['broken'])
            return
        self.evaluations += r.get('evals', 0)
        self.transitions += r.get('trans', 0)
        self.distinct.update(r.get('keys', ()))
        for v in r.get('viol', ()):
            self.violation(*v)
        for s in r.get('samples', ()):
            self.sample(s)
        self.note(**r.get('note', {}))

    def finish(self):
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        wall = time.time() - self.t0
        cov = dict(self.cov)
        cov.update(states=int(self.states or len(self.distinct)), transitions=int(self.transitions or self.evaluations),
                   traces_validated_against_impl=int(self.traces or self.evaluations), samples=self.samples or ['none'],
                   evaluations=int(self.evaluations), distinct_nontrivial=int(len(self.distinct) or self.states), rule=self.rule,
                   exhaustive=bool(self.exhaustive and not self.cut))
        if self.cut:
            cov['cut'] = self.cut
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, wall_s=round(wall, 2),
                  assumptions=self.assumptions, violations=len(self.viol))
        for i, (m, r) in enumerate(self.viol[:5]):
            path = os.path.join(VERIF, 'evidence', 'replay', '%s-%d.txt' % (self.prop, i + 1))
            with open(path, 'w') as f:
                f.write('property %s violated\n%s\n\n%s\n' % (self.prop, m, r if isinstance(r, str) else json.dumps(r, indent=1, default=str)))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('  ' + m.replace('\n', '\n  ')[:1500])
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        for k, n in sorted(self.known_hit.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, self.known[k]))
        print('%s %s: evaluations=%d distinct=%d states=%d violations=%d wall=%.1fs' % (
            self.prop, self.tier, self.evaluations, len(self.distinct), cov['states'], len(self.viol), wall))
        sys.stdout.flush()
        _cleanup()
        sys.exit(1 if self.viol else 0)


class Skip(Exception):
    pass


UNPRIV = 65534


def drop():
    """workers run (and so everything they start runs) as an unprivileged user owning nothing but scratch files"""
    if os.getuid() == 0:
        try:
            os.setgroups([])
            os.setgid(UNPRIV)
            os.setuid(UNPRIV)
        except OSError:
            pass
    os.umask(0o022)


def _worker_init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    drop()


def _guard(a):
    fn, arg = a
    try:
        return ('ok', fn(arg))
    except Exception:
        return ('exc', traceback.format_exc() + '\narg=%r' % (arg,))


def pmap(fn, args, chunk=1, nproc=None):
    """parallel map (fork pool); yields results in completion order; a harness exception is fatal (exit 3, no verdict)"""
    args = list(args)
    n = min(nproc or NPROC, max(1, len(args)))
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(n, initializer=_worker_init) as pool:
        for st, r in pool.imap_unordered(_guard, [(fn, a) for a in args], chunksize=chunk):
            if st == 'exc':
                # A scenario which could not be driven to its end: on the unchanged tree this never happens, so the behaviour of the
                # code under test changed in a way the scenario relies on. Report it rather than giving no answer.
                sys.stderr.write('SCENARIO FAILED\n' + r + '\n')
                yield dict(broken=r)
                continue
            yield r


def h(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:16]
