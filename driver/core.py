"""Build the instrumented tools, run them under the simulator, search seeds,
minimise, replay, and write evidence."""
import ctypes, fcntl, hashlib, json, multiprocessing, os, random, shutil, signal, struct
import subprocess, sys, tempfile, time, traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VV_REPO', '/repo')
BUILD = os.environ.get('VV_BUILD', os.path.join(VERIF, 'build'))
NAMES = ("EV SWITCH FORCED REGION LOOP CHUNK CRIT BARRIER RACE READ WRITE OPEN CLOSE TRUNC RENAME "
         "MKDIR UNLINK SYNC MUT FERR_READ FERR_WRITE FERR_OPEN FERR_CLOSE FERR_TRUNC FERR_RENAME "
         "FERR_MKDIR FERR_OTHER FSHORT_READ FSHORT_WRITE FENOSPC FEOF KILL TORN MALLOC FMALLOC CLOCK "
         "CLKJUMP SIMNS DEADLOCK SCHEDHASH INIT RBYTES WBYTES EXEC FEXEC MEMFD SHADOWFULL MAXHEAP "
         "STUCK FEINTR HEAL FLIP NFAULT THREADS EXITING").split()
SW_MAX = 65536
LOGSZ = 4096 + SW_MAX * 16 + (6 << 20)
FAULTS = [n for n in NAMES if n.startswith('F') and n not in ('FORCED',)] + ['KILL', 'TORN', 'CLKJUMP', 'HEAL']
MAGIC = 0x53494d4c4f47


class CheckError(Exception):
    """The machinery itself failed: an error exit, never a verdict."""


# ----------------------------------------------------------------- building
def tree_key():
    h = hashlib.sha256()
    files = []
    for top, ds, fs in os.walk(REPO):
        ds[:] = sorted(d for d in ds if d not in ('.git', '_build', 'pytest', 'doc', 'readme-pics', 'test', '__pycache__'))
        for f in fs:
            if f.endswith(('.cpp', '.c', '.h', '.hpp', '.in', '.txt', '.cmake')):
                files.append(os.path.join(top, f))
    sim = os.path.join(VERIF, 'sim')
    files += [os.path.join(sim, f) for f in os.listdir(sim) if os.path.isfile(os.path.join(sim, f))]
    for f in sorted(files):
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fd:
            h.update(fd.read())
    return h.hexdigest()[:16]


def sh(cmd, log, env=None, cwd=None):
    with open(log, 'ab') as lf:
        lf.write((' '.join(cmd) + '\n').encode())
        lf.flush()
        r = subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env, cwd=cwd)
    if r.returncode:
        tail = open(log, 'rb').read()[-3000:].decode('utf8', 'replace')
        raise CheckError('build step failed: %s\n%s' % (' '.join(cmd), tail))


def build():
    """Returns the directory with libsim.so, h5x and the tools."""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_key()
    d = os.path.join(BUILD, key)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, 'ok')):
            os.utime(d)
            return d
        if os.path.isdir(d):
            shutil.rmtree(d)
        old = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD)
                      if os.path.isdir(os.path.join(BUILD, x))), key=os.path.getmtime)
        for x in old[:-3]:
            shutil.rmtree(x, ignore_errors=True)
        os.makedirs(d)
        log = os.path.join(d, 'log')
        sim = os.path.join(VERIF, 'sim')
        env = {k: v for k, v in os.environ.items() if k not in ('CFLAGS', 'CXXFLAGS', 'LDFLAGS', 'CC', 'CXX')}
        env['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
        env.pop('SIMLIB', None)
        sh(['gcc', '-O2', '-g', '-shared', '-fPIC', '-fno-builtin', '-ftls-model=initial-exec',
            '-fvisibility=hidden', '-U_FORTIFY_SOURCE', '-Wl,-z,initfirst', sim + '/libsim.c',
            '-o', d + '/libsim.so', '-ldl', '-lpthread'], log, env)
        for t in ('h5x', 'h5mod'):
            if os.path.exists('%s/%s.c' % (sim, t)):
                sh(['gcc', '-O1', '%s/%s.c' % (sim, t), '-I/usr/include/hdf5/serial', '-o', '%s/%s' % (d, t),
                    '-lhdf5_serial'], log, env)
        sh(['cmake', '-S', REPO, '-B', d + '/b', '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=RelWithDebInfo',
            '-DCMAKE_MODULE_PATH=/opt/vp/cmake', '-DWITH_MANPAGES=FALSE',
            '-DCMAKE_POLICY_VERSION_MINIMUM=3.5', '-DCMAKE_C_COMPILER=' + sim + '/simcc',
            '-DCMAKE_CXX_COMPILER=' + sim + '/simcxx'], log, env)
        env['SIMLIB'] = d
        sh(['ninja', '-C', d + '/b', 'vvflow', 'vvplot', 'vvxtract'], log, env)
        hs = os.path.join(sim, 'tevalsim.cpp')
        if os.path.exists(hs):
            try:
                sh([sim + '/simcxx', '-std=c++11', '-O1', '-fopenmp', '-I' + REPO + '/libvvhd/headers',
                    '-I/usr/include/lua5.2', '-I/usr/include/hdf5/serial', '-c', hs, '-o', d + '/tevalsim.o'], log, env)
                sh([sim + '/simcxx', '-fopenmp', d + '/tevalsim.o', '-o', d + '/tevalsim', '-L' + d + '/b/libvvhd',
                    '-lvvhd', '-Wl,-rpath,' + d + '/b/libvvhd', '-llua5.2', '-lhdf5_serial'], log, env)
            except CheckError:
                pass # only the check that needs it fails
        for t in ('vvflow', 'vvplot', 'vvxtract'):
            os.symlink('b/utils/%s/%s' % (t, t), os.path.join(d, t))
        open(os.path.join(d, 'ok'), 'w').close()
    return d


# ------------------------------------------------------------------ HDF5 view
class H5:
    """What an independent reader finds in a file."""
    __slots__ = ('ok', 'attr', 'dset', 'bad', 'groups')

    def __init__(self):
        self.ok = True
        self.attr = {}
        self.dset = {}
        self.bad = []
        self.groups = set()

    def same(self, o, skip=('time_local',)):
        """None if equal, else the first difference."""
        if self.ok != o.ok:
            return 'one of the files cannot be opened'
        if self.bad or o.bad:
            return 'unreadable objects: %s' % sorted(set(self.bad + o.bad))[:3]
        a = {k: v for k, v in self.attr.items() if k[1] not in skip}
        b = {k: v for k, v in o.attr.items() if k[1] not in skip}
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                return 'attribute %s@%s: %s / %s' % (k[0], k[1], show(a.get(k)), show(b.get(k)))
        for k in sorted(set(self.dset) | set(o.dset)):
            x, y = self.dset.get(k), o.dset.get(k)
            if x != y:
                if x is None or y is None or x[:2] != y[:2]:
                    return 'dataset %s: %s / %s' % (k, x and x[:2], y and y[:2])
                ax, ay = nums(x), nums(y)
                w = max(x[1][1] if len(x[1]) > 1 else 1, 1)
                i = [j for j in range(len(ax)) if ax[j] != ay[j]]
                i = i[0] if i else 0
                return 'dataset %s row %d column %d: %r / %r' % (k, i // w, i % w, ax[i], ay[i])
        return None


def nums(d):
    t, _, b = d
    f = {'f8': 'd', 'f4': 'f', 'i4': 'i', 'u4': 'I', 'i8': 'q', 'u8': 'Q'}.get(t)
    return struct.unpack('<%d%s' % (len(b) // struct.calcsize(f), f), b)


def rows(d):
    n = nums(d)
    c = d[1][1]
    return [n[i * c:(i + 1) * c] for i in range(d[1][0])]


def show(v):
    if v is None:
        return 'absent'
    t, b = v
    try:
        if t == 's':
            return repr(b.decode('utf8', 'replace')[:60])
        if t.startswith('c') and len(b) % 8 == 0 and len(b) >= 16:
            return repr(struct.unpack('<%dd' % (len(b) // 8), b))
        if t == 'c8':
            return '%d/%d' % struct.unpack('<iI', b)
        return repr(nums((t, None, b))[:4])
    except Exception:
        return b.hex()[:40]


class Reader:
    def __init__(self, exe):
        self.exe = exe
        self.p = None

    def read(self, path):
        for _ in range(2):
            if not self.p or self.p.poll() is not None:
                self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                          stderr=subprocess.DEVNULL, env={'PATH': '/usr/bin:/bin'})
            r = H5()
            try:
                self.p.stdin.write(path.encode() + b'\n')
                self.p.stdin.flush()
                while True:
                    ln = self.p.stdout.readline()
                    if not ln:
                        raise EOFError
                    if ln == b'.\n':
                        return r
                    f = ln.decode('utf8', 'surrogateescape').rstrip('\n').split(' ')
                    if f[0] == 'E':
                        r.ok = False
                    elif f[0] == 'A':
                        r.attr[(f[1], ' '.join(f[2:-3]))] = (f[-3], b'' if f[-1] == '-' else bytes.fromhex(f[-1]))
                    elif f[0] == 'D':
                        r.dset[' '.join(f[1:-3])] = (f[-3], tuple(int(x) for x in f[-2].split(',')),
                                                    b'' if f[-1] == '-' else bytes.fromhex(f[-1]))
                    elif f[0] == 'G':
                        r.groups.add(f[1])
                    elif f[0] == 'X':
                        r.bad.append(f[1] + ' ' + f[-1])
            except (EOFError, BrokenPipeError):
                self.close()
        r = H5() # the reader itself dies on this file
        r.ok = False
        r.bad.append('reader died')
        return r

    def close(self):
        if self.p:
            try:
                self.p.kill()
                self.p.wait()
                self.p.stdin.close()
                self.p.stdout.close()
            except Exception:
                pass
        self.p = None


# ------------------------------------------------------------------ execution
class R:
    __slots__ = ('rc', 'out', 'err', 'c', 'trace', 'sw', 'timeout', 'cmd', 'cfg', 'nsw')

    @property
    def fired(self):
        return self.c['NFAULT'] + self.c['KILL'] + self.c['FMALLOC'] + self.c['FSHORT_READ'] + self.c['FSHORT_WRITE']

    @property
    def died(self):
        return self.rc < 0

    def races(self):
        return [l for l in self.trace.split('\n') if l.startswith('!race')]

    def describe(self):
        if self.timeout:
            return 'no end within the time limit'
        return ('killed by signal %d' % -self.rc) if self.rc < 0 else 'exit status %d' % self.rc


def cfgstr(c):
    out = []
    for k, v in c.items():
        if k == 'f':
            out += ['f=' + x for x in v]
        else:
            out.append('%s=%s' % (k, v))
    return ';'.join(out)


def cpu_time(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            x = f.read().rsplit(')', 1)[1].split()
        return (int(x[11]) + int(x[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError, ValueError):
        return 0


class Sim:
    """One worker: a scratch directory, the log, the readers, the statistics."""

    def __init__(self, bdir, root, timeout=60):
        self.b = bdir
        self.root = root
        os.makedirs(root, exist_ok=True)
        self.log = os.path.join(root, 'log')
        self.rd = Reader(os.path.join(bdir, 'h5x'))
        self.timeout = timeout
        self.tot = Counter()
        self.runs = 0
        self.sigs = set()
        self.probe = Counter()
        self.dg = hashlib.sha256()
        self.bin = os.path.join(VERIF, 'sim', 'bin')
        self.hangs = 0
        self.rec = []

    def fresh(self, name='w'):
        """A new empty working directory."""
        d = os.path.join(self.root, name)
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        return d

    def run(self, tool, args, cwd, cfg=None, env=None, timeout=None):
        cfg = dict(cfg or {})
        fd = os.open(self.log, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
        os.ftruncate(fd, LOGSZ)
        os.close(fd)
        swf = None
        if 'swlist' in cfg:
            swl = cfg.pop('swlist')
            swf = os.path.join(self.root, 'sw')
            with open(swf, 'wb') as f:
                f.write(b''.join(struct.pack('<QQ', a, b) for a, b in swl))
            cfg['sw'] = swf
        e = {'PATH': self.bin + ':/usr/bin:/bin', 'HOME': '/nonexistent', 'LC_ALL': 'C', 'TZ': 'UTC',
             'SIMCFG': cfgstr(cfg), 'SIMLOG': self.log}
        if env:
            e.update(env)
        r = R()
        r.cmd = [tool] + list(args)
        r.cfg = cfg
        r.timeout = False
        exe = os.path.join(self.b, tool)
        p = subprocess.Popen([exe] + list(args), cwd=cwd, env=e, stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        # The limit is on processor time: a busy or suspended machine is no reason for a verdict.
        limit = timeout or self.timeout
        for i in range(5 * limit + 30):
            try:
                r.out, r.err = p.communicate(timeout=1)
                break
            except subprocess.TimeoutExpired:
                if cpu_time(p.pid) > limit:
                    r.timeout = True
                    break
        else:
            r.timeout = True
        if r.timeout:
            p.kill()
            r.out, r.err = p.communicate()
            self.hangs += 1
        r.rc = p.returncode
        with open(self.log, 'rb') as f:
            head = f.read(4096)
            v = struct.unpack_from('<99Q', head, 0)
            if v[0] != MAGIC:
                raise CheckError('the simulator did not start in %s (rc %s): %r' % (tool, r.rc, r.err[:500]))
            r.c = Counter({n: v[1 + i] for i, n in enumerate(NAMES) if v[1 + i]})
            r.nsw, tl = v[97], v[98]
            f.seek(4096)
            r.sw = f.read(16 * min(r.nsw, SW_MAX))
            f.seek(4096 + SW_MAX * 16)
            r.trace = f.read(tl).decode('utf8', 'replace')
        for k, n in r.c.items():
            if k not in ('SCHEDHASH', 'THREADS', 'INIT', 'EXITING'):
                self.tot[k] += n
        self.runs += 1
        if r.timeout: # where a hang was cut is not part of the execution
            x = repr((tool, args, 'hang'))
        else:
            x = repr((tool, args, r.rc, r.out, sorted(r.c.items()))) + r.trace
        self.dg.update(x.encode())
        self.rec.append(x[:1500])
        return r

    def switches(self, r):
        return [struct.unpack_from('<QQ', r.sw, 16 * i) for i in range(len(r.sw) // 16)]

    def h5(self, path):
        r = self.rd.read(path)
        x = repr((r.ok, sorted((k, v) for k, v in r.dset.items())))
        self.dg.update(x.encode())
        self.rec.append(path + ' ' + hashlib.sha256(x.encode()).hexdigest())
        return r

    def tree(self, d):
        """{relative path: bytes} of every regular file."""
        out = {}
        for top, _, fs in os.walk(d):
            for f in fs:
                p = os.path.join(top, f)
                with open(p, 'rb') as fd:
                    out[os.path.relpath(p, d)] = fd.read()
        return out

    def h5tree(self, d):
        out = {}
        for top, _, fs in os.walk(d):
            for f in sorted(fs):
                if f.endswith('.h5'):
                    p = os.path.join(top, f)
                    out[os.path.relpath(p, d)] = self.h5(p)
        return out

    def sig(self, *a):
        self.sigs.add(hashlib.sha256(repr(a).encode()).hexdigest()[:16])

    def digest(self):
        return self.dg.hexdigest()

    def close(self):
        self.rd.close()
        shutil.rmtree(self.root, ignore_errors=True)


def viol(kind, msg, **kw):
    d = {'kind': kind, 'msg': msg}
    d.update(kw)
    return d


def crash_kind(r):
    """A process that ends by a signal other than an injected kill, or the simulator's own verdicts."""
    if r.timeout:
        return 'hang'
    if r.c['DEADLOCK']:
        return 'deadlock'
    if r.c['STUCK']:
        return 'livelock'
    if r.rc == -signal.SIGKILL and r.c['KILL']:
        return None
    if r.rc < 0:
        return 'crash'
    return None


# ------------------------------------------------------------------- searching
def no_aslr():
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass


def scratch_root():
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()
    return tempfile.mkdtemp(prefix='vvsim.', dir=base)


def one(prop, case, sim):
    sim.dg = hashlib.sha256()
    sim.rec = []
    vs = prop.run(case, sim) or []
    return vs, sim.digest()


def worker(w, nw, prop, seed, tier, lo, hi, deadline, bdir, root, stop, q):
    try:
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        no_aslr()
        cpus = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, {cpus[w % len(cpus)]})
        sim = Sim(bdir, os.path.join(root, 'w%d' % w), prop.timeout)
        found, samples, n, rechecked, lastdig = [], [], 0, 0, {}
        digs = hashlib.sha256()
        for i in range(lo + w, hi, nw):
            if time.time() > deadline or stop.is_set():
                break
            case = prop.gen(random.Random('%s/%d/%d' % (prop.id, seed, i)), i, tier)
            hangs = sim.hangs
            vs, dg = one(prop, case, sim)
            digs.update(dg.encode())
            n += 1
            if len(samples) < 1:
                samples.append((i, case))
            if prop.recheck and (i // nw) % prop.recheck == 0 and not found and sim.hangs == hangs:
                rec = sim.rec
                vs2, dg2 = one(prop, case, sim)
                rechecked += 1
                if dg2 != dg or vs2 != vs:
                    x = [(a, b) for a, b in zip(rec, sim.rec) if a != b]
                    raise CheckError('seed %d is not repeatable: the simulator lost control: %s' % (i, vs2 or x[:1]))
            if vs:
                for v in vs:
                    if v['kind'] in prop.known:
                        sim.probe['known finding met: ' + v['kind']] += 1
                    else:
                        found.append((i, case, v, dg))
                if len(found) >= 2:
                    stop.set()
                    break
                if time.time() > deadline - 5:
                    break
        q.put(('ok', w, n, found, samples, sim.tot, sim.runs, sim.sigs, sim.probe, rechecked, digs.hexdigest()))
        sim.close()
    except BaseException:
        q.put(('err', w, traceback.format_exc()))


def explore(prop, seed, tier, lo, hi, budget, bdir, root, nw=None):
    nw = nw or min(8, len(os.sched_getaffinity(0)))
    ctx = multiprocessing.get_context('fork')
    q = ctx.Queue()
    stop = ctx.Event()
    deadline = time.time() + budget
    ps = [ctx.Process(target=worker, args=(w, nw, prop, seed, tier, lo, hi, deadline, bdir, root, stop, q))
          for w in range(nw)]
    for p in ps:
        p.start()
    res = {'n': 0, 'found': [], 'samples': [], 'tot': Counter(), 'runs': 0, 'sigs': set(),
           'probe': Counter(), 'rechecked': 0, 'digs': {}}
    errs = []
    for _ in ps:
        try:
            m = q.get(timeout=budget + 600)
        except Exception:
            errs.append('a worker gave no answer')
            break
        if m[0] == 'err':
            errs.append(m[2])
            stop.set()
            continue
        _, w, n, found, samples, tot, runs, sigs, probe, rech, digs = m
        res['n'] += n
        res['found'] += found
        res['samples'] += samples
        res['tot'] += tot
        res['runs'] += runs
        res['sigs'] |= sigs
        res['probe'] += probe
        res['rechecked'] += rech
        res['digs'][w] = digs
    for p in ps:
        p.join(5)
        if p.is_alive():
            p.kill()
    if errs and not res['found']:
        raise CheckError(errs[0])
    res['found'].sort(key=lambda x: (x[0], x[2]['kind']))
    return res


# ------------------------------------------------------------ minimise, replay
def minimise(prop, case, kind, sim, budget, v=None):
    end = time.time() + budget
    tried = 0
    try:
        fixed = prop.pin(case, v) if v else None
        if fixed is not None:
            vs, _ = one(prop, fixed, sim)
            if any(x['kind'] == kind for x in vs):
                case = fixed
    except CheckError:
        raise
    except Exception:
        pass
    progress = True
    while progress and time.time() < end:
        progress = False
        for cand in prop.shrink(case):
            if time.time() > end:
                break
            tried += 1
            try:
                vs, _ = one(prop, cand, sim)
            except CheckError:
                raise
            except Exception:
                continue
            if any(v['kind'] == kind for v in vs):
                case = cand
                progress = True
                break
    return case, tried


def ddmin(xs):
    """Candidate sublists, large cuts first."""
    n = len(xs)
    k = 2
    while n and k <= 2 * n:
        sz = max(1, n // k)
        for a in range(0, n, sz):
            yield xs[:a] + xs[a + sz:]
        if sz == 1:
            break
        k *= 2


def replay_file(path):
    """Run a replay file in this process; returns (reproduced, text)."""
    from . import props
    with open(path) as f:
        rp = json.load(f)
    prop = props.get(rp['property'])
    bdir = build()
    root = scratch_root()
    try:
        no_aslr()
        sim = Sim(bdir, os.path.join(root, 'r'), prop.timeout)
        vs, dg = one(prop, rp['case'], sim)
        sim.close()
    finally:
        shutil.rmtree(root, ignore_errors=True)
    for v in vs:
        if v['kind'] == rp['violation']['kind']:
            same = dg == rp['digest']
            return same, 'reproduced%s: %s: %s' % ('' if same else ' (but the execution differs)', v['kind'], v['msg'])
    return False, 'not reproduced: %s' % (vs or 'no violation')


def confirm(path):
    """The replay must reproduce in a fresh process."""
    r = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), '--replay', path],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ))
    return r.returncode == 1, r.stdout.decode('utf8', 'replace').strip()


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def check(pid, tier, seed):
    from . import props
    t0 = time.time()
    prop = props.get(pid)
    bdir = build()
    no_aslr()
    tb = time.time() - t0
    root = scratch_root()
    rc = 0
    nviol = 0
    try:
        known = [k for k in known_findings() if k['property'] == pid and k['status'] == 'open']
        kf = []
        if known:
            ks = Sim(bdir, os.path.join(root, 'k'), prop.timeout)
            for k in known:
                vs, _ = one(prop, k['case'], ks)
                if any(v['kind'] == k['kind'] for v in vs):
                    print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
                    kf.append(k['id'])
            ks.close()
        prop.known = {k['kind'] for k in known}
        n, budget = prop.size(tier)
        res = explore(prop, seed, tier, 0, n, budget, bdir, root)
        bykind = {}
        for i, case, v, dg in res['found']:
            bykind.setdefault(v['kind'], (i, case, v, dg))
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(pid + '-'):
                os.remove(os.path.join(rdir, f))
        unrepeatable = []
        for kind, (i, case, v, dg) in list(bykind.items())[:2]:
            sim = Sim(bdir, os.path.join(root, 'm'), prop.timeout)
            small, tried = minimise(prop, case, kind, sim, 60 if tier == 'quick' else 300, v)
            vs, dg = one(prop, small, sim)
            vs = [x for x in vs if x['kind'] == kind]
            sim.close()
            path = os.path.join(rdir, '%s-%s-%d.json' % (pid, kind, i))
            if not vs:
                unrepeatable.append('%s (seed %d): %s' % (kind, i, v['msg']))
                continue
            with open(path, 'w') as f:
                json.dump({'property': pid, 'seed': seed, 'index': i, 'violation': {k: x for k, x in vs[0].items() if k in ('kind', 'msg')}, 'digest': dg,
                           'minimised_in': tried, 'case': small}, f, indent=1)
            ok, text = confirm(path)
            if not ok:
                unrepeatable.append('%s (seed %d): %s' % (kind, i, text))
                continue
            nviol += 1
            print('%s: %s' % (kind, vs[0]['msg']))
            print('VIOLATION property=%s replay=%s' % (pid, path))
            rc = 1
        if unrepeatable and not rc:
            raise CheckError('a violation did not repeat exactly: ' + '; '.join(unrepeatable))
        wall = time.time() - t0
        search = max(wall - tb, 0.01)
        cov = {
            'evaluations': res['n'],
            'distinct_nontrivial': len(res['sigs']),
            'rule': prop.rule,
            'samples': [{'index': i, 'case': prop.sample(c)} for i, c in res['samples'][:2]],
            'simulated_process_runs': res['runs'],
            'seeds_per_hour': int(res['n'] * 3600 / search),
            'runs_per_hour': int(res['runs'] * 3600 / search),
            'simulated_seconds': round(res['tot']['SIMNS'] / 1e9, 3),
            'faults_injected': {k: res['tot'][k] for k in FAULTS if res['tot'][k]},
            'schedule': {k: res['tot'][k] for k in ('EV', 'SWITCH', 'FORCED', 'REGION', 'LOOP', 'CHUNK', 'CRIT', 'BARRIER')},
            'io': {k: res['tot'][k] for k in ('OPEN', 'READ', 'WRITE', 'CLOSE', 'TRUNC', 'RENAME', 'MKDIR', 'MUT', 'CLOCK', 'MALLOC', 'EXEC', 'MEMFD')},
            'probes': dict(sorted(res['probe'].items())),
            'repeatability_rechecks': res['rechecked'],
            'real_components': prop.real,
            'stubbed_components': prop.stub,
            'build_s': round(tb, 1),
            'known_findings_reproduced': kf,
        }
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': prop.level, 'coverage': cov,
              'assumptions': prop.assumptions, 'wall_s': round(wall, 2), 'violations': nviol}
        missing = [p for p in prop.must if not res['probe'][p]] if not rc else []
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if missing:
            print('note: these situations were never reached: %s' % ', '.join(missing))
        print('%s %s seed=%d: %d cases, %d process runs, %d distinct, %.1f s%s' %
              (pid, tier, seed, res['n'], res['runs'], len(res['sigs']), wall, '' if not rc else ' VIOLATED'))
        if not rc and res['n'] < min(prop.least, n):
            raise CheckError('only %d cases ran' % res['n'])
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return rc


class Prop:
    id = ''
    level = 'exploration'
    timeout = 60
    recheck = 12
    known = frozenset()
    least = 3
    must = ()
    quick = (200, 50)
    thorough = (100000, 600)
    rule = ''
    real = ['vvflow, vvplot or vvxtract: the whole program built from /repo, with HDF5, Lua, BLAS/LAPACK, libarchive and libstdc++ as installed']
    stub = ['libgomp (thread scheduling)', 'the clock', 'malloc', 'the system-call layer under open/read/write/... (real files in a scratch directory behind it)']
    assumptions = ['memory accesses made inside BLAS, HDF5 and Lua are not scheduling points (calls into Lua are)',
                   'the memory model is sequentially consistent: reordering by the hardware is not simulated, data races are reported instead']

    def size(self, tier):
        n, b = self.quick if tier == 'quick' else self.thorough
        e = os.environ.get('VV_BUDGET')
        if e:
            b = float(e)
        e = os.environ.get('VV_CASES')
        if e:
            n = int(e)
        return n, b

    def sample(self, case):
        return case

    def pin(self, case, v):
        """The case with its random choices written out (an explicit schedule), or None."""
        return None

    def shrink(self, case):
        return iter(())
