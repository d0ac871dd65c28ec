"""What the tools make of results: plots and extracts are complete and exact, or an error."""
import copy, io, math, os, re, struct, tarfile
from .. import scen
from ..core import CheckError, Prop, viol, crash_kind, ddmin, rows, nums
from . import base, snap
from .faults import Faulty, RERR, OERR, WERR, spot
from .record import snapshots, frac, numeric, cfg, proc, value
from .sched import plot_args, tar_entries


# ------------------------------------------------------------------------ P14
def handed(b):
    """What gnuplot was handed: (script lines, data in order of appearance), from the output of the stand-in."""
    if not b.startswith(b'GNUPLOT\n') or not b.endswith(b'END\n'):
        return None
    parts = re.split(rb'\n==(/dev/fd/\d+) (\d+)\n', b[8:-4])
    data = {parts[i]: bytes.fromhex(parts[i + 2].decode().replace('\n', '').replace(' ', '')) for i in range(1, len(parts), 3)}
    if any(len(data[parts[i]]) != int(parts[i + 1]) for i in range(1, len(parts), 3)):
        return None
    order = []
    for n in re.findall(rb'/dev/fd/\d+', parts[0]):
        if n not in order:
            order.append(n)
    s = parts[0]
    for i, n in sorted(enumerate(order), key=lambda x: -len(x[1])):
        s = s.replace(n, b'@%d' % i)
    li = s.split(b'\n')
    i = li.index(b'# Generated by vvplot:')
    return li[:i] + li[i + 2:], [data.get(n) for n in order]


def floats(b):
    return struct.unpack('<%df' % (len(b) // 4), b[:len(b) // 4 * 4])


def alike(x, y):
    """Two members are equal up to the rounding of their coordinates."""
    if x == y:
        return True
    if x is None or y is None or len(x) != len(y) or len(x) % 4:
        return False
    return all(a == b or a != a and b != b or abs(a - b) <= 1e-4 * (1 + abs(a)) for a, b in zip(floats(x), floats(y)))


def f32(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


def grid(b):
    """(x coordinates, y coordinates, rows of values) of a stored field, or None."""
    f = floats(b)
    n = int(f[0]) if f and f[0] == f[0] and 1 < f[0] < 1e6 else 0
    if not n or len(f) % (n + 1):
        return None
    r = [f[k:k + n + 1] for k in range(0, len(f), n + 1)]
    return r[0][1:], [q[0] for q in r[1:]], [q[1:] for q in r[1:]]


def crossings(g, lo, hi, dv, cuts=()):
    """Where isolines cross the edges of the mesh, in cells: (points that must be there, points that may be)."""
    xs, ys, z = g
    levels = []
    v = lo
    while v <= hi:
        levels.append(f32(v))
        v += dv
    for v in (lo - dv, v):
        levels.append(f32(v))
    must, may = set(), set()
    inner = levels[1:-3]
    for j in range(len(ys) - 1):
        for i in range(len(xs) - 1):
            a, b = (sum(s[2] for s in cuts if s[1] == j and s[0] >= k) for k in (i, i + 1))
            q = (z[j][i] + a, z[j + 1][i], z[j + 1][i + 1], z[j][i + 1] + b, z[j][i] + b) # below the sink itself there is no jump
            if any(a != a or abs(a) == math.inf for a in q):
                continue
            e = ((q[0], q[1], i, j, 0, 1), (q[1], q[2], i, j + 1, 1, 0), (q[3], q[2], i + 1, j, 0, 1), (q[4], q[3], i, j, 1, 0))
            a, b = min(q), max(q)
            for c in levels:
                if not a <= c <= b:
                    continue
                for z0, z1, x, y, dx, dy in e:
                    if min(z0, z1) <= c <= max(z0, z1) and z0 != z1:
                        t = (c - z0) / (z1 - z0)
                        pt = (x + dx * t, y + dy * t)
                        may.add(pt)
                        # well away from the corners, where rounding does not decide
                        if q[0] == q[4] and c in inner and min(abs(u - c) for u in q) > 1e-4 * (b - a) and abs(z1 - z0) > 1e-4 * (b - a) + 1e-5 * (abs(a) + abs(b)):
                            must.add(pt)
    return must, may


class Near:
    """Points to be found up to a distance (in cells)."""
    def __init__(self, pts, d=2e-3):
        self.d = d
        self.h = {}
        for p in pts:
            self.h.setdefault((int(p[0] / d), int(p[1] / d)), []).append(p)

    def __contains__(self, p):
        a, b = int(p[0] / self.d), int(p[1] / self.d)
        return any(abs(q[0] - p[0]) <= self.d and abs(q[1] - p[1]) <= self.d for i in (-1, 0, 1) for j in (-1, 0, 1) for q in self.h.get((a + i, b + j), ()))


STAT = None


class Flow:
    """The flow of a snapshot, by direct summation, and how far from it the approximations may be."""
    def __init__(self, s, x, mult):
        ns = sorted((k for k in x.dset if re.fullmatch(r'/body\d+', k)), key=lambda k: int(k[5:]))
        t = float(frac(x.attr[('/', 'time')]))
        self.inf = value(s['inf_vx'], t), value(s['inf_vy'], t)
        self.mult = mult
        vort = [v[:3] for v in rows(x.dset['/vort'])] if '/vort' in x.dset else []
        self.known = len(vort) < 700 and not s.get('extra')
        self.g, self.q, self.walls, self.moving = [], [], [], []
        self.sinks = rows(x.dset['/source']) if '/source' in x.dset else []
        self.first = (0, 0)
        for k in ns:
            p = rows(x.dset[k])
            v = numeric(*x.attr[(k, 'speed_slae')])
            h, c = numeric(*x.attr[(k, 'holder_position')]), numeric(*x.attr[(k, 'delta_position')])
            ax = h[0] + c[0], h[1] + c[1]
            cx, cy = numeric(*x.attr[(k, 'cofm')])[:2] if (k, 'cofm') in x.attr else ax
            if k == ns[0]:
                self.first = v[:2]
            for m, n in zip(p, p[1:] + p[:1]):
                dx, dy = n[0] - m[0], n[1] - m[1]
                r = (m[0] + n[0]) / 2, (m[1] + n[1]) / 2
                self.walls.append((r[0], r[1], math.hypot(dx, dy)))
                vort.append((r[0], r[1], m[2]))
                if any(v):
                    ux, uy = v[0] - v[2] * (r[1] - ax[1]), v[1] + v[2] * (r[0] - ax[0])
                    self.moving.append((r[0], r[1], -(ux * dx + uy * dy), uy * dx - ux * dy, cx, cy))
        self.vort = [v for v in vort if v[2]]
        self.dl = max([w[2] for w in self.walls], default=0)
        # the size of each vortex: the distance to its second neighbour, or of the wall
        self.eps = []
        for v in self.vort if self.known else ():
            li = sorted((u[0] - v[0]) ** 2 + (u[1] - v[1]) ** 2 for u in self.vort)[1:3]
            self.eps.append(max(2 * li[-1] if li else 0, self.dl ** 2))

    def at(self, p, psi):
        """(streamfunction up to a constant, error) or (velocity, error); None close to a wall or to a sink."""
        if any(math.hypot(p[0] - x, p[1] - y) < 3 * l for x, y, l in self.walls) or any(math.hypot(p[0] - v[0], p[1] - v[1]) < 0.5 for v in self.sinks):
            return None
        e = 0
        if psi:
            if self.sinks:
                return None # of many values
            r = self.inf[0] * -p[1] + self.inf[1] * p[0]
            r = -r
            for (x, y, g), h in zip(self.vort, self.eps):
                d2 = (p[0] - x) ** 2 + (p[1] - y) ** 2 or 1e-300
                r -= g / (4 * math.pi) * math.log(d2)
                e += abs(g) / (4 * math.pi) * (0.05 + math.log(1 + self.mult ** 2 * h / d2))
            for x, y, g, q, cx, cy in self.moving:
                d2 = (p[0] - x) ** 2 + (p[1] - y) ** 2
                r -= g / (4 * math.pi) * math.log(d2)
                ax, ay, bx, by = x - p[0], y - p[1], cx - p[0], cy - p[1]
                r -= q / (2 * math.pi) * math.atan2(ax * by - ay * bx, ax * bx + ay * by)
                e += 0.02 * (abs(g) + abs(q)) * self.dl / math.sqrt(d2)
            return r, e
        u, v = self.inf
        for (x, y, g), h in zip(self.vort, self.eps):
            dx, dy = p[0] - x, p[1] - y
            d2 = dx * dx + dy * dy or 1e-300
            g /= 2 * math.pi
            u -= g * dy / d2
            v += g * dx / d2
            e += abs(g) / math.sqrt(d2) * (0.1 + h / (d2 + h))
        for x, y, q in self.sinks:
            dx, dy = p[0] - x, p[1] - y
            d2 = dx * dx + dy * dy
            q /= 2 * math.pi
            u += q * dx / d2
            v += q * dy / d2
            e += abs(q) / d2 ** 1.5 # how wide it is depends on the step
        for x, y, g, q, cx, cy in self.moving:
            dx, dy = p[0] - x, p[1] - y
            d2 = dx * dx + dy * dy
            u += (q * dx - g * dy) / d2 / (2 * math.pi)
            v += (q * dy + g * dx) / d2 / (2 * math.pi)
            e += (abs(g) + abs(q)) * self.dl / d2
        return u, v, e


def quoted(s):
    """Names of data in a plot command, in order ('' repeats the one before)."""
    return [n.replace(b"''", b"'") for n in re.findall(rb"(?:plot \\\n|, \\\n) +'((?:[^']|'')*)'", s)]


class P14(Faulty):
    id = 'P14'
    quick = (500, 55)
    thorough = (10000000, 700)
    timeout = 20
    must = ('compared', 'failed and said so', 'read failed', 'write failed', 'data for gnuplot could not be stored', 'disk full', 'short transfers made no difference', 'killed',
            'content checked', 'bodies of one label', 'cut archive', 'cut snapshot', 'cut field', 'archive plotted', 'streamlines redone', 'field loaded', 'an older target', 'gnuplot failed', 'into a directory', 'out of memory')
    rule = ('a case is one snapshot, one request and one way of plotting it (to an archive, to an image, from an archive, with a loaded field), undisturbed and under several faults, '
            'deaths, early ends of its input and older targets; distinct by request, way and fault; only fired faults count')

    def gen(self, r, i, tier):
        frames = r.random() < 0.25
        s = scen.scene(r, steps=r.choice([0, 1, 2, 3]), save=1, neg_time=False, chamber=False, moving=frames or None, bodies=r.choice([1, 2, 3]) if frames else None)
        a = plot_args(r, len(s['bodies']))
        if frames: # of several bodies
            for o in ('--ref-S', '--ref-P'):
                if o in a:
                    del a[a.index(o):a.index(o) + 2]
                a += [o, r.choice('fbb')]
            if not {'-P', '--P'} & set(a) and r.random() < 0.5:
                a.append('-P')
        way = r.choice(['tar', 'png', 'retar', 'strip', 'field', 'dir'])
        if way == 'strip' and not any(x in ('-S', '--S') for x in a):
            a = ['-S'] + a
        if way == 'field':
            a = [x for x in a if x not in ('-P', '-G', '-S')]
            for o in ('--S', '--P', '--G', '--Ux', '--Uy'):
                if o in a:
                    del a[a.index(o):a.index(o) + 2]
            a = [x for x in a if not x.startswith('-U')]
            a.insert(0, r.choice(['-S', '-Ux', '-Uy']))
        k = r.random()
        if k < 0.2:
            for b in s['bodies']:
                b['label'] = r.choice(['wing', 'wing', 'wing 2', 'ing', 'win', 'body00', 'body01', '%s'])
        elif k < 0.25 and s['bodies']:
            s['bodies'][0]['label'] = r.choice(['map', 'plot', 'with', 'binary', 'set', "it's", 'plot.gp', 'body_holders', 'streamlines', 'vortex_list', 'map_pressure', 'a/b', 'x" y', "'", '$1', 'крыло'])
        if r.random() < 0.3:
            a[a.index('--res-hi') + 1] = a[a.index('--res-lo') + 1] = str(r.choice([64, 90]))
        fs = []
        for _ in range(6 if tier == 'quick' else 12):
            k = r.random()
            if k < 0.3:
                fs.append({'rule': ['WWXCTYD', None, r.choice(['', '', '+']), 'e', r.choice(WERR), spot(r)]})
            elif k < 0.5:
                fs.append({'rule': ['OR', None, r.choice(['', '+']), 'e', r.choice(RERR + OERR), spot(r)]})
            elif k < 0.55:
                fs.append({'rule': ['E', None, '', 'e', 2, spot(r)]})
            elif k < 0.62:
                fs.append({'full': r.random(), 'heal': 0})
            elif k < 0.68:
                fs.append({'short': r.choice([50, 500, 1000]), 'seed': r.randrange(1 << 30)})
            elif k < 0.74:
                fs.append({'malloc': spot(r), 'sticky': r.random() < 0.4})
            elif k < 0.84:
                fs.append({'cut': [r.random(), r.choice([r.random(), r.random(), r.random() ** 4, 'block'])]})
            elif k < 0.88:
                fs.append({'gnuplot': 1})
            elif k < 0.94:
                fs.append({'old': r.choice(['long', 'short', 'dir'])})
            else:
                fs.append({'kill': r.random()})
        return {'scene': s, 'plot': a, 'way': way, 'faults': fs}

    def prepare(self, case, sim):
        """The directory and the command; None when there is nothing to plot."""
        s = case['scene']
        d = sim.fresh('prep')
        f = base.prepare(sim, d, s)
        r = sim.run('vvflow', [f], d, base.REF, timeout=10)
        li = sorted(os.listdir(d + '/results_c')) if os.path.isdir(d + '/results_c') else []
        if r.rc or not li:
            sim.probe['no snapshot'] += 1
            return None
        e = sim.fresh('plot')
        os.rename(d + '/results_c/' + li[-1], e + '/x.h5')
        a = case['plot']
        way = case['way']
        if way in ('tar', 'png', 'dir'):
            if way == 'dir':
                os.mkdir(e + '/o.d')
            return e, a + (['--tar', 'x.h5', 'out.tar'] if way == 'tar' else ['x.h5', 'out.png'] if way == 'png' else ['--tar', 'x.h5', 'o.d'])
        r = sim.run('vvplot', a + ['--tar', 'x.h5', 'a.tar'], e, base.REF)
        t = tar_entries(e + '/a.tar') if r.rc == 0 else None
        if not t:
            sim.probe['reference: ' + base.brief(r)[:40]] += 1
            return None
        if way == 'retar':
            return e, ['a.tar', 'out.png']
        if way == 'strip':
            if 'streamlines' not in t:
                return None
            with tarfile.open(e + '/a.tar') as src, tarfile.open(e + '/b.tar', 'w', format=tarfile.PAX_FORMAT) as dst:
                for m in src.getmembers():
                    if m.name != 'streamlines':
                        dst.addfile(m, io.BytesIO(t[m.name]))
            os.unlink(e + '/a.tar')
            return e, (['--S', a[a.index('--S') + 1]] if '--S' in a else []) + ['b.tar', 'out.png']
        n = 'map_streamfunction' if '-S' in a else 'map_velocity_' + ('x' if '-Ux' in a else 'y')
        if n not in t:
            return None
        with open(e + '/f.bin', 'wb') as g:
            g.write(t[n])
        os.unlink(e + '/a.tar')
        return e, a + ['--load-field', 'f.bin', '--tar', 'x.h5', 'out.tar']

    def target(self, d):
        for n in ('out.tar', 'out.png', 'o.d/x.tar'):
            if os.path.exists(os.path.join(d, n)):
                with open(os.path.join(d, n), 'rb') as f:
                    return f.read()
        return None

    def run(self, case, sim):
        u = self.prepare(case, sim)
        if not u:
            return []
        d, args = u
        w = base.copy_to(sim, d, 'w')
        ref = sim.run('vvplot', args, w, dict(base.REF, trace=1, sites=1))
        if ref.rc:
            k = base.fault_kind(ref)
            if case['way'] in ('retar', 'strip', 'field'):
                return [viol(k or 'refused', '%s: %s' % (' '.join(args), base.brief(ref)))]
            sim.probe['reference: ' + base.brief(ref)[:40]] += 1
            return []
        want = self.target(w)
        x = self.same_plot(case, sim, d, args, want)
        if x:
            return [viol('other', x)]
        sim.probe['compared'] += 1
        sim.sig(case['plot'], case['way'], case['scene'])
        ev = base.events(ref)
        for f in case['faults']:
            v = self.disturbed(case, sim, d, args, ref, want, ev, f)
            if v:
                return [v]
        return []

    def same_plot(self, case, sim, d, args, want):
        """A plot is the same whichever way it is made."""
        way = case['way']
        if want is None:
            return 'exit status 0, no target'
        if way in ('tar', 'dir'):
            if not want or 'plot.gp' not in (self.entries(want) or {}):
                return 'exit status 0, not an archive'
            if way == 'dir':
                sim.probe['into a directory'] += 1
            x = sim.h5(os.path.join(d, 'x.h5'))
            v = self.content(case, x, self.entries(want)) or self.fields(case, sim, d, x, self.entries(want))
            if not v:
                sim.probe['content checked'] += 1
                li = [b.get('label') for b in case['scene']['bodies']]
                if any(li.count(k) > 1 for k in li if k):
                    sim.probe['bodies of one label'] += 1
            return v
        if way == 'png' or way in ('retar', 'strip'):
            g = handed(want)
            if g is None:
                return 'gnuplot was handed incomplete data'
            if way == 'png':
                w = base.copy_to(sim, d, 'x')
                r = sim.run('vvplot', case['plot'] + ['--tar', 'x.h5', 'out.tar'], w, base.REF)
                t = self.entries(self.target(w) or b'')
                if r.rc or not t or 'plot.gp' not in t:
                    return 'an image can be made, an archive cannot: %s' % base.brief(r)
                x = sim.h5(os.path.join(d, 'x.h5'))
                return self.given(case, g, t) or self.content(case, x, t) or self.fields(case, sim, d, x, t)
            w = base.copy_to(sim, d, 'x')
            r = sim.run('vvplot', case['plot'] + ['x.h5', 'out.png'], w, base.REF)
            h = handed(self.target(w) or b'')
            if r.rc or h is None:
                return 'an archive can be plotted, the snapshot cannot: %s' % base.brief(r)
            if g[0] != h[0]:
                return 'the script from the archive is another: %s' % [(a, b) for a, b in zip(g[0] + [b''] * 9, h[0] + [b''] * 9) if a != b][:1]
            sim.probe['archive plotted' if way == 'retar' else 'streamlines redone'] += 1
            if way == 'strip' and case['scene']['sink']:
                return None # the discontinuities are not in the archive
            for i, (a, b) in enumerate(zip(g[1], h[1])):
                if not (a == b if way == 'retar' else alike(a, b)):
                    return 'data @%d from the archive (%s bytes) differ from those from the snapshot (%s)' % (i, a and len(a), b and len(b))
            return None
        # a loaded field
        w = base.copy_to(sim, d, 'x')
        r = sim.run('vvplot', case['plot'] + ['--tar', 'x.h5', 'out.tar'], w, base.REF)
        a, b = self.entries(want), self.entries(self.target(w))
        if r.rc or sorted(a) != sorted(b):
            return 'with a loaded field: other members: %s' % sorted(set(a) ^ set(b))
        sim.probe['field loaded'] += 1
        for k in a:
            if k != 'plot.gp' and not alike(a[k], b[k]) and not (k == 'streamlines' and case['scene']['sink']):
                return 'with the field loaded from a file %s differs' % k
        return None

    def fields(self, case, sim, d, x, t):
        """The maps are the flow that the snapshot tells of, summed here one by one."""
        a = case['plot']
        val = lambda o, d: a[a.index(o) + 1] if o in a else d
        maps = [k for k in ('map_streamfunction', 'map_velocity_x', 'map_velocity_y', 'map_pressure') if k in t]
        if not maps:
            return None
        f = Flow(case['scene'], x, float(val('--eps', 2)))
        if not f.known:
            return None
        ref = {'o': (0, 0), 'f': f.inf, 'b': f.first}
        if 'map_pressure' in maps and val('--ref-P', 's') != 's':
            w = base.copy_to(sim, d, 'x')
            k = [q for n, q in enumerate(a) if q != '--ref-P' and not (n and a[n - 1] == '--ref-P')]
            r = sim.run('vvplot', k + ['--ref-P', 's', '--tar', 'x.h5', 'out.tar'], w, base.REF)
            u = self.entries(self.target(w) or b'')
            if r.rc or 'map_pressure' not in (u or {}):
                return 'no pressure in another frame: %s' % base.brief(r)
            u = grid(u['map_pressure'])
        for k in maps:
            g = grid(t[k])
            fr = ref.get(val('--ref-P' if k == 'map_pressure' else '--ref-S', 's' if k == 'map_pressure' else 'o'))
            if fr is None:
                continue
            n = len(g[0]) * len(g[1])
            zero = None
            for q in range(0, n, max(1, n // 16)):
                j, i = divmod(q, len(g[0]))
                m = f.at((g[0][i], g[1][j]), k == 'map_streamfunction')
                if m is None:
                    continue
                z = g[2][j][i]
                if k == 'map_streamfunction':
                    w, e = m[0] - fr[0] * g[1][j] + fr[1] * g[0][i], m[1]
                    if zero is None: # known up to a constant
                        zero = z - w, e
                        continue
                    w, e = w + zero[0], e + zero[1]
                elif k == 'map_pressure':
                    if z == u[2][j][i] == 0: # inside of a body
                        continue
                    z -= u[2][j][i]
                    v = m[0] - fr[0], m[1] - fr[1]
                    w, e = 0.5 * (v[0] ** 2 + v[1] ** 2), m[2] * (math.hypot(*v) + m[2])
                else:
                    w, e = m['xy'.index(k[-1])] - fr['xy'.index(k[-1])], m[2]
                e += 1e-5 * (1 + abs(z) + abs(w))
                sim.probe['values of ' + k[4:] + ' compared'] += 1
                if STAT is not None:
                    STAT.append((abs(z - w) / e, k))
                if not abs(z - w) <= e:
                    return '%s at %g, %g is %g instead of %g' % (k, g[0][i], g[1][j], z, w)
        return None

    def content(self, case, x, t):
        """What of the plot an independent reader can say from the snapshot (x); t = members of the archive."""
        a = case['plot']
        s = t['plot.gp']
        names = [n for n in quoted(s) if n]
        for n in names:
            if n.decode('utf8', 'replace') not in t:
                return 'the script plots %r, which is not in the archive' % n
        has = lambda *o: any(k in a for k in o)
        val = lambda o, d: a[a.index(o) + 1] if o in a else d
        want = {'streamlines': has('-S', '--S'), 'map_vorticity': False, 'map_pressure': False, 'isopressure': False, 'map_velocity_x': False, 'map_velocity_y': False, 'vortex_list': has('-V', '--V'),
                'body_holders': has('--holder'), 'body_springs': has('--spring'), 'ttree_bottom_nodes': has('--ttree-bottom-nodes'), 'ttree_near_nodes': has('--ttree-near-nodes'),
                'ttree_find_node': has('--ttree-find-node')}
        last = [q for q in a if q in ('-G', '--G', '-P', '--P', '-Ux', '-Uy', '--Ux', '--Uy')]
        if last and last[-1][-1] in 'GP':
            want['map_vorticity' if last[-1][-1] == 'G' else 'map_pressure'] = True
            want['isopressure'] = last[-1][-1] == 'P'
        elif last:
            want['map_velocity_' + last[-1][-1]] = True
        for k, v in want.items():
            if v != (k.encode() in names):
                return '%s is%s plotted' % (k, '' if k.encode() in names else ' not')
        if '--no-timelabel' not in a and ('set label "t = %f"' % float(frac(x.attr[('/', 'time')]))).encode() not in s:
            return 'the time on the plot is not that of the snapshot'
        # the colours
        m = re.findall(rb'set cbrange \[(\S+):(\S+)\]', s)
        if last and len(m) != 1:
            return '%d ranges of colours' % len(m)
        if last:
            lo, hi = map(float, m[0])
            o = last[-1]
            k = 'map_vorticity' if o[-1] == 'G' else 'map_pressure' if o[-1] == 'P' else 'map_velocity_' + o[-1]
            w = [float(q) for q in val(o, '').split(',')] if o.startswith('--') else None
            g = grid(t[k])
            v = sorted(q for r in g[2] for q in r) if g else []
            if any(q != q for q in v):
                w = None
            elif o[-1] == 'G':
                if not w or not w[0]:
                    v = [q for q in v if q]
                    n, m = (max(1, int(f32(len(v) * f32(q)))) - 1 for q in (0.02, 1 - f32(0.98)))
                    w = [max(-v[n], v[-1 - m])] if v else [0]
                w = [-w[0], w[0]]
            elif o == '-P':
                w = [-1.5, 1]
            elif o[:2] == '-U':
                w = [v[0], v[-1]]
            if w and max(abs(lo - w[0]), abs(hi - w[1])) > 2e-5 * (abs(w[0]) + abs(w[1])):
                return 'the colours of %s are %g to %g instead of %g to %g' % (k, lo, hi, *w)
        # what is copied from the snapshot
        vort = rows(x.dset['/vort']) if '/vort' in x.dset else []
        if want['vortex_list'] and t['vortex_list'] != b''.join(struct.pack('<3f', *v[:3]) for v in vort):
            return 'the vortices are not those of the snapshot'
        ns = sorted((k for k in x.dset if re.fullmatch(r'/body\d+', k)), key=lambda k: int(k[5:]))
        contour = []
        for k in ns:
            p = rows(x.dset[k])
            contour.append(b''.join(struct.pack('<2f', *q[:2]) for q in p + p[:1]))
        drawn = [n.decode('utf8', 'replace') for n in re.findall(rb"'((?:[^']|'')*)' binary format='%2float' with filledcurve", s)]
        drawn = [n.replace("''", "'") for n in drawn]
        if '-B' in a and [t[n] for n in drawn] != contour:
            return 'the bodies drawn (%s) are not those of the snapshot (%d)' % (drawn, len(contour))
        left = sorted(v for k, v in t.items() if k not in want and k not in ('plot.gp', 'map_streamfunction'))
        if left != sorted(contour):
            return 'the members %s are not the %d bodies of the snapshot' % (sorted(set(t) - set(want)), len(contour))
        if want['body_holders'] or want['body_springs']:
            h = [numeric(*x.attr[(k, 'holder_position')]) for k in ns]
            d = [numeric(*x.attr[(k, 'delta_position')]) for k in ns]
            lines = lambda k: [[float(w) for w in l.split()] for l in t[k].decode().split('\n') if l]
            for k, w in (('body_holders', [p[:2] for p in h]), ('body_springs', [(p[0] + q[0], p[1] + q[1], -q[0], -q[1]) for p, q in zip(h, d)])):
                g = lines(k)
                if len(g) != len(w) or any(len(u) != len(v) or any(abs(m - n) > 1e-5 * (1 + max(map(abs, v))) for m, n in zip(u, v)) for u, v in zip(g, w)):
                    return '%s are %s instead of %s' % (k, g[:3], w[:3])
        # meshes
        m = re.search(rb'set xrange \[(\S+):(\S+)\]\nset yrange \[(\S+):(\S+)\]', s)
        if not m:
            return 'no range of the plot'
        x0, x1, y0, y1 = map(float, m.groups())
        off = {'f': numeric(*x.attr[('/', 'inf_marker')])}.get(val('--ref-xy', 'o'), (0, 0))
        if ns and val('--ref-xy', 'o')[0] == 'b':
            off = [sum(numeric(*x.attr[(ns[0], k)])[j] for k in ('holder_position', 'delta_position')) if val('--ref-xy', 'o') != ('by', 'bx')[j] else 0 for j in (0, 1)]
        for o, q, z in (('-x', (x0, x1), off[0]), ('-y', (y0, y1), off[1])):
            w = [float(k) for k in val(o, '0,0').split(',')]
            if w[0] < w[1] and any(abs(k + z - u) > 2e-5 * (1 + abs(k) + abs(z)) for k, u in zip(w, q)):
                return 'the plot covers %s of %g to %g instead of %g to %g' % (o[1], *q, w[0] + z, w[1] + z)
        for k, res in (('map_streamfunction', '--res-lo'), ('map_vorticity', '--res-hi'), ('map_pressure', '--res-hi'), ('map_velocity_x', '--res-hi'), ('map_velocity_y', '--res-hi')):
            if k not in t:
                continue
            g = grid(t[k])
            n = int(val(res, 0))
            if g is None or len(g[0]) != n + 1:
                return '%s is not a mesh of %d columns' % (k, n + 1)
            h = (x1 - x0) / n
            tol = 0.01 * h + 1e-5 * (abs(x0) + abs(x1) + abs(y0) + abs(y1))
            if any(abs(q - x0 - h * i) > tol for i, q in enumerate(g[0])) or any(abs(q - y0 - h * i) > tol for i, q in enumerate(g[1])) or not y1 - tol < g[1][-1] < y1 + h + tol:
                return '%s does not cover the plot' % k
        for k, iso in (('map_streamfunction', 'streamlines'), ('map_pressure', 'isopressure')):
            if k not in t or iso not in t:
                continue
            g = grid(t[k])
            h = g[0][1] - g[0][0]
            cuts = [] # left of a sink the streamfunction jumps
            for q in rows(x.dset['/source']) if k == 'map_streamfunction' and '/source' in x.dset else ():
                u, w = (q[0] - x0) / h, (q[1] - y0) / h
                if min(abs(u - round(u)), abs(w - round(w))) < 1e-3:
                    cuts = None
                    break
                if u > 0:
                    cuts.append((math.ceil(u) - 1, math.ceil(w) - 1, q[2]))
            if cuts is None:
                continue
            v = [q for r in g[2] for q in r]
            if any(q != q or abs(q) == math.inf for q in v):
                continue
            if k == 'map_pressure':
                u = val('--P', '-1.5,1').split(',')
                lo, hi = float(u[0]), float(u[1])
                dv = (hi - lo) / 33.
            elif '--S' in a:
                lo, hi, dv = map(float, val('--S', '').split(','))
            else:
                lo, hi = min(v), max(v)
                dv = (hi - lo) / 33.
            if not dv > 0 or dv < 1e-3 * max(abs(lo), abs(hi)):
                continue
            must, may = crossings(g, lo, hi, dv, cuts)
            pts = floats(t[iso])
            line = [((pts[q] - g[0][0]) / h, (pts[q + 1] - g[1][0]) / h) for q in range(0, len(pts), 2)]
            got = [p for p in line if p[0] == p[0]]
            acc = max(2e-3, 4e-7 * (abs(x0) + abs(x1) + abs(y0) + abs(y1)) / h)
            ok = Near(may, 2 * acc)
            for p in got:
                if p not in ok:
                    return '%s pass (%g, %g), where %s has none of their values' % (iso, g[0][0] + p[0] * h, g[1][0] + p[1] * h, k)
            for p, q in zip(line, line[1:]):
                if p[0] == p[0] and q[0] == q[0] and any(math.floor(min(u, v) + 4 * acc) + 1 < max(u, v) - 4 * acc for u, v in zip(p, q)):
                    return '%s go from (%g, %g) to (%g, %g), through several cells' % (iso, *(o + u * h for r in (p, q) for o, u in zip((g[0][0], g[1][0]), r)))
            ok = Near(got, 2 * acc)
            for p in must:
                if p not in ok:
                    return '%s miss the point (%g, %g), where %s has one of their values' % (iso, g[0][0] + p[0] * h, g[1][0] + p[1] * h, k)
        return None

    def given(self, case, g, t):
        """Whether gnuplot was handed (g) the plot of the archive (t)."""
        s = t['plot.gp'].split(b'\n')
        i = s.index(b'# Generated by vvplot:')
        s = b'\n'.join(s[:i] + s[i + 2:])
        order = []
        for n in quoted(s):
            if n and n not in order:
                order.append(n)
        q = b'\n'.join(g[0])
        if [n for n in quoted(q) if n] != [b'@%d' % order.index(n) for n in quoted(s) if n]:
            return 'gnuplot plots %s, the archive %s' % (quoted(q), quoted(s))
        d = [t[n.decode('utf8', 'replace')] for n in order]
        if d != g[1]:
            return 'gnuplot gets other data than the archive holds'
        for i, n in sorted(enumerate(order), key=lambda u: -u[0]):
            q = q.replace(b"'@%d'" % i, b"'%s'" % n.replace(b"'", b"''"))
        return None if q == s else 'gnuplot gets another script than the archive holds'

    def entries(self, b):
        try:
            with tarfile.open(fileobj=io.BytesIO(b)) as t:
                return {m.name: t.extractfile(m).read() for m in t.getmembers()}
        except (tarfile.TarError, EOFError):
            return None

    def disturbed(self, case, sim, d, args, ref, want, ev, f):
        w = base.copy_to(sim, d, 'w')
        c = dict(base.REF)
        what = None
        fault = f
        if 'old' in f:
            n = args[-1] if case['way'] != 'dir' else 'o.d/x.tar'
            if f['old'] == 'dir':
                if case['way'] == 'dir':
                    return None
                os.mkdir(os.path.join(w, n))
            else:
                with open(os.path.join(w, n), 'wb') as o:
                    o.write(b'GNUPLOT\nolder\n' * (len(want) // 7 + 9 if f['old'] == 'long' else 1))
            what = 'an older target'
            r = sim.run('vvplot', args, w, c)
        elif 'gnuplot' in f:
            if args[-1] != 'out.png':
                return None
            base.write(w, 'gnuplot.fail', '')
            r = sim.run('vvplot', args, w, c)
            sim.probe['gnuplot failed'] += 1
            return viol('gnuplot', 'gnuplot failed, exit status 0', f=f) if r.rc == 0 else None
        elif 'cut' in f:
            cut = self.cut_input(f['cut'], w, args)
            if not cut:
                return None
            fault = {'cut': cut}
            what = '%s cut to %d bytes' % tuple(cut)
            r = sim.run('vvplot', args, w, c)
            sim.probe['cut ' + {'x.h5': 'snapshot', 'f.bin': 'field'}.get(cut[0], 'archive')] += 1
        elif 'kill' in f:
            n = max(1, sum(1 for k, _ in ev if k in 'CWTNUM'))
            r = sim.run('vvplot', args, w, dict(c, kill=1 + int(f['kill'] * n), killfrac=500))
            if r.rc != -9:
                return None
            sim.probe['killed'] += 1
            t = self.target(w)
            if args[-1] == 'out.tar' and t is not None: # what it left is not taken for an archive
                e = sim.fresh('x')
                with open(e + '/p.tar', 'wb') as o:
                    o.write(t)
                p = sim.run('vvplot', ['p.tar', 'out.png'], e, base.REF)
                v = self.leftover(p, e, want)
                if v:
                    return viol('leftover', 'killed at output operation %d: %s' % (1 + int(f['kill'] * n), v), f=f)
            what = 'after a killed vvplot'
            r = sim.run('vvplot', args, w, base.REF)
        else:
            c = self.fault_cfg(f, ev, ref)
            if not c:
                return None
            r = sim.run('vvplot', args, w, c)
            if not r.fired:
                return None
            fault = c
            what = c['f'][0] if 'f' in c else 'disk full after %d bytes' % c['full'] if 'full' in c else 'allocation %d' % c['mallocfail'] if 'mallocfail' in c else 'short transfers'
        sim.sig(case['plot'], case['way'], what)
        k = base.fault_kind(r)
        if k and ('malloc' not in f and 'mallocfail' not in c or k in ('hang', 'deadlock', 'livelock')):
            return viol(k, '%s: %s' % (what, base.brief(r)), f=fault)
        if r.rc == 0:
            got = self.target(w) if f.get('old') != 'dir' else self.inside(os.path.join(w, args[-1]))
            if got != want:
                return viol('silent', '%s, exit status 0: %s' % (what, self.tell(want, got)), f=fault)
            if r.c['FSHORT_WRITE'] or r.c['FSHORT_READ']:
                sim.probe['short transfers made no difference'] += 1
            if 'old' in f:
                sim.probe['an older target'] += 1
            if 'mallocfail' in c:
                sim.probe['out of memory'] += 1
            return None
        if 'mallocfail' in c:
            sim.probe['out of memory'] += 1
            return None
        if not r.err.strip():
            return viol('mute', '%s: %s without a word' % (what, r.describe()), f=fault)
        if 'old' in f or 'kill' in f:
            return viol('stuck', '%s: %s' % (what, base.brief(r)), f=fault)
        if 'shortio' in c:
            return viol('short', 'fails when only the number of bytes per system call is small: ' + base.brief(r), f=fault)
        sim.probe['failed and said so'] += 1
        if 'f' in c:
            sim.probe['read failed' if what[0] in 'OR' else 'data for gnuplot could not be stored' if what[0] == 'Y' or what[0] == 'W' and 'out.' not in what and 'x.tar' not in what
                      else 'write failed' if what[0] in 'WCT' else 'other failure'] += 1
        if 'full' in c:
            sim.probe['disk full'] += 1
        return None

    def inside(self, p):
        li = os.listdir(p)
        if len(li) != 1:
            return None
        with open(os.path.join(p, li[0]), 'rb') as f:
            return f.read()

    def leftover(self, p, e, want):
        if p.rc:
            return None
        g = handed(self.target(e) or b'')
        t = self.entries(want)
        if g is None:
            return 'the rest of an archive is plotted incompletely'
        if len([x for x in g[1] if x is not None and x in t.values()]) != len(g[1]) or re.search(rb"'(map_\w+|streamlines|isopressure|vortex_list)'", b'\n'.join(g[0])):
            return 'the rest of an archive is plotted without some of its data'
        return None

    def tell(self, a, b):
        if b is None:
            return 'no target'
        x, y = self.entries(a), self.entries(b)
        if x and y:
            return 'members %s differ' % [k for k in sorted(set(x) | set(y)) if x.get(k) != y.get(k)][:3]
        return 'the target (%d bytes) is not that of the undisturbed run (%d)' % (len(b), len(a))

    def cut_input(self, u, w, args):
        if isinstance(u[0], str):
            n, k = u
        else:
            li = [x for x in ('x.h5', 'a.tar', 'b.tar', 'f.bin') if x in args]
            n = li[-1] if u[0] < 0.7 else li[0]
            size = os.path.getsize(os.path.join(w, n))
            if u[1] == 'block': # at a boundary
                if n.endswith('.tar'):
                    k = 512 * int(u[0] * 997 % 1 * (size // 512))
                elif n == 'f.bin':
                    with open(os.path.join(w, n), 'rb') as f:
                        row = 4 * (int(struct.unpack('<f', f.read(4))[0]) + 1)
                    k = row * int(u[0] * 997 % 1 * (size // row))
                else:
                    return None
            else:
                k = int(u[1] * size)
            if n == 'x.h5':
                k = max(k, 1) # an empty file is an empty problem
        p = os.path.join(w, n)
        if not os.path.isfile(p) or os.path.getsize(p) <= k:
            return None
        if n == 'f.bin': # a field of fewer rows is a field
            with open(p, 'rb') as f:
                row = 4 * (int(struct.unpack('<f', f.read(4))[0]) + 1)
            if k % row == 0 and k >= 3 * row:
                return None
        if n.endswith('.tar'):
            with tarfile.open(p) as t:
                m = t.getmembers()[-1]
            if k >= m.offset_data + (m.size + 511) // 512 * 512: # only padding is missing
                return None
        os.truncate(p, k)
        return [n, k]

    def pin(self, case, v):
        if v.get('f') and set(v['f']) & {'old', 'gnuplot', 'kill', 'cut'}:
            return dict(copy.deepcopy(case), faults=[v['f']])
        return super().pin(case, v)

    def shrink(self, case):
        f = case['faults']
        if len(f) > 1:
            for x in f:
                yield dict(case, faults=[x])
        elif f:
            yield dict(case, faults=[])
        a = case['plot']
        for i, x in enumerate(a):
            if x in ('-V', '-B', '--holder', '--spring', '--gray', '--ttree-bottom-nodes', '--ttree-find-node'):
                yield dict(case, plot=a[:i] + a[i + 1:])
            if x in ('--eps', '--ref-S', '--ref-P', '--ref-xy'):
                yield dict(case, plot=a[:i] + a[i + 2:])
        for s in scen.shrink(case['scene']):
            yield dict(case, scene=s)


# ------------------------------------------------------------------------ P15
class Attrs(dict):
    """Attributes of one object; an empty text is not written at all."""
    def __missing__(self, k):
        return ('str', b'')


def text(a):
    return a[1].split(b'\0')[0]


def g(x):
    return b'%g' % x if x == x else b'nan'


def vec(v):
    return b'{' + b', '.join(g(x) for x in v) + b'}'


def info(x):
    """What --info has to say about a snapshot: ({line start: rest}, {body: {line start: rest}})."""
    at = Attrs((k[1], v) for k, v in x.attr.items() if k[0] == '/')
    num = lambda a: numeric(*a)[0]
    tm = lambda a: b"'%d/%d'" % struct.unpack('<iI', a[1])
    dbl = lambda a: struct.unpack('<iI', a[1])[0] / struct.unpack('<iI', a[1])[1]
    n = lambda k: x.dset['/' + k][1][0] if '/' + k in x.dset else 0
    o = {b'caption: ': text(at['caption']), b'created: ': text(at['time_local']), b'version: ': text(at['git_info']), b'git_rev: ': text(at['git_rev']),
         b'S.re = ': g(num(at['re'])), b'S.inf_g = ': g(num(at['inf_circulation'])), b'S.inf_vx = ': b"'" + text(at['inf_speed_x']) + b"'",
         b'S.inf_vy = ': b"'" + text(at['inf_speed_y']) + b"'", b'S.gravity = ': vec(numeric(*at['gravity'])), b'S.time = ': tm(at['time']) + b' -- ' + g(dbl(at['time'])),
         b'S.dt = ': tm(at['dt']) + b' -- ' + g(dbl(at['dt'])), b'S.dt_save = ': tm(at['dt_save']), b'S.dt_streak = ': tm(at['dt_streak']), b'S.dt_profile = ': tm(at['dt_profile']),
         b'S.finish = ': g(num(at['time_to_finish'])), b'-- #S.vort_list = ': b'%d' % n('vort'), b'-- #S.sink_list = ': b'%d' % n('source'),
         b'-- #S.streak_source_list = ': b'%d' % n('ink_source'), b'-- #S.streak_domain_list = ': b'%d' % n('ink')}
    names = sorted(k[1:] for k in x.dset if k.startswith('/body'))
    o[b'-- #S.body_list = '] = b'%d -- number of elements' % len(names)
    bodies = {}
    for b in names:
        q = Attrs((k[1], v) for k, v in x.attr.items() if k[0] == '/' + b)
        label = lambda m: text(x.attr.get(('/' + m, 'label'), ('str', b''))) or m.encode()
        v3 = lambda k: vec(numeric(*q[k]))
        v4 = lambda k: v3(k) + b' -- .d = ' + g(numeric(*q[k])[2] * 180. / math.pi)
        root = text(q['root_body']).decode()
        p = {b'label = ': b"'" + text(q['label']) + b"'", b'density = ': g(num(q['density'])), b'holder_pos = ': v4('holder_position'),
             b'holder_vx = ': b"'" + text(q['speed_x']) + b"'", b'holder_vy = ': b"'" + text(q['speed_y']) + b"'", b'holder_vo = ': b"'" + text(q['speed_o']) + b"'",
             b'holder_mo = ': b"'" + text(q['force_o']) + b"'", b'speed = ': v3('speed_slae'), b'delta_pos = ': v4('delta_position'), b'spring_const = ': v3('spring_const'),
             b'spring_damping = ': v3('spring_damping'), b'collision_min = ': v4('collision_min'), b'collision_max = ': v4('collision_max'), b'bounce = ': g(num(q['bounce'])),
             b'special_segment = ': b'%d' % nums(('i4', None, q['special_segment_no'][1]))[0], b'root = ': label(root) if root else b'nil'}
        sl = ('/' + b, 'slip')
        sl = set(nums(('u4', None, x.attr[sl][1]))) if sl in x.attr else {nums(('u4', None, q['general_slip'][1]))[0]}
        p[b'slip = '] = {(0,): b'false -- no-slip', (1,): b'true -- slip'}.get(tuple(sl), b'nil -- mixed')
        pre = label(b) + b'.'
        bodies[b.encode()] = (text(q['label']), {pre + k: v for k, v in p.items()}, b'-- #' + label(b) + b' = %d -- number of segments' % x.dset['/' + b][1][0])
    return o, bodies


def derived(x, b):
    """Properties of the shape of a body: {name: (values, tolerance) or None where they are not well defined}."""
    p = [q[:2] for q in rows(x.dset['/' + b])]
    h, d = (numeric(*x.attr[('/' + b, k)]) for k in ('holder_position', 'delta_position'))
    ax = (h[0] + d[0], h[1] + d[1])
    o = {'axis': (ax, 1e-5 * max(map(abs, ax))), 'slen': None, 'area': None, 'cofm': None, 'moi_cofm': None, 'moi_axis': None}
    flat = [c for q in p for c in q] + list(ax)
    if any(c != c or abs(c) > 1e4 for c in flat):
        return {}
    x0, y0 = p[0]
    q = [(u - x0, v - y0) for u, v in p]
    e = list(zip(q, q[1:] + q[:1]))
    slen = math.fsum(math.hypot(c - a, d - b) for (a, b), (c, d) in e)
    w = [a * d - b * c for (a, b), (c, d) in e]
    area = -math.fsum(w) / 2 # contours go clockwise
    big = slen * (slen + math.hypot(x0, y0))
    o['slen'] = ([slen], 1e-5 * slen)
    o['area'] = ([area], 1e-5 * abs(area) + 1e-12 * big)
    if abs(area) > 1e-6 * big:
        cx, cy = (-math.fsum(k * (e[i][0][j] + e[i][1][j]) for i, k in enumerate(w)) / (6 * area) for j in (0, 1))
        o['cofm'] = ([cx + x0, cy + y0], 1e-5 * (abs(cx) + abs(cy) + abs(x0) + abs(y0)) + 1e-9 * big * slen / abs(area))
        moi = -math.fsum(k * sum(e[i][0][j] ** 2 + e[i][0][j] * e[i][1][j] + e[i][1][j] ** 2 for j in (0, 1)) for i, k in enumerate(w)) / 12 - area * (cx * cx + cy * cy)
        tol = 1e-9 * big * (slen + math.hypot(x0, y0)) ** 2
        o['moi_cofm'] = ([moi], 1e-5 * abs(moi) + tol)
        m = moi + area * ((ax[0] - x0 - cx) ** 2 + (ax[1] - y0 - cy) ** 2)
        o['moi_axis'] = ([m], 1e-5 * abs(m) + tol)
    return o


def cells(x, labels):
    """The table of the given datasets."""
    ds = [x.dset['/' + l.strip('/')] for l in labels]
    o = [b'#' + b''.join(l.encode() + (b'[%d]' % (j + 1) if d[1][1] > 1 else b'') + b'\t' for l, d in zip(labels, ds) for j in range(d[1][1]))]
    r = [(rows(d), d[1]) for d in ds]
    for i in range(max(d[1][0] for d in ds)):
        o.append(b''.join((b'%+.6e' % q[i][j] if i < n[0] else b' ' * 13) + b'\t' for q, n in r for j in range(n[1])))
    return b'\n'.join(o) + b'\n'


def plain(b):
    return b.replace(b'-nan', b'nan').replace(b'+nan', b'nan')


class P15(Faulty):
    id = 'P15'
    quick = (900, 55)
    thorough = (10000000, 700)
    timeout = 20
    must = ('table', 'list', 'info', 'stepdata', 'snapshot', 'several datasets', 'shorter columns', 'no such dataset', 'failed and said so', 'output failed', 'read failed',
            'cut file', 'of a killed run', 'a file that cannot be read', 'short transfers made no difference', 'out of memory', 'odd state')
    rule = ('a case is one file (snapshot or step history of a finished or killed run, or an odd state), several requests and several faults; each output is compared '
            'byte for byte with what an independent reader finds in the file; distinct by file, request and fault; only fired faults count')

    def gen(self, r, i, tier):
        case = {'fill': r.randrange(7)}
        if r.random() < 0.35:
            case['st'] = snap.state(r)
        else:
            s = scen.scene(r, steps=r.choice([0, 1, 2, 4, 12]), save=r.choice([1, 2]))
            for b in s['bodies']:
                if r.random() < 0.3:
                    b['label'] = r.choice(['', 'x', 'l' * 40, 'wing 2', 'тело'])
            case['scene'] = s
            if r.random() < 0.4:
                case['kill'] = r.random()
        case['asks'] = [[r.choice(['table'] * 6 + ['list', 'info', 'info', 'none', 'bad']), r.random(), r.choice([1, 1, 2, 3, 6]), r.random()] for _ in range(3)]
        fs = []
        for _ in range(6 if tier == 'quick' else 12):
            k = r.random()
            if k < 0.35:
                fs.append({'rule': ['OR', None, r.choice(['', '+']), 'e', r.choice(RERR + OERR), spot(r)]})
            elif k < 0.6:
                fs.append({'rule': ['W', None, r.choice(['', '+']), 'e', r.choice(WERR), spot(r)]})
            elif k < 0.65:
                fs.append({'full': r.random(), 'heal': 0})
            elif k < 0.75:
                fs.append({'short': r.choice([50, 500, 1000]), 'seed': r.randrange(1 << 30)})
            elif k < 0.85:
                fs.append({'malloc': spot(r), 'sticky': r.random() < 0.4})
            else:
                fs.append({'cut': [r.random(), r.random()]})
        case['faults'] = fs
        return case

    def files(self, case, sim):
        d = sim.fresh('prep')
        if 'st' in case:
            p, r = snap.make(sim, d, case['st'], 'x.h5')
            if not p:
                return None
            sim.probe['odd state'] += 1
            e = sim.fresh('x')
            os.rename(p, e + '/x.h5')
            return e
        f = base.prepare(sim, d, case['scene'])
        w = base.copy_to(sim, d, 'w')
        r = sim.run('vvflow', [f], w, dict(base.REF, trace=1), timeout=15)
        if r.rc:
            return None
        if 'kill' in case:
            n = sum(1 for k, _ in base.events(r) if k in 'CWTNUM')
            w = base.copy_to(sim, d, 'w')
            r = sim.run('vvflow', [f], w, dict(base.REF, kill=1 + int(case['kill'] * n)), timeout=15)
            if r.rc == -9:
                sim.probe['of a killed run'] += 1
        e = sim.fresh('x')
        for root, _, li in os.walk(w):
            for n in li:
                if n.endswith('.h5') and n != 'init.h5':
                    os.rename(os.path.join(root, n), os.path.join(e, n))
        return e

    def request(self, ask, h):
        """(arguments, checker of the output) for the file h[name]."""
        kind, u, n, v = ask
        names = sorted(h, key=lambda k: (k.startswith('stepdata'), k))
        if not names:
            return None
        f = names[-1] if u < 0.4 else names[int(u * len(names))]
        x = h[f]
        if not x.ok:
            return [f, 'time' if f.startswith('stepdata') else 'vort'], f, None, kind
        if x.bad:
            # part of what a killed run left: what can be read is printed, what cannot is refused
            lost = sorted(b.split(' ')[0][1:] for b in x.bad if b.endswith(' data'))
            if lost and v < 0.5:
                return [f, lost[int(u * len(lost))]], f, None, kind
            kind = 'table'
        if kind == 'list':
            return ['-l' if v < 0.5 else '--list', f], f, (lambda b: self.judge_list(x, b)), kind
        if kind == 'info' or kind == 'none':
            return ([f] if kind == 'none' else ['--info', f] if v < 0.7 else ['-i', f]), f, (lambda b: self.judge_info(x, b)), 'info'
        ds = sorted(k for k, d in x.dset.items() if len(d[1]) == 2)
        if kind == 'bad' or not ds:
            l = ['no_such', '/', 'vort_1_eps', 'bodyXX/force'][int(v * 4)]
            if '/' + l in x.dset and len(x.dset['/' + l][1]) == 2:
                return None
            return [f] + [k[1:] for k in ds[:1]] + [l], f, None, 'bad'
        pick = [ds[int(v * 7919 * (i + 1)) % len(ds)] for i in range(n)]
        pick = [k if (v * 10) % 1 < 0.2 else k[1:] for k in pick]
        return [f] + pick, f, (lambda b: None if plain(b) == plain(cells(x, pick)) else self.tell(cells(x, pick), b)), 'table'

    def tell(self, a, b):
        for i, (p, q) in enumerate(zip(a.split(b'\n'), b.split(b'\n'))):
            if plain(p) != plain(q):
                for m, n in zip(p.split(b'\t'), q.split(b'\t')):
                    if plain(m) != plain(n):
                        return 'line %d: %s instead of %s' % (i + 1, n[:60], m[:60])
        return '%d lines instead of %d' % (b.count(b'\n'), a.count(b'\n'))

    def judge_list(self, x, b):
        got = sorted(b.decode('utf8', 'replace').split('\n'))
        want = sorted([k[1:] for k in x.dset] + [''])
        return None if got == want else 'datasets %s' % sorted(set(got) ^ set(want))[:3]

    def judge_info(self, x, b):
        at = Attrs((k[1], v) for k, v in x.attr.items() if k[0] == '/')
        b = plain(b)
        if 'dt' not in at:
            for p, k in ((b'caption: ', 'caption'), (b'created: ', 'time_local'), (b'version: ', 'git_info'), (b'git_rev: ', 'git_rev')):
                if p + text(at[k]) + b'\n' not in b:
                    return 'no %s' % (p + text(at[k]))
            return None
        o, bodies = info(x)
        head = b.split(b'\n\n-- body')[0] + b'\n'
        for k, v in o.items():
            if plain(k + v) + b'\n' not in head:
                m = [l for l in head.split(b'\n') if l.startswith(k)]
                return '%s instead of %s' % (m[:1], k + v)
        blocks = b.split(b'\n\n-- body')[1:]
        if len(blocks) != len(bodies):
            return '%d bodies instead of %d' % (len(blocks), len(bodies))
        for bl in blocks:
            bl = b'-- body' + bl + b'\n'
            n = bl.split(b' ')[1]
            if n not in bodies:
                return 'body %s' % n
            label, lines, size = bodies[n]
            if not bl.startswith(b'-- ' + n + b' (' + label + b')\n'):
                return 'body %s has the label %s' % (n, bl[:60])
            for k, v in lines.items():
                if b'\n' + plain(k + v) + b'\n' not in bl:
                    m = [l for l in bl.split(b'\n') if l.startswith(k)]
                    return '%s of %s instead of %s' % (m[:1], n, k + v)
            if b'\n' + size + b'\n' not in bl:
                return 'number of segments of %s' % n
            for k, v in derived(x, n.decode()).items():
                m = re.search(rb'\n-- [^\n]*\.get_' + k.encode() + rb'\(\) = ([^\n]*)', bl)
                if not m:
                    return 'no %s of %s' % (k, n)
                got = [float(q) for q in re.findall(rb'[-+]?(?:nan|inf|[0-9.]+(?:e[-+]?[0-9]+)?)', m.group(1).split(b' -- ')[0])]
                if v is not None and (len(got) != len(v[0]) or not all(abs(p - q) <= v[1] + 1e-5 * abs(q) for p, q in zip(got, v[0]))):
                    return '%s of %s is %s instead of %s' % (k, n, got, v[0])
        return None

    def run(self, case, sim):
        d = self.files(case, sim)
        if not d:
            sim.probe['no file'] += 1
            return []
        h = sim.h5tree(d)
        for ask in case['asks']:
            q = self.request(ask, h)
            if not q:
                continue
            args, f, judge, kind = q
            sim.sig(args, h[f].ok, case.get('scene'), case.get('st'))
            ref = sim.run('vvxtract', args, d, dict(base.REF, trace=1, sites=1, heapfill=case['fill']))
            k = base.fault_kind(ref)
            if k:
                return [viol(k, '%s: %s' % (' '.join(args), base.brief(ref)))]
            if judge is None:
                if ref.rc == 0:
                    return [viol('invented', '%s: exit status 0, though the file says nothing of it' % ' '.join(args))]
                if not ref.err.strip():
                    return [viol('mute', '%s: %s without a word' % (' '.join(args), ref.describe()))]
                sim.probe['no such dataset' if kind == 'bad' else 'a file that cannot be read'] += 1
                continue
            if ref.rc:
                return [viol('refused', '%s: %s' % (' '.join(args), base.brief(ref)))]
            x = judge(ref.out)
            if x:
                return [viol('wrong', '%s: %s' % (' '.join(args), x))]
            sim.probe[kind] += 1
            sim.probe['stepdata' if f.startswith('stepdata') else 'snapshot'] += 1
            if kind == 'table' and len(args) > 2:
                sim.probe['several datasets'] += 1
                if b' ' * 13 + b'\t' in ref.out:
                    sim.probe['shorter columns'] += 1
        if not h:
            return []
        ev = base.events(ref)
        for fl in case['faults']:
            if ref.rc or judge is None:
                break
            v = self.disturbed(case, sim, d, args, f, ref, ev, fl)
            if v:
                return [v]
        return []

    def disturbed(self, case, sim, d, args, f, ref, ev, fl):
        c = dict(base.REF)
        fault = fl
        w = d
        if 'cut' in fl:
            w = base.copy_to(sim, d, 'v')
            size = os.path.getsize(os.path.join(w, f))
            k = fl['cut'][1] if isinstance(fl['cut'][0], str) else int(fl['cut'][1] * size)
            if k >= size:
                return None
            os.truncate(os.path.join(w, f), k)
            fault = {'cut': [f, k]}
            what = '%s cut to %d bytes' % (f, k)
            sim.probe['cut file'] += 1
        else:
            c = self.fault_cfg(fl, ev, ref)
            if not c:
                return None
            fault = c
            what = c['f'][0] if 'f' in c else 'disk full after %d bytes' % c['full'] if 'full' in c else 'allocation %d' % c['mallocfail'] if 'mallocfail' in c else 'short transfers'
        r = sim.run('vvxtract', args, w, c)
        if 'cut' not in fl and not r.fired:
            return None
        sim.sig(args, case.get('scene'), case.get('st'), what)
        k = base.fault_kind(r)
        if k and ('mallocfail' not in c or k in ('hang', 'deadlock', 'livelock')):
            return viol(k, '%s: %s' % (what, base.brief(r)), f=fault)
        if r.rc == 0:
            if r.out != ref.out:
                return viol('silent', '%s: %s, exit status 0: %s' % (' '.join(args), what, self.tell(ref.out, r.out)), f=fault)
            if r.c['FSHORT_WRITE'] or r.c['FSHORT_READ']:
                sim.probe['short transfers made no difference'] += 1
        elif 'mallocfail' in c:
            pass
        elif not r.err.strip():
            return viol('mute', '%s: %s without a word' % (what, r.describe()), f=fault)
        elif 'shortio' in c:
            return viol('short', 'fails when only the number of bytes per system call is small: ' + base.brief(r), f=fault)
        else:
            sim.probe['failed and said so'] += 1
            if 'f' in c:
                sim.probe['output failed' if what[0] == 'W' else 'read failed'] += 1
        if 'mallocfail' in c:
            sim.probe['out of memory'] += 1
        return None

    def pin(self, case, v):
        if v.get('f') and 'cut' in v['f']:
            return dict(copy.deepcopy(case), faults=[v['f']])
        return super().pin(case, v)

    def shrink(self, case):
        f = case['faults']
        for x in ddmin(f):
            yield dict(case, faults=x)
        for x in ddmin(case['asks']):
            if x:
                yield dict(case, asks=x)
        if 'kill' in case:
            yield {k: v for k, v in case.items() if k != 'kill'}
        if 'scene' in case:
            for s in scen.shrink(case['scene']):
                yield dict(case, scene=s)
        else:
            for s in snap.shrink_state(case['st']):
                yield dict(case, st=s)


ALL = [P14, P15]
