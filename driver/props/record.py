"""What a simulation leaves on disk over its whole history: kills, resumes, clocks, sensors."""
import copy, math, os, random, struct
from fractions import Fraction
from .. import scen
from ..core import CheckError, Prop, viol, crash_kind, ddmin, rows, nums
from . import base

CAPTIONS = ['c', 'c', 'c', 'a b', '100%d', '%s%n', 'каптион', 'x' * 60, 'x' * 150, "it's", 'a.h5', '-o', 'q"q']


def frac(attr):
    v, ts = struct.unpack('<iI', attr[1])
    return Fraction(v, ts)


def f32(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


def snapshots(h, caption='c'):
    """{name: H5} of the snapshots of a run, oldest first."""
    p = 'results_%s/' % caption
    return {k: h[k] for k in sorted(h) if k.startswith(p)}


def newest(h, caption='c'):
    s = [k for k, x in snapshots(h, caption).items() if x.ok and ('/', 'time') in x.attr]
    return max(s, key=lambda k: frac(h[k].attr[('/', 'time')])) if s else None


def numeric(t, b):
    if t == 's' or t == 'c8' or len(b) % 8:
        return None
    if t.startswith('c') or t == 'f8':
        return struct.unpack('<%dd' % (len(b) // 8), b)
    return None


def near(x, y, tol):
    return x == y or abs(x - y) <= tol * (1 + abs(x)) or (x != x and y != y)


def close(a, b, tol, skip=('time_local',)):
    """None when two snapshots agree up to rounding, else the first real difference."""
    for k in sorted(set(a.attr) | set(b.attr)):
        if k[1] in skip or a.attr.get(k) == b.attr.get(k):
            continue
        x, y = a.attr.get(k), b.attr.get(k)
        if x is None or y is None or x[0] != y[0]:
            return 'attribute %s@%s' % k
        p, q = numeric(*x), numeric(*y)
        if p is None or q is None or len(p) != len(q) or not all(near(i, j, tol) for i, j in zip(p, q)):
            return 'attribute %s@%s: %s / %s' % (k + (p or x[1][:40], q or y[1][:40]))
    for k in sorted(set(a.dset) | set(b.dset)):
        x, y = a.dset.get(k), b.dset.get(k)
        if x == y:
            continue
        if x is None or y is None or x[:2] != y[:2]:
            return 'dataset %s: %s / %s' % (k, x and x[:2], y and y[:2])
        for n, (i, j) in enumerate(zip(nums(x), nums(y))):
            if not near(i, j, tol):
                return 'dataset %s value %d: %r / %r' % (k, n, i, j)
    return None


def proc(r, threads=True):
    """How one process of a history runs: clock, heap, threads."""
    c = {'clk': r.choice([0, 0, 1, 2, 3]), 'clkseed': r.randrange(1 << 30), 'clkwall': r.choice([0, 1, 1500000000, 4000000000]),
         'heapfill': r.randrange(7), 'heapseed': r.randrange(1 << 30)}
    if threads and r.random() < 0.15:
        c.update({'sched': 1, 'threads': r.choice([2, 3, 4]), 'seed': r.randrange(1 << 30), 'prob': 20, 'chunk': 1, 'maxev': 400000000})
    return c


def cfg(p, **kw):
    c = dict(base.REF)
    c.update({k: v for k, v in p.items() if k != 'clkwall' or v})
    c.update(kw)
    return c


def last_op(r):
    """(kind, file) of the operation a killed process died in."""
    e = base.events(r)
    return e[-1] if e else None


def in_history(op):
    """Whether an operation is on the step history (long names lose their beginning in the trace)."""
    return op is not None and ('stepdata' in op[1] or len(op[1]) > 90 and op[1].endswith('.h5') and '/' not in op[1])


def heated(s):
    return any(o[1] == 'heat_condition' and o[2] for b in (s.get('extra') or {'body': {}})['body'].values() for o in b)


def collides(s):
    return any(k.startswith('collision') for b in s['bodies'] for k, _ in b['set'])


def at_limit(x):
    """Whether some body is exactly at its collision limit."""
    for (o, n), v in x.attr.items():
        if n in ('collision_max', 'collision_min'):
            a = [numeric(*x.attr[(o, m)]) if (o, m) in x.attr else (0, 0, 0) for m in ('holder_position', 'delta_position', n)]
            if any(abs(p + q - l) < 1e-9 for p, q, l in zip(*a)):
                return True
    return False


def value(expr, t):
    """An expression of scen.speed_expr or scen.scene."""
    if not expr:
        return 0.0
    e = expr.strip('"')
    return float(eval(e, {'__builtins__': {}}, {'sin': math.sin, 'cos': math.cos, 't': t}))


def start(sim, d, case, args):
    """The first process's argument; writes sensors."""
    if case.get('sensors'):
        base.write(d, 'sens', ''.join('%r %r\n' % tuple(p) for p in case['sensors']))
        args.append('--sensors=sens')
    return base.prepare(sim, d, case['scene'])


def resume(sim, w, snap, how, cfg, args, finish=None, timeout=20):
    """Continue from a snapshot, one of the ways a user has."""
    if how == 'file' and finish is None:
        return sim.run('vvflow', args + [snap], w, cfg, timeout=timeout)
    t = 'S:load(%s)\n' % scen.lua_str(snap)
    if finish is not None:
        t += 'S.finish = %r\n' % finish
    return base.lua(sim, w, t + 'simulate()\n', 'resume.lua', cfg, args, timeout=timeout)


def step_times(h, caption='c'):
    x = h.get('stepdata_%s.h5' % caption)
    if x is None or not x.ok or '/time' not in x.dset:
        return None
    return [q[0] for q in rows(x.dset['/time'])]


# ------------------------------------------------------------------------ P08
class P08(Prop):
    id = 'P08'
    quick = (1200, 55)
    thorough = (10000000, 700)
    must = ('killed', 'resumed', 'killed twice', 'resumed from an older snapshot', 'history on disk complete after a kill', 'no snapshot yet', 'steps lost and repeated', 'profiles of some steps')
    rule = ('a case is one problem and a chain of processes: the first from the script, each killed at a drawn file operation, the next resuming from the newest '
            '(or an older) visible snapshot; distinct by problem, kills and what was visible; only chains in which a kill happened count')

    def gen(self, r, i, tier):
        s = scen.scene(r, steps=r.choice([3, 5, 8, 12, 20]), save=r.choice([1, 2, 2, 3, 4]), bodies=r.choice([0, 1, 1, 2]))
        if r.random() < 0.06: # more than a chunk of rows
            s = scen.scene(r, steps=r.choice([127, 128, 129, 140, 260]), save=r.choice([20, 60, 127, 128]), bodies=0, vort=r.choice([1, 3]), ink=False, extra=False, neg_time=False)
        s['caption'] = r.choice(CAPTIONS)
        return {'scene': s, 'args': r.choice([[], [], ['--profile']]), 'mixed': [r.random() < 0.5 for _ in range(5)] if s['bodies'] and r.random() < 0.3 else None, 'sensors': [[0.7, 1.2]] if r.random() < 0.5 else [],
                'chain': [{'kill': r.random(), 'frac': r.choice([0, 500, 1000]), 'on': r.choice(['', '', 'velocity', 'results_']), 'p': proc(r),
                           'how': r.choice(['file', 'file', 'script']), 'older': r.random() if r.random() < 0.3 else 0} for _ in range(r.choice([1, 1, 2, 3]))],
                'end': {'p': proc(r)}}

    def point(self, k, ev, mut):
        """The kill as a number of mutating operations."""
        if isinstance(k['kill'], int):
            return k['kill']
        li = [n for n, (o, f) in enumerate([e for e in ev if e[0] in 'CWTNUM'], 1) if k['on'] in f]
        if not li:
            li = list(range(1, max(mut, 1) + 1))
        return li[int(k['kill'] * len(li))]

    def run(self, case, sim):
        case = dict({'mixed': None}, **case)
        s = case['scene']
        cap = s['caption']
        d = sim.fresh('prep')
        args0 = list(case['args'])
        f = start(sim, d, case, args0)
        args = args0
        if case['mixed']: # pressure and friction are recorded by some of the processes only
            args = [x for x in args0 if x != '--profile'] + ['--profile']
            args0 = args[:-1]
        rec = []
        w = base.copy_to(sim, d, 'w')
        ref = sim.run('vvflow', args + [f], w, dict(base.REF, trace=1), timeout=10)
        if ref.rc:
            sim.probe['reference: ' + base.brief(ref)[:40]] += 1
            return []
        h = sim.h5tree(w)
        sd = 'stepdata_%s.h5' % cap
        want = step_times(h, cap)
        if want is None:
            return [viol('no-history', 'no step history at all')]
        x = self.shapes(h[sd], want)
        if x:
            return [viol('rows', 'with no fault at all: ' + x)]
        ev = base.events(ref)
        w = base.copy_to(sim, d, 'w')
        arg, how, seen, killed, sig = f, 'file', None, 0, []
        torn = False
        for k in case['chain'] + [case['end']]:
            last = k is case['end']
            c = cfg(k['p']) if last else cfg(k['p'], kill=self.point(k, ev, ref.c['MUT']), killfrac=k['frac'], trace=1)
            if case['mixed']:
                n = 0 if arg == f else sum(1 for t in want if t < f32(float(frac(sim.h5(os.path.join(w, arg)).attr[('/', 'time')]))))
                on = case['mixed'][killed % len(case['mixed'])]
                rec = (rec + [False] * n)[:n] + [True] * (on * (len(want) - n))
                args = args0 + ['--profile'] * on
            if arg == f:
                r = sim.run('vvflow', args + [f], w, c, timeout=20)
            else:
                r = resume(sim, w, arg, how, c, args)
            sim.probe['resumed' if arg != f else 'started'] += 1
            if not r.c['KILL']:
                if r.rc:
                    return [viol('torn-stepdata' if torn else 'resume-fails', 'run %d (%s): %s' % (killed + 1, arg, base.brief(r)), n=killed)]
                break
            killed += 1
            op = last_op(r)
            torn = torn or in_history(op)
            g = sim.h5tree(w)
            new = newest(g, cap)
            x = self.after(self.most(g.get(sd), case), g[new] if new else None, self.most(h[sd], case), want, killed == 1)
            sig.append((op, new))
            if x:
                return [viol('torn-stepdata' if torn else 'history', 'killed in %s of %s, newest snapshot %s: %s' % (op[0] if op else '?', op[1] if op else '?', new, x), n=killed, at=c['kill'])]
            if torn and (sd in g and not g[sd].ok):
                return [viol('torn-stepdata', 'killed in %s of %s: the step history cannot be read any more' % (op or ('?', '?')), n=killed, at=c['kill'])]
            sim.probe['history on disk complete after a kill'] += 1
            if killed > 1:
                sim.probe['killed twice'] += 1
            sim.probe['killed'] += 1
            li = [a for a, b in snapshots(g, cap).items() if b.ok]
            how = k['how']
            if not li:
                arg = f
                sim.probe['no snapshot yet'] += 1
            elif k['older']:
                arg = li[int(k['older'] * len(li))]
                sim.probe['resumed from an older snapshot'] += 1
                for a in li: # their future has not happened any more
                    if a > arg:
                        os.unlink(os.path.join(w, a))
            else:
                arg = new
            now = step_times(g, cap) or []
            if li and now and now[-1] >= float(frac(g[arg].attr[('/', 'time')])):
                sim.probe['steps lost and repeated'] += 1
        if not killed:
            return []
        sim.sig(s, sig)
        g = sim.h5tree(w)
        got = step_times(g, cap)
        if got is None:
            return [viol('torn-stepdata' if torn else 'history', 'no readable step history after %d kills and resumes' % killed)]
        y = self.most(g[sd], case)
        x = self.times(got, want) or self.shapes(y, want) or self.holes(y, self.most(h[sd], case)) or (case['mixed'] and self.profiles(g[sd], h[sd], rec, heated(s) or collides(s)))
        if case['mixed']:
            sim.probe['profiles of some steps'] += 1
        if x:
            return [viol('torn-stepdata' if torn else 'history', 'after %d kills and resumes: %s' % (killed, x))]
        return []

    def most(self, x, case):
        """A step history without what only some processes record."""
        if x is not None and case['mixed']:
            x = copy.copy(x)
            x.dset = {k: v for k, v in x.dset.items() if not k.endswith(('/pressure', '/friction'))}
        return x

    def profiles(self, x, ref, rec, any_value):
        """Pressure and friction after a chain of processes with and without --profile: of the recorded steps, nothing at the others."""
        for k, v in sorted(ref.dset.items()):
            y = x.dset.get(k)
            if not k.endswith(('/pressure', '/friction')) or y is None and True not in rec:
                continue
            if y is None or y[1] != (len(rec), v[1][1]):
                return '%s is %s, %d steps should be in it' % (k, y and y[1], len(rec))
            for i, (a, b) in enumerate(zip(rows(y), rows(v))):
                if rec[i] and not any_value and not all(near(p, q, 1e-3) for p, q in zip(a, b)):
                    return '%s row %d is not that of its step' % (k, i)
                if not rec[i] and any(p == p for p in a):
                    return '%s row %d is of a step that was not recorded' % (k, i)
        return None

    def after(self, x, snap, ref, want, first):
        """What a kill leaves: every step before the newest snapshot."""
        if snap is None:
            return None
        n = sum(1 for t in want if t < f32(float(frac(snap.attr[('/', 'time')]))))
        if n == 0:
            return None
        if x is None:
            return 'the step history does not exist'
        if not x.ok or '/time' not in x.dset or x.bad:
            return 'the step history cannot be read'
        got = [q[0] for q in rows(x.dset['/time'])]
        if got[:n] != want[:n]:
            return 'the %d steps before the snapshot are not all in the step history, which has %d' % (n, len(got))
        for k, v in sorted(ref.dset.items()):
            y = x.dset.get(k)
            if y is None or y[1][0] < n:
                return '%s has %s of the %d steps before the snapshot' % (k, y and y[1][0], n)
            m = n * v[1][1] * 4
            if first and y[2][:m] != v[2][:m]:
                return '%s differs from the undisturbed run before the snapshot' % k
        return None

    def times(self, got, want):
        if got == want:
            return None
        for i in range(max(len(got), len(want))):
            a = got[i] if i < len(got) else None
            b = want[i] if i < len(want) else None
            if a != b:
                return 'row %d is of time %s instead of %s (%d rows instead of %d)' % (i, a, b, len(got), len(want))

    def shapes(self, x, want):
        for k, v in sorted(x.dset.items()):
            if v[1][0] != len(want):
                return '%s has %d rows for %d steps' % (k, v[1][0], len(want))
        return None

    def holes(self, x, ref):
        for k, v in sorted(ref.dset.items()):
            if k not in x.dset or x.dset[k][1] != v[1]:
                return '%s is %s instead of %s' % (k, x.dset[k][1] if k in x.dset else 'missing', v[1])
            for i, (a, b) in enumerate(zip(nums(x.dset[k]), nums(v))):
                if a != a and b == b:
                    return '%s row %d was never written' % (k, i // v[1][1])
        return None

    def pin(self, case, v):
        if v.get('at'):
            c = copy.deepcopy(case)
            c['chain'] = c['chain'][:v['n']]
            c['chain'][-1]['kill'] = v['at']
            return c

    def shrink(self, case):
        if len(case['chain']) > 1:
            for x in ddmin(case['chain']):
                if x:
                    yield dict(case, chain=x)
        if case.get('mixed'):
            yield dict(case, mixed=None)
        for k in ('args', 'sensors'):
            if case[k]:
                yield dict(case, **{k: []})
        for i, k in enumerate(case['chain']):
            for key, val in (('frac', 0), ('older', 0), ('how', 'file')):
                if k[key] != val:
                    c = copy.deepcopy(case)
                    c['chain'][i][key] = val
                    yield c
            if k['p'].get('threads') or k['p'].get('clk'):
                c = copy.deepcopy(case)
                c['chain'][i]['p'] = {}
                yield c
            if isinstance(k['kill'], int):
                for q in (k['kill'] // 2, k['kill'] - 1):
                    if q > 0:
                        c = copy.deepcopy(case)
                        c['chain'][i]['kill'] = q
                        yield c
        if case['end']['p']:
            yield dict(case, end={'p': {}})
        if case['scene']['caption'] != 'c':
            c = copy.deepcopy(case)
            c['scene']['caption'] = 'c'
            yield c
        for s in scen.shrink(case['scene']):
            yield dict(case, scene=s)


# ------------------------------------------------------------------------ P09
class P09(Prop):
    id = 'P09'
    quick = (2500, 50)
    thorough = (10000000, 600)
    must = ('compared', 'resumed', 'killed', 'ink', 'negative start', 'several simulations in one process', 'finish extended', 'odd caption', 'no snapshot due')
    rule = ('a case is one problem with drawn steps, cadences and start, and one history (one process, several simulate() calls, kills, resumes, a later finish); '
            'the expected files, times and numbers of ink points come from exact rational arithmetic; distinct by problem and history')

    def gen(self, r, i, tier):
        s = scen.scene(r, steps=1, bodies=r.choice([0, 0, 0, 1]), vort=r.choice([1, 3]), ink=True, extra=False, sinks=False, roots=False, springs=False)
        s['caption'] = r.choice(CAPTIONS)
        a, b = r.choice([(1, 10), (1, 20), (1, 8), (3, 40), (1, 7), (1, 3), (2, 30), (5, 100), (1, 1000), (7, 60), (1, 1), (2, 1), (13, 1000), (1, 997), (1, 100003), (7, 65536), (1, 40009)])
        s['dt'] = [a, b]
        n = r.choice([2, 5, 12, 30]) if not s['bodies'] else r.choice([2, 5, 9])
        k = r.choice([1, 2, 3, 5, 7])
        s['dt_save'] = r.choice([[a * k, b], [a * k * 3, b * 3], [k, r.choice([10, 20, 7])], [0, 1], [a * k, b], [a, b * 2], [a * k, b]])
        s['dt_streak'] = r.choice([[a, b], [a * r.choice([1, 2, 3]), b], [1, r.choice([4, 5, 10])], [0, 1], [a * 2, b * 2]])
        if not s['ssrc']:
            s['ssrc'] = [[-1, 1.5, 1]]
        s['sdom'] = s['sdom'] if r.random() < 0.5 else []
        s['start'] = r.choice([0, 0, 0, -1, -2, -5, 1, 4, 999, b, 2 * b - 1, 123456 if b <= 1000 else 0]) if r.random() < 0.5 else 0
        if r.random() < 0.1:
            s['offset'] = r.choice([[1, 3 * b], [1, 2 * b], [-1, 4 * b]]) # a start that is no multiple of the step
        s['steps'] = s['start'] + n
        s['late'] = r.choice([0, 0, 0.25, -0.25, 0.4, -0.4])
        hist = [{'how': r.choice(['file', 'script', 'same']), 'more': r.choice([0, 0, 1, 4]), 'kill': r.random() if r.random() < 0.5 else None,
                 'frac': r.choice([0, 1000]), 'p': proc(r, False)} for _ in range(r.choice([1, 1, 2, 3]))]
        return {'scene': s, 'hist': hist}

    def run(self, case, sim):
        s = case['scene']
        cap = s['caption']
        dt = Fraction(*s['dt'])
        t0 = dt * s['start'] + (Fraction(*s['offset']) if s.get('offset') else 0)
        fin = dt * s['steps']
        finish = float(fin) + s['late'] * float(dt)
        d = sim.fresh()
        text = scen.assign(dict(s, start=0)) + 'S.time = {%d, %d}\nS.finish = %r\n' % (t0.numerator, t0.denominator, finish)
        after = [] # finishes
        more = ''
        for x in case['hist'][1:]:
            if x['how'] != 'same':
                break
            finish += x['more'] * float(dt)
            after.append(finish)
            more += 'S.finish = %r\nsimulate()\n' % finish
        if more:
            sim.probe['several simulations in one process'] += 1
        finish = float(fin) + s['late'] * float(dt)
        base.write(d, 's.lua', text + 'simulate()\n' + more)
        x = case['hist'][0]
        probe = None
        if x['kill'] is not None:
            dx = sim.fresh('x')
            probe = base.lua(sim, dx, text + 'simulate()\n' + more, timeout=10)
            if probe.rc:
                sim.probe['reference: ' + base.brief(probe)[:40]] += 1
                return []
        i = 0
        todo = list(case['hist'])
        arg = 's.lua'
        # the finish of whichever simulation is running
        first = True
        killed = torn = False
        last_finish = after[-1] if after else finish
        while todo:
            x = todo.pop(0)
            if not first and x['how'] == 'same' and not killed:
                continue # done by the first process
            kill = {'kill': x['kill'] if isinstance(x['kill'], int) else 1 + int(x['kill'] * probe.c['MUT']), 'killfrac': x['frac']} if x['kill'] is not None and probe else {}
            c = cfg(x['p'], trace=1, **kill)
            if first:
                r = sim.run('vvflow', ['s.lua'], d, c, timeout=20)
            else:
                h = sim.h5tree(d)
                new = newest(h, cap)
                if x['more']:
                    last_finish += x['more'] * float(dt)
                    sim.probe['finish extended'] += 1
                if new is None:
                    r = sim.run('vvflow', ['s.lua'], d, c, timeout=20)
                    last_finish = after[-1] if after else finish
                else:
                    r = resume(sim, d, new, 'script', c, [], last_finish)
                    sim.probe['resumed'] += 1
            if r.c['KILL']:
                killed = True
                sim.probe['killed'] += 1
                op = last_op(r)
                if in_history(op):
                    sim.probe['killed within the step history'] += 1
                    for f in os.listdir(d): # P08's subject
                        if f.startswith('stepdata'):
                            os.unlink(os.path.join(d, f))
                            torn = True
                if not todo:
                    todo.append({'how': 'script', 'more': 0, 'kill': None, 'frac': 0, 'p': {}})
            elif r.rc:
                if first:
                    sim.probe['reference: ' + base.brief(r)[:40]] += 1
                    return []
                return [viol('resume-fails', base.brief(r))]
            first = False
            v = self.judge(case, sim, d, t0, dt, last_finish, bool(r.c['KILL']), torn)
            if v:
                return [v]
        sim.sig(s, case['hist'])
        return []

    def judge(self, case, sim, d, t0, dt, finish, partial, torn):
        s = case['scene']
        cap = s['caption']
        h = sim.h5tree(d)
        save = Fraction(*s['dt_save'])
        streak = Fraction(*s['dt_streak'])
        steps = []
        t = t0
        end = Fraction(finish) + dt / 2
        while t < end - dt / 1000:
            steps.append(t)
            t += dt
        if abs(t - end) < dt / 1000:
            sim.probe['ambiguous end'] += 1
            return None
        want, ink, n = {}, {}, len(s['sdom'])
        for t in steps:
            if save and t >= 0 and (t / save).denominator == 1:
                q = t / dt + Fraction(1, 2)
                if abs(q - round(q)) < Fraction(1, 1000): # the number is rounded one way or the other
                    return None
                name = 'results_%s/%06d.h5' % (cap, math.floor(q))
                want[name] = t # of two with one name the later stays
                ink[name] = n
            if streak and (t / streak).denominator == 1:
                n += len(s['ssrc'])
        have = snapshots(h, cap)
        extra = sorted(set(have) - set(want))
        lost = sorted(set(want) - set(have))
        if extra:
            return viol('cadence', 'a snapshot %s that is not due (%d due)' % (extra[0], len(want)))
        if lost and not partial:
            return viol('cadence', 'no snapshot %s, due at t=%s' % (lost[0], want[lost[0]]))
        # in a killed run they appear in order
        if partial and have and any(want[k] < frac(have[m].attr[('/', 'time')]) for k in lost for m in have if ('/', 'time') in have[m].attr):
            return viol('cadence', 'no snapshot %s though there is a later one' % lost[0])
        others = [k for k in sim.tree(d) if k != 'inner.txt' and not k.endswith(('.lua', '.h5')) and not (partial and k.endswith('.tmp')) and not k.startswith('velocity')]
        others = [k for k in others if not k.endswith('.tmp')]
        if others or any(not k.startswith(('results_%s/' % cap, 'stepdata_%s.h5' % cap)) for k in h):
            return viol('names', 'an unexpected file: %s' % (others or sorted(h))[0])
        for k, x in have.items():
            if frac(x.attr[('/', 'time')]) != want[k] and len([1 for v in want.values() if v == want[k]]) == 1:
                return viol('time', '%s is of time %s instead of %s' % (k, frac(x.attr[('/', 'time')]), want[k]))
            if x.attr[('/', 'caption')][1].split(b'\\0')[0].decode() != cap and x.attr[('/', 'caption')][1].rstrip(b'\0').decode('utf8', 'replace') != cap:
                return viol('names', 'the caption in %s is %r' % (k, x.attr[('/', 'caption')][1][:40]))
            m = x.dset['/ink'][1][0] if '/ink' in x.dset else 0
            if not s['bodies'] and m != ink[k]:
                return viol('ink', '%s has %d ink points instead of %d' % (k, m, ink[k]))
            if m > ink[k]:
                return viol('ink', '%s has %d ink points, more than the %d ever shed' % (k, m, ink[k]))
        if not partial and torn:
            sim.probe['compared'] += 1
        elif not partial:
            got = step_times(h, cap)
            if got != [f32(float(t)) for t in steps]:
                a = [f32(float(t)) for t in steps]
                i = [j for j in range(max(len(a), len(got or []))) if j >= len(a) or not got or j >= len(got) or a[j] != got[j]][0]
                return viol('steps', 'the step history has %d rows instead of %d, the first difference is row %d: %s instead of %s' %
                            (len(got or []), len(a), i, got[i] if got and i < len(got) else None, a[i] if i < len(a) else None))
            sim.probe['compared'] += 1
        for k, b in (('ink', n > 0), ('negative start', t0 < 0), ('odd caption', cap != 'c'), ('no snapshot due', not want), ('off-grid start', 'offset' in s)):
            if b:
                sim.probe[k] += 1
        return None

    def pin(self, case, v):
        return None

    def shrink(self, case):
        if len(case['hist']) > 1:
            for x in ddmin(case['hist']):
                if x:
                    yield dict(case, hist=x)
        for i, x in enumerate(case['hist']):
            for k, v in (('kill', None), ('more', 0), ('p', {}), ('frac', 0)):
                if x[k] != v:
                    c = copy.deepcopy(case)
                    c['hist'][i][k] = v
                    yield c
        for k, v in (('caption', 'c'), ('late', 0), ('sdom', []), ('bodies', []), ('vort', [])):
            if case['scene'].get(k) != v:
                c = copy.deepcopy(case)
                c['scene'][k] = v
                yield c
        if 'offset' in case['scene']:
            c = copy.deepcopy(case)
            del c['scene']['offset']
            yield c
        n = case['scene']['steps'] - case['scene']['start']
        for m in (1, n // 2, n - 1):
            if 0 < m < n:
                c = copy.deepcopy(case)
                c['scene']['steps'] = c['scene']['start'] + m
                yield c
        if case['scene']['start']:
            c = copy.deepcopy(case)
            c['scene']['steps'] -= c['scene']['start']
            c['scene']['start'] = 0
            yield c


# ------------------------------------------------------------------------ P10
class P10(Prop):
    id = 'P10'
    quick = (900, 55)
    thorough = (10000000, 700)
    must = ('resumed', 'resumed after a kill', 'chain of resumes', 'identical to the end', 'moving bodies', 'springs', 'profile', 'threads', 'script')
    rule = ('a case is one problem, one way of stopping (a finished run, a kill) and one or several resumes, each in a process with its own heap, clock and threads; '
            'distinct by problem and resumes; every later snapshot and step record is compared with the run that was never interrupted')

    def gen(self, r, i, tier):
        s = scen.scene(r, steps=r.choice([3, 4, 6, 8]), save=r.choice([1, 1, 1, 2, 3]), collide=None if r.random() < 0.05 else False,
                       extra=None if r.random() < 0.7 else False)
        if s.get('extra') and r.random() < 0.9:
            for b in s['extra']['body'].values():
                b[:] = [x for x in b if x[1] not in ('heat_condition', 'general_heat_const')]
        return {'scene': s, 'args': r.choice([[], [], ['--profile']]), 'kill': r.random() if r.random() < 0.4 else None, 'frac': r.choice([0, 1000]),
                'at': [r.random() for _ in range(r.choice([1, 1, 2, 3]))],
                'how': r.choice(['file', 'file', 'script']), 'p': proc(r), 'chain': r.random() < 0.5}

    def run(self, case, sim):
        s = case['scene']
        d = sim.fresh('prep')
        args = list(case['args'])
        f = start(sim, d, case, args)
        w = base.copy_to(sim, d, 'w')
        ref = sim.run('vvflow', args + [f], w, base.REF, timeout=10)
        if ref.rc:
            sim.probe['reference: ' + base.brief(ref)[:40]] += 1
            return []
        h = sim.h5tree(w)
        snaps = list(snapshots(h))
        if not snaps:
            sim.probe['no snapshot'] += 1
            return []
        kind = 'resume-heat' if heated(s) else 'resume'
        if case['kill'] is not None:
            k = base.copy_to(sim, d, 'k')
            n = case['kill'] if isinstance(case['kill'], int) else 1 + int(case['kill'] * ref.c['MUT'])
            r = sim.run('vvflow', args + [f], k, dict(base.REF, kill=n, killfrac=case['frac'], trace=1), timeout=20)
            op = last_op(r)
            new = newest(sim.h5tree(k))
            if not r.c['KILL'] or new is None or in_history(op):
                sim.probe['nothing to resume'] += 1
                return []
            sim.probe['resumed after a kill'] += 1
            return self.follow(sim, case, k, new, h, args, kind)
        if case['chain']: # every snapshot of one process is the start of the next
            at = sorted({snaps[int(u * len(snaps))] for u in case['at']})
            w2 = base.copy_to(sim, w, 'c')
            for x in snaps:
                if x > at[0]:
                    os.unlink(os.path.join(w2, x))
            if len(at) > 1:
                sim.probe['chain of resumes'] += 1
            for x in at:
                v = self.follow(sim, case, w2, x, h, args, kind)
                if v:
                    return v
            return []
        for u in case['at']:
            x = snaps[int(u * len(snaps))]
            w2 = base.copy_to(sim, w, 'c')
            for y in snaps:
                if y > x:
                    os.unlink(os.path.join(w2, y))
            v = self.follow(sim, case, w2, x, h, args, kind)
            if v:
                return v
        return []

    def follow(self, sim, case, w, snap, h, args, kind):
        r = resume(sim, w, snap, case['how'], cfg(case['p']), args)
        sim.sig(case['scene'], snap, case['kill'], case['how'])
        if r.rc:
            return [viol(crash_kind(r) or 'resume-fails', 'resuming from %s: %s' % (snap, base.brief(r)))]
        sim.probe['resumed'] += 1
        s = case['scene']
        for k, b in (('moving bodies', scen.moving(s)), ('profile', '--profile' in args), ('threads', 'threads' in case['p']), ('script', case['how'] == 'script'),
                     ('springs', any(k.startswith('spring') for b in s['bodies'] for k, _ in b['set']))):
            if b:
                sim.probe[k] += 1
        g = sim.h5tree(w)
        want = snapshots(h)
        have = snapshots(g)
        if sorted(want) != sorted(have):
            return [viol(kind, 'resumed from %s: other snapshots: %s' % (snap, sorted(set(want) ^ set(have))[:3]))]
        until = None
        if kind == 'resume' and collides(s) and at_limit(want[snap]):
            kind = 'resume-collision' # the body is bouncing at that very moment, and the file does not say so
        for k in want:
            if k < snap:
                continue
            x = want[k].same(have[k])
            if not x:
                continue
            y = close(want[k], have[k], 1e-9)
            if y:
                return [viol(kind, 'resumed from %s: %s: %s' % (snap, k, y))]
            sim.probe['differs in rounding only'] += 1
            until = f32(float(frac(want[k].attr[('/', 'time')])))
            break
        if until is None:
            sim.probe['identical to the end'] += 1
        a, b = h['stepdata_c.h5'], g.get('stepdata_c.h5')
        if b is None or sorted(a.dset) != sorted(b.dset):
            return [viol(kind, 'resumed from %s: other datasets in the step history' % snap)]
        ts = [q[0] for q in rows(a.dset['/time'])]
        for k in sorted(a.dset):
            if a.dset[k][1] != b.dset[k][1]:
                return [viol(kind, 'resumed from %s: %s has shape %s instead of %s' % (snap, k, b.dset[k][1], a.dset[k][1]))]
            for n, (p, q) in enumerate(zip(rows(a.dset[k]), rows(b.dset[k]))):
                if until is not None and ts[n] >= until:
                    break
                if p != q and not all(near(i, j, 1e-6) for i, j in zip(p, q)):
                    return [viol(kind, 'resumed from %s: %s row %d (t=%r): %r / %r' % (snap, k, n, ts[n], p[:3], q[:3]))]
        return []

    def shrink(self, case):
        if len(case['at']) > 1:
            for u in case['at']:
                yield dict(case, at=[u])
        for k, v in (('p', {}), ('args', []), ('how', 'file'), ('kill', None), ('chain', False)):
            if case[k] != v:
                yield dict(case, **{k: v})
        if case['p']:
            for k in ('clk', 'heapfill', 'threads'):
                if case['p'].get(k):
                    p = dict(case['p'])
                    del p[k]
                    if k == 'threads':
                        p.pop('sched', None)
                    yield dict(case, p=p)
        for u in (0, 0.34, 0.5, 0.67):
            if case['at'] != [u] and case['kill'] is None:
                yield dict(case, at=[u])
        for s in scen.shrink(case['scene']):
            yield dict(case, scene=s)


# ------------------------------------------------------------------------ P11
class P11(Prop):
    id = 'P11'
    quick = (700, 50)
    thorough = (10000000, 600)
    must = ('other clock, same results', 'killed', 'wall clock jumped', 'old steps on disk', 'flush in the middle of a run', 'a step that takes minutes')
    rule = ('a case is one problem under several clocks (slow steps, jumps of the wall clock back and forth, odd epochs), each run to its end and also killed at a drawn '
            'moment; distinct by problem, clock and moment')

    def gen(self, r, i, tier):
        s = scen.scene(r, steps=r.choice([4, 8, 15, 30]), save=r.choice([3, 1000]), bodies=r.choice([0, 0, 1]), vort=r.choice([2, 5]), extra=False)
        return {'scene': s, 'args': r.choice([[], ['--profile']]), 'sensors': [[0.7, 1.2]],
                'clocks': [{'clk': r.choice([1, 2, 2, 3, 3, 4, 4]), 'clkseed': r.randrange(1 << 30), 'clkwall': r.choice([1, 86400, 1500000000, 4000000000]),
                            'clkbase': r.choice([0, 1, 5, 1 << 20, 1 << 31])} for _ in range(3 if tier == 'quick' else 6)], 'kill': [r.random() for _ in range(3)]}

    def run(self, case, sim):
        d = sim.fresh('prep')
        args = list(case['args'])
        f = start(sim, d, case, args)
        w = base.copy_to(sim, d, 'w')
        ref = sim.run('vvflow', args + [f], w, base.REF, timeout=10)
        if ref.rc:
            sim.probe['reference: ' + base.brief(ref)[:40]] += 1
            return []
        h, o = base.outputs(sim, w)
        for n, c in enumerate(case['clocks']):
            c = dict({k: v for k, v in c.items() if v}, clkop='velocity')
            w = base.copy_to(sim, d, 'w')
            r = sim.run('vvflow', args + [f], w, dict(base.REF, trace=1, **c), timeout=20)
            if r.rc:
                return [viol('clock', 'under clock %s: %s' % (c, base.brief(r)))]
            g, p = base.outputs(sim, w)
            x = base.compare(h, g) or (None if o == p else 'another file differs: %s' % sorted(k for k in set(o) | set(p) if o.get(k) != p.get(k))[:2])
            if x:
                return [viol('clock', 'the results depend on the clock (%s): %s' % (c, x))]
            sim.probe['other clock, same results'] += 1
            if r.c['CLKJUMP']:
                sim.probe['wall clock jumped'] += 1
            # now die while writing a line of the velocity log
            lines = [m for m, (k, x) in enumerate([e for e in base.events(r) if e[0] in 'CWTNUM'], 1) if k == 'W' and 'velocity' in x]
            if not lines:
                continue
            u = case['kill'][n % len(case['kill'])]
            w = base.copy_to(sim, d, 'w')
            k = u if isinstance(u, int) else lines[int(u * len(lines))]
            r = sim.run('vvflow', args + [f], w, dict(base.REF, trace=1, kill=k, **c), timeout=20)
            if not r.c['KILL']:
                continue
            sim.probe['killed'] += 1
            v = self.judge(case, sim, r, w, h, k)
            if v:
                return [v]
            sim.sig(case['scene'], c, k)
        return []

    def judge(self, case, sim, r, w, h, k):
        """A step whose record was written more than 20 s (and the length of one step) before the kill must be on disk."""
        # a line of the velocity log follows the record of its step; time passes there and whenever a clock is read
        at, now = [], None
        for l in r.trace.split('\n'):
            if l.startswith('K '):
                now = int(l.split()[3])
            elif l.startswith('W ') and 'velocity' in l:
                at.append(now)
        if not at:
            return None
        now = at[-1]
        gap = max([b - a for a, b in zip(at, at[1:])] + [0])
        due = sum(1 for t in at if now - t > 22000 + gap)
        if gap > 60000:
            sim.probe['a step that takes minutes'] += 1
        x = step_times({a: b for a, b in sim.h5tree(w).items()})
        n = len(x or [])
        want = step_times(h)
        if n < due:
            return viol('flush', 'killed (operation %d) at %.1f s: the step history on disk has %d rows, but %d are more than %.0f s old' % (k, now / 1000, n, due, 22 + gap / 1000), at=k)
        if x is not None and x != want[:n]:
            return viol('flush', 'the step history on disk is not what was computed')
        if due:
            sim.probe['old steps on disk'] += 1
        if 1 < n < len(want):
            sim.probe['flush in the middle of a run'] += 1
        return None

    def pin(self, case, v):
        return None

    def shrink(self, case):
        if len(case['clocks']) > 1:
            for i in range(len(case['clocks'])):
                yield dict(case, clocks=[case['clocks'][i]], kill=[case['kill'][i % len(case['kill'])]])
        if len(case['clocks']) == 1:
            for k in ('clkwall', 'clkbase'):
                if case['clocks'][0].get(k):
                    yield dict(case, clocks=[dict(case['clocks'][0], **{k: 0})])
            for q in (0.99, 0.5, 0.8):
                if case['kill'] != [q]:
                    yield dict(case, kill=[q])
        if case['args']:
            yield dict(case, args=[])
        for s in scen.shrink(case['scene']):
            yield dict(case, scene=s)


# ------------------------------------------------------------------------ P18
class P18(Prop):
    id = 'P18'
    quick = (900, 50)
    thorough = (10000000, 600)
    must = ('lines checked', 'killed', 'resumed', 'many sensors', 'sensor inside the wake', 'same results without sensors', 'rerun', 'lines of the steps before a snapshot', 'another order', 'velocities recomputed')
    rule = ('a case is one problem, a set of sensors and a history (one run, a kill at a drawn operation, a resume, a second run); distinct by problem, sensors and history')

    def gen(self, r, i, tier):
        far = r.random() < 0.25
        if far: # what the sensors read can be told from the snapshots
            s = scen.scene(r, steps=r.choice([3, 5, 8]), save=1, bodies=0, vort=0, sinks=r.random() < 0.6, extra=False, neg_time=False, chamber=False)
            if r.random() < 0.7:
                s['vort'] = [[round(r.uniform(-0.1, 0.1), 5), round(r.uniform(-0.1, 0.1), 5), round(r.choice([1, 1, 1, -1]) * r.uniform(0.02, 0.2), 5)] for _ in range(r.choice([4, 7, 20]))]
        else:
            s = scen.scene(r, steps=r.choice([3, 5, 8]), save=r.choice([1, 2, 3]))
        se = []
        for _ in range(r.choice([1, 2, 3, 5, 40, 300])):
            k = r.random()
            if far:
                w, q = r.uniform(0, 7), r.choice([3, 5, 10, 40])
                se.append([round(q * math.cos(w), 5), round(q * math.sin(w), 5)])
            elif se and k < 0.3: # near another one, down to the same place
                q = r.choice(se)
                e = 10 ** r.uniform(-9, -0.5) if r.random() < 0.8 else 0
                se.append([q[0] + e * r.choice([-1, 0, 1]), q[1] + e * r.choice([-1, 0, 1])])
            elif s['vort'] and k < 0.4:
                se.append(list(r.choice(s['vort'])[:2]))
            elif s['bodies'] and k < 0.45: # inside
                se.append(list(r.choice(s['bodies'])['move']))
            elif k < 0.5:
                se.append([r.choice([0, 0, -0.0, 1e-300, 1e6, -1e9]), r.choice([0, 0, 5e3])])
            else:
                se.append([round(r.uniform(-3, 4), 4), round(r.choice([-1, 1]) * r.uniform(0, 3), 4)])
        return {'scene': s, 'far': far, 'sensors': se, 'pick': r.random(), 'order': r.randrange(1 << 30),
                'fmt': r.choice(['%r %r\n', '%r\t%r\n', '  %r   %r \n\n', '%r\n%r ', '\n%r %r']), 'kill': r.random(), 'frac': r.choice([0, 300, 1000]), 'args': r.choice([[], ['--profile']]),
                'p': proc(r), 'rerun': r.random() < 0.3}

    def lines(self, b):
        return b.decode('utf8', 'replace').split('\n')

    def run(self, case, sim):
        s = case['scene']
        d = sim.fresh('prep')
        f = start(sim, d, {'scene': s}, [])
        base.write(d, 'sens', ''.join(case['fmt'] % tuple(p) for p in case['sensors']))
        args = case['args'] + ['--sensors=sens']
        w = base.copy_to(sim, d, 'w')
        plain = sim.run('vvflow', case['args'] + [f], w, base.REF, timeout=10)
        if plain.rc:
            sim.probe['reference: ' + base.brief(plain)[:40]] += 1
            return []
        h, o = base.outputs(sim, w)
        o.pop('sens', None)
        if o:
            return [viol('log', 'a run without sensors leaves %s' % sorted(o)[0])]
        w = base.copy_to(sim, d, 'w')
        ref = sim.run('vvflow', args + [f], w, dict(base.REF, trace=1), timeout=20)
        if ref.rc:
            return [viol('sensors', 'with sensors: ' + base.brief(ref))]
        g, o = base.outputs(sim, w)
        x = base.compare(h, g)
        if x:
            return [viol('disturb', 'sensors change the results: ' + x)]
        sim.probe['same results without sensors'] += 1
        o.pop('sens', None)
        if sorted(o) != ['velocity_c']:
            return [viol('log', 'unexpected files: %s' % sorted(o))]
        log = o['velocity_c']
        ts = step_times(h)
        x = self.form(log, ts, len(case['sensors']))
        if x:
            return [viol('log', x)]
        sim.probe['lines checked'] += 1
        if len(case['sensors']) > 20:
            sim.probe['many sensors'] += 1
        sim.sig(s, case['sensors'], case['kill'])
        # one sensor alone sees what it sees in company
        k = int(case['pick'] * len(case['sensors']))
        w = base.copy_to(sim, d, 'w')
        base.write(w, 'sens', '%r %r\n' % tuple(case['sensors'][k]))
        r = sim.run('vvflow', args + [f], w, cfg(case['p']), timeout=20)
        if r.rc:
            return [viol('sensors', 'with one sensor: ' + base.brief(r))]
        alone = open(w + '/velocity_c', 'rb').read()
        for p, q in zip(self.lines(log)[:-1], self.lines(alone)[:-1]):
            p, q = p.split(), q.split()
            if [p[0]] + p[1 + 2 * k:3 + 2 * k] != q:
                return [viol('company', 'sensor %d at t=%s reads %s alone and %s among %d' % (k, p[0], q[1:], p[1 + 2 * k:3 + 2 * k], len(case['sensors'])))]
        if any(q.split()[1:] != self.lines(alone)[0].split()[1:] for q in self.lines(alone)[1:-1]):
            sim.probe['sensor inside the wake'] += 1
        # in another order each reads the same
        if len(case['sensors']) > 1 and 'order' in case:
            o = list(range(len(case['sensors'])))
            random.Random(case['order']).shuffle(o)
            if case['order'] % 4 == 0:
                o = o[:len(o) // 2 + 1]
            w = base.copy_to(sim, d, 'w')
            base.write(w, 'sens', ''.join('%r %r\n' % tuple(case['sensors'][n]) for n in o))
            r = sim.run('vvflow', args + [f], w, cfg(case['p']), timeout=20)
            if r.rc:
                return [viol('sensors', 'with the sensors in another order: ' + base.brief(r))]
            for p, q in zip(self.lines(log)[:-1], self.lines(open(w + '/velocity_c', 'rb').read())[:-1]):
                p, q = p.split(), q.split()
                for i, n in enumerate(o):
                    if p[1 + 2 * n:3 + 2 * n] != q[1 + 2 * i:3 + 2 * i]:
                        return [viol('company', 'sensor %d at t=%s reads %s in the order %s and %s in order' % (n, p[0], q[1 + 2 * i:3 + 2 * i], o[:9], p[1 + 2 * n:3 + 2 * n]))]
            sim.probe['another order'] += 1
        if case.get('far'):
            x = self.velocities(case, h, log)
            if x:
                return [viol('value', x)]
            sim.probe['velocities recomputed'] += 1
        # a second run adds to the log of the first
        if case['rerun']:
            w = base.copy_to(sim, d, 'w')
            for _ in range(2):
                r = sim.run('vvflow', args + [f], w, cfg(case['p']), timeout=20)
            if r.rc or open(w + '/velocity_c', 'rb').read() != log + log:
                return [viol('append', 'a second run does not append its %d lines to the log of the first' % len(ts))]
            sim.probe['rerun'] += 1
        # a kill
        w = base.copy_to(sim, d, 'w')
        n = case['kill'] if isinstance(case['kill'], int) else 1 + int(case['kill'] * ref.c['MUT'])
        r = sim.run('vvflow', args + [f], w, dict(base.REF, kill=n, killfrac=case['frac'], trace=1), timeout=20)
        if not r.c['KILL']:
            return []
        sim.probe['killed'] += 1
        left = open(w + '/velocity_c', 'rb').read() if os.path.exists(w + '/velocity_c') else b''
        if not log.startswith(left):
            return [viol('torn', 'killed at operation %d: the log is not a beginning of the complete one' % n)]
        new = newest(sim.h5tree(w))
        if new is not None: # every step before a visible snapshot has its line
            t = f32(float(frac(sim.h5(os.path.join(w, new)).attr[('/', 'time')])))
            done = sum(1 for x in ts if x < t)
            if left.count(b'\n') < done:
                return [viol('lost', 'killed at operation %d: the log has %d lines, but there is a snapshot after %d steps' % (n, left.count(b'\n'), done))]
            if done:
                sim.probe['lines of the steps before a snapshot'] += 1
        op = last_op(r)
        if new is None or in_history(op):
            return []
        h0 = sim.h5(os.path.join(w, new))
        r = resume(sim, w, new, 'file', cfg(case['p']), args)
        if r.rc:
            return [viol('resume-fails', 'resuming from %s: %s' % (new, base.brief(r)))]
        now = open(w + '/velocity_c', 'rb').read()
        if not now.startswith(left):
            return [viol('append', 'resuming loses lines of the log')]
        t = f32(float(frac(h0.attr[('/', 'time')])))
        rest = [x for x in ts if x >= t]
        x = self.form(now[len(left):], rest, len(case['sensors']))
        if x:
            return [viol('append', 'resumed from %s: %s' % (new, x))]
        sim.probe['resumed'] += 1
        if not heated(s) and not collides(s):
            want = self.lines(log)[:-1][len(ts) - len(rest):]
            p, q = want[0].split(), now[len(left):].decode().split('\n')[0].split()
            if not all(near(float(a), float(b), 2e-5) for a, b in zip(p, q)):
                return [viol('resume-value', 'resumed from %s: the first line is %s instead of %s' % (new, q[:5], p[:5]))]
        return []

    def vort(self, x):
        return rows(x.dset['/vort']) if '/vort' in x.dset else []

    def velocities(self, case, h, log):
        """Far from all vortices of a flow without bodies: the flow at infinity, sinks and the law of Biot and Savart."""
        s = case['scene']
        dt = s['dt'][0] / s['dt'][1]
        sn = {}
        for x in snapshots(h).values():
            sn[f32(float(frac(x.attr[('/', 'time')])))] = x
        for l in self.lines(log)[:-1]:
            v = [float(i) for i in l.split()]
            t = min(sn, key=lambda q: abs(q - v[0]))
            x = sn[t]
            later = [q for q in sn if q > t]
            if s['re'] != 'inf' and s['vort'] and (not later or len(self.vort(sn[min(later)])) != len(self.vort(x))):
                continue # vortices merge after the tree is built
            vort = self.vort(x)
            m = max([math.hypot(q[0], q[1]) for q in vort] + [0])
            iv = (value(s['inf_vx'], t), value(s['inf_vy'], t))
            for n, (px, py) in enumerate(case['sensors']):
                far = math.hypot(px, py)
                if m > far / 15 or any(abs(abs(t - j) - 0.0) < 1e-6 for j in (0.2, 0.3, 0.5)):
                    continue # too near; or at the edge of a step function
                vx, vy = iv
                tol = 1e-4 * (1 + abs(vx) + abs(vy))
                for q in vort:
                    dx, dy = px - q[0], py - q[1]
                    k = q[2] / (2 * math.pi * (dx * dx + dy * dy))
                    vx, vy = vx - k * dy, vy + k * dx
                    tol += (0.01 + 2 * m / far) * abs(k) * math.hypot(dx, dy) # their radii, and mergers
                for q in s['sink']:
                    dx, dy = px - q[0], py - q[1]
                    k = q[2] / (2 * math.pi * (dx * dx + dy * dy + dt / math.pi * abs(q[2])))
                    vx, vy = vx + k * dx, vy + k * dy
                    tol += 1e-3 * abs(k) * math.hypot(dx, dy)
                if abs(v[1 + 2 * n] - vx) > tol or abs(v[2 + 2 * n] - vy) > tol:
                    return 'sensor %d (%g, %g) reads %g %g at t=%g instead of %.6g %.6g' % (n, px, py, v[1 + 2 * n], v[2 + 2 * n], v[0], vx, vy)
        return None

    def form(self, log, ts, n):
        li = log.decode('utf8', 'replace').split('\n')
        if li[-1]:
            return 'the log ends within a line'
        if len(li) - 1 != len(ts):
            return 'the log has %d lines for %d steps' % (len(li) - 1, len(ts))
        for l, t in zip(li, ts):
            x = l.split()
            if len(x) != 1 + 2 * n:
                return 'a line with %d numbers for %d sensors' % (len(x), n)
            try:
                v = [float(i) for i in x]
            except ValueError:
                return 'a line that is not numbers: %r' % l[:60]
            if not near(v[0], t, 2e-5):
                return 'a line of t=%s where t=%s is due' % (x[0], t)
        return None

    def shrink(self, case):
        if len(case['sensors']) > 1:
            yield dict(case, sensors=case['sensors'][:1], pick=0)
            yield dict(case, sensors=case['sensors'][:len(case['sensors']) // 2])
        for n in range(len(case['sensors']) if 1 < len(case['sensors']) <= 6 else 0):
            yield dict(case, sensors=case['sensors'][:n] + case['sensors'][n + 1:])
        for k, v in (('args', []), ('p', {}), ('rerun', False), ('far', False), ('frac', 0), ('fmt', '%r %r\n')):
            if case.get(k, v) != v:
                yield dict(case, **{k: v})
        for s in scen.shrink(case['scene']):
            yield dict(case, scene=s)


ALL = [P08, P09, P10, P11, P18]
