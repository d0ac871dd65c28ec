"""What must not show in the results (pieces, history of the process, garbage) and what must balance at every step."""
import cmath, copy, math, os, random
from .. import scen
from ..core import CheckError, Prop, viol, crash_kind, ddmin, rows, nums
from . import base
from .sched import plot_args, tar_entries
from .record import cfg, proc, snapshots, frac, f32, near, numeric, close, heated, collides, step_times, resume, newest, value

IDLE = ['collectgarbage()', 'S:save("other.h5")', 'local a = gen_cylinder{R=0.5, N=200}', 'local a = S.time; a = S.dt; a = tostring(S.inf_vx)',
        'for i, b in ipairs(S.body_list) do local p = b:totable(); local a = b:get_area() + b:get_slen() end', 'local a = #S.vort_list + #S.sink_list',
        'local t = {} for i = 1, 20000 do t[i] = {i} end', 'pcall(function() S.no_such_field = 1 end)',
        'pcall(function() error("x") end)', 'for _, p in ipairs(S.vort_list) do local a = p.r.x + p.g end', 'pcall(S.save, S, "no/such/dir/x.h5")',
        'S.finish = S.finish', 'local c = gen_plate{R1=0.1, R2=0.1, L=0.5, N=30}; c:move_o(1); c = nil; collectgarbage()']


# ------------------------------------------------------------------------ P12
class P12(Prop):
    id = 'P12'
    quick = (1500, 55)
    thorough = (10000000, 700)
    must = ('compared', 'identical to the end', 'one simulate() per step', 'body starts or stops', 'springs', 'heat', 'threads', 'looked in between', 'sensors')
    rule = ('a case is one problem and one way of dividing its simulation among calls of simulate() in one process, with idle statements in between; compared with one call; '
            'distinct by problem and division')

    def gen(self, r, i, tier):
        s = scen.scene(r, steps=r.choice([3, 4, 6, 8]), save=r.choice([1, 1, 1, 2, 3]), collide=False, bodies=r.choice([0, 1, 1, 1, 2, 2]), chamber=False if r.random() < 0.9 else None)
        if r.random() < 0.3: # rest, motion, rest
            for b in s['bodies']:
                b['set'] = [x for x in b['set'] if not x[0].startswith(('spring', 'holder'))]
            for b in s['bodies'][:r.choice([1, 2])]:
                b['set'].append([r.choice(['holder_vx', 'holder_vy', 'holder_vo']), '"%s"' % r.choice(
                    ['t>=0.1 and t<0.25 and 0.3 or 0', 't>0.2 and 0.2 or 0', 't<0.2 and 0.4 or 0', 't*10%2<1 and 0.3 or 0'])])
        n = s['steps'] - s['start']
        k = r.random()
        cuts = list(range(s['start'], s['steps'])) if k < 0.35 else sorted({s['start'] + r.randrange(n + 1) for _ in range(r.choice([1, 2, 3]))})
        return {'scene': s, 'cuts': cuts, 'idle': [r.sample(range(len(IDLE)), r.choice([0, 0, 1, 2, 3])) for _ in cuts], 'args': r.choice([[], [], ['--profile']]),
                'sensors': [[0.7, 1.2], [-1.1, 0.3]] if r.random() < 0.4 else [], 'p': proc(r)}

    def text(self, case):
        s = case['scene']
        dt = s['dt'][0] / s['dt'][1]
        o = []
        for c, idle in zip(case['cuts'], case['idle']):
            o.append('S.finish = %r\nsimulate()' % (dt * c))
            o += ['do %s end' % IDLE[j] for j in idle]
        o.append('S.finish = %r\nsimulate()\n' % (dt * s['steps']))
        return '\n'.join(o)

    def run(self, case, sim):
        s = case['scene']
        d = sim.fresh('prep')
        args = list(case['args'])
        if case['sensors']:
            base.write(d, 'sens', ''.join('%r %r\n' % tuple(p) for p in case['sensors']))
            args.append('--sensors=sens')
        f = base.prepare(sim, d, s, 'simulate()\n')
        w = base.copy_to(sim, d, 'w')
        ref = sim.run('vvflow', args + [f], w, base.REF, timeout=10)
        if ref.rc:
            sim.probe['reference: ' + base.brief(ref)[:40]] += 1
            return []
        h, o = base.outputs(sim, w)
        d = sim.fresh('prep2')
        if case['sensors']:
            base.write(d, 'sens', ''.join('%r %r\n' % tuple(p) for p in case['sensors']))
        f = base.prepare(sim, d, s, self.text(case))
        r = sim.run('vvflow', args + [f], d, cfg(case['p']), timeout=20)
        if r.rc:
            return [viol(crash_kind(r) or 'piece-fails', 'in %d pieces: %s' % (len(case['cuts']) + 1, base.brief(r)))]
        sim.sig(s, case['cuts'], case['idle'])
        g, p = base.outputs(sim, d)
        for k in list(g):
            if k == 'other.h5':
                del g[k]
        sim.probe['compared'] += 1
        for k, b in (('one simulate() per step', len(case['cuts']) >= s['steps'] - s['start']), ('threads', 'threads' in case['p']), ('looked in between', any(case['idle'])),
                     ('springs', any(k.startswith('spring') for b in s['bodies'] for k, _ in b['set'])), ('heat', heated(s)), ('sensors', case['sensors']),
                     ('body starts or stops', any('or 0' in str(v) and k.startswith('holder_v') for b in s['bodies'] for k, v in b['set']))):
            if b:
                sim.probe[k] += 1
        # the step history grows by pieces; its rows and the snapshots are judged
        if sorted(h) != sorted(g):
            return [viol('pieces', 'in pieces: other files: %s' % sorted(set(h) ^ set(g))[:3])]
        until = None
        for k, x in snapshots(h).items():
            y = self.diff(x, g[k], 0)
            if not y:
                continue
            y = self.diff(x, g[k], 1e-9)
            if y:
                return [viol('pieces', 'in %d pieces %s: %s: %s' % (len(case['cuts']) + 1, case['cuts'], k, y))]
            sim.probe['differs in rounding only'] += 1
            until = f32(float(frac(x.attr[('/', 'time')])))
            break
        a, b = h['stepdata_c.h5'], g['stepdata_c.h5']
        if sorted(a.dset) != sorted(b.dset):
            return [viol('pieces', 'in pieces: other datasets in the step history')]
        ts = [q[0] for q in rows(a.dset['/time'])]
        for k in sorted(a.dset):
            if a.dset[k][1] != b.dset[k][1]:
                return [viol('pieces', 'in pieces: %s has shape %s instead of %s' % (k, b.dset[k][1], a.dset[k][1]))]
            for n, (x, y) in enumerate(zip(rows(a.dset[k]), rows(b.dset[k]))):
                if until is not None and ts[n] >= until:
                    break
                if x != y and not all(near(i, j, 1e-6) for i, j in zip(x, y)):
                    return [viol('pieces', 'in pieces: %s row %d (t=%r): %r / %r' % (k, n, ts[n], x[:3], y[:3]))]
        if case['sensors']:
            x, y = o.get('velocity_c', b'').split(b'\n'), p.get('velocity_c', b'').split(b'\n')
            if len(x) != len(y):
                return [viol('pieces', 'in pieces: the velocity log has %d lines instead of %d' % (len(y) - 1, len(x) - 1))]
            for n, (i, j) in enumerate(zip(x, y)):
                if until is not None and n < len(ts) and ts[n] >= until:
                    break
                if i != j and not all(near(float(a), float(b), 1e-5) for a, b in zip(i.split(), j.split())):
                    return [viol('pieces', 'in pieces: line %d of the velocity log: %s / %s' % (n, i[:60], j[:60]))]
        if until is None:
            sim.probe['identical to the end'] += 1
        return []

    def diff(self, a, b, tol):
        sk = ('time_local', 'time_to_finish')
        return close(a, b, tol, sk) if tol else a.same(b, sk)

    def shrink(self, case):
        for i in range(len(case['cuts'])):
            if len(case['cuts']) > 1:
                yield dict(case, cuts=case['cuts'][:i] + case['cuts'][i + 1:], idle=case['idle'][:i] + case['idle'][i + 1:])
            if case['idle'][i]:
                yield dict(case, idle=case['idle'][:i] + [[]] + case['idle'][i + 1:])
                for j in case['idle'][i]:
                    if len(case['idle'][i]) > 1:
                        yield dict(case, idle=case['idle'][:i] + [[j]] + case['idle'][i + 1:])
        for k, v in (('args', []), ('sensors', []), ('p', {})):
            if case[k] != v:
                yield dict(case, **{k: v})
        for s in scen.shrink(case['scene']):
            c = [x for x in case['cuts'] if x < s['steps']]
            if c:
                yield dict(case, scene=s, cuts=c, idle=case['idle'][:len(c)])


# ------------------------------------------------------------------------ P13
def inside(p, poly):
    """(inside, distance to the boundary) by an independent test."""
    w = 0
    d2 = float('inf')
    n = len(poly)
    for i in range(n):
        ax, ay = poly[i]
        bx, by = poly[(i + 1) % n]
        ux, uy = bx - ax, by - ay
        px, py = p[0] - ax, p[1] - ay
        l2 = ux * ux + uy * uy
        k = max(0.0, min(1.0, (px * ux + py * uy) / l2)) if l2 else 0.0
        d2 = min(d2, (px - k * ux) ** 2 + (py - k * uy) ** 2)
        c = ux * py - uy * px
        if ay <= p[1]:
            if by > p[1] and c > 0:
                w += 1
        elif by <= p[1] and c < 0:
            w -= 1
    return w != 0, math.sqrt(d2)


class P13(Prop):
    id = 'P13'
    quick = (1500, 55)
    thorough = (10000000, 700)
    must = ('step checked', 'circulation of a body', 'dead vorticity', 'heat without walls', 'isolated walls', 'moving body', 'springs', 'chamber', 'attached bodies', 'slip',
            'after a resume', 'threads', 'step history against snapshots', 'ink', 'merged or removed vortices',
            'heat flux', 'hits a limit', 'bounces', 'force balances', 'spring forces', 'particles of a step cut short', 'ink of a step cut short', 'one vortex died', 'turning root', 'nothing flows through the walls', 'particles go with the flow', 'particles among moving bodies', 'turns about a point other than its centre',
            'profiles against snapshots', 'same elsewhere', 'same at twice the speed', 'a vortex alone')
    rule = ('a case is one problem and one history (one run, or a resume from a drawn snapshot), under a drawn thread schedule, heap and clock; the balances are checked between all '
            'consecutive steps; distinct by problem and history')

    def gen(self, r, i, tier):
        lim = r.random() < 0.25
        s = scen.scene(r, steps=r.choice([5, 8, 14] if lim else [2, 3, 5, 8]), save=1, collide=lim, springs=lim or None, neg_time=False if r.random() < 0.9 else True, bodies=r.choice([0, 1, 1, 1, 2, 2, 3]))
        if s.get('extra'):
            k = r.random()
            if r.random() < 0.8:
                for v in s['extra']['heat']:
                    v[2] = abs(v[2])
            for b in list(s['extra']['body']):
                x = [o for o in s['extra']['body'][b] if k >= 0.8 or o[1] not in ('heat_condition', 'general_heat_const')]
                if k < 0.7:
                    x.append(['u', 'heat_condition', 1])
                s['extra']['body'][b] = x
            if k < 0.7: # all walls isolated
                for b in range(len(s['bodies'])):
                    x = s['extra']['body'].setdefault(str(b), [])
                    if not any(o[1] == 'heat_condition' for o in x):
                        x.append(['u', 'heat_condition', 1])
            elif s['bodies'] and k < 0.8:
                s['extra']['body'] = {}
        if s['bodies'] and not lim and r.random() < 0.1: # at rest, moved, at rest again
            s['steps'] = r.choice([6, 8])
            for b in s['bodies']:
                dt = s['dt'][0] / s['dt'][1]
                b['set'] = [o for o in b['set'] if not o[0].startswith(('holder_', 'spring', 'density'))]
                for k in r.choice([['vo'], ['vx'], ['vy', 'vo'], []]):
                    b['set'].append(['holder_' + k, '"t>%s and t<%s and %s or 0"' % (scen.num((r.choice([1, 2]) + 0.5) * dt), scen.num((r.choice([2, 3, 4]) + 0.5) * dt), scen.num(r.uniform(-0.8, 0.8)))])
        if len(s['bodies']) == 3 and r.random() < 0.4: # a chain that turns
            for i in (1, 2):
                s['bodies'][i]['root'] = i - 1
            s['bodies'][0]['set'] = [x for x in s['bodies'][0]['set'] if not x[0].startswith('holder_vo')] + [['holder_vo', r.choice(['"0.4"', '"0.5*sin(3*t)"', '"-0.3"'])]]
        if s['bodies'] and r.random() < 0.4: # particles within the bodies, which die at once
            for k in r.sample(['vort', 'ssrc', 'sdom'], r.choice([1, 1, 2])):
                m = r.choice(s['bodies'])['move']
                s[k].append([round(m[0] + r.uniform(-0.07, 0.07), 4), round(m[1] + r.uniform(-0.07, 0.07), 4), round(r.choice([-1, 1]) * r.uniform(0.02, 0.2), 5) if k == 'vort' else 1])
                if k == 'ssrc' and not s['dt_streak']:
                    s['dt_streak'] = s['dt']
        if not s['bodies'] and r.random() < 0.5: # a few vortices, far from each other or in one place
            k = r.choice([0, 1, 1, 2, 3, 25])
            s['vort'] = [[round(r.uniform(-2, 3), 4), round(r.uniform(-2, 2), 4), round(r.choice([-1, 1]) * r.uniform(0.02, 0.3), 5)] for _ in range(k)]
            if k > 1:
                v = r.choice(s['vort'])
                s['vort'].append([v[0], v[1], r.choice([v[2], -v[2], 0.05])] if r.random() < 0.4 else [r.choice([-200, 150]), r.choice([0, 90]), 0.1])
            if r.random() < 0.6:
                s['sink'] = []
        if not lim and r.random() < 0.2: # so few particles that none is far
            s = scen.scene(r, steps=r.choice([1, 1, 2]), save=1, bodies=1, collide=False, chamber=False, extra=False, neg_time=False, inviscid=True, vort=0, moving=True if r.random() < 0.8 else None)
            b = s['bodies'][0]
            b['gen'] = r.choice(['gen_cylinder{R=0.5, N=%d}', 'gen_cylinder{R=0.2, N=%d}', 'gen_semicyl{R=0.5, N=%d}']) % r.choice([8, 9, 10, 12])
            if r.random() < 0.6:
                b['gen'] = scen.UNEVEN % (b['gen'], 0, 0)
            for _ in range(r.choice([1, 2, 3])):
                w, q = r.uniform(0, 7), r.choice([0.45, 0.55, 0.6, 0.7, 1.2])
                s['vort'].append([round(b['move'][0] + q * math.cos(w), 5), round(b['move'][1] + q * math.sin(w), 5), round(r.uniform(-0.1, 0.1), 6)])
        shift = None
        if r.random() < 0.25:
            shift = [r.choice([0, -16, -100] + [32] * (not s.get('extra'))), r.choice([64, -20.5, 0.0625])] # heat ends at x=12
        if not shift:
            for b in s['bodies']: # an axis other than the centre
                if b['gen'][:4] == 'gen_' and r.random() < 0.25 and not any(k.startswith('collision') for k, _ in b['set']):
                    b['set'].append(['holder_pos', '{%r, %r, 0}' % tuple(round(m + r.uniform(-0.3, 0.3), 4) for m in b['move'])])
        return {'scene': s, 'shift': shift, 'args': r.choice([[], ['--profile']]), 'p': proc(r), 'at': r.random() if not shift and not lim and r.random() < 0.35 else None,
                'sched': {'sched': r.choice([1, 2]), 'threads': r.choice([2, 3, 5]), 'prob': r.choice([5, 30]), 'chunk': 1, 'seed': r.randrange(1 << 30), 'maxev': 400000000} if r.random() < 0.3 else {}}

    def run(self, case, sim):
        s = case['scene']
        d = sim.fresh('prep')
        f = base.prepare(sim, d, s)
        w = base.copy_to(sim, d, 'w')
        c = cfg(case['p'])
        c.update(case['sched'])
        r = sim.run('vvflow', case['args'] + [f], w, c, timeout=15)
        if r.rc:
            sim.probe['run: ' + base.brief(r)[:40]] += 1
            return []
        h = sim.h5tree(w)
        snaps = list(snapshots(h))
        if case['at'] is not None and len(snaps) > 1:
            x = snaps[int(case['at'] * (len(snaps) - 1))]
            r = resume(sim, w, x, 'file', cfg(case['p']), case['args'])
            if r.rc:
                return []
            h = sim.h5tree(w)
            sim.probe['after a resume'] += 1
        sim.sig(s, case['at'], case['sched'])
        if case['sched'] or 'threads' in case['p']:
            sim.probe['threads'] += 1
        want = max(0, s['steps'] - max(0, s['start']) + 1)
        if len(snapshots(h)) != want:
            return [viol('missing', '%d snapshots instead of %d' % (len(snapshots(h)), want))]
        v = self.books(case, sim, h)
        if not v and case['at'] is None:
            v = self.bounce(case, sim, d, h)
        if not v and case.get('shift') and case['at'] is None:
            v = self.place(case, sim)
        return [v] if v else []

    def generic(self, s):
        """No two distances are alike, nothing is at the limits of a cell, and no
        circulation comes out of nowhere, whose impulse depends on the place."""
        s = copy.deepcopy(s)
        for i, b in enumerate(s['bodies']):
            b['gen'] = scen.UNEVEN % (b['gen'], i, i)
            b['turn'] = (b['turn'] or 0) + 0.0471 + 0.0123 * i
            b['set'] = [o for o in b['set'] if not o[0].startswith('collision')]
        if s.get('extra'):
            s['extra']['body'] = {k: [o for o in b if o[1] != 'boundary_condition'] for k, b in s['extra']['body'].items()}
        s['inf_g'] = 0
        for n in range(0, len(s['vort']) - 1, 2):
            s['vort'][n + 1][2] = -s['vort'][n][2]
        del s['vort'][len(s['vort']) & ~1:]
        return s

    def place(self, case, sim):
        """The same problem elsewhere has the same forces and motions, and when
        everything happens twice as fast it goes the same way."""
        s = self.generic(case['scene'])
        d = case['shift']
        runs = []
        for x in (s, scen.translated(s, 1e-7 * d[0], 1e-7 * d[1]), scen.translated(s, *d), scen.hastened(s)): # the second shows what rounding alone does
            q = sim.fresh('place')
            r = sim.run('vvflow', case['args'] + [base.prepare(sim, q, x)], q, base.REF, timeout=15)
            if r.rc:
                return None
            runs.append(list(snapshots(sim.h5tree(q)).values()))
        if any(len(q) != len(runs[0]) for q in runs):
            return None
        for n in range(len(runs[0][:6])):
            st = [self.state(s, q[n]) for q in runs]
            if any(not abs(v) < 100 for b in st[0]['bodies'] for v in b['g'] + list(b['slae'])):
                return None
            a, tiny, *others = [self.seen(x, [k * u for u in d], f) for x, k, f in zip(st, (0, 1e-7, 1, 0), (1, 1, 1, 0.5))]
            for (what, u), (_, v), *zs in zip(a, tiny, *others):
                if len(u) != len(v):
                    return None
                size = 1 + max(map(abs, u), default=0)
                e = max((abs(p - q) for p, q in zip(u, v)), default=0) / size
                if not e < 1e-11:
                    sim.probe['feels rounding'] += 1
                    return None
                for (kind, how), (_, w) in zip((('place', 'after a translation by %g, %g' % tuple(d)), ('pace', 'when everything happens twice as fast')), zs):
                    if len(u) != len(w):
                        return viol(kind, 'snapshot %d: %d numbers (%s) instead of %d %s' % (n, len(w), what, len(u), how))
                    o = max((abs(p - q) for p, q in zip(u, w)), default=0)
                    if not o < (1e-5 + 1e9 * e) * size:
                        return viol(kind, 'snapshot %d: %s differ by %g %s (%s instead of %s)' % (n, what, o, how, [round(z, 6) for z in w[:6]], [round(z, 6) for z in u[:6]]))
            sim.probe['same elsewhere'] += 1
            sim.probe['same at twice the speed'] += 1
        return None

    def seen(self, st, d, f=1):
        """What of a state does not depend on the place, in one order; f brings
        speeds to the scale of the first run."""
        o = []
        for i, b in enumerate(st['bodies']):
            for k, m in (('holder', 1), ('dpos', 1), ('slae', f), ('hydro', f * f), ('hold', f * f), ('fric', f * f)):
                o.append(('%s of body %d' % (k, i), [m * (x - y) for x, y in zip(b[k], (*d, 0) if k == 'holder' else (0, 0, 0))]))
            o.append(('points of body %d' % i, [x - y for p in b['pts'] for x, y in zip(p, d)]))
            o.append(('vorticity of body %d' % i, [f * x for x in b['g']]))
            o.append(('dead vorticity of body %d' % i, [f * x for x in list(b['gsum']) + [b['dead'], b['fdt'][2]]]))
        for k in ('vort', 'heat', 'ink'):
            o.append((k, [m * (x - y) for p in st[k] for x, y, m in zip(p, (*d, 0), (1, 1, f if k == 'vort' else 1))]))
        return o

    def bounce(self, case, sim, d, h):
        """The first body that hits a limit leaves it with its restitution times the speed it would have had."""
        s = case['scene']
        dt = s['dt'][0] / s['dt'][1]
        st = [self.state(s, x) for x in snapshots(h).values()]
        for n in range(len(st) - 1):
            mv, hit = stop(st[n]['bodies'], dt)
            if mv is None:
                return None
            if hit:
                break
        else:
            return None
        i, j = hit
        k = s['bodies'][i].get('bounce', 0)
        q = sim.fresh('free') # a restitution of -1 is no collision
        f = base.prepare(sim, q, dict(s, steps=n + 1, bodies=[dict(x, bounce=-1) for x in s['bodies']]))
        r = sim.run('vvflow', case['args'] + [f], q, base.REF, timeout=15)
        x = list(snapshots(sim.h5tree(q)).values())
        if r.rc or len(x) <= n + 1:
            sim.probe['no run to compare the bounce with'] += 1
            return None
        other = self.state(s, x[n + 1])
        free = other['bodies'][i]['slae'][j]
        big = max(abs(v) for y in (st[n], st[n + 1], other) for b in y['bodies'] for v in b['g'] + list(b['slae']) + list(b['hold']))
        if not big < 1e6: # a singular system
            return None
        was, now = st[n]['bodies'][i]['slae'][j], st[n + 1]['bodies'][i]['slae'][j]
        if abs(now + k * free) > 1e-6 * (abs(free) + abs(now)) + 1e-9 * (1 + big) or k and abs(was) > 1e-3 and abs(free) < 1e-9:
            return viol('bounce', 'after the limit the speed of body %d is %g instead of %g (bounce %g, unhindered %g, before %g)' % (i, now, -k * free, k, free, was))
        sim.probe['bounces'] += 1
        return self.cut(case, sim, f, h, n, mv)

    def cut(self, case, sim, f, h, n, mv):
        """What the collision ends ends for every particle: it goes its unhindered way for the same time."""
        s = case['scene']
        dt = s['dt'][0] / s['dt'][1]
        if not mv < 0.95 * dt:
            return None
        q = sim.fresh('wide')
        base.prepare(sim, q, dict(s, steps=n + 1, bodies=[dict(x, set=[o for o in x['set'] if not o[0].startswith('collision')]) for x in s['bodies']]))
        r = sim.run('vvflow', case['args'] + [f], q, base.REF, timeout=15)
        x, y = list(snapshots(sim.h5tree(q)).values()), list(snapshots(h).values())
        if r.rc or len(x) <= n + 1:
            return None
        a, b, c = self.state(s, y[n]), self.state(s, y[n + 1]), self.state(s, x[n + 1])
        if self.state(s, x[n])['bodies'][0]['g'] != a['bodies'][0]['g']:
            sim.probe['no way to compare'] += 1
            return None
        ids = {}
        for k in ('vort', 'heat'):
            ids[k] = [{}, {}, {}]
            for m, li in zip(ids[k], (a[k], b[k], c[k])):
                for v in li:
                    m[v[2]] = None if v[2] in m else v[:2]
        for z in a['bodies']:
            for u, v, g in zip(z['pts'], z['pts'][1:] + z['pts'][:1], z['g']):
                ids['vort'][0][g] = None if g in ids['vort'][0] else (u[0] - (v[1] - u[1]) * 1e-4, u[1] + (v[0] - u[0]) * 1e-4)
        ways = [(k, p, ids[k][1].get(g), ids[k][2].get(g)) for k in ids for g, p in ids[k][0].items() if k == 'vort' or s['re'] == 'inf'] # heat that merges is often alike
        e = mv / dt
        new = s['ssrc'] if s['dt_streak'] and round(a['t'] / dt) % max(1, s['dt_streak'][0] // s['dt'][0]) == 0 else []
        if len(b['ink']) == len(c['ink']) == len(a['ink']) + len(new): # none died
            for p in (a['ink'] + new)[:20]:
                d = min(math.hypot(u[0] - p[0] - e * (v[0] - p[0]), u[1] - p[1] - e * (v[1] - p[1])) for u in b['ink'] for v in c['ink'])
                if d > 1e-8 * (1 + abs(p[0]) + abs(p[1])):
                    return viol('cut', '%s: the ink at %g, %g did not go its way for the time of the motion, %g of %g (off by %g)' % (list(snapshots(h))[n + 1], p[0], p[1], mv, dt, d))
                sim.probe['ink of a step cut short'] += 1
        for k, p, u, v in ways:
            if p and u and v and math.hypot(v[0] - p[0], v[1] - p[1]) < 3 * dt: # two that merged may equal another that vanished
                d = math.hypot(u[0] - p[0] - e * (v[0] - p[0]), u[1] - p[1] - e * (v[1] - p[1]))
                if d > 1e-8 * (1 + abs(p[0]) + abs(p[1])):
                    return viol('cut', '%s: a particle (%s) at %g, %g did not go its way for the time of the motion, %g of %g (off by %g)' % (list(snapshots(h))[n + 1], k, u[0], u[1], mv, dt, d))
                sim.probe['particles of a step cut short'] += 1
        return None

    def books(self, case, sim, h):
        s = case['scene']
        dt = s['dt'][0] / s['dt'][1]
        wild = False
        last = None
        step = h['stepdata_c.h5']
        trows = {q[0]: n for n, q in enumerate(rows(step.dset['/time']))}
        for name, x in snapshots(h).items():
            if not all(math.isfinite(v) for k, q in x.dset.items() if q[0] == 'f8' for v in nums(q)):
                if not s['bodies'] or last and not wild:
                    return viol('finite', '%s: something is nowhere (nan)' % name)
                sim.probe['not finite'] += 1
                return None
            st = self.state(s, x)
            if any(abs(v) > 1e6 for b in st['bodies'] for v in b['g'] + list(b['slae'])):
                sim.probe['no solution'] += 1 # a singular system: the special segment sheds nothing and nothing else holds the circulation
                return None
            wild = wild or any(abs(v) > 100 for b in st['bodies'] for v in b['g'] + list(b['slae']))
            m = self.inner(case, sim, s, st, x) or (self.outer(sim, s, last, st, dt) if last else None)
            if wild:
                sim.probe['diverges'] += 1
            elif not m:
                m = self.forces(sim, s, st) or self.tight(case, sim, s, st)
            if not m:
                m = self.record(sim, s, st, step, trows, x)
            if m:
                return viol(m[0], '%s: %s' % (name, m[1]))
            sim.probe['step checked'] += 1
            last = st
        return None

    def state(self, s, x):
        """The numbers the balances need."""
        st = {'t': float(frac(x.attr[('/', 'time')])), 'bodies': []}
        for k in ('vort', 'heat', 'ink'):
            st[k] = rows(x.dset['/' + k]) if '/' + k in x.dset else []
        st['eps'] = nums(x.dset['/vort_1_eps']) if '/vort_1_eps' in x.dset else [0.0] * len(st['vort'])
        st['marker'] = numeric(*x.attr[('/', 'inf_marker')])
        for i in range(len(s['bodies'])):
            n = '/body%02d' % i
            a = {k[1]: numeric(*v) for k, v in x.attr.items() if k[0] == n and v[0] != 's'}
            q = rows(x.dset[n])
            st['bodies'].append({'pts': [p[:2] for p in q], 'g': [p[2] for p in q], 'area': a['area'][0], 'slae': a['speed_slae'], 'prev': a['speed_slae_prev'],
                                 'ks': a['spring_const'], 'cmin': a['collision_min'], 'cmax': a['collision_max'],
                                 'holder': a['holder_position'], 'dpos': a['delta_position'], 'dead': a['g_dead'][0], 'hydro': a['force_hydro'], 'hold': a['force_holder'],
                                 'gsum': [p[3] for p in q], 'fdt': a['fdt_dead'], 'fric': a['friction_prev'], 'kd': a['spring_damping'],
                                 'shear': nums(x.dset['/fric_body%02d' % i]) if '/fric_body%02d' % i in x.dset else [0.0] * len(q)})
        return st

    def opt(self, s, i, name, default=0):
        for o in (s.get('extra') or {'body': {}})['body'].get(str(i), []):
            if o[1] == name:
                return o[2]
        return default

    def inner(self, case, sim, s, st, x):
        """Balances within one snapshot."""
        free = math.fsum(v[2] for v in st['vort'])
        scale = 1 + math.fsum(abs(v[2]) for v in st['vort'])
        once = False
        total = 0.0
        for i, b in enumerate(st['bodies']):
            b['G'] = math.fsum(b['g'])
            total += b['G'] + 2 * b['area'] * b['slae'][2]
            scale += math.fsum(abs(g) for g in b['g']) + abs(b['area']) * (abs(b['slae'][2]) + abs(b['prev'][2]))
        tol = 1e-7 * scale
        for i, b in enumerate(st['bodies']):
            if self.opt(s, i, 'boundary_condition') == 1: # kutta
                k = dict(map(tuple, s['bodies'][i]['set'])).get('special_segment', '0')
                if abs(b['g'][int(k)]) > tol:
                    return 'kutta', 'the special segment of body %d sheds %g' % (i, b['g'][int(k)])
                sim.probe['kutta'] += 1
            elif not once:
                once = True
                if abs(total + free + s['inf_g']) > tol:
                    return 'circulation', 'bodies %g + free %g + infinity %g make %g instead of 0' % (total, free, s['inf_g'], total + free + s['inf_g'])
                sim.probe['circulation of a body'] += 1
            else:
                a, c = b['G'] + 2 * b['area'] * b['slae'][2], b['dead'] + 2 * b['area'] * b['prev'][2]
                if abs(a - c) > tol:
                    return 'circulation', 'body %d has the circulation %g instead of %g' % (i, a, c)
        # the last body that gives heat to the flow has just done so
        hot = [i for i in range(len(st['bodies'])) if self.opt(s, i, 'heat_condition')]
        if hot and self.opt(s, hot[-1], 'heat_condition') == 3:
            i = hot[-1]
            p, c = st['bodies'][i]['pts'], self.opt(s, i, 'general_heat_const')
            tail = st['heat'][-len(p):]
            if len(tail) < len(p):
                return 'heat', '%d particles of heat, though body %d sheds %d a step' % (len(tail), i, len(p))
            for n, q in enumerate(tail):
                u, v = p[n], p[(n + 1) % len(p)]
                dx, dy = v[0] - u[0], v[1] - u[1]
                w = ((u[0] + v[0] - dy) / 2, (u[1] + v[1] + dx) / 2, c * (dx * dx + dy * dy))
                if any(abs(a - b) > 1e-9 * (1 + abs(a)) for a, b in zip(w, q)):
                    return 'heat', 'body %d shed %s from its segment %d instead of %s' % (i, tuple(q[:3]), n, w)
            sim.probe['heat flux'] += 1
        # prescribed motion
        big = max([0] + [abs(v) for b in st['bodies'] for v in b['g'] + list(b['slae'])])
        for i, b in enumerate(st['bodies']):
            o = dict(map(tuple, s['bodies'][i]['set']))
            if s['bodies'][i].get('root') is not None:
                continue
            for j, (ax, sp) in enumerate((('holder_vx', 'spring_const.r.x'), ('holder_vy', 'spring_const.r.y'), ('holder_vo', 'spring_const.o'))):
                if sp in o and st['t'] > 0:
                    continue
                v = value(o.get(ax), st['t'])
                if abs(b['slae'][j] - v) > 1e-7 * (1 + abs(v)) + 1e-9 * big:
                    return 'speed', '%s of body %d is %g instead of %g' % (ax, i, b['slae'][j], v)
        return None

    def tight(self, case, sim, s, st):
        """No flow through the walls: the flow of everything through every segment is what the motion of its body makes it."""
        if not st['bodies']:
            return None
        n = sum(1 for v, e in zip(st['vort'], st['eps']) if v[2] and not e > 0)
        if n:
            return 'wall', 'at t=%g %d vortices have no radius and do not act on the bodies' % (st['t'], n)
        inf = value(s['inf_vx'], st['t']), value(s['inf_vy'], st['t'])
        dt = s['dt'][0] / s['dt'][1]
        free = list(zip(st['vort'], st['eps']))
        segs, walls = [], []
        for i, b in enumerate(st['bodies']):
            k = int(dict(map(tuple, s['bodies'][i]['set'])).get('special_segment', '0'))
            ax = [b['holder'][j] + b['dpos'][j] for j in range(2)]
            p = b['pts']
            for n, (u, v) in enumerate(zip(p, p[1:] + p[:1])):
                dx, dy = v[0] - u[0], v[1] - u[1]
                walls.append((i, n, u, dx, dy, b['g'][n], b['slae'][2], (u[0] + v[0]) / 2 - ax[0], (u[1] + v[1]) / 2 - ax[1]))
                if n != k:
                    segs.append((i, n))
        few = set(segs if len(segs) * len(walls) < 3000 else random.Random(len(free)).sample(segs, max(4, 3000 // len(walls))))
        for i, n, u, dx, dy, _, w, rx, ry in walls:
            if (i, n) not in few:
                continue
            vx, vy, _ = st['bodies'][i]['slae']
            c = u[0] + dx / 2, u[1] + dy / 2
            l2 = dx * dx + dy * dy
            li = [-(inf[1] - vy) * dx, (inf[0] - vx) * dy]
            for x, y, q in s['sink']:
                d2 = (c[0] - x) ** 2 + (c[1] - y) ** 2 + dt / math.pi * abs(q)
                li.append(q / (2 * math.pi * d2) * ((c[0] - x) * dy - (c[1] - y) * dx))
            e = 0
            for v, eps in free:
                if v[2]:
                    d2 = (v[0] - c[0]) ** 2 + (v[1] - c[1]) ** 2
                    far = through(v, u, dx, dy, 0)[0]
                    f = through(v, u, dx, dy, 1 / eps)[0]
                    li.append(-v[2] * f / (2 * math.pi))
                    # from afar it is a part of a point
                    e += abs(v[2]) / (2 * math.pi) * (min(0.13 * math.sqrt(l2 / d2), 1) + abs(f - far)) if d2 else 1
            for j, m, z, ex, ey, g, o, qx, qy in walls:
                rd = math.hypot(ex, ey) / 4
                li.append(-g * through(z, u, dx, dy, rd)[0] / (2 * math.pi))
                if o:
                    z = z[0] + ex / 2, z[1] + ey / 2
                    if (j, m) == (i, n):
                        z = z[0] - 0.001 * ey, z[1] + 0.001 * ex
                    a, b = through(z, u, dx, dy, rd)
                    li.append(o / (2 * math.pi) * (a * (qx * ey - qy * ex) - b * (qx * ex + qy * ey)))
            size = math.fsum(map(abs, li))
            if not abs(math.fsum(li)) < e + 1e-6 * size + 1e-9:
                return 'wall', 'at t=%g %g flows through segment %d of body %d (of %g, and the far vortices may make %g)' % (st['t'], math.fsum(li), n, i, size, e)
        sim.probe['nothing flows through the walls'] += 1
        return None

    def forces(self, sim, s, st):
        """Impulse, Newton's law and the springs of every body."""
        dt = s['dt'][0] / s['dt'][1]
        gr = s['gravity'] or [0, 0]
        for i, b in enumerate(st['bodies']):
            o = dict(map(tuple, s['bodies'][i]['set']))
            rho = float(o.get('density', 1))
            A, c, m = solid(b['pts'])
            if abs(A) < 1e-9:
                continue
            ax = [b['holder'][j] + b['dpos'][j] for j in range(3)]
            rx, ry = c[0] - ax[0], c[1] - ax[1]
            m += (rx * rx + ry * ry) * A
            v, u, F, H, f = b['slae'], b['prev'], b['hydro'], b['hold'], b['fdt']
            pg = [(p, g) for p, g in zip(b['pts'], b['g'])]
            d = [v[j] - u[j] for j in range(3)]
            kids = [[st['bodies'][k]['hold'][j] for j in range(3)] + [st['bodies'][k]['holder'][j] + st['bodies'][k]['dpos'][j] - ax[j] for j in range(2)]
                    for k, q in enumerate(s['bodies']) if q.get('root') == i]
            # the force of the flow is the change of the impulse
            for name, li in (
                    ('flow, x', [-g * p[1] / dt for p, g in pg] + [A * d[0] / dt, -A * (2 * c[1] + ry) * d[2] / dt, -A * rx * u[2] ** 2, b['fric'][0], -f[0] / dt, -F[0]]),
                    ('flow, y', [g * p[0] / dt for p, g in pg] + [A * d[1] / dt, A * (2 * c[0] + rx) * d[2] / dt, -A * ry * u[2] ** 2, b['fric'][1], -f[1] / dt, -F[1]]),
                    ('flow, o', [g * ((p[0] - ax[0]) ** 2 + (p[1] - ax[1]) ** 2) / 2 / dt for p, g in pg] +
                     [A * (rx * d[1] - ry * d[0]) / dt, 2 * m * d[2] / dt, b['fric'][2], -f[2] / 2 / dt, -F[2]]),
                    ('Newton, x', [-A * rho * d[0] / dt, A * rho * ry * d[2] / dt, A * rho * rx * u[2] ** 2, (rho - 1) * gr[0] * A, F[0], -H[0]] + [k[0] for k in kids]),
                    ('Newton, y', [-A * rho * d[1] / dt, -A * rho * rx * d[2] / dt, A * rho * ry * u[2] ** 2, (rho - 1) * gr[1] * A, F[1], -H[1]] + [k[1] for k in kids]),
                    ('Newton, o', [A * rho * (ry * d[0] - rx * d[1]) / dt, -m * rho * d[2] / dt, (rho - 1) * (rx * gr[1] - ry * gr[0]) * A, F[2], -H[2]] +
                     [k[2] + k[3] * k[1] - k[4] * k[0] for k in kids])):
                if abs(math.fsum(li)) > 1e-7 * math.fsum(map(abs, li)) + 1e-8:
                    return 'force', 'body %d at t=%g: %s does not balance: %g left of %g' % (i, st['t'], name, math.fsum(li), math.fsum(map(abs, li)))
            for j in range(3):
                if 0 <= b['ks'][j] < math.inf and st['t'] > 0 and st.get('hit') not in ((i, j), 'unclear'):
                    li = [H[j], -b['ks'][j] * b['dpos'][j], -b['kd'][j] * v[j]] + ([-value(o.get('holder_mo'), st['t'])] if j == 2 else [])
                    if abs(math.fsum(li)) > 1e-7 * math.fsum(map(abs, li)) + 1e-8:
                        return 'force', 'body %d at t=%g: the spring of axis %d does not balance: %g left of %g' % (i, st['t'], j, math.fsum(li), math.fsum(map(abs, li)))
                    sim.probe['spring forces'] += 1
            sim.probe['force balances'] += 1
        return None

    def dead(self, sim, s, a, b, lost):
        """What the dead vorticity leaves behind: its circulation, impulse and pressure."""
        for i, (p, q) in enumerate(zip(a['bodies'], b['bodies'])):
            big = 1 + math.fsum(map(abs, p['g'])) + math.fsum(map(abs, q['gsum']))
            if abs(math.fsum(q['gsum']) + q['dead']) > 1e-9 * big:
                return 'dead', 'body %d: its segments account for %g of %g dead circulation' % (i, -math.fsum(q['gsum']), q['dead'])
            slip = any(o[0] == 'slip' for o in s['bodies'][i]['set'])
            x, y = q['holder'][0] + q['dpos'][0], q['holder'][1] + q['dpos'][1]
            f, left = list(q['fdt']), []
            size = 1.0
            for n, (c, g, w) in enumerate(zip(q['pts'], p['g'], q['gsum'])):
                size = max(size, c[0] ** 2 + c[1] ** 2 + x * x + y * y)
                if slip or abs(g) < 1e-10:
                    f = [f[0] + c[1] * g, f[1] - c[0] * g, f[2] - ((c[0] - x) ** 2 + (c[1] - y) ** 2) * g]
                    w += g
                if abs(w) > 1e-9 * big:
                    left.append((n, -w))
            tol = 1e-8 * big * size
            if not left:
                if lost < 2 and max(map(abs, f)) > tol:
                    return 'dead', 'body %d: no vortex died, and the dead impulse is off by %g, %g, %g' % (i, *f)
            elif len(left) == 1 and lost == 1 and abs(left[0][1]) > 1e-4:
                n, g = left[0]
                r = (f[1] / g, -f[0] / g)
                o = ((r[0] - x) ** 2 + (r[1] - y) ** 2) * g
                if abs(o - f[2]) > 1e-6 * (big * size):
                    return 'dead', 'body %d: one vortex died at %g, %g, and its moment is %g instead of %g' % (i, r[0], r[1], f[2], o)
                z, e = inside(r, q['pts'])
                if (z if q['area'] < 0 else not z) and e > 1e-6:
                    return 'dead', 'body %d: the vortex that died on it was at %g, %g (%g outside)' % (i, r[0], r[1], e)
                mid = [((c[0] + k[0]) / 2, (c[1] + k[1]) / 2) for c, k in zip(q['pts'], q['pts'][1:] + q['pts'][:1])]
                ds = [math.hypot(r[0] - k[0], r[1] - k[1]) for k in mid]
                if ds[n] > min(ds) + 1e-6:
                    return 'dead', 'body %d: the vortex that died at %g, %g is charged to segment %d' % (i, r[0], r[1], n)
                sim.probe['one vortex died'] += 1
        return None

    def outer(self, sim, s, a, b, dt):
        """Balances from one step to the next."""
        if abs(b['t'] - a['t'] - dt) > 1e-6:
            return 'time', 'the step is %g instead of %g' % (b['t'] - a['t'], dt)
        n = len(a['vort']) + sum(len(x['g']) for x in a['bodies'])
        scale = 1 + math.fsum(abs(v[2]) for v in a['vort']) + math.fsum(abs(g) for x in a['bodies'] for g in x['g'])
        tol = 1e-9 * scale + 1.1e-10 * n
        x = math.fsum(v[2] for v in a['vort']) + math.fsum(g for q in a['bodies'] for g in q['g'])
        y = math.fsum(v[2] for v in b['vort']) + math.fsum(q['dead'] for q in b['bodies'])
        if abs(x - y) > tol:
            return 'vorticity', 'free and shed vorticity %.12g became %.12g, %g of it dead' % (x, y, math.fsum(q['dead'] for q in b['bodies']))
        if any(q['dead'] for q in b['bodies']):
            sim.probe['dead vorticity'] += 1
        if len(b['vort']) > n:
            return 'vorticity', '%d vortices became %d' % (n, len(b['vort']))
        if len(b['vort']) < n:
            sim.probe['merged or removed vortices'] += 1
        slips = [i for i, q in enumerate(s['bodies']) if any(o[0] == 'slip' for o in q['set'])]
        m = self.dead(sim, s, a, b, n - len(b['vort']) - sum(len(a['bodies'][i]['g']) for i in slips))
        if m:
            return m
        if any(o[0] == 'slip' for q in s['bodies'] for o in q['set']):
            sim.probe['slip'] += 1
        # a body that hits its limit ends the motion of the step
        mv, hit = stop(a['bodies'], dt)
        b['hit'] = hit if mv is not None else 'unclear'
        if mv is None:
            sim.probe['on its limit'] += 1
            return None
        if hit:
            sim.probe['hits a limit'] += 1
        for i, (p, q) in enumerate(zip(a['bodies'], b['bodies'])):
            for j in range(3):
                if s['bodies'][i].get('root') is None and 0 <= p['ks'][j] < math.inf:
                    u, v = p['holder'][j] + p['dpos'][j], q['holder'][j] + q['dpos'][j]
                    e = 1e-9 * (1 + abs(u))
                    hi, lo = [max(u, p['cmax'][j]), min(u, p['cmin'][j])] # nan is no limit
                    if p['cmax'][j] == p['cmax'][j] and v > hi + e or p['cmin'][j] == p['cmin'][j] and v < lo - e:
                        return 'limit', 'body %d went from %g to %g, past its limits %g and %g' % (i, u, v, p['cmin'][j], p['cmax'][j])
        # infinity
        for j, k in enumerate(('inf_vx', 'inf_vy')):
            w = a['marker'][j] + mv * value(s[k], a['t'])
            if abs(w - b['marker'][j]) > 1e-9 * (1 + abs(w)):
                return 'marker', 'the undisturbed flow went to %g instead of %g' % (b['marker'][j], w)
        if not s['bodies'] and not s['sink'] and len(a['vort']) < 2:
            inf = [mv * value(s[k], a['t']) for k in ('inf_vx', 'inf_vy')]
            for p, q in zip(a['vort'], b['vort']):
                if max(abs(p[j] + inf[j] - q[j]) for j in (0, 1)) > 1e-9 * (1 + abs(p[0]) + abs(p[1])):
                    return 'alone', 'a vortex alone went from %s to %s in a flow that went %s' % (p[:2], q[:2], inf)
            if a['vort']:
                sim.probe['a vortex alone'] += 1
        m = self.drift(sim, s, a, b, mv)
        if m:
            return m
        # heat
        # heat past the edge is dropped, and heat of both signs makes particles jump any distance
        far = scale > 30 or any(v[0] > 8 for v in a['heat'] + b['heat']) or len({v[2] > 0 for v in a['heat']}) > 1
        if not far and (not s['bodies'] or all(self.opt(s, i, 'heat_condition') == 1 for i in range(len(s['bodies'])))):
            x, y = math.fsum(v[2] for v in a['heat']), math.fsum(v[2] for v in b['heat'])
            if abs(x - y) > 1e-9 * (1 + math.fsum(abs(v[2]) for v in a['heat'])) + 1.1e-10 * (len(a['heat']) + sum(len(q['g']) for q in a['bodies'])):
                return 'heat', 'heat %.12g became %.12g' % (x, y)
            if a['heat']:
                sim.probe['isolated walls' if s['bodies'] else 'heat without walls'] += 1
        # bodies
        for i, (p, q) in enumerate(zip(a['bodies'], b['bodies'])):
            o = dict(map(tuple, s['bodies'][i]['set']))
            if len(p['pts']) != len(q['pts']):
                return 'body', 'body %d has %d points instead of %d' % (i, len(q['pts']), len(p['pts']))
            if any(abs(u - v) > 1e-9 * (1 + abs(u)) for u, v in zip(p['slae'], q['prev'])):
                return 'body', 'the previous speed of body %d is %s instead of %s' % (i, q['prev'], p['slae'])
            ax0 = [p['holder'][j] + p['dpos'][j] for j in range(3)]
            ax1 = [q['holder'][j] + q['dpos'][j] for j in range(3)]
            co, si = math.cos(ax1[2] - ax0[2]), math.sin(ax1[2] - ax0[2])
            for u, v in zip(p['pts'], q['pts']):
                dx, dy = u[0] - ax0[0], u[1] - ax0[1]
                w = (ax1[0] + dx * co - dy * si, ax1[1] + dy * co + dx * si)
                if abs(w[0] - v[0]) + abs(w[1] - v[1]) > 1e-9 * (1 + abs(v[0]) + abs(v[1])):
                    return 'rigid', 'a point of body %d went to %s instead of %s' % (i, tuple(v), w)
            if s['bodies'][i].get('root') is None:
                for j, k in enumerate(('holder_vx', 'holder_vy', 'holder_vo')):
                    w = p['holder'][j] + mv * value(o.get(k), a['t'])
                    if abs(w - q['holder'][j]) > 1e-9 * (1 + abs(w)):
                        return 'holder', 'the holder of body %d went to %g instead of %g' % (i, q['holder'][j], w)
                    w = ax0[j] + mv * p['slae'][j]
                    if abs(w - ax1[j]) > 1e-9 * (1 + abs(w)):
                        return 'body', 'body %d went to %g instead of %g' % (i, ax1[j], w)
            else:
                sim.probe['attached bodies'] += 1
                k = s['bodies'][i]['root']
                u, v = a['bodies'][k], b['bodies'][k]
                da = mv * u['slae'][2]
                x0, y0, x1, y1 = u['holder'][0] + u['dpos'][0], u['holder'][1] + u['dpos'][1], v['holder'][0] + v['dpos'][0], v['holder'][1] + v['dpos'][1]
                dx, dy, co, si = p['holder'][0] - x0, p['holder'][1] - y0, math.cos(da), math.sin(da)
                w = (x1 + dx * co - dy * si + mv * value(o.get('holder_vx'), a['t']), y1 + dy * co + dx * si + mv * value(o.get('holder_vy'), a['t']),
                     p['holder'][2] + da + mv * value(o.get('holder_vo'), a['t']))
                for j in range(3):
                    if abs(w[j] - q['holder'][j]) > 1e-9 * (1 + abs(w[j])):
                        return 'attached', 'the holder of body %d went to %s instead of %s with its root' % (i, q['holder'], w)
                if da:
                    sim.probe['turning root'] += 1
            for j in range(3):
                if not 0 <= p['ks'][j] < math.inf and abs(q['dpos'][j] - p['dpos'][j]) > 1e-9 * (1 + max(map(abs, p['slae']))):
                    return 'attached', 'body %d left its rigid holder: %g in axis %d' % (i, q['dpos'][j] - p['dpos'][j], j)
            if abs(ax1[0] - ax0[0]) + abs(ax1[1] - ax0[1]) + abs(ax1[2] - ax0[2]) > 1e-12:
                sim.probe['moving body'] += 1
            if any(k.startswith('spring') for k in o):
                sim.probe['springs'] += 1
            if 'holder_pos' in o and p['slae'][2]:
                sim.probe['turns about a point other than its centre'] += 1
            if q['area'] < 0:
                sim.probe['chamber'] += 1
            for kind in ('vort', 'ink') + (() if self.opt(s, i, 'heat_condition') or any(self.opt(s, j, 'heat_condition') for j in range(len(s['bodies']))) else ('heat',)):
                for v in b[kind]:
                    z, e = inside(v, q['pts'])
                    if (z if q['area'] > 0 else not z) and e > 1e-9 and abs(q['area']) > 1e-12:
                        return 'inside', 'a particle (%s) at %g, %g is inside body %d (%g deep)' % (kind, v[0], v[1], i, e)
        if b['ink']:
            sim.probe['ink'] += 1
        return None

    def drift(self, sim, s, a, b, mv):
        """Particles go with the flow: the undisturbed one and those of all vortices with their radii, sinks, and the motion of all bodies."""
        if s['re'] != 'inf' or not mv > 0 or not any(a[k] for k in ('vort', 'ink')) and not a['bodies']:
            return None # viscous vortices merge, and drive each other apart
        dt = s['dt'][0] / s['dt'][1]
        src = [(v[0], v[1], v[2]) for v in a['vort'] if v[2]]
        bound, layer = [], []
        dls = []
        for i, q in enumerate(a['bodies']):
            slips = any(o[0] == 'slip' for o in s['bodies'][i]['set'])
            ax, (vx, vy, w) = [q['holder'][j] + q['dpos'][j] for j in (0, 1)], q['slae']
            for n, (u, v) in enumerate(zip(q['pts'], q['pts'][1:] + q['pts'][:1])):
                dx, dy = v[0] - u[0], v[1] - u[1]
                dls.append(math.hypot(dx, dy))
                if slips:
                    bound.append(((u[0] + v[0]) / 2, (u[1] + v[1]) / 2, q['g'][n], dls[-1] / 3))
                elif abs(q['g'][n]) >= 1e-10:
                    src.append((u[0] - 1e-4 * dy, u[1] + 1e-4 * dx, q['g'][n]))
                if any(q['slae']):
                    layer.append([complex(*u), complex(dx, dy)] + [1j * complex(dx, dy) * complex(vx - w * (z[1] - ax[1]), -vy - w * (z[0] - ax[0])) for z in (u, v)])
        if len(src) > 150:
            return None
        # a vortex keeps its circulation, by which it is known again, with the radius it had
        by = {}
        for v, e in zip(b['vort'], b['eps']):
            by.setdefault(v[2], []).append((v, e))
        count = {}
        for v in src:
            count[v[2]] = count.get(v[2], 0) + 1
        size = lambda v: 1 / by[v[2]][0][1] if count[v[2]] == 1 and len(by.get(v[2], ())) == 1 and by[v[2]][0][1] > 0 else None
        src = [v + (size(v),) for v in src]
        inf = [value(s[k], a['t']) for k in ('inf_vx', 'inf_vy')]
        small = len(src) < 16 and len(dls) < 16 and len(a['heat']) < 16 and len(a['ink']) < 16
        if small:
            x = [v[j] for v in src for j in (0, 1)] + [p[j] for q in a['bodies'] for p in q['pts'] for j in (0, 1)]
            small = (not dls or max(x) - min(x) < 20 * math.fsum(dls) / len(dls)) and not a['heat']
        todo = [(v, by[v[2]][0][0]) for v in src if v[3] is not None]
        for v in a['ink']:
            todo.append((v, None))
        for p, q in todo[:40] if len(src) < 60 else todo[:12]:
            u, v = inf
            e = 1e-9 * (1 + abs(u) + abs(v))
            z = complex(p[0], p[1])
            for x, y, g, r in bound + src:
                dx, dy = p[0] - x, p[1] - y
                d2 = dx * dx + dy * dy
                if not d2:
                    continue
                k = g / (2 * math.pi * (d2 + (r or 0) ** 2))
                u -= k * dy
                v += k * dx
                f = abs(g) / (2 * math.pi * math.sqrt(d2))
                e += 1e-9 * f + (f if r is None else 0) + (0 if small or (x, y, g, r) in bound else f * min(1, 0.2 + (r or 0) ** 2 / (d2 + (r or 0) ** 2)))
            for x, y, g in s['sink']:
                dx, dy = p[0] - x, p[1] - y
                k = g / (2 * math.pi * (dx * dx + dy * dy + dt / math.pi * abs(g)))
                u += k * dx
                v += k * dy
            for c, dz, h, k in layer:
                z1 = z - c
                m = z1 - dz / 2
                near = abs(m) - abs(dz)
                f = (h + k) / 2 / m
                if near < 0: # the strength changes along the segment
                    z2 = z1 - dz
                    if not z1 or not z2:
                        e += 1
                        continue
                    f = -(k - h) / dz - (h * dz + (k - h) * z1) / dz ** 2 * cmath.log(z2 / z1)
                if abs(near) < 1e-9 * abs(dz):
                    e += abs(h) + abs(k)
                f /= 2 * math.pi
                u += f.real
                v -= f.imag
                e += 1e-9 * abs(f)
            w = p[0] + mv * u, p[1] + mv * v
            e = e * mv + 1e-9 * (1 + abs(p[0]) + abs(p[1]))
            if q is None:
                if any(inside(w, z['pts'])[0] != (z['area'] < 0) or inside(w, z['pts'])[1] < e + 1e-9 for z in b['bodies']):
                    continue
                d = min([math.hypot(w[0] - z[0], w[1] - z[1]) for z in b['ink']] or [math.inf])
            else:
                d = math.hypot(w[0] - q[0], w[1] - q[1])
            if not d < e:
                return 'drift', 'at t=%g a particle (%s) at %.9g, %.9g goes to %s instead of %.9g, %.9g (+- %.2g): %.2g away' % (
                    a['t'], 'ink' if q is None else 'vortex', p[0], p[1], '%.9g, %.9g' % (q[0], q[1]) if q else 'elsewhere', w[0], w[1], e, d)
            sim.probe['particles go with the flow' if small else 'particles go with the flow, about'] += 1
            if layer and q:
                sim.probe['particles among moving bodies'] += 1
        return None

    def record(self, sim, s, st, step, trows, x):
        """The step history says what the snapshot says."""
        n = trows.get(f32(st['t']))
        if n is None:
            return 'record', 'no row of t=%g in the step history' % st['t']
        for i, b in enumerate(st['bodies']):
            for k, d in (('holder', 'holder_position'), ('dpos', 'delta_position'), ('slae', 'speed_slae'), ('hydro', 'force_hydro'), ('hold', 'force_holder')):
                q = step.dset.get('/body%02d/%s' % (i, d))
                if q is None:
                    return 'record', 'no %s of body %d in the step history' % (d, i)
                r = rows(q)[n]
                if any(not near(u, f32(v), 1e-6) for u, v in zip(r, b[k]) if abs(v) < 1e38):
                    return 'record', '%s of body %d is %s in the step history, %s in the snapshot' % (d, i, r, b[k])
            # what follows from the snapshot
            nu = 0.0 if s['re'] == 'inf' else 1 / (math.pi * s['re'])
            dt = s['dt'][0] / s['dt'][1]
            want = {'force_friction': [0.0, 0.0, 0.0], 'pressure': [], 'friction': []}
            size, p = 0.0, 0.0
            ax, ay = (b['holder'][j] + b['dpos'][j] for j in range(2))
            for u, v, g, w, f in zip(b['pts'], b['pts'][1:] + b['pts'][:1], b['g'], b['gsum'], b['shear']):
                dx, dy, x, y = v[0] - u[0], v[1] - u[1], (u[0] + v[0]) / 2, (u[1] + v[1]) / 2
                k = f * nu / math.hypot(dx, dy)
                size += abs(f * nu) * (1 + abs(x) + abs(y)) + abs(g + w) / dt
                p += g + w
                for j, q in enumerate((dx * k, dy * k, ((x - ax) * dy - (y - ay) * dx) * k)):
                    want['force_friction'][j] -= q
                want['pressure'].append(p / dt)
                want['friction'].append(f * nu)
            for k, w in want.items():
                q = step.dset.get('/body%02d/%s' % (i, k))
                if q is None:
                    continue
                r = rows(q)[n]
                if k != 'force_friction':
                    if any(v != v for v in r): # a step simulated without profiles
                        continue
                    sim.probe['profiles against snapshots'] += 1
                if len(r) != len(w) or any(abs(u - v) > 1e-6 * (abs(v) + size) for u, v in zip(r, w)):
                    return 'record', '%s of body %d at t=%g is %s in the step history, %s after the snapshot' % (k, i, st['t'], [round(v, 6) for v in r[:6]], [round(v, 6) for v in w[:6]])
        sim.probe['step history against snapshots'] += 1
        return None

    def shrink(self, case):
        for k, v in (('args', []), ('p', {}), ('sched', {}), ('at', None), ('shift', None)):
            if case.get(k) != v:
                yield dict(case, **{k: v})
        for s in scen.shrink(case['scene']):
            yield dict(case, scene=s)


def stop(bodies, dt):
    """How long the motion of a step lasts, and the body and axis that end it.  None when rounding decides."""
    mv, hit = dt, None
    for i, b in enumerate(bodies):
        for j in range(3):
            if not 0 <= b['ks'][j] < math.inf:
                continue
            cur, v = b['holder'][j] + b['dpos'][j], b['slae'][j]
            new = cur + dt * v
            for lim, out in ((b['cmax'][j], new > b['cmax'][j]), (b['cmin'][j], new < b['cmin'][j])):
                if abs(new - lim) < 1e-12 * (1 + abs(lim)) or out and not v:
                    return None, None
                if out and v and (lim - cur) / v < mv:
                    mv, hit = max((lim - cur) / v, 0.0), (i, j)
    return mv, hit


def through(p, a, dx, dy, rd):
    """2*pi times what a vortex and a source of the radius rd at p let through the segment."""
    ax, ay = a[0] - p[0], a[1] - p[1]
    bx, by = ax + dx, ay + dy
    # within the disc the velocity grows with the radius, beyond it falls
    cut = [0.0, 1.0]
    l2 = dx * dx + dy * dy
    h = ax * dx + ay * dy
    q = h * h - l2 * (ax * ax + ay * ay - rd * rd)
    if rd and q > 0 and (ax * ax + ay * ay < rd * rd) != (bx * bx + by * by < rd * rd):
        cut += [k for k in ((-h - math.sqrt(q)) / l2, (-h + math.sqrt(q)) / l2) if 0 < k < 1]
        cut.sort()
    g = s = 0.0
    for k, m in zip(cut, cut[1:]):
        ux, uy, wx, wy = ax + k * dx, ay + k * dy, ax + m * dx, ay + m * dy
        cx, cy = (ux + wx) / 2, (uy + wy) / 2
        if cx * cx + cy * cy < rd * rd and (len(cut) > 2 or ax * ax + ay * ay < rd * rd):
            g += (cx * (wx - ux) + cy * (wy - uy)) / rd ** 2
            s += (cy * (wx - ux) - cx * (wy - uy)) / rd ** 2
        else:
            g += math.log((wx * wx + wy * wy) / (ux * ux + uy * uy)) / 2 if ux or uy else math.inf
            s += math.atan2(-(ux * wy - uy * wx), ux * wx + uy * wy)
    return g, s


def solid(pts):
    """Area, centre of mass and moment of inertia about it; negative for a chamber."""
    A = X = Y = M = 0.0
    for (ax, ay), (bx, by) in zip(pts, pts[1:] + pts[:1]):
        z = bx * ay - ax * by
        A += z / 2
        X += (ax + bx) * z / 6
        Y += (ay + by) * z / 6
        M += (ax * ax + ay * ay + ax * bx + ay * by + bx * bx + by * by) * z / 12
    if not A:
        return 0.0, (0.0, 0.0), 0.0
    return A, (X / A, Y / A), M - (X * X + Y * Y) / A


# ------------------------------------------------------------------------ P16
class P16(Prop):
    id = 'P16'
    quick = (1500, 55)
    thorough = (10000000, 700)
    must = ('compared', 'simulations before', 'failures before', 'bodies with heat', 'other memory content', 'plotted', 'extracted', 'heat at the edge', 'stated in the same process')
    rule = ('a case is one problem and one or two processes with a past (other simulations, loads, failures, garbage) and other memory content, after which the problem is '
            'loaded and simulated; compared bit for bit with a fresh process; distinct by problem and past')

    PAST = ['sim', 'sim', 'load', 'fail-load', 'edit', 'idle', 'fail-sim', 'grow']

    def gen(self, r, i, tier):
        s = scen.scene(r, steps=r.choice([1, 2, 3, 5]), save=r.choice([1, 1, 2]), extra=None if r.random() < 0.6 else True)
        x = s.get('extra')
        if x and r.random() < 0.3: # heat near the edge where it is dropped
            x['heat'] += [[round(r.uniform(15.2, 16.1), 4), round(r.uniform(-2, 2), 4), 0.03] for _ in range(r.choice([3, 30]))]
        past = []
        for _ in range(r.choice([0, 1, 2, 3])):
            k = r.choice(self.PAST)
            past.append({'k': k, 'scene': scen.scene(r, steps=r.choice([0, 1, 2]), extra=False) if k in ('sim', 'load', 'fail-sim', 'grow') else None, 'idle': r.randrange(len(IDLE))})
        return {'scene': s, 'past': past, 'p': proc(r), 'args': r.choice([[], ['--profile']]), 'tools': r.random() < 0.3,
                'plot': plot_args(r, len(s['bodies'])), 'fill': r.randrange(1, 7), 'direct': not x and r.random() < 0.5}

    def before(self, case):
        o = []
        for n, p in enumerate(case['past']):
            c = 'past%d' % n
            if p['k'] in ('sim', 'fail-sim', 'grow', 'load'):
                t = scen.assign(dict(p['scene'], caption=c))
                t += {'sim': 'simulate()\n', 'load': 'S:save("past.h5")\nS:load("past.h5")\n',
                      'fail-sim': 'S.re = 0 pcall(simulate) S.re = 100\n' if p['idle'] % 2 else 'S.caption = "no/such/dir/x"\npcall(simulate)\n',
                      'grow': 'for i = 1, 700 do S.vort_list:append({i*0.01, 5, 0.001}) end\n'}[p['k']]
                o.append('do\n%send' % t)
            elif p['k'] == 'fail-load':
                o.append('pcall(function() S:load("t.h5") end) pcall(function() S:load("nothing.h5") end)')
            elif p['k'] == 'edit':
                o.append('S.re = 7 S.dt = {1, 3} S.inf_vx = "sin(t)" S.gravity = {1, 2} S.inf_g = 3')
            else:
                o.append('do %s end' % IDLE[p['idle']])
        return '\n'.join(o) + '\n'

    def run(self, case, sim):
        s = case['scene']
        d = sim.fresh('prep')
        if base.prepare(sim, d, s) != 'init.h5':
            r = base.lua(sim, d, scen.assign(s) + 'S:save("init.h5")\n', 'init.lua')
            if r.rc:
                raise CheckError('cannot state the problem: %s' % r.err[:200])
        with open(d + '/init.h5', 'rb') as f:
            b = f.read()
        with open(d + '/t.h5', 'wb') as f: # sound at the beginning only
            f.write(b[:len(b) * (30 + case['fill'] * 10) // 100])
        first, then = ['init.h5'], 'S:load("init.h5")\n'
        if case['direct']: # stated in the process itself, not loaded
            if case['past']:
                base.lua(sim, d, 'S:save("empty.h5")\n', 'init.lua')
            base.write(d, 'p.lua', scen.assign(s) + 'simulate()\n')
            first, then = ['p.lua'], ('S:load("empty.h5")\n' if case['past'] else '') + scen.assign(s)
        w = base.copy_to(sim, d, 'w')
        ref = sim.run('vvflow', case['args'] + first, w, base.REF, timeout=10)
        if ref.rc:
            sim.probe['reference: ' + base.brief(ref)[:40]] += 1
            return []
        h, o = base.outputs(sim, w)
        w = base.copy_to(sim, d, 'v')
        base.write(w, 's.lua', self.before(case) + then + 'simulate()\n')
        r = sim.run('vvflow', case['args'] + ['s.lua'], w, cfg(case['p'], heapfill=case['fill']), timeout=20)
        if r.rc:
            if case['past']: # the past itself may be impossible
                q = base.copy_to(sim, d, 'x')
                base.write(q, 's.lua', self.before(case))
                if sim.run('vvflow', case['args'] + ['s.lua'], q, base.REF, timeout=20).rc:
                    sim.probe['the past fails'] += 1
                    return []
            return [viol(crash_kind(r) or 'past-fails', 'after %s: %s' % ([p['k'] for p in case['past']], base.brief(r)))]
        sim.sig(s, case['past'], case['fill'])
        g, p = base.outputs(sim, w)
        g = {k: v for k, v in g.items() if 'past' not in k and k != 'other.h5'}
        p = {k: v for k, v in p.items() if 'past' not in k}
        x = base.compare(h, g) or (None if o == p else 'another file differs')
        if x:
            return [viol('past', 'after %s, memory filled with pattern %d: %s' % ([p['k'] for p in case['past']], case['fill'], x))]
        sim.probe['compared'] += 1
        sim.probe['other memory content'] += 1
        if case['direct']:
            sim.probe['stated in the same process'] += 1
        for k, b in (('simulations before', any(q['k'] == 'sim' for q in case['past'])), ('failures before', any('fail' in q['k'] for q in case['past'])), ('bodies with heat', heated(s)),
                     ('heat at the edge', any(v[0] > 15 for v in (s.get('extra') or {'heat': []})['heat']))):
            if b:
                sim.probe[k] += 1
        if case['tools']:
            return self.tools(case, sim, w, h)
        return []

    def tools(self, case, sim, w, h):
        li = list(snapshots(h))
        if not li:
            return []
        n = li[-1]
        out = []
        for c in (base.REF, dict(base.REF, heapfill=case['fill'], heapseed=case['p'].get('heapseed', 1)), cfg(case['p'], heapfill=(case['fill'] + 2) % 7)):
            q = sim.fresh('x')
            r = sim.run('vvplot', case['plot'] + ['--tar', os.path.join(w, n), 'out.tar'], q, c, timeout=30)
            e = sim.run('vvxtract', [os.path.join(w, n)] + sorted(k[1:] for k in h[n].dset if k.startswith('/body') or k in ('/vort', '/ink', '/heat')), q, c, timeout=20)
            out.append((r.rc, tar_entries(q + '/out.tar') if r.rc == 0 else None, e.rc, e.out, r.err[:200]))
        for x in out[1:]:
            if x[:2] != out[0][:2]:
                return [viol('plot', 'vvplot depends on the content of fresh memory: %s / %s' % (out[0][4] or out[0][0], x[4] or x[0]))]
            if x[2:4] != out[0][2:4]:
                return [viol('extract', 'vvxtract depends on the content of fresh memory')]
        if out[0][0] == 0:
            sim.probe['plotted'] += 1
        if out[0][2] == 0:
            sim.probe['extracted'] += 1
        return []

    def shrink(self, case):
        for i in range(len(case['past'])):
            yield dict(case, past=case['past'][:i] + case['past'][i + 1:])
        for k, v in (('args', []), ('p', {}), ('tools', False), ('direct', False)):
            if case[k] != v:
                yield dict(case, **{k: v})
        for i, p in enumerate(case['past']):
            if p['scene']:
                for s in scen.shrink(p['scene']):
                    c = copy.deepcopy(case)
                    c['past'][i]['scene'] = s
                    yield c
        for s in scen.shrink(case['scene']):
            yield dict(case, scene=s)


ALL = [P12, P13, P16]
