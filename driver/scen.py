"""Random flow problems, as data, and the Lua scripts that state them."""
import copy
import re


def num(x):
    return repr(round(x, 6))


def speed_expr(r, amp=0.4):
    k = r.randrange(7)
    a = round(r.uniform(-amp, amp), 3)
    w = round(r.uniform(0.5, 6), 2)
    return [num(a), '%s*sin(%s*t)' % (a, w), '%s*cos(%s*t)' % (a, w), '%s*t' % a,
            't>0.3 and %s or 0' % a, 't>=0.2 and t<0.5 and %s or %s' % (a, round(-a / 2, 3)), '0'][k]


def shape(r, small=True):
    n = r.choice([10, 12, 15, 18, 20, 24, 30, 36] if small else [30, 40, 60])
    k = r.randrange(7)
    if k <= 2:
        return 'gen_cylinder{R=%s, N=%d}' % (r.choice(['0.5', '0.3', '0.4']), n)
    if k == 3:
        return 'gen_ellipse{Rx=%s, Ry=%s, N=%d}' % (r.choice(['0.5', '0.6']), r.choice(['0.25', '0.4']), max(n, 24))
    if k == 4:
        return 'gen_plate{R1=0.2, R2=%s, L=0.6, N=%d}' % (r.choice(['0.1', '0.2']), max(n, 15))
    if k == 5:
        return 'gen_parallelogram{L=0.7, H=0.4, d=%d, N=%d}' % (r.choice([60, 90, 110]), max(n, 16))
    return 'gen_semicyl{R=0.5, N=%d}' % max(n, 15)


def scene(r, bodies=None, moving=None, steps=None, ink=None, sinks=None, vort=None, inviscid=None,
          springs=None, save=None, neg_time=None, roots=None, collide=None, chamber=None, extra=None, big=False):
    """A random problem.  None leaves the choice to r."""
    s = {'caption': 'c', 'time': None, 'inf_vx': None, 'inf_vy': None, 'inf_g': 0, 'gravity': None,
         'bodies': [], 'vort': [], 'sink': [], 'ssrc': [], 'sdom': [], 'dt_streak': None, 'dt_profile': None}
    num_, den = r.choice([(1, 10), (1, 20), (1, 8), (3, 40), (1, 7), (1, 16)])
    s['dt'] = [num_, den]
    dt = num_ / den
    n = steps if steps is not None else r.choice([3, 4, 5, 6, 8, 10])
    s['steps'] = n
    s['re'] = 'inf' if (inviscid if inviscid is not None else r.random() < 0.12) else r.choice([20, 100, 200, 600, 3000])
    k = save if save is not None else r.choice([1, 1, 2, 2, 3, 4, n + 5])
    s['save_every'] = k
    if neg_time if neg_time is not None else r.random() < 0.1:
        s['start'] = -r.choice([1, 2, 3])
    else:
        s['start'] = 0
    nb = bodies if bodies is not None else r.choice([0, 1, 1, 1, 2, 2, 3])
    if nb == 0 or r.random() < 0.85:
        s['inf_vx'] = r.choice(['1', '1', '0.5', '1+0.3*sin(4*t)', 't>0.2 and 1 or 0.4', 't'])
    if r.random() < 0.25:
        s['inf_vy'] = r.choice(['0.2', '0.3*cos(3*t)', '-0.1'])
    if r.random() < 0.15:
        s['inf_g'] = r.choice([0.5, -0.3])
    for i in range(nb):
        b = {'gen': shape(r, not big), 'label': r.choice(['', 'b%d' % i, 'b%d' % i]), 'set': []}
        if r.random() < 0.1:
            b['set'].append(['slip', 'true'])
        ox = i * 1.9 + (r.uniform(-0.2, 0.2) if i else 0)
        oy = r.uniform(-0.3, 0.3) if i else 0
        b['move'] = [round(ox, 3), round(oy, 3)]
        b['turn'] = r.choice([0, 0, 0.3, -0.7])
        if r.random() < 0.3:
            b['set'].append(['special_segment', str(r.randrange(8))])
        mv = moving if moving is not None else r.random() < 0.4
        if mv:
            for ax in ('vx', 'vy', 'vo'):
                if r.random() < 0.5:
                    b['set'].append(['holder_' + ax, '"%s"' % speed_expr(r)])
        sp = springs if springs is not None else r.random() < 0.3
        if sp:
            b['set'].append(['density', r.choice(['2', '1', '5', '0.7'])])
            for ax in r.choice([['r.y'], ['r.x'], ['o'], ['r.x', 'r.y'], ['r.x', 'r.y', 'o']]):
                b['set'].append(['spring_const.' + ax, r.choice(['0', '3', '15'])])
                if r.random() < 0.5:
                    b['set'].append(['spring_damping.' + ax, r.choice(['0.1', '0.5'])])
                if collide if collide is not None else r.random() < 0.2:
                    lim = r.choice([0.002, 0.01, 0.03])
                    at = {'r.x': b['move'][0], 'r.y': b['move'][1], 'o': b['turn']}[ax] # limits are absolute
                    b['set'].append(['collision_max.' + ax, num(at + lim)])
                    b['set'].append(['collision_min.' + ax, num(at - lim)])
                    b['bounce'] = r.choice([0, 0.5, 1])
            if r.random() < 0.2:
                b['set'].append(['holder_mo', '"%s"' % speed_expr(r)])
        if i and (roots if roots is not None else r.random() < 0.3):
            b['root'] = r.randrange(i)
        s['bodies'].append(b)
    if chamber if chamber is not None else (nb <= 1 and r.random() < 0.08):
        s['bodies'] = [{'gen': 'gen_chamber_box{L=2, H=1.2, D=0.5, h=0.3, d=0.25, dln=0.25, dls=0.4}', 'label': 'box',
                        'set': [], 'move': [0, 0], 'turn': 0}]
        if r.random() < 0.6: # a flow inside a contour
            s['bodies'][0].update(gen=INNER % (r.choice([12, 20, 31]), r.choice([2.5, 4])), label='inner')
    if any(b['set'] and any(k.startswith('spring') for k, _ in b['set']) for b in s['bodies']) and r.random() < 0.5:
        s['gravity'] = [0, r.choice([-1, -9.8])]
    nv = vort if vort is not None else r.choice([0, 0, 0, 5, 30, 60]) if nb else r.choice([20, 40, 80, 150])
    for _ in range(nv):
        s['vort'].append([round(r.uniform(-2, 3), 4), round(r.choice([-1, 1]) * r.uniform(0.9, 2), 4), round(r.uniform(-0.1, 0.1), 5)])
    if sinks if sinks is not None else r.random() < 0.15:
        for _ in range(r.choice([1, 2])):
            s['sink'].append([round(r.uniform(-2, 3), 4), round(r.choice([-1, 1]) * r.uniform(1, 2), 4), round(r.uniform(-0.5, 0.5), 3)])
    if ink if ink is not None else r.random() < 0.3:
        for _ in range(r.choice([1, 2, 3])):
            s['ssrc'].append([round(r.uniform(-1.5, -0.9), 4), round(r.uniform(-0.5, 0.5), 4), r.choice([1, 2])])
        s['dt_streak'] = [num_ * r.choice([1, 2, 3]), den]
        if r.random() < 0.3:
            s['sdom'].append([-1.2, 0.1, 1])
    # what only a loaded file can state: heat, kutta condition, prandtl
    if extra if extra is not None else r.random() < 0.25:
        x = {'pr': r.choice([0.7, 1, 5]), 'heat': [], 'body': {}}
        for i in range(len(s['bodies'])):
            b = []
            if r.random() < 0.5:
                b.append(['u', 'boundary_condition', 1])
            h = r.randrange(4)
            if h:
                b += [['u', 'heat_condition', h], ['d', 'general_heat_const', r.choice([1, 0.5, -0.25])]]
            if b:
                x['body'][str(i)] = b
        for _ in range(r.choice([0, 0, 10, 40])):
            x['heat'].append([round(r.uniform(-2, 3), 4), round(r.choice([-1, 1]) * r.uniform(0.9, 2), 4), round(r.uniform(-0.05, 0.1), 5)])
        s['extra'] = x
    return s


# a closed contour listed the other way round, through the file interface
INNER = ('(function() local f = assert(io.open("inner.txt", "w")) local n, R = %d, %s for i = 0, n - 1 do local a = 2*math.pi*i/n '
         'assert(f:write(R*math.cos(a), " ", R*math.sin(a), "\\n")) end assert(f:close()) return load_body("inner.txt") end)()')


# the points of a contour, no two distances alike
UNEVEN = ('(function() local b = %s local f = assert(io.open("uneven%d.txt", "w")) for i, p in ipairs(b:totable()) do '
          'assert(f:write(string.format("%%.17g %%.17g\\n", p.x + 0.003*math.sin(7.3*i), p.y + 0.003*math.sin(11.9*i + 1)))) end assert(f:close()) return load_body("uneven%d.txt") end)()')


def edits(s):
    """h5mod arguments for what the script cannot state."""
    x = s['extra']
    o = ['d', '/', 'pr', repr(x['pr'])]
    for i, b in x['body'].items():
        if int(i) < len(s['bodies']):
            for t, n, v in b:
                o += [t, 'body%02d' % int(i), n, repr(v)]
    if x['heat']:
        o += ['l', 'heat', str(len(x['heat']))] + [repr(v) for h in x['heat'] for v in h]
    return o


def f_(x, y):
    return '{%d, %d}' % (x, y)


def assign(s, S='S'):
    """Lua statements that put the problem into the global Space."""
    o = []
    dn, dd = s['dt']
    o.append('S.caption = %s' % lua_str(s['caption']))
    o.append('S.re = %s' % ('inf' if s['re'] == 'inf' else s['re']))
    o.append('S.dt = %s' % f_(dn, dd))
    if s.get('dt_save'):
        o.append('S.dt_save = %s' % f_(*s['dt_save']))
    else:
        o.append('S.dt_save = %s' % f_(dn * s['save_every'], dd))
    if s.get('start'):
        o.append('S.time = %s' % f_(dn * s['start'], dd))
    o.append('S.finish = %s' % repr(dn * s['steps'] / dd))
    for k in ('inf_vx', 'inf_vy'):
        if s[k]:
            o.append('S.%s = "%s"' % (k, s[k]))
    if s['inf_g']:
        o.append('S.inf_g = %s' % s['inf_g'])
    if s['gravity']:
        o.append('S.gravity = {%s, %s}' % tuple(s['gravity']))
    if s['dt_streak']:
        o.append('S.dt_streak = %s' % f_(*s['dt_streak']))
    if s['dt_profile']:
        o.append('S.dt_profile = %s' % f_(*s['dt_profile']))
    for i, b in enumerate(s['bodies']):
        v = 'b%d' % i
        o.append('local %s = %s' % (v, b['gen']))
        if b.get('turn'):
            o.append('%s:move_o(%s)' % (v, b['turn']))
        if b.get('move') and any(b['move']):
            o.append('%s:move_r{%s, %s}' % (v, b['move'][0], b['move'][1]))
        if b.get('label'):
            o.append('%s.label = %s' % (v, lua_str(b['label'])))
        for k, val in b['set']:
            o.append('%s.%s = %s' % (v, k, val))
        if b.get('bounce'):
            o.append('%s.bounce = %s' % (v, b['bounce']))
        if b.get('root') is not None and b['root'] < i:
            o.append('%s.root = b%d' % (v, b['root']))
        o.append('S.body_list:insert(%s)' % v)
    for k, li in (('vort', 'vort_list'), ('sink', 'sink_list'), ('ssrc', 'streak_source_list'), ('sdom', 'streak_domain_list')):
        for p in s[k]:
            o.append('S.%s:append({%s, %s, %s})' % (li, p[0], p[1], p[2]))
    return '\n'.join(o) + '\n'


def lua_str(x):
    return '"' + ''.join(c if 32 <= ord(c) < 127 and c not in '"\\' else '\\%03d' % b
                         for c in x for b in c.encode('utf8', 'surrogateescape')[:1]) + '"' \
        if all(ord(c) < 128 for c in x) else '"' + ''.join('\\%03d' % b for b in x.encode()) + '"'


def translated(s, dx, dy):
    """The same problem at another place."""
    t = copy.deepcopy(s)
    for b in t['bodies']:
        b['move'] = [b['move'][0] + dx, b['move'][1] + dy]
    for li in [t[k] for k in ('vort', 'sink', 'ssrc', 'sdom')] + ([t['extra']['heat']] if t.get('extra') else []):
        for v in li:
            v[0] += dx
            v[1] += dy
    return t


def hastened(s):
    """The same problem, where everything happens twice as fast."""
    t = copy.deepcopy(s)

    def expr(e, k):
        q = e.startswith('"')
        e = '%d*(%s)' % (k, re.sub(r'\bt\b', '(2*t)', e.strip('"')))
        return '"%s"' % e if q else e

    for k in ('dt', 'dt_save', 'dt_streak', 'dt_profile'):
        if t.get(k):
            t[k] = [t[k][0], t[k][1] * 2]
    for k in ('inf_vx', 'inf_vy'):
        if t[k]:
            t[k] = expr(t[k], 2)
    t['inf_g'] *= 2
    if t['gravity']:
        t['gravity'] = [4 * g for g in t['gravity']]
    if t['re'] != 'inf':
        t['re'] /= 2
    for b in t['bodies']:
        b['set'] = [[k, expr(v, 4 if k == 'holder_mo' else 2) if k[:8] in ('holder_v', 'holder_m') else
                     '4*' + v if k.startswith('spring_const') else '2*' + v if k.startswith('spring_damping') else v] for k, v in b['set']]
    for k in ('vort', 'sink'):
        for v in t[k]:
            v[2] *= 2
    return t


def script(s):
    return assign(s) + 'simulate()\n'


def moving(s):
    return any(k.startswith(('holder_v', 'spring')) for b in s['bodies'] for k, _ in b['set'])


def nsteps(s):
    return s['steps'] - s.get('start', 0) + 1


def shrink(s):
    """Smaller problems, most drastic first."""
    def c():
        return copy.deepcopy(s)
    if s['steps'] > 0:
        for n in (0, 1, s['steps'] // 2, s['steps'] - 1):
            if 0 <= n < s['steps']:
                t = c()
                t['steps'] = n
                yield t
    for i in range(len(s['bodies'])):
        t = c()
        del t['bodies'][i]
        for b in t['bodies']:
            if b.get('root') is not None:
                if b['root'] == i:
                    b['root'] = None
                elif b['root'] > i:
                    b['root'] -= 1
        yield t
    if s.get('extra'):
        t = c()
        del t['extra']
        yield t
        x = s['extra']
        for i in x['body']:
            for j in range(len(x['body'][i])):
                t = c()
                del t['extra']['body'][i][j]
                yield t
        if x['heat']:
            t = c()
            t['extra']['heat'] = x['heat'][:len(x['heat']) // 2]
            yield t
    for k in ('vort', 'sink', 'ssrc', 'sdom'):
        n = len(s[k])
        if n:
            t = c()
            t[k] = []
            yield t
        if n > 1:
            for a, b in ((0, n // 2), (n // 2, n)):
                t = c()
                t[k] = s[k][a:b]
                yield t
        if 1 < n <= 6:
            for i in range(n):
                t = c()
                del t[k][i]
                yield t
    for k, v in (('inf_vx', None), ('inf_vy', None), ('inf_g', 0), ('gravity', None), ('dt_streak', None), ('start', 0)):
        if s.get(k) not in (v, None):
            t = c()
            t[k] = v
            yield t
    if s['inf_vx'] not in (None, '1'):
        t = c()
        t['inf_vx'] = '1'
        yield t
    for i, b in enumerate(s['bodies']):
        if b.get('root') is not None:
            t = c()
            t['bodies'][i]['root'] = None
            yield t
        if b.get('turn'):
            t = c()
            t['bodies'][i]['turn'] = 0
            yield t
        if b['set']:
            t = c()
            t['bodies'][i]['set'] = []
            yield t
        for j in range(len(b['set'])):
            t = c()
            del t['bodies'][i]['set'][j]
            yield t
        if b['gen'] != 'gen_cylinder{R=0.5, N=10}':
            t = c()
            t['bodies'][i]['gen'] = 'gen_cylinder{R=0.5, N=10}'
            yield t
