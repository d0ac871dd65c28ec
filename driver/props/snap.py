"""Snapshots: what is saved is what is loaded; crashes and faults around them."""
import copy, math, os, random, struct
from .. import scen
from ..core import CheckError, Prop, viol, crash_kind, ddmin
from . import base

# Everything a script can see of the Space, to the last bit.
DUMP = r'''
function DUMP(file)
  local o = io.open(file, "w")
  local function n(x)
    if type(x) ~= "number" then return tostring(x) end
    if x ~= x then return "nan" end
    return string.format("%a", x)
  end
  local function s(x) return #x .. ":" .. x end
  local function v3(v) return n(v.r.x) .. " " .. n(v.r.y) .. " " .. n(v.o) end
  o:write("caption ", s(S.caption), "\n")
  for _, k in ipairs{"re", "finish", "inf_g", "time", "dt", "dt_save", "dt_streak", "dt_profile"} do o:write(k, " ", n(S[k]), "\n") end
  for _, k in ipairs{"inf_vx", "inf_vy"} do o:write(k, " ", s(S[k]:tostring()), "\n") end
  o:write("gravity ", n(S.gravity.x), " ", n(S.gravity.y), "\n")
  for _, k in ipairs{"vort_list", "sink_list", "streak_source_list", "streak_domain_list"} do
    o:write(k, " ", #S[k], "\n")
    for i, p in ipairs(S[k]) do o:write(n(p.r.x), " ", n(p.r.y), " ", n(p.g), "\n") end
  end
  o:write("bodies ", #S.body_list, "\n")
  for i, b in ipairs(S.body_list) do
    o:write("body ", i, " ", #b, " ", s(b.label), "\n")
    for _, k in ipairs{"holder_pos", "delta_pos", "speed", "collision_min", "collision_max", "spring_const", "spring_damping"} do o:write(k, " ", v3(b[k]), "\n") end
    for _, k in ipairs{"holder_vx", "holder_vy", "holder_vo", "holder_mo"} do o:write(k, " ", s(b[k]:tostring()), "\n") end
    for _, k in ipairs{"density", "bounce", "special_segment", "slip"} do o:write(k, " ", n(b[k]), "\n") end
    local r = b.root
    local ri = "none"
    if r then ri = "outside"; for j, c in ipairs(S.body_list) do if c == r then ri = j end end end
    o:write("root ", ri, "\n")
    for _, k in ipairs{"get_slen", "get_area", "get_moi_cofm", "get_moi_axis"} do o:write(k, " ", n(b[k](b)), "\n") end
    for _, p in ipairs(b:totable()) do o:write(n(p.x), " ", n(p.y), "\n") end
  end
  o:close()
end
'''

LISTS = {'vort': 'vort_list', 'sink': 'sink_list', 'ssrc': 'streak_source_list', 'sdom': 'streak_domain_list'}
SPECIAL = ['inf', '-inf', 'nan', '-0.0', '5e-324', '1.7976931348623157e308', '2.2250738585072014e-308', '0.1', '-1e-310', '123456789.123456789', '3.0e-200']


def value(r):
    return r.choice([0.0, 1.5, -0.25, round(r.uniform(-3, 3), 6), r.uniform(-1, 1), r.uniform(-1, 1) * 10 ** r.randrange(-300, 300), 1 / 3])


def state(r, plain=False):
    """A random content of the Space: a problem, oversized lists, odd values, loaded bodies and file-only parts."""
    st = {'scene': scen.scene(r, steps=r.choice([0, 1, 2, 3]), save=r.choice([1, 1, 2])), 'sim': r.random() < 0.45,
          'big': {}, 'special': [], 'txt': [], 'many': 0, 'roots': [], 'mods': [], 'fields': []}
    s = st['scene']
    if plain:
        return st
    s['caption'] = r.choice(['c', 'c', 'long caption ' + 'x' * r.choice([10, 60, 150]), 'caption "with\' odd \\ chars', 'каптион', ''])
    if not st['sim']:
        for k in LISTS:
            if r.random() < 0.25:
                st['big'][k] = r.choice([1, 2, 3, 17, 255, 256, 257, 511, 512, 513, 700, 1023, 1024, 1025, 1536, 3000])
        for _ in range(r.choice([0, 0, 1, 4])):
            st['special'].append([r.choice(list(LISTS))] + [r.choice(SPECIAL) for _ in range(3)])
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            n = r.choice([3, 4, 7, 40])
            st['txt'].append([[round(2 + r.random(), 3), round(r.random() * 3, 4)] + r.choice([[], [0], [1], [r.choice([0, 1])]]) for _ in range(n)])
        if r.random() < 0.1:
            st['many'] = r.choice([9, 10, 11, 98, 99, 101, 110, 130])
        nb = len(s['bodies']) + len(st['txt']) + st['many']
        for _ in range(r.choice([0, 0, 1, 3]) if nb > 1 else 0):
            i, j = r.sample(range(nb), 2)
            st['roots'].append([i, j])
        for _ in range(r.choice([0, 1, 3, 6])):
            f = r.choice(['re', 'finish', 'inf_g', 'time', 'dt', 'dt_save', 'dt_streak', 'dt_profile', 'gravity', 'inf_vx', 'inf_vy'])
            if f in ('time', 'dt', 'dt_save', 'dt_streak', 'dt_profile'):
                v = '{%d, %d}' % (r.choice([0, 1, 7, 123456, 2147483647] + ([-1, -500] if f == 'time' else [])), r.choice([1, 3, 1000, 4000000]))
                if f in ('dt',):
                    v = '{%d, %d}' % (r.choice([1, 7]), r.choice([1, 3, 1000]))
            elif f == 'gravity':
                v = '{%r, %r}' % (value(r), value(r))
            elif f.startswith('inf_v'):
                v = scen.lua_str(r.choice(['', '1', 't', 'sin(t)+%r' % value(r), 'local x = t\nreturn x*2', '0.5 -- "quote"', '1' + '+0*t' * 90]))
            else:
                v = r.choice([repr(value(r)), repr(value(r)), 'inf', '-inf' if f != 're' else '1e-5'])
            st['fields'].append(['S.' + f, v])
        for i in range(nb):
            if r.random() < (0.5 if nb < 5 else 0.1):
                f = r.choice(['density', 'bounce', 'holder_pos', 'delta_pos', 'speed', 'collision_min', 'collision_max', 'spring_const', 'spring_damping',
                              'holder_vx', 'holder_vo', 'holder_mo', 'label', 'special_segment', 'slip'])
                v3 = '{%r, %r, %r}' % (value(r), value(r), value(r))
                p3 = '{%r, %r, %r}' % (abs(value(r)), abs(value(r)), abs(value(r)))
                v = {'holder_pos': v3, 'delta_pos': v3, 'speed': v3, 'spring_damping': v3, 'spring_const': p3,
                     'collision_min': v3 if r.random() < 0.5 else '{-3, nan, -inf}', 'collision_max': '{1e301, 1e301, inf}',
                     'special_segment': str(r.choice([0, 1, -1, 77, 2147483647])), 'slip': r.choice(['true', 'false']),
                     'label': scen.lua_str(r.choice(['wing', 'тело', 'a b c', 'l' * 200, '']))}.get(f)
                if f in ('collision_min', 'collision_max') and f == 'collision_min' and v != '{-3, nan, -inf}':
                    v = '{-5, -1e-3, nan}'
                if v is None:
                    v = repr(value(r)) if f in ('density', 'bounce') else scen.lua_str(r.choice(['', 't', 'cos(3*t)', '0.1']))
                st['fields'].append(['S.body_list[%d].%s' % (i + 1, f), v])
    # what only a loaded file can state
    if r.random() < 0.5:
        st['mods'] += ['v', '/', 'inf_marker', repr(value(r)), repr(value(r)), 'd', '/', 'pr', repr(value(r))]
        nb = len(s['bodies']) + len(st['txt']) + st['many']
        for i in range(min(nb, 6)):
            b = 'body%02d' % i
            for k in ('fdt_dead', 'force_hydro', 'force_holder', 'friction_prev', 'speed_slae_prev'):
                if r.random() < 0.5:
                    st['mods'] += ['w', b, k, repr(value(r)), repr(value(r)), repr(value(r))]
            if r.random() < 0.5:
                st['mods'] += ['d', b, 'g_dead', repr(value(r))]
            if r.random() < 0.6:
                st['mods'] += ['u', b, 'boundary_condition', str(r.randrange(2)), 'u', b, 'heat_condition', str(r.randrange(4)),
                               'd', b, 'general_heat_const', repr(r.choice([1.0, -0.5, 0.25, 3.0]))]
        if r.random() < 0.6:
            n = r.choice([1, 3, 60, 511, 512, 513, 1100])
            st['mods'] += ['l', 'heat', str(n)] + [repr(v) for i in range(n) for v in (round(math_lcg(i, 1), 4), round(math_lcg(i, 2), 4), round(math_lcg(i, 3), 6))]
    return st


def math_lcg(i, k):
    return ((i * 1103515245 + k * 12345 + 777) % 65536) / 8192 - 4


def build_text(st, d):
    """Lua text that puts the state together (apart from mods), writing the files it needs into d."""
    o = [scen.assign(st['scene'])]
    for k, v in st['big'].items():
        o.append('for i = 1, %d do S.%s:append({(i*7919%%1009)/128 - 4, (i*104729%%1013)/128 - 4, (i*31%%257 - 128)/1000}) end' % (v, LISTS[k]))
    for k, x, y, g in st['special']:
        o.append('S.%s:append({%s, %s, %s})' % (LISTS[k], x, y, g))
    for i, t in enumerate(st['txt']):
        base.write(d, 'body%d.txt' % i, ''.join(' '.join(str(x) for x in row) + '\n' for row in t))
        o.append('S.body_list:insert(load_body("body%d.txt"))' % i)
    if st['many']:
        base.write(d, 'small.txt', '0 0\n0.25 0\n0.25 0.25\n0 0.25\n')
        o.append('for i = 1, %d do local b = load_body("small.txt"); b:move_r{i*0.5, 7}; b.label = "m" .. i; b.density = i; S.body_list:insert(b) end' % st['many'])
    for i, j in st['roots']:
        o.append('S.body_list[%d].root = S.body_list[%d]' % (i + 1, j + 1))
    for k, v in st['fields']:
        o.append('%s = %s' % (k, v))
    if st['sim']:
        o.append('simulate()')
    return '\n'.join(o) + '\n'


def make(sim, d, st, name, cfg=None):
    """Save the state as `name`; also leaves `name`.dump.  None when it cannot be stated (not a failure of saving)."""
    t = DUMP + build_text(st, d)
    if st['mods']:
        r = sim.run('vvflow', [os.path.basename(base.write(d, 'mk0.lua', t + 'S:save("%s")\n' % name))], d, cfg or base.REF, timeout=10)
        if r.rc:
            return None, r
        base.edit(sim, os.path.join(d, name), st['mods'])
        os.rename(os.path.join(d, name), os.path.join(d, 'mod.' + name))
        t = DUMP + 'S:load("mod.%s")\n' % name
    t += 'DUMP("%s.dump")\nS:save("%s")\n' % (name, name)
    r = sim.run('vvflow', [os.path.basename(base.write(d, 'mk1.lua', t))], d, cfg or base.REF, timeout=10)
    return (None if r.rc else os.path.join(d, name)), r


def runnable(st):
    return not (st['special'] or st['fields'] or st['big'] or st['roots'] or st['many'] or st['mods'] or st['txt'])


def shrink_state(st):
    for k in ('mods', 'special', 'txt', 'roots', 'fields'):
        if st[k]:
            c = copy.deepcopy(st)
            c[k] = []
            if k == 'txt':
                c['roots'] = []
            yield c
    for k in ('special', 'fields', 'roots'):
        if len(st[k]) > 1:
            for x in ddmin(st[k]):
                c = copy.deepcopy(st)
                c[k] = x
                yield c
    if st['sim']:
        c = copy.deepcopy(st)
        c['sim'] = False
        yield c
    for k in list(st['big']):
        c = copy.deepcopy(st)
        del c['big'][k]
        yield c
        if st['big'][k] > 1:
            c = copy.deepcopy(st)
            c['big'][k] //= 2
            yield c
    if st['many']:
        for n in (0, 11, 101):
            if n < st['many']:
                c = copy.deepcopy(st)
                c['many'] = n
                c['roots'] = []
                yield c
    if st['scene']['caption'] not in ('c', ''):
        c = copy.deepcopy(st)
        c['scene']['caption'] = 'c'
        yield c
    for s in scen.shrink(st['scene']):
        c = copy.deepcopy(st)
        c['scene'] = s
        c['roots'] = []
        c['mods'] = []
        c['fields'] = [f for f in st['fields'] if 'body_list' not in f[0]]
        yield c


def dumpdiff(a, b):
    x, y = [open(p, 'rb').read().decode('utf8', 'replace').split('\n') for p in (a, b)]
    for i in range(max(len(x), len(y))):
        p = x[i] if i < len(x) else '(end)'
        q = y[i] if i < len(y) else '(end)'
        if p != q:
            return 'line %d: %r / %r' % (i, p[:80], q[:80])
    return None


HIST = ['load_other', 'load_self', 'build', 'sim', 'missing', 'trunc', 'badsave', 'save', 'edit', 'noth5', 'baddata']


class P04(Prop):
    id = 'P04'
    quick = (1500, 55)
    thorough = (10000000, 700)
    must = ('round trip', 'loaded over another state', 'simulated state', 'file-only parts', 'more than 100 bodies', 'failed load before', 'failed save before')
    rule = ('a case is one random state (problem, list sizes, values, bodies, roots, file-only parts, optionally simulated) and one random history '
            'of the loading process; every case saves, loads in a fresh and in a used process, compares all visible values and saves again; '
            'cases count as distinct by state and history')

    def gen(self, r, i, tier):
        return {'st': state(r), 'other': state(r, plain=r.random() < 0.5), 'fill': [r.randrange(7), r.randrange(7)],
                'hist': [r.choice(HIST) for _ in range(r.choice([1, 2, 3, 5]))], 'cut': r.randrange(1000), 'hs': r.randrange(1000)}

    def run(self, case, sim):
        d = sim.fresh()
        a, r = make(sim, d, case['st'], 'a.h5', dict(base.REF, heapfill=case['fill'][0], heapseed=case['hs']))
        if crash_kind(r):
            sim.probe['build ' + crash_kind(r)] += 1
            return []
        if not a:
            sim.probe['not stated: ' + r.err.decode('utf8', 'replace')[:60]] += 1
            return []
        A = sim.h5(a)
        sim.sig(case['st'], case['hist'])
        if case['st']['mods']:
            sim.probe['file-only parts'] += 1
            x = sim.h5(d + '/mod.a.h5').same(A)
            if x:
                return [viol('load-save', 'loading a snapshot and saving it again changes it: ' + x)]
        if case['st']['sim']:
            sim.probe['simulated state'] += 1
        if len([g for g in A.dset if g.startswith('/body')]) > 100:
            sim.probe['more than 100 bodies'] += 1
        cfg = dict(base.REF, heapfill=case['fill'][1], heapseed=case['hs'] + 1)
        # a fresh process, then a second save
        r = base.lua(sim, d, DUMP + 'S:load("a.h5")\nDUMP("b.dump")\nS:save("b.h5")\nDUMP("b2.dump")\nS:save("b2.h5")\n', 'b.lua', cfg)
        if r.rc:
            return [viol('load-fails', 'a saved snapshot does not load: ' + base.brief(r))]
        x = dumpdiff(d + '/a.h5.dump', d + '/b.dump')
        if x:
            return [viol('values', 'saved / loaded: ' + x)]
        x = dumpdiff(d + '/b.dump', d + '/b2.dump')
        if x:
            return [viol('save-changes', 'before / after saving: ' + x)]
        for n in ('b.h5', 'b2.h5'):
            x = A.same(sim.h5(d + '/' + n))
            if x:
                return [viol('file', 'saved / loaded and saved again: ' + x)]
        sim.probe['round trip'] += 1
        # every snapshot the simulation left
        if case['st']['sim']:
            for f in sorted(sim.h5tree(d)):
                if f.startswith('results_') and f.endswith('.h5'):
                    r = base.lua(sim, d, DUMP + 'S:load(%s)\nS:save("r.h5")\n' % scen.lua_str(f), 'r.lua', cfg)
                    if r.rc:
                        return [viol('load-fails', 'a snapshot of the simulation does not load: ' + base.brief(r))]
                    x = sim.h5(d + '/' + f).same(sim.h5(d + '/r.h5'))
                    if x:
                        return [viol('file', '%s / loaded and saved again: %s' % (f, x))]
        # a process with a past
        o, r = make(sim, d, case['other'], 'o.h5')
        h = self.history(case, d, bool(o))
        r = base.lua(sim, d, DUMP + h + '\nprint("history done")\nS:load("a.h5")\nDUMP("c.dump")\nS:save("c.h5")\n', 'c.lua', cfg, timeout=10)
        if b'history done' not in r.out:
            sim.probe['history ended: ' + base.brief(r)[:50]] += 1
            return []
        if r.rc:
            return [viol('load-fails', 'a saved snapshot does not load in a used process: ' + base.brief(r))]
        x = dumpdiff(d + '/a.h5.dump', d + '/c.dump')
        if x:
            return [viol('values', 'saved / loaded in a used process (%s): %s' % (' '.join(case['hist']), x))]
        x = A.same(sim.h5(d + '/c.h5'))
        if x:
            return [viol('file', 'saved / loaded in a used process (%s) and saved again: %s' % (' '.join(case['hist']), x))]
        sim.probe['loaded over another state'] += 1
        if any(k in case['hist'] for k in ('missing', 'trunc', 'noth5', 'baddata')):
            sim.probe['failed load before'] += 1
        if 'badsave' in case['hist']:
            sim.probe['failed save before'] += 1
        return []

    def history(self, case, d, other):
        o = ['local keep = {}']
        for n, k in enumerate(case['hist']):
            if k == 'load_other' and other:
                o.append('S:load("o.h5")')
            elif k == 'load_self':
                o.append('S:load("a.h5")')
            elif k == 'build':
                o.append('do\n' + build_text(dict(case['other'], sim=False), d) + 'end')
            elif k == 'sim':
                o.append('S:load("o.h5")\nS.caption = "h%d"\nS.finish = S.time + 2*S.dt\nsimulate()' % n if other and runnable(case['other']) else '')
            elif k == 'missing':
                o.append('pcall(S.load, S, "no such file.h5")')
            elif k in ('trunc', 'baddata'):
                b = open(d + '/a.h5', 'rb').read()
                if k == 'trunc':
                    b = b[:max(64, len(b) * case['cut'] // 1000)]
                else: # the superblock is sound, what follows is not
                    p = 96 + (len(b) - 96) * case['cut'] // 1000
                    b = b[:p] + bytes(x ^ 0x5a for x in b[p:p + 400]) + b[p + 400:]
                with open(d + '/t%d.h5' % n, 'wb') as f:
                    f.write(b)
                o.append('pcall(S.load, S, "t%d.h5")' % n)
            elif k == 'noth5':
                with open(d + '/n%d.h5' % n, 'wb') as f:
                    f.write(b'')
                o.append('pcall(S.load, S, "n%d.h5")' % n)
            elif k == 'badsave':
                o.append('print(pcall(S.save, S, "no such dir/x.h5"))')
                o.append('if #S.body_list > 0 then keep[#keep+1] = S.body_list[1]; S.body_list[1].spring_damping.o = inf; print(pcall(S.save, S, "bad%d.h5")) end' % n)
            elif k == 'save':
                o.append('pcall(S.save, S, "h%d.h5")' % n)
            elif k == 'edit':
                o.append('S.caption = "edited"; S.inf_g = 3; S.finish = 1e9; S.dt_save = {1,1}\nS.vort_list:append({1,2,3})\nS.sink_list:append({4,5,6})\n'
                         'S.streak_source_list:append({4,5,6})\nS.streak_domain_list:append({7,8,9})\nS.inf_vx = "t"\nS.inf_vy = "2*t"\nS.gravity = {1,2}\n'
                         'for _, b in ipairs(S.body_list) do keep[#keep+1] = b end')
        return '\n'.join(o)

    def shrink(self, case):
        for h in ddmin(case['hist']):
            yield dict(case, hist=h)
        for st in shrink_state(case['st']):
            yield dict(case, st=st)
        for st in shrink_state(case['other']):
            yield dict(case, other=st)



# ------------------------------------------------------------------ jobs
def small_scene(r, **kw):
    k = dict(steps=r.choice([1, 2, 3, 4]), save=r.choice([1, 1, 1, 2]), neg_time=r.random() < 0.05)
    k.update(kw)
    return scen.scene(r, **k)


def job(r, kinds=('run', 'rerun', 'resume', 'resave'), **kw):
    """Something vvflow is asked to do in a directory that may hold older results."""
    k = r.choice(kinds)
    j = {'kind': k, 'scene': small_scene(r, **kw), 'args': ['--profile'] if r.random() < 0.2 else [],
         'sensors': [[round(r.uniform(-2, 3), 3), round(r.uniform(-2, 2), 3)] for _ in range(r.choice([0, 0, 1, 3]))]}
    if k == 'rerun':
        j['old'] = small_scene(r)
    if k == 'resume':
        j['at'] = r.randrange(100)
    if k == 'resave':
        j['n'] = r.choice([1, 2, 3])
        j['first'] = r.random() < 0.7
        j['grow'] = r.choice([1, 20, 700])
        j['sensors'] = []
        j['args'] = []
    if k == 'pcall':
        j.update(n=r.choice([1, 2, 3]), first=r.random() < 0.7, grow=r.choice([1, 20, 700]), sensors=[], args=[])
    if k == 'inputs':
        j.update(sensors=[], args=[], big=r.choice([0, 0, 1, 3]), order=r.sample(range(5), r.choice([1, 2, 3, 5])),
                 txt=r.choice([0, 1, 3, 170, 400, 1000]), bin=r.choice([0, 1, 3, 170, 171, 400, 1024]), body=r.choice([3, 8, 300, 600]), go=r.random() < 0.3)
        if j['go']:
            j['body'] = min(j['body'], 8)
            j['bin'] = j['txt'] = min(j['bin'], 171)
    return j


def inputs_body(j):
    o = []
    for n in j['order']:
        o.append(['S:load("old.h5")', 'S.vort_list:load("list.txt")', 'S.sink_list:load_bin("list.bin")',
                  'S.body_list:insert(load_body("body.txt"))', 'S.streak_source_list:load("list.txt")\nS.streak_domain_list:load_bin("list.bin")'][n])
        if n == 3:
            o.append('S.body_list[#S.body_list]:move_r{20 + #S.body_list, 20}')
    o.append('-- %s' % ('x' * 4000 * j['big']))
    if j['go']:
        o.append('S.finish = S.time + S.dt\nS.sink_list:clear()\nS.streak_source_list:clear()\nS.streak_domain_list:clear()\nsimulate()')
    o.append('S:save("out.h5")')
    return '\n'.join(o) + '\n'


PCALL = """
S.caption = "version %d"
for i = 1, %d do S.vort_list:append({i, -3, 1/i}) end
DUMP("before%d")
local ok, e = pcall(S.save, S, "x.h5")
DUMP("after%d")
print("save %d " .. tostring(ok) .. " " .. tostring(e):gsub("\\n", " "))
do
  local f = io.open("x.h5", "rb")
  if f then
    local g = io.open("copy%d.h5", "wb")
    g:write(f:read("*a"))
    g:close()
    f:close()
  end
end
"""


def pcall_body(j):
    return DUMP + ''.join(PCALL % (i, j['grow'], i, i, i, i) for i in range(j['n'] + 1))


def resave_body(j, ref):
    o = []
    for i in range(j['n']):
        o.append('S.caption = "version %d"' % i)
        o.append('for i = 1, %d do S.vort_list:append({i, -3, 1/i}) end' % j['grow'])
        o.append('S:save("x.h5")')
        if ref:
            o.append('S:save("ref%d.h5")' % i)
    return '\n'.join(o) + '\n'


def set_up(sim, j):
    """The directory before the job, and the job's arguments; None when the job makes no sense."""
    d = sim.fresh('prep')
    s = j['scene']
    pre = []
    if j['sensors']:
        base.write(d, 'sens', ''.join('%r %r\n' % tuple(p) for p in j['sensors']))
        pre.append('--sensors=sens')
    args = j['args'] + pre
    if j['kind'] in ('resave', 'pcall'):
        if j['first']:
            r = base.lua(sim, d, scen.assign(s) + 'S.caption = "old"\nS:save("x.h5")\n', 'o.lua', timeout=10)
            if r.rc:
                return None
        base.prepare(sim, d, s, resave_body(dict(j, n=j['n'] + (j['kind'] == 'pcall')), True))
        os.rename(d + '/s.lua', d + '/ref.lua')
        f = base.prepare(sim, d, s, pcall_body(j) if j['kind'] == 'pcall' else resave_body(j, False))
        return d, args + [f]
    if j['kind'] == 'inputs':
        r = base.lua(sim, d, scen.assign(s) + 'S.caption = "old"\nS:save("old.h5")\n', 'o.lua', timeout=10)
        if r.rc:
            return None
        base.write(d, 'list.txt', ''.join('%r %r %r\n' % (round(i * 0.37 % 5 - 9, 4), -7 - i / 64, (i % 7 - 3) / 1000) for i in range(j['txt'])))
        with open(d + '/list.bin', 'wb') as f:
            f.write(b''.join(struct.pack('<3d', i * 0.37 % 5 - 9, 7 + i / 64, (i % 7 - 3) / 1000) for i in range(j['bin'])))
        base.write(d, 'body.txt', ''.join('%.12f %.12f %d\n' % (math.cos(-i * 2 * math.pi / j['body']), math.sin(-i * 2 * math.pi / j['body']), i % 2) for i in range(j['body'])))
        return d, args + [base.prepare(sim, d, s, inputs_body(j))]
    if j['kind'] == 'rerun':
        r = sim.run('vvflow', args + [base.prepare(sim, d, j['old'])], d, base.REF, timeout=10)
        if r.rc:
            return None
    f = base.prepare(sim, d, s)
    if j['kind'] == 'resume':
        r = sim.run('vvflow', args + [f], d, base.REF, timeout=10)
        snaps = sorted(k for k in sim.h5tree(d) if k.startswith('results_'))
        if r.rc or not snaps:
            return None
        f = snaps[len(snaps) * j['at'] // 100]
    return d, args + [f]


def reference(sim, j, d, args, trace=False):
    """What the job makes of the directory when nothing goes wrong: (process, HDF5 files, other files, allowed versions)."""
    versions = {}
    w = base.copy_to(sim, d, 'w')
    before = sim.h5tree(w)
    if j['kind'] in ('resave', 'pcall'):
        r = sim.run('vvflow', ['ref.lua'], w, base.REF, timeout=10)
        t = sim.h5tree(w)
        versions['x.h5'] = [t[k] for k in sorted(t) if k.startswith('ref')]
        w = base.copy_to(sim, d, 'w')
    r = sim.run('vvflow', args, w, dict(base.REF, trace=1, sites=1) if trace else base.REF, timeout=10)
    h, o = base.outputs(sim, w)
    for k, x in before.items():
        versions.setdefault(k, []).append(x)
    for k, x in h.items():
        versions.setdefault(k, []).append(x)
    return r, h, o, versions


def whole(sim, w, versions):
    """Every snapshot that can be seen must be one that was completely saved at some time."""
    for k, x in sorted(sim.h5tree(w).items()):
        if k.startswith('stepdata'):
            continue
        if k not in versions:
            return 'a file %s that no complete run writes' % k
        ds = [x.same(v) for v in versions[k]]
        if None not in ds:
            return '%s is none of its %d complete versions: %s' % (k, len(ds), 'not a readable HDF5 file' if not x.ok else ds[-1])
    return None


def shrink_job(j):
    if j['sensors']:
        yield dict(j, sensors=[])
    if j['args']:
        yield dict(j, args=[])
    if j['kind'] == 'inputs':
        if len(j['order']) > 1:
            for x in ddmin(j['order']):
                yield dict(j, order=x)
        for k, v in (('big', 0), ('go', False), ('txt', 3), ('bin', 3), ('body', 8)):
            if j[k] != v:
                yield dict(j, **{k: v})
    if j['kind'] in ('resave', 'pcall'):
        if j['n'] > 1:
            yield dict(j, n=1)
        if j['first']:
            yield dict(j, first=False)
        if j['grow'] > 1:
            yield dict(j, grow=1)
    if j['kind'] == 'rerun':
        for s in scen.shrink(j['old']):
            yield dict(j, old=s)
    for s in scen.shrink(j['scene']):
        yield dict(j, scene=s)


class P05(Prop):
    id = 'P05'
    quick = (700, 55)
    thorough = (10000000, 700)
    must = ('killed', 'torn write', 'overwriting', 'snapshot visible after a kill', 'restarted', 'failed write survived')
    rule = ('a case is one job (a run, a run over older results, a resumed run, a script saving one file repeatedly) and several crash points or write failures; '
            'distinct by job, point and outcome; a point counts only if the kill or the failure happened')

    def gen(self, r, i, tier):
        f = []
        for _ in range(6 if tier == 'quick' else 14):
            k = r.random()
            if k < 0.75:
                f.append({'kill': r.random(), 'frac': r.choice([0, 0, 0, 500, 1, 100, 900, 999, 1000])})
            elif k < 0.9:
                f.append({'rule': [r.choice('WWWTNX'), r.random(), r.choice(['', '+']), r.choice([28, 5, 122])], 'on': r.choice(['.h5', 'results', ''])})
            else:
                f.append({'full': r.random(), 'heal': r.choice([0, 0, 1, 3])})
        return {'job': job(r), 'faults': f}

    def cfg(self, f, ref):
        c = dict(base.REF)
        if 'kill' in f:
            c['kill'] = f['kill'] if f['kill'] > 1 or isinstance(f['kill'], int) else 1 + int(f['kill'] * ref.c['MUT'])
            c['killfrac'] = f['frac']
        elif 'rule' in f:
            k, p, st, e = f['rule']
            n = {'W': ref.c['WRITE'], 'T': ref.c['TRUNC'], 'N': max(ref.c['RENAME'], 1), 'X': ref.c['CLOSE']}[k]
            c['f'] = ['%s:%s:%d%s:e:%d' % (k, f['on'], p if isinstance(p, int) else 1 + int(p * n), st, e)]
        else:
            c['full'] = f['full'] if isinstance(f['full'], int) else int(f['full'] * ref.c['WBYTES'])
            if f['heal']:
                c['fullheal'] = f['heal']
        return c

    def run(self, case, sim):
        j = case['job']
        u = set_up(sim, j)
        if not u:
            sim.probe['no job'] += 1
            return []
        d, args = u
        ref, h, o, versions = reference(sim, j, d, args)
        if ref.rc:
            sim.probe['reference: ' + base.brief(ref)[:50]] += 1
            return []
        x = whole(sim, os.path.join(sim.root, 'w'), versions)
        if x:
            return [viol('partial', 'with no fault at all: ' + x)]
        for f in case['faults']:
            w = base.copy_to(sim, d, 'w')
            c = self.cfg(f, ref)
            r = sim.run('vvflow', args, w, c, timeout=20)
            if not r.fired:
                continue
            if r.c['KILL']:
                sim.probe['killed'] += 1
                if r.c['TORN']:
                    sim.probe['torn write'] += 1
            else:
                sim.probe['write failure'] += 1
                if r.rc == 0:
                    sim.probe['failed write survived'] += 1
                if crash_kind(r) == 'hang':
                    return [viol('hang', 'no end after a failed write: %s' % c, f=c)]
            sim.sig(j, f, r.rc, r.c['MUT'])
            if j['kind'] in ('rerun', 'resave', 'resume'):
                sim.probe['overwriting'] += 1
            x = whole(sim, w, versions)
            if x:
                return [viol('partial', 'after %s: %s' % ('a kill' if r.c['KILL'] else 'a failed write (%s)' % base.brief(r), x), f=c)]
            if any(k.startswith('results') or k == 'x.h5' for k in sim.h5tree(w)):
                sim.probe['snapshot visible after a kill'] += 1
            # the same job again, nothing in its way but what the dead process left
            for k in os.listdir(w):
                if k.startswith(('stepdata', 'velocity')):
                    os.unlink(os.path.join(w, k))
            if j['kind'] == 'resume':
                continue # the snapshot it starts from may have been saved again: P10
            r = sim.run('vvflow', args, w, base.REF, timeout=20)
            g = {k: v for k, v in sim.h5tree(w).items() if not k.startswith('stepdata') and k != 'init.h5'}
            x = base.brief(r) if r.rc else base.compare({k: v for k, v in h.items() if not k.startswith('stepdata')}, g)
            if x:
                return [viol('restart', 'the job does not recover from what %s left behind: %s' % ('the kill' if 'kill' in c else 'the failure', x), f=c)]
            sim.probe['restarted'] += 1
        return []

    def pin(self, case, v):
        c = copy.deepcopy(case)
        if v.get('f'):
            g = v['f']
            if 'kill' in g:
                c['faults'] = [{'kill': g['kill'], 'frac': g['killfrac']}]
            elif 'full' in g:
                c['faults'] = [{'full': g['full'], 'heal': g.get('fullheal', 0)}]
            else:
                k, p, n, _, e = g['f'][0].split(':')
                c['faults'] = [{'rule': [k, int(n.rstrip('+')), '+' if '+' in n else '', int(e)], 'on': p}]
            return c

    def shrink(self, case):
        f = case['faults']
        if len(f) > 1:
            for x in f:
                yield dict(case, faults=[x])
        if len(f) == 1 and isinstance(f[0].get('kill'), int):
            for n in (f[0]['kill'] // 2, f[0]['kill'] - 1):
                if n > 0:
                    yield dict(case, faults=[dict(f[0], kill=n)])
            if f[0]['frac']:
                yield dict(case, faults=[dict(f[0], frac=0)])
        for j in shrink_job(case['job']):
            yield dict(case, job=j)
            for n in (4, 8, 20, 40): # a smaller job dies elsewhere
                if len(f) == 1 and isinstance(f[0].get('kill'), int):
                    yield dict(case, job=j, faults=[dict(f[0], kill=n)])


ALL = [P04, P05]
