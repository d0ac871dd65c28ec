"""Thread schedules: the same problem under many interleavings."""
import copy, math, os, random, struct, tarfile
from .. import scen
from ..core import CheckError, Prop, viol, crash_kind, ddmin
from . import base


def schedule(r, threads=None, race=None):
    """A random scheduling policy.  Nothing but these numbers decides the interleaving."""
    k = r.random()
    c = {'threads': threads or r.choice([2, 2, 3, 4, 4, 6, 8]), 'seed': r.randrange(1 << 40)}
    if k < 0.5:
        c['sched'] = 1
        c['prob'] = int(4294967296 * 10 ** r.uniform(-4.6, -1.3))
    elif k < 0.8:
        c['sched'] = 2
        c['pctd'] = r.choice([1, 2, 3, 5, 10])
        c['pctlen'] = int(10 ** r.uniform(3, 6.5))
    else:
        c['sched'] = 4
    c['chunk'] = int(r.random() < 0.5)
    c['race'] = int(race if race is not None else r.random() < 0.8)
    c['teamvar'] = int(r.random() < 0.15)
    c['maxev'] = 400000000
    return c


def judge(r):
    """What no schedule may ever show."""
    if r.c['SHADOWFULL']:
        pass
    ra = r.races()
    if ra:
        return viol('race', 'unsynchronised concurrent accesses: %s' % '; '.join(ra[:2]))
    k = crash_kind(r)
    if k:
        return viol(k, '%s under this schedule' % base.brief(r))
    return None


def pin_schedule(cfg, sw):
    c = {k: v for k, v in cfg.items() if k not in ('prob', 'pctd', 'pctlen')}
    c['sched'] = 3
    c['swlist'] = [list(x) for x in sw]
    return c


def shrink_schedule(cfg):
    if 'swlist' in cfg:
        for s in ddmin(cfg['swlist']):
            c = dict(cfg)
            c['swlist'] = s
            yield c
    if cfg['threads'] > 2:
        c = dict(cfg)
        c['threads'] = 2
        yield c
    for k in ('teamvar', 'chunk'):
        if cfg.get(k):
            c = dict(cfg)
            c[k] = 0
            yield c


class P01(Prop):
    id = 'P01'
    quick = (1500, 55)
    thorough = (10000000, 780)
    must = ('compared', 'switched', 'merged')
    rule = ('a case is one random flow problem executed to its end under one thread and then under '
            'randomly drawn schedules; cases count as distinct when problem, schedule hash and number of '
            'context switches differ, and only runs with at least one context switch inside a parallel region count')

    def gen(self, r, i, tier):
        s = scen.scene(r)
        args = []
        if r.random() < 0.3:
            args.append('--profile')
        sens = [[round(r.uniform(-2, 3), 3), round(r.uniform(-2, 2), 3)] for _ in range(r.choice([0, 0, 1, 4]))]
        return {'scene': s, 'args': args, 'sensors': sens,
                'runs': [schedule(r) for _ in range(2 if tier == 'quick' else 4)]}

    def start(self, case, sim, name, cfg):
        d = sim.fresh(name)
        f = base.prepare(sim, d, case['scene'])
        a = list(case['args'])
        if case['sensors']:
            base.write(d, 'sens', ''.join('%r %r\n' % tuple(p) for p in case['sensors']))
            a += ['--sensors=sens']
        r = sim.run('vvflow', a + [f], d, cfg, timeout=10 if name == 'ref' else 60)
        return d, r

    def run(self, case, sim):
        d, ref = self.start(case, sim, 'ref', base.REF)
        k = crash_kind(ref)
        if k: # what one thread does is another property's concern
            sim.probe['reference ' + k] += 1
            return []
        if ref.rc:
            sim.probe['reference exit %d' % ref.rc] += 1
        want = base.outputs(sim, d)
        if any(f.startswith('results_') for f in want[0]):
            sim.probe['snapshots'] += 1
        for cfg in case['runs']:
            d, r = self.start(case, sim, 'run', cfg)
            if r.c['SWITCH']:
                sim.probe['switched'] += 1
                sim.sig(case['scene'], r.c['SCHEDHASH'], r.c['SWITCH'])
            for n in ('CRIT', 'BARRIER', 'REGION'):
                if r.c[n]:
                    sim.probe[n] += 1
            v = judge(r)
            if not v and (r.rc != ref.rc):
                v = viol('exit', 'one thread: %s; this schedule: %s' % (base.brief(ref), base.brief(r)))
            if not v:
                got = base.outputs(sim, d)
                df = base.compare(want[0], got[0])
                if not df and want[1] != got[1]:
                    df = 'other output files: %s' % sorted(k for k in set(want[1]) | set(got[1]) if want[1].get(k) != got[1].get(k))
                if not df and (r.out != ref.out):
                    df = 'standard output'
                if df:
                    v = viol('diverge', 'results depend on the schedule: ' + df)
                sim.probe['compared'] += 1
            if v:
                v['run'] = cfg
                v['sw'] = sim.switches(r) if r.nsw <= 60000 else None
                return [v]
        for k, x in want[0].items():
            if k.startswith('stepdata'):
                continue
            if 'vort' in x.dset and x.dset['vort'][1][0] > 250:
                sim.probe['more than one chunk of vortices'] += 1
        if len(case['scene']['bodies']):
            sim.probe['bodies'] += 1
        sim.probe['merged'] += 1
        return []

    def pin(self, case, v):
        c = copy.deepcopy(case)
        c['runs'] = [pin_schedule(v['run'], v['sw'])] if v.get('sw') is not None else [v['run']]
        return c

    def shrink(self, case):
        if len(case['runs']) > 1:
            for r in case['runs']:
                c = dict(case)
                c['runs'] = [r]
                yield c
        for k in ('args', 'sensors'):
            if case[k]:
                c = dict(case)
                c[k] = []
                yield c
        if len(case['runs']) == 1:
            n = 0
            for q in shrink_schedule(case['runs'][0]):
                c = dict(case)
                c['runs'] = [q]
                yield c
                n += 1
                if n > 24:
                    break
        for s in scen.shrink(case['scene']):
            c = dict(case)
            c['scene'] = s
            yield c


def plot_args(r, bodies):
    """A random vvplot request that asks for computed data."""
    a = []
    if r.random() < 0.65:
        a.append('-S')
        if r.random() < 0.3:
            a[-1:] = ['--S', '-1,1,0.2']
    k = r.randrange(7)
    if k == 0:
        a.append('-G')
    elif k == 1:
        a.append('-P')
    elif k == 2:
        a.append('-U' + r.choice('xy'))
    elif k == 3:
        a += ['--G', '3']
    elif k == 4:
        a += ['--P', '-1,0.5']
    elif k == 6:
        a += [r.choice(['--Ux', '--Uy']), r.choice(['-1,2', '0,0.5'])]
    if not a:
        a = ['-P']
    k = r.random()
    if k < 0.3:
        a.append('-V')
    elif k < 0.4:
        a += ['--V', r.choice(['0', '7'])]
    if r.random() < 0.3:
        a.append('-B')
    a += ['-x', '%s,%s' % (r.choice(['-1', '-2.5', '-0.4']), r.choice(['2', '4', '1.1'])), '-y', r.choice(['0,0', '-1,1', '0.2,0.2', '-2,2'])]
    if '-1,1' in a or '-2,2' in a:
        a += ['--size', '0x100']
    a += ['--res-hi', str(r.choice([8, 16, 24, 40])), '--res-lo', str(r.choice([6, 12, 20, 30]))]
    if r.random() < 0.4:
        a += ['--eps', r.choice(['1', '3', '0.5'])]
    if r.random() < 0.4:
        a += ['--ref-S', r.choice('ofb' if bodies else 'of')]
    if r.random() < 0.4:
        a += ['--ref-P', r.choice('sofb' if bodies else 'sof')]
    if r.random() < 0.2:
        a += ['--ref-xy', r.choice(['o', 'f'] + (['b', 'bx', 'by'] if bodies else []))]
    for o in ('--holder', '--spring', '--ttree-bottom-nodes', '--ttree-near-nodes', '--ttree-find-node', '--gray', '--no-colorbox', '--no-timelabel'):
        if r.random() < 0.1:
            a.append(o)
    return a


def tar_entries(path):
    """{member: bytes} in order of appearance, or None when the archive is unreadable."""
    try:
        with tarfile.open(path) as t:
            return {m.name: t.extractfile(m).read() for m in t.getmembers() if m.isfile()}
    except (tarfile.TarError, OSError, EOFError):
        return None


class P02(Prop):
    id = 'P02'
    quick = (700, 55)
    thorough = (10000000, 780)
    must = ('compared', 'switched', 'streamlines', 'map_pressure', 'map_vorticity', 'gaps')
    rule = ('a case is one random snapshot and one random set of requested fields, plotted to an archive under one '
            'thread and then under drawn schedules; distinct by request, schedule hash and number of context switches')

    def gen(self, r, i, tier):
        s = scen.scene(r, steps=r.choice([0, 1, 2, 3]), save=1, neg_time=False, chamber=False)
        if r.random() < 0.4: # sources share rows of the mesh
            n = r.choice([3, 5, 8])
            y = r.uniform(-0.9, 0.9)
            s['sink'] = [[round(r.uniform(-2, 3), 4), round(y + r.uniform(-0.03, 0.03), 4), round(r.uniform(-1, 1), 3)] for _ in range(n)]
        return {'scene': s, 'args': plot_args(r, len(s['bodies'])),
                'runs': [schedule(r) for _ in range(3 if tier == 'quick' else 6)]}

    def run(self, case, sim):
        d = sim.fresh('w')
        f = base.prepare(sim, d, case['scene'])
        r = sim.run('vvflow', [f], d, base.REF, timeout=10)
        snaps = sorted(os.listdir(d + '/results_c')) if os.path.isdir(d + '/results_c') else []
        if r.rc or not snaps:
            sim.probe['no snapshot'] += 1
            return []
        a = case['args'] + ['--tar', 'results_c/' + snaps[-1]]
        ref = sim.run('vvplot', a + ['ref.tar'], d, base.REF, timeout=20)
        if ref.rc:
            sim.probe['reference: ' + base.brief(ref)[:60]] += 1
            return []
        want = tar_entries(d + '/ref.tar')
        for k in want:
            sim.probe[k] += 1
        if 'streamlines' in want and case['scene']['sink']:
            sim.probe['gaps'] += 1
        for cfg in case['runs']:
            r = sim.run('vvplot', a + ['run.tar'], d, cfg)
            if r.c['SWITCH']:
                sim.probe['switched'] += 1
                sim.sig(case['args'], r.c['SCHEDHASH'], r.c['SWITCH'])
            v = judge(r)
            if not v and r.rc != ref.rc:
                v = viol('exit', 'one thread: %s; this schedule: %s' % (base.brief(ref), base.brief(r)))
            if not v:
                got = tar_entries(d + '/run.tar')
                if got is None:
                    v = viol('diverge', 'the archive is unreadable under this schedule')
                else:
                    for k in sorted(set(want) | set(got)):
                        x, y = want.get(k), got.get(k)
                        if k == 'plot.gp':
                            x, y = [z.replace(b'ref.tar', b'run.tar') for z in (x, y)]
                        if x != y:
                            v = viol('diverge', 'the plotted data depends on the schedule: ' + entry_diff(k, x, y))
                            break
                sim.probe['compared'] += 1
                os.unlink(d + '/run.tar')
            if v:
                v['run'] = cfg
                v['sw'] = sim.switches(r) if r.nsw <= 60000 else None
                return [v]
        return []

    pin = P01.pin

    def shrink(self, case):
        a = case['args']
        if len(case['runs']) > 1:
            for q in case['runs']:
                c = dict(case)
                c['runs'] = [q]
                yield c
        for i, x in enumerate(a):
            if x in ('-S', '-G', '-P', '-V', '-B', '-Ux', '-Uy') or x.startswith(('--holder', '--spring', '--ttree', '--gray')):
                c = dict(case)
                c['args'] = a[:i] + a[i + 1:]
                yield c
        if len(case['runs']) == 1:
            for n, q in enumerate(shrink_schedule(case['runs'][0])):
                if n > 24:
                    break
                c = dict(case)
                c['runs'] = [q]
                yield c
        for s in scen.shrink(case['scene']):
            c = dict(case)
            c['scene'] = s
            yield c


def entry_diff(k, x, y):
    if x is None or y is None:
        return "'%s' is %s" % (k, 'missing' if y is None else 'unexpected')
    if len(x) != len(y):
        return "'%s' has %d bytes instead of %d" % (k, len(y), len(x))
    i = [j for j in range(len(x)) if x[j] != y[j]][0]
    if k == 'plot.gp':
        return "plot.gp: %r instead of %r" % (y[max(0, i - 20):i + 30], x[max(0, i - 20):i + 30])
    i -= i % 4
    return "'%s' at byte %d: %r instead of %r" % (k, i, struct.unpack('<f', y[i:i + 4])[0], struct.unpack('<f', x[i:i + 4])[0])


EXPRS = ['1.5', 't', 'sin(%s*t)', '%s*t*t - t', 't>0.5 and %s or -1', 't<0 and 0/0 or cos(%s*t)', 'local a=0; for i=1,20 do a=a+sin(t*i) end; return a*%s',
         'step(t-%s)', 'exp(-t*%s)', 'nandelta(t-%s)', 'erf(t*%s)', '%s*sin(pi*t)+log(1+abs(t))', 'math.floor(t*10)/10+%s']


BAD = [')(', 'nil', '"text"', 'undefined_name', 't.x', 'error(1)', 'return', 'sin(']


class P03(Prop):
    id = 'P03'
    quick = (16000, 40)
    thorough = (100000000, 400)
    must = ('compared', 'switched', 'two expressions', 'times alternate', 'expression replaced')
    rule = ('a case is a set of expressions and a list of evaluation requests, with expressions replaced or copied in between, served by simulated threads under a drawn '
            'schedule; distinct by requests and schedule hash, counted only when a thread was preempted')
    real = ['TEval.cpp as built from /repo, with the installed Lua']
    stub = ['a small driver in place of the solver loops that evaluate expressions (P01 runs those loops themselves)', 'libgomp']

    def expr(self, r):
        e = r.choice(EXPRS)
        return e % r.choice([0.25, 0.5, 2, 3.7]) if '%' in e else e

    def gen(self, r, i, tier):
        ex = [self.expr(r) for _ in range(r.choice([1, 1, 2, 3]))]
        ts = [round(r.uniform(-1, 2), 3) + 0.0 for _ in range(r.choice([1, 2, 3, 4]))] + [r.choice([0, 0.25, 0.5])]
        change = r.choice([0, 0, 0.1, 0.3])
        q = []
        for _ in range(r.choice([6, 12, 30])):
            i, j = r.randrange(len(ex)), r.randrange(len(ex))
            if r.random() >= change:
                q.append(['Q', i, r.choice(ts)])
            else:
                k = r.choice('AAXCK')
                q.append([k, i, self.expr(r) if k == 'A' else r.choice(BAD) if k == 'X' else j])
        return {'ex': ex, 'q': q, 'run': schedule(r, race=1)}

    def run(self, case, sim):
        if not os.path.exists(os.path.join(sim.b, 'tevalsim')):
            raise CheckError('the harness for TEval does not build')
        d = sim.fresh()
        base.write(d, 'q', ''.join('E %s\n' % e for e in case['ex']) + ''.join('%s %d %s\n' % (k, i, x if isinstance(x, str) else repr(x)) for k, i, x in case['q']))
        r = sim.run('tevalsim', ['q'], d, case['run'])
        if len(case['ex']) > 1:
            sim.probe['two expressions'] += 1
        if len({tuple(q) for q in case['q']}) > 3:
            sim.probe['times alternate'] += 1
        if any(q[0] in 'ACK' for q in case['q']):
            sim.probe['expression replaced'] += 1
        if r.c['SWITCH']:
            sim.probe['switched'] += 1
            sim.sig(case['ex'], case['q'], r.c['SCHEDHASH'])
        v = judge(r)
        if not v and r.rc:
            v = viol('exit', base.brief(r))
        if not v:
            sim.probe['compared'] += 1
            qs = [q for q in case['q'] if q[0] == 'Q']
            n = 0
            for ln in r.out.decode().split('\n')[:-1]:
                if ' ' not in ln:
                    v = viol('assign', 'an expression that cannot be evaluated is accepted' if ln == 'accepted' else 'the text of the expression is not what was assigned')
                    break
                a, b = ln.split()
                if a != b and not (math.isnan(unhex(a)) and math.isnan(unhex(b))):
                    v = viol('value', 'query %d, object %d at t=%r, gave %r, but %r on its own' % (n, qs[n][1], qs[n][2], unhex(a), unhex(b)))
                    break
                n += 1
            if not v and n != len(qs):
                v = viol('exit', 'only %d of %d queries answered' % (n, len(qs)))
        if v:
            v['sw'] = sim.switches(r) if r.nsw <= 60000 else None
            return [v]
        return []

    def pin(self, case, v):
        c = copy.deepcopy(case)
        if v.get('sw') is not None:
            c['run'] = pin_schedule(case['run'], v['sw'])
        return c

    def shrink(self, case):
        for q in ddmin(case['q']):
            if q:
                c = dict(case)
                c['q'] = q
                yield c
        for q in shrink_schedule(case['run']):
            c = dict(case)
            c['run'] = q
            yield c
        for i, e in enumerate(case['ex']):
            if e != 't':
                c = copy.deepcopy(case)
                c['ex'][i] = 't'
                yield c


def unhex(a):
    return struct.unpack('>d', bytes.fromhex(a))[0]


ALL = [P01, P02, P03]
