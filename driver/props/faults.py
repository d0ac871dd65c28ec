"""What a failing disk, a failing read or a failing allocation may do to a simulation: nothing that goes unreported."""
import copy, os, random
from .. import scen
from ..core import CheckError, Prop, viol, crash_kind, ddmin
from . import base, snap

WERR = [28, 28, 5, 122, 27]  # ENOSPC EIO EDQUOT EFBIG
RERR = [5, 5, 116]           # EIO ESTALE
OERR = [13, 28, 23, 24, 30, 2]


def spot(r):
    return [r.random(), r.random(), r.random()]


class Faulty(Prop):
    """Jobs run once undisturbed and then again under each of several faults."""

    def fault_cfg(self, f, ev, ref):
        c = dict(base.REF)
        if 'cfg' in f:
            c.update(f['cfg'])
        elif 'rule' in f:
            kinds, files, st, act, arg, u = f['rule']
            a = base.aim(ev, kinds, u[0], u[1], u[2], files)
            if not a:
                return None
            c['f'] = ['%s%s:%s:%s' % (a, st, act, arg)]
        elif 'full' in f:
            c['full'] = int(f['full'] * ref.c['WBYTES'])
            if f['heal']:
                c['fullheal'] = f['heal']
        elif 'short' in f:
            c['shortio'] = f['short']
            c['seed'] = f['seed']
        elif 'malloc' in f:
            c['mallocfail'] = base.alloc(ref, f['malloc']) if isinstance(f['malloc'], list) else 1 + int(f['malloc'] * ref.c['MALLOC'])
            if f['sticky']:
                c['mallocsticky'] = 1
        return c

    def pin(self, case, v):
        if v.get('f'):
            c = copy.deepcopy(case)
            if 'cut' in v['f']:
                c['faults'] = [v['f']]
                return c
            c['faults'] = [{'cfg': {k: x for k, x in v['f'].items() if k not in base.REF}}]
            return c

    def shrink(self, case):
        f = case['faults']
        if len(f) > 1:
            for x in f:
                yield dict(case, faults=[x])
        if len(f) == 1:
            c = f[0].get('cfg')
            if c and 'f' in c and len(c['f']) == 1:
                k, p, n, act, arg = c['f'][0].split(':')
                m = int(n.rstrip('+'))
                for q in (m // 2, m - 1):
                    if q > 0:
                        yield dict(case, faults=[{'cfg': dict(c, f=[':'.join([k, p, str(q) + ('+' if '+' in n else ''), act, arg])])}])
            for k in ('full', 'mallocfail'):
                if c and c.get(k):
                    for q in (c[k] // 2, c[k] * 9 // 10, c[k] - 1):
                        yield dict(case, faults=[{'cfg': dict(c, **{k: q})}])
        for j in snap.shrink_job(case['job']):
            yield dict(case, job=j)
            if len(f) == 1 and 'cfg' in f[0] and 'f' in f[0]['cfg']:
                k, p, n, act, arg = f[0]['cfg']['f'][0].split(':')
                for q in (1, 2, 5):
                    if q < int(n.rstrip('+')):
                        yield dict(case, job=j, faults=[{'cfg': dict(f[0]['cfg'], f=[':'.join([k, p, str(q) + ('+' if '+' in n else ''), act, arg])])}])


class P06(Faulty):
    id = 'P06'
    quick = (900, 55)
    thorough = (10000000, 700)
    must = ('failed and said so', 'a short write made no difference', 'script survived a failed save', 'stepdata write failed', 'velocity write failed',
            'snapshot write failed', 'rename failed', 'close failed', 'disk full')
    rule = ('a case is one job (run, rerun, resume, repeated saves, saves under pcall) and several output faults, each aimed at one operation of the '
            'undisturbed run (chosen evenly over kind of operation and file) or a disk that fills up after so many bytes; distinct by job and fault; only fired faults count')

    def gen(self, r, i, tier):
        j = snap.job(r, ('run', 'run', 'rerun', 'resume', 'resave', 'pcall'))
        if r.random() < 0.4 and j['kind'] in ('run', 'rerun', 'resume'):
            j['sensors'] = j['sensors'] or [[0.7, 0.2]]
        fs = []
        for _ in range(6 if tier == 'quick' else 12):
            k = r.random()
            if k < 0.7:
                fs.append({'rule': ['WWTNXCM', None, r.choice(['', '', '+']), 'e', r.choice(WERR), spot(r)]})
            elif k < 0.8:
                fs.append({'rule': ['W', None, r.choice(['', '+']), 's', r.choice([1, 500, 999]), spot(r)]})
            elif k < 0.86:
                fs.append({'short': r.choice([50, 500, 1000]), 'seed': r.randrange(1 << 30)})
            else:
                fs.append({'full': r.random() ** 0.7, 'heal': r.choice([0, 0, 0, 1, 2, 5])})
        return {'job': j, 'faults': fs}

    def run(self, case, sim):
        j = case['job']
        u = snap.set_up(sim, j)
        if not u:
            sim.probe['no job'] += 1
            return []
        d, args = u
        ref, h, o, versions = snap.reference(sim, j, d, args, trace=True)
        if ref.rc:
            sim.probe['reference: ' + base.brief(ref)[:30]] += 1
            return []
        ev = base.events(ref)
        for f in case['faults']:
            c = self.fault_cfg(f, ev, ref)
            if not c:
                continue
            if j['kind'] == 'pcall': # the script's own output is not the subject
                if 'full' in c:
                    c['fullpath'] = 'x.h5'
                elif 'shortio' not in c and 'x.h5' not in c['f'][0]:
                    continue
            w = base.copy_to(sim, d, 'w')
            r = sim.run('vvflow', args, w, c, timeout=20)
            if not r.fired:
                continue
            sim.sig(j, c)
            what = c['f'][0] if 'f' in c else 'disk full after %d bytes' % c['full'] if 'full' in c else 'short writes'
            k = base.fault_kind(r)
            if k:
                return [viol(k, '%s: %s' % (what, base.brief(r)), f=c)]
            if r.rc == 0:
                if j['kind'] == 'pcall':
                    x = self.pcalls(j, sim, w, r, versions)
                    if not x and b' false ' in r.out:
                        sim.probe['script survived a failed save'] += 1
                else:
                    g, p = base.outputs(sim, w)
                    x = base.compare(h, g) or self.texts(o, p)
                if x:
                    return [viol('silent', '%s, exit status 0: %s' % (what, x), f=c)]
                if r.c['FSHORT_WRITE']:
                    sim.probe['a short write made no difference'] += 1
            else:
                if not r.err.strip():
                    return [viol('mute', '%s: %s without a word' % (what, r.describe()), f=c)]
                if r.fired == r.c['FSHORT_WRITE'] + r.c['FSHORT_READ']:
                    return [viol('short', 'fails when only the number of bytes per system call is small: ' + base.brief(r), f=c)]
                sim.probe['failed and said so'] += 1
            for n, s in (('stepdata', 'stepdata'), ('velocity', 'velocity'), ('snapshot', '.tmp')):
                if 'f' in c and s in what and what[0] == 'W':
                    sim.probe[n + ' write failed'] += 1
            for n in ('RENAME', 'CLOSE', 'MKDIR', 'OPEN', 'TRUNC'):
                if r.c['FERR_' + n]:
                    sim.probe[n.lower() + ' failed'] += 1
            if r.c['FENOSPC']:
                sim.probe['disk full'] += 1
            if j['kind'] == 'pcall':
                continue
            x = snap.whole(sim, w, versions)
            if x:
                return [viol('partial', '%s (%s): %s' % (what, base.brief(r), x), f=c)]
        return []

    def texts(self, o, p):
        for k in sorted(set(o) | set(p)):
            if k.endswith('.tmp') or k.endswith('.dump'):
                continue
            if o.get(k) != p.get(k):
                return '%s differs from the undisturbed run' % k
        return None

    def pcalls(self, j, sim, w, r, versions):
        """What pcall(S.save) said, against what there is."""
        said = {}
        for l in r.out.decode('utf8', 'replace').split('\n'):
            f = l.split(' ')
            if f[0] == 'save' and len(f) >= 3:
                said[int(f[1])] = f[2]
        for i in range(j['n'] + 1):
            x = snap.dumpdiff(w + '/before%d' % i, w + '/after%d' % i)
            if x:
                return 'a save (%s) changed the Space: %s' % (said.get(i), x)
        bad = sum(1 for x in said.values() if x != 'true')
        if bad > r.fired:
            return '%d saves fail after %d faults: %s' % (bad, r.fired, r.out[-200:])
        t = sim.h5tree(w)
        for n in range(j['n'] + 1):
            cur = t.get('copy%d.h5' % n)
            good = [k for k in range(n + 1) if said.get(k) == 'true']
            want = versions['x.h5'][good[-1]] if good else (versions['x.h5'][j['n'] + 1] if j['first'] else None)
            if want is None:
                if cur is not None:
                    return 'a save that failed left a file'
                continue
            if cur is None:
                return 'no file after save %d (%s)' % (n, said.get(n))
            y = cur.same(want)
            if y:
                return 'after save %d (%s) the file is not the last one saved: %s' % (n, said.get(n), y)
        return None


class P07(Faulty):
    id = 'P07'
    quick = (900, 55)
    thorough = (10000000, 700)
    must = ('failed and said so', 'short reads made no difference', 'snapshot read failed', 'stepdata read failed', 'sensors read failed',
            'list read failed', 'body read failed', 'history survived', 'early end of a snapshot')
    rule = ('a case is one job (a script that loads snapshots, lists and bodies, or a resumed run with sensors) and several input faults, each aimed at one read or '
            'open of the undisturbed run; distinct by job and fault; only fired faults count')

    def gen(self, r, i, tier):
        j = snap.job(r, ('resume', 'rerun', 'inputs', 'inputs'))
        if r.random() < 0.5 and j['kind'] in ('resume', 'rerun'):
            n = r.choice([1, 3, 700])
            j['sensors'] = [[round(-2 + 5 * k / n, 3), 1.25] for k in range(n)]
        fs = []
        for _ in range(6 if tier == 'quick' else 12):
            k = r.random()
            if k < 0.75:
                fs.append({'rule': ['RRO', None, r.choice(['', '', '+']), 'e', r.choice(RERR), spot(r)]})
            elif k < 0.85:
                fs.append({'cut': [r.random(), r.choice([r.random(), r.random() ** 4, 1])]})
            elif k < 0.9:
                fs.append({'rule': ['O', None, '', 'e', r.choice(OERR), spot(r)]})
            elif k < 0.95:
                fs.append({'rule': ['R', None, r.choice(['', '+']), 's', r.choice([1, 500, 999]), spot(r)]})
            else:
                fs.append({'short': r.choice([50, 500, 1000]), 'seed': r.randrange(1 << 30)})
        return {'job': j, 'faults': fs}

    def run(self, case, sim):
        j = case['job']
        u = snap.set_up(sim, j)
        if not u:
            sim.probe['no job'] += 1
            return []
        d, args = u
        ref, h, o, versions = snap.reference(sim, j, d, args, trace=True)
        if ref.rc:
            sim.probe['reference: ' + base.brief(ref)[:30]] += 1
            return []
        ev = base.events(ref)
        before = sim.h5tree(d)
        for f in case['faults']:
            w = base.copy_to(sim, d, 'w')
            cut = None
            if 'cut' in f:
                cut = self.cut(f['cut'], w, args, ev)
                c = {'cut': cut}
                if not cut:
                    continue
                r = sim.run('vvflow', args, w, base.REF, timeout=20)
            else:
                c = self.fault_cfg(f, ev, ref)
                if not c:
                    continue
                r = sim.run('vvflow', args, w, c, timeout=20)
                if not r.fired:
                    continue
            sim.sig(j, c)
            what = '%s cut to %d bytes' % tuple(cut) if cut else c['f'][0] if 'f' in c else 'short reads'
            k = base.fault_kind(r)
            if k:
                return [viol(k, '%s: %s' % (what, base.brief(r)), f=c)]
            g, p = base.outputs(sim, w)
            if r.rc == 0:
                x = base.compare(h, g)
                if not x:
                    for n in sorted(set(o) | set(p)):
                        if not n.endswith('.tmp') and o.get(n) != p.get(n):
                            x = '%s differs from the undisturbed run' % n
                if x:
                    return [viol('silent', '%s, exit status 0: %s' % (what, x), f=c)]
                if r.c['FSHORT_READ']:
                    sim.probe['short reads made no difference'] += 1
            else:
                if not r.err.strip():
                    return [viol('mute', '%s: %s without a word' % (what, r.describe()), f=c)]
                if not cut and r.fired == r.c['FSHORT_WRITE'] + r.c['FSHORT_READ']:
                    return [viol('short', 'fails when only the number of bytes per system call is small: ' + base.brief(r), f=c)]
                sim.probe['failed and said so'] += 1
            for n, s in (('snapshot', 'results_'), ('stepdata', 'stepdata'), ('sensors', 'sens'), ('list', 'list'), ('body', 'body.txt')):
                if 'f' in c and s in what and what[0] == 'R' and ':e:' in what:
                    sim.probe[n + ' read failed'] += 1
            if cut:
                sim.probe['early end of a snapshot'] += 1
                continue
            x = snap.whole(sim, w, versions)
            if x:
                return [viol('partial', '%s (%s): %s' % (what, base.brief(r), x), f=c)]
            # the step history before the time the run starts from is still there
            for n, b in before.items():
                if not n.startswith('stepdata') or '/time' not in b.dset:
                    continue
                x = lost_rows(b, g.get(n), j, h.get(n), start_row(b, before.get(args[-1])))
                if x:
                    return [viol('history', '%s (%s): %s' % (what, base.brief(r), x), f=c)]
                sim.probe['history survived'] += 1
        return []


    def cut(self, u, w, args, ev):
        """Shorten one of the snapshots the job reads (never to nothing: an empty file is an empty problem)."""
        if isinstance(u[0], str):
            n, k = u
        else:
            li = sorted({n for k, n in ev if k == 'O' and n.endswith('.h5') and 'stepdata' not in n and os.path.isfile(os.path.join(w, n))})
            if not li:
                return None
            n = li[int(u[0] * len(li))]
            size = os.path.getsize(os.path.join(w, n))
            k = max(1, min(size - 1, int(u[1] * size)))
        if not os.path.isfile(os.path.join(w, n)) or os.path.getsize(os.path.join(w, n)) <= k:
            return None
        os.truncate(os.path.join(w, n), k)
        return [n, k]


def start_row(b, snapshot):
    """How many rows of the step history are from before the snapshot."""
    import struct
    from ..core import rows
    if snapshot is None or '/time' not in b.dset:
        return 0
    v, ts = struct.unpack('<iI', snapshot.attr[('/', 'time')][1])
    t = struct.unpack('<f', struct.pack('<f', v / ts))[0]
    n = 0
    for x in rows(b.dset['/time']):
        if not x[0] < t:
            break
        n += 1
    return n


def lost_rows(b, a, j, full, start):
    """Rows of the step history that both the old file and the undisturbed run's file begin with must survive."""
    from ..core import rows
    if a is None or not a.ok:
        return 'the step history is gone'
    for k, x in b.dset.items():
        y = full.dset.get(k)
        if y is None:
            continue
        old, end = rows(x), rows(y)
        n = 0
        while n < min(len(old), len(end)) and repr(old[n]) == repr(end[n]):
            n += 1
        z = a.dset.get(k)
        if j['kind'] != 'resume':
            n = 0
        else:
            n = min(n, start)
        if n and (z is None or len(rows(z)) < n or repr(rows(z)[:n]) != repr(old[:n])):
            return 'of %d rows of %s from before the start %s are left' % (n, k, 'none' if z is None else len(rows(z)))
    return None


class P17(Faulty):
    id = 'P17'
    quick = (900, 80)
    thorough = (10000000, 700)
    must = ('ended with an error', 'survived', 'snapshots of the dead process are whole')
    rule = ('a case is one job and several failing allocations (the n-th, or all from the n-th on), spread over the allocations of the undisturbed run; '
            'distinct by job and allocation; only fired faults count')
    assumptions = Prop.assumptions + ['the process may be ended by the first failing allocation in any way but an endless loop; HDF5 and Lua do not promise more']

    def gen(self, r, i, tier):
        return {'job': snap.job(r, ink=r.random() < 0.6, sinks=r.random() < 0.4), 'faults': [{'malloc': spot(r) if r.random() < 0.7 else r.random() ** r.choice([1, 1, 3]), 'sticky': r.random() < 0.4} for _ in range(12 if tier == 'quick' else 20)]}

    def run(self, case, sim):
        j = case['job']
        u = snap.set_up(sim, j)
        if not u:
            return []
        d, args = u
        ref, h, o, versions = snap.reference(sim, j, d, args, True)
        if ref.rc:
            return []
        for f in case['faults']:
            c = self.fault_cfg(f, None, ref)
            w = base.copy_to(sim, d, 'w')
            r = sim.run('vvflow', args, w, c, timeout=20)
            if not r.fired:
                continue
            sim.sig(j, c)
            what = 'allocation %d fails%s' % (c['mallocfail'], ' and all later ones' if c.get('mallocsticky') else '')
            if crash_kind(r) in ('hang', 'deadlock', 'livelock'):
                return [viol(crash_kind(r), '%s: %s' % (what, base.brief(r)), f=c)]
            if r.rc == 0:
                g, p = base.outputs(sim, w)
                x = base.compare(h, g)
                if not x:
                    for n in sorted(set(o) | set(p)):
                        if not n.endswith('.tmp') and o.get(n) != p.get(n):
                            x = '%s differs from the undisturbed run' % n
                if x:
                    return [viol('silent', '%s, exit status 0: %s' % (what, x), f=c)]
                sim.probe['survived'] += 1
            else:
                sim.probe['ended by a signal' if r.rc < 0 else 'ended with an error'] += 1
            x = snap.whole(sim, w, versions)
            if x:
                return [viol('partial', '%s (%s): %s' % (what, base.brief(r), x), f=c)]
            sim.probe['snapshots of the dead process are whole'] += 1
        return []


ALL = [P06, P07, P17]
