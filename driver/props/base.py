"""Shared pieces of the checks."""
import os, shutil, subprocess
from .. import scen
from ..core import CheckError, crash_kind

REF = {'sched': 0, 'threads': 1, 'race': 0, 'maxev': 400000000}


def write(d, name, text):
    p = os.path.join(d, name)
    with open(p, 'w') as f:
        f.write(text)
    return p


def lua(sim, d, text, name='s.lua', cfg=None, tool_args=(), **kw):
    write(d, name, text)
    return sim.run('vvflow', list(tool_args) + [name], d, cfg or REF, **kw)


def edit(sim, path, ops):
    """Change a snapshot with an independent writer."""
    p = subprocess.run([os.path.join(sim.b, 'h5mod'), path] + ops, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    if p.returncode:
        raise CheckError('h5mod: %s %s' % (p.returncode, p.stderr[:200]))


def prepare(sim, d, s, body=None):
    """Write the problem into d; returns the argument vvflow starts from
    (a script, or a snapshot where the problem has parts no script can state)."""
    if s.get('extra'):
        r = lua(sim, d, scen.assign(s) + 'S:save("init.h5")\n', 'init.lua')
        if r.rc != 0:
            raise CheckError('cannot state the problem: %s' % r.err[:300])
        edit(sim, os.path.join(d, 'init.h5'), scen.edits(s))
        if body is None:
            return 'init.h5'
        write(d, 's.lua', 'S:load("init.h5")\n' + body)
        return 's.lua'
    write(d, 's.lua', scen.assign(s) + (body if body is not None else 'simulate()\n'))
    return 's.lua'


def brief(r):
    e = r.err.decode('utf8', 'replace').strip().split('\n')
    return r.describe() + (' (%s)' % e[-1][:160] if e and e[-1] else '')


def compare(a, b, skip=('time_local',)):
    """First difference between two {path: H5} sets, or None."""
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            return '%s is %s' % (k, 'missing' if k not in b else 'unexpected')
        d = a[k].same(b[k], skip)
        if d:
            return '%s: %s' % (k, d)
    return None


def outputs(sim, d):
    """Every product of a run: HDF5 files by content, others by bytes."""
    h = sim.h5tree(d)
    h.pop('init.h5', None)
    o = {k: v for k, v in sim.tree(d).items() if not k.endswith(('.h5', '.lua')) and k != 'inner.txt'}
    return h, o


def fault_kind(r):
    """How a process may not end, whatever fails around it.  An uncaught C++ exception is a report, if a rude one."""
    k = crash_kind(r)
    if k == 'crash' and r.rc == -6 and b'terminate called' in r.err:
        return None
    if k == 'crash' and r.rc == -11 and r.c['EXITING'] and r.err.strip() and (r.c['NFAULT'] or r.c['FMALLOC']):
        return None # HDF5 1.10 crashes in its own exit handler after an H5Fclose that failed; the program has reported the failure by then
    return k


def copy_to(sim, src, name):
    d = os.path.join(sim.root, name)
    if os.path.isdir(d):
        shutil.rmtree(d)
    shutil.copytree(src, d)
    return d


def events(r):
    """The I/O operations of a traced run: (kind, file)."""
    o = []
    for l in r.trace.split('\n'):
        f = l.split(' ')
        if len(l) > 4 and len(f) >= 4 and len(f[0]) == 1 and f[0] != 'K':
            o.append((f[0], ' '.join(f[1:-2])))
    return o


def alloc(ref, u):
    """The number of one allocation of a run traced with sites=1, chosen evenly over the places in the program (or pairs of them), then over its occurrences."""
    g = {}
    for l in ref.trace.split('\n'):
        if l.startswith('site '):
            a, b, n = [int(x) for x in l.split()[1:]]
            g.setdefault(a if u[1] < 0.3 else (a, b), []).append(n)
    if not g:
        return 1 + int(u[0] * ref.c['MALLOC'])
    li = g[sorted(g)[int(u[0] * len(g))]]
    return li[int(u[2] * len(li))]


def fclass(name):
    """What kind of file it is (so that rare ones are hit as often as frequent ones)."""
    n = name.split('/')[-1]
    for k in ('.tmp', 'stepdata', 'velocity', '.lua', '.h5'):
        if k in name:
            return k
    return n


def aim(ev, kinds, u1, u2, u3, files=None):
    """One operation of the run, chosen evenly over (kind, class of file), then over its occurrences: 'kind:path:n'."""
    g = {}
    for i, (k, n) in enumerate(ev):
        if k in kinds and n and ':' not in n and ';' not in n and '=' not in n and (files is None or any(f in n for f in files)):
            g.setdefault((k, fclass(n)), []).append(i)
    if not g:
        return None
    key = sorted(g)[int(u1 * len(g))]
    li = g[key]
    # the first, the last, or any
    i = li[0] if u2 < 0.12 else li[-1] if u2 < 0.3 else li[int(u3 * len(li))]
    k, n = ev[i]
    return '%s:%s:%d' % (k, n, sum(1 for a, b in ev[:i + 1] if a == k and n in b))
