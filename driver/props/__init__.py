"""The properties and their checks."""
import importlib

WHERE = {}


def _scan():
    for m in ('sched', 'snap', 'faults', 'record', 'physics', 'tools'):
        try:
            mod = importlib.import_module('driver.props.' + m)
        except ModuleNotFoundError as e:
            if e.name != 'driver.props.' + m:
                raise
            continue
        for p in mod.ALL:
            WHERE[p.id] = p


def get(pid):
    if not WHERE:
        _scan()
    if pid not in WHERE:
        from ..core import CheckError
        raise CheckError('no such property: %s' % pid)
    return WHERE[pid]()


def ids():
    if not WHERE:
        _scan()
    return sorted(WHERE)
