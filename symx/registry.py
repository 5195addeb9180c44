"""Harness registry."""
HARNESSES = {}
PROPS = {}


class Task:
    def __init__(self, prop, name, cfg, thorough_only):
        self.prop, self.name, self.cfg, self.thorough_only = prop, name, cfg, thorough_only

    def key(self):
        return '%s(%s)' % (self.name, ', '.join('%s=%s' % (k, v) for k, v in sorted(self.cfg.items())))


def harness(fn):
    HARNESSES[fn.__name__] = fn
    return fn


def claim(prop, name, quick=({},), thorough=()):
    """Register configurations of a harness for a property."""
    ts = PROPS.setdefault(prop, dict(tasks=[], bounds=[], assumptions=[], pre=[]))
    fn = name if isinstance(name, str) else name.__name__
    for c in quick:
        ts['tasks'].append(Task(prop, fn, dict(c), False))
    for c in thorough:
        ts['tasks'].append(Task(prop, fn, dict(c), True))


def describe(prop, bounds=(), assumptions=()):
    ts = PROPS.setdefault(prop, dict(tasks=[], bounds=[], assumptions=[], pre=[]))
    ts['bounds'] += list(bounds)
    ts['assumptions'] += list(assumptions)


MODULES = {}        # property -> list of check modules to import


def load(prop):
    import importlib
    import os
    import re
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks')
    for f in sorted(os.listdir(d)):
        if not f.endswith('.py') or f.startswith('_'):
            continue
        src = open(os.path.join(d, f)).read()
        m = re.search(r'^PROPERTIES = (\[.*?\])', src, re.M)
        if m and prop in eval(m.group(1)):
            importlib.import_module('checks.' + f[:-3])
