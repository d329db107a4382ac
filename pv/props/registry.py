import importlib
MODULES = {}
META = {}
_LOADED = {}


def _load():
    if _LOADED:
        return
    import os
    here = os.path.dirname(os.path.abspath(__file__))
    _LOADED['_'] = []
    for f in sorted(os.listdir(here)):
        if f.startswith('p_') and f.endswith('.py'):
            m = importlib.import_module('pv.props.' + f[:-3])
            for prop, cs in m.CASES.items():
                _LOADED.setdefault(prop, []).extend(cs)
            META.update(getattr(m, 'META', {}))
    _LOADED['C17'] = frames()
    META['C17'] = {'mut': True, 'note': 'Frame conditions: the calls of every other property, with the postcondition that the arguments are unchanged and the returned arrays independent; proved for a selection of parameters covering every parameter value, evaluated on the real code for all of them.'}


def cover(params):
    """parameter sets that together contain every value of every parameter"""
    seen, out = set(), []
    for i, p in enumerate(params):
        kv = {(k, repr(v)) for k, v in p.items()}
        if not out or not kv <= seen:
            seen |= kv
            out.append(i)
    return out


NOARR = ('C02 ', 'C06 levels', 'C07 gray numbering', 'C24 Lagrange coefficients', 'C24 sinc coefficients', 'C28 closed forms')     # calls without array arguments


def frames():
    import copy
    r = []
    for prop in sorted(k for k in _LOADED if k not in ('_', 'C17')):
        for cs in _LOADED[prop]:
            if not cs.mutcheck or ('%s %s' % (prop, cs.name)).startswith(NOARR):
                continue
            q = copy.copy(cs)
            q.name = '%s %s' % (prop, cs.name)
            q.trials = min(cs.trials, max(3, 60 // len(cs.params)))
            q.deadline = 100
            if cs.sym:
                ok = [i for i in range(len(cs.params)) if cs.symparams is None or i in cs.symparams]
                q.symparams = [ok[i] for i in cover([cs.params[i] for i in ok])]
            r.append(q)
    return r


def cases(prop):
    _load()
    if prop not in _LOADED:
        raise SystemExit('unknown property %s' % prop)
    return _LOADED[prop]


def all_cases():
    _load()
    return {k: v for k, v in _LOADED.items() if k != '_'}
