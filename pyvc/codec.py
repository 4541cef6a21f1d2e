"""JSON coding of the concrete inputs of the real code (replay files)."""
import importlib


def ser(v):
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, float):
        return {'$': 'float', 'v': repr(v)}
    if isinstance(v, tuple):
        return {'$': 'tuple', 'v': [ser(x) for x in v]}
    if isinstance(v, list):
        return {'$': 'list', 'v': [ser(x) for x in v]}
    if isinstance(v, (set, frozenset)):
        return {'$': 'set', 'v': [ser(x) for x in sorted(v, key=repr)]}
    if isinstance(v, dict):
        return {'$': 'dict', 'v': [[ser(k), ser(x)] for k, x in v.items()]}
    if isinstance(v, type):
        return {'$': 'type', 'v': '%s:%s' % (v.__module__, v.__qualname__)}
    c = type(v)
    return {'$': 'obj', 'c': '%s:%s' % (c.__module__, c.__qualname__),
            'f': [[k, ser(x)] for k, x in v.__dict__.items()]}


def cls_of(s):
    m, q = s.split(':')
    o = importlib.import_module(m)
    for p in q.split('.'):
        o = getattr(o, p)
    return o


def deser(j):
    if not isinstance(j, dict):
        return j
    k = j['$']
    if k == 'float':
        return float(j['v'])
    if k == 'tuple':
        return tuple(deser(x) for x in j['v'])
    if k == 'list':
        return [deser(x) for x in j['v']]
    if k == 'set':
        return set(deser(x) for x in j['v'])
    if k == 'dict':
        return dict((deser(a), deser(b)) for a, b in j['v'])
    if k == 'type':
        return cls_of(j['v'])
    c = cls_of(j['c'])
    o = c.__new__(c)
    for n, x in j['f']:
        o.__dict__[n] = deser(x)
    return o
