"""Concrete syntax-tree nodes for the bounded searches."""
import pyverilog.vparser.ast as A
from checks.astspec import T, node_classes

CLASSES = [c for c in node_classes() if c.__name__ in T]
LEAVES = [lambda r: A.Identifier(r.choice('abcd')), lambda r: A.IntConst(r.choice(['0', '1', "4'd3"])),
          lambda r: A.DelayStatement(A.IntConst('5')), lambda r: A.Identifier('x')]


def attr(rng):
    return rng.choice(['a', 'b', 'clk', None, False, True])


def rnd(rng, depth, cls=None):
    if depth <= 0 and cls is None:
        return rng.choice(LEAVES)(rng)
    c = cls or rng.choice(CLASSES)
    args = []
    for f, k in T[c.__name__][0]:
        if k == '=':
            args.append('wire' if f == 'default_nettype' else attr(rng))
        elif k == '?':
            args.append(None if rng.random() < .3 else rnd(rng, depth - 1))
        elif k == '*':
            args.append(rng.choice([tuple, list])(rnd(rng, depth - 1) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))))
    try:
        n = c(*args)
    except Exception as e:
        raise BuildError('%s(%s) raised %s' % (c.__name__, args, e))
    n.lineno = rng.randrange(50)
    return n


class BuildError(Exception):
    pass


def show(n):
    """the structure, read from the attributes (independent of children() and ==)"""
    if not isinstance(n, A.Node):
        return repr(n)
    parts = []
    for f, k in T[type(n).__name__][0]:
        v = n.__dict__.get(f)
        if k == '*':
            parts.append('%s=[%s]' % (f, ', '.join(show(x) for x in v or ())))
        else:
            parts.append('%s=%s' % (f, show(v)))
    return '%s(%s)' % (type(n).__name__, ', '.join(parts))


def key(n):
    """the structure in the sense of C11: class, attributes, children in order, and which parts are absent"""
    if not isinstance(n, A.Node):
        return n
    fields, order = T[type(n).__name__]
    kinds = dict(fields)
    ch = []
    for f in order:
        v = n.__dict__.get(f)
        if kinds[f] == '*':
            ch += [key(x) for x in v or ()]
        elif v is not None:
            ch.append(key(v))
    return (type(n).__name__, tuple(key(n.__dict__[f]) for f, k in fields if k == '=' and f != 'default_nettype'),
            tuple(ch), tuple(f for f, k in fields if k in '?*' and not n.__dict__.get(f)))


def expected_children(n):
    fields, order = T[type(n).__name__]
    kinds = dict(fields)
    ch = []
    for f in order:
        v = n.__dict__.get(f)
        if kinds[f] == '*':
            ch += list(v or ())
        elif v is not None:
            ch.append(v)
    return ch
