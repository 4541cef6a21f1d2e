"""Concrete dataflow trees for the bounded searches: enumeration, random generation, term semantics."""
import itertools
import random
import pyverilog.dataflow.dataflow as D
import pyverilog.utils.scope as SC
from pyvc.codec import ser, deser

OPS2 = ('Plus', 'Minus', 'Times', 'And', 'Or', 'Xor', 'Land', 'Lor', 'Eq', 'NotEq', 'LessThan', 'GreaterThan', 'LessEq',
        'GreaterEq', 'Sll', 'Srl')
OPS1 = ('Ulnot', 'Unot', 'Uminus', 'Uand', 'Uor', 'Uxor')


def chain(*names, **kw):
    return SC.ScopeChain([SC.ScopeLabel('top', 'module')] + [SC.ScopeLabel(n, 'signal') for n in names])


NAMES = ['a', 'b', 'c', 'd', 'e']


def term(n):
    return D.DFTerminal(chain(n))


def rnd(rng, depth, nullable=False, kinds=('branch', 'op', 'part', 'ptr', 'concat', 'delay'), leaf=None, names=NAMES):
    """random tree; nullable: this position may be None"""
    if nullable and rng.random() < 0.12:
        return None
    if depth <= 0 or rng.random() < 0.15:
        if leaf is not None:
            return leaf(rng)
        k = rng.randrange(12)
        if k < 7:
            return term(rng.choice(names))
        if k < 9:
            return D.DFIntConst(rng.choice(["1", "0", "4'd3", "2'b10", "8'hff"]))
        if k == 9:
            return D.DFEvalValue(rng.randrange(4), 32)
        if k == 10:
            return D.DFUndefined(32)
        return D.DFStringConst('s')
    k = rng.choice(kinds)
    r = lambda nl=False: rnd(rng, depth - 1, nl, kinds, leaf, names)
    if k == 'branch':
        return D.DFBranch(r(), r(True), r(True))
    if k == 'op':
        if rng.random() < .25:
            return D.DFOperator((r(),), rng.choice(OPS1))
        return D.DFOperator((r(), r()), rng.choice(OPS2))
    if k == 'part' and rng.random() < .3:
        i = r()
        return D.DFPartselect(r(), i, deser(ser(i)) if rng.random() < .6 else r())
    if k == 'part':
        return D.DFPartselect(r(), D.DFIntConst(str(rng.randrange(4, 8))), D.DFIntConst(str(rng.randrange(4))))
    if k == 'ptr':
        return D.DFPointer(r(), r())
    if k == 'concat':
        return D.DFConcat(tuple(r() for _ in range(rng.randrange(1, 4))))
    if k == 'delay':
        return D.DFDelay(r())
    raise KeyError(k)


def den(t, truth, missing='MISSING', signal=None):
    """value of a tree in the free term algebra; truth decides conditions; signal: trees that stand for signals"""
    d = lambda x: den(x, truth, missing, signal)
    if t is None:
        return missing
    if isinstance(t, D.DFBranch):
        return d(t.truenode if truth(d(t.condnode)) else t.falsenode)
    if isinstance(t, D.DFOperator):
        return ('op', t.operator) + tuple(d(x) for x in t.nextnodes)
    if isinstance(t, D.DFConcat):
        return ('cat',) + tuple(d(x) for x in t.nextnodes)
    if isinstance(t, D.DFPartselect):
        v = d(t.var)
        return missing if v == missing else ('part', v, d(t.msb), d(t.lsb))
    if isinstance(t, D.DFPointer):
        v = d(t.var)
        return missing if v == missing else ('ptr', v, d(t.ptr))
    if isinstance(t, D.DFDelay):
        return ('delay', d(t.nextnode))
    if isinstance(t, D.DFTerminal):
        n = str(t.name)
        s = signal(n) if signal else None
        return d(s) if s is not None else ('term', n)
    return (type(t).__name__,) + tuple(sorted((k, repr(v)) for k, v in t.__dict__.items()))


def truth_fn(salt):
    import zlib
    return lambda v: bool((zlib.crc32(repr((salt, v)).encode()) >> 3) & 1)


def walk(t):
    yield t
    if t is None:
        return
    for k in ('condnode', 'truenode', 'falsenode', 'var', 'msb', 'lsb', 'ptr', 'nextnode'):
        if k in t.__dict__:
            for x in walk(t.__dict__[k]):
                yield x
    for n in t.__dict__.get('nextnodes') or ():
        for x in walk(n):
            yield x


def show(t):
    if t is None:
        return 'None'
    if isinstance(t, D.DFTerminal):
        return str(t.name)
    f = [(k, v) for k, v in t.__dict__.items()]
    return '%s(%s)' % (type(t).__name__, ', '.join(
        show(v) if (v is None or isinstance(v, D.DFNode)) else
        ('[' + ', '.join(show(x) for x in v) + ']' if isinstance(v, (tuple, list)) and k == 'nextnodes' else repr(v))
        for k, v in f))


def enum_small(leaves):
    """every tree of depth <= 2 over the given leaves (one inner node over leaves / branches of leaves)"""
    lv = list(leaves)
    br = [D.DFBranch(c, t, f) for c, t, f in itertools.product(lv[:2], lv + [None], lv + [None])]
    sub = lv + br
    for s in sub:
        yield s
    for a in sub:
        yield D.DFOperator((a,), 'Unot')
        yield D.DFDelay(a)
        yield D.DFPartselect(a, D.DFIntConst('3'), D.DFIntConst('0'))
        yield D.DFBranch(a, lv[0], lv[1])
    for a, b in itertools.product(sub, sub):
        yield D.DFOperator((a, b), 'Minus')
        yield D.DFConcat((a, b))
        yield D.DFPointer(a, b)
        yield D.DFPartselect(lv[0], a, b)
        yield D.DFBranch(lv[0], a, b)
        yield D.DFBranch(a, b, None)
