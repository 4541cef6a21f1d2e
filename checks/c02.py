"""C02: filling undefined arms of an expression with the signal itself."""
import z3
import pyverilog.dataflow.dataflow as DF
import pyverilog.dataflow.replace as real
from pyvc.types import *
from pyvc.core import *
from pyvc import dfspec
from pyvc.dfspec import Val, Name
from checks import dfgen
from checks.dfgen import ser, deser

Shape = z3.DeclareSort('Shape')
NM = z3.Const('the_signal', Name)


def spec():
    D = dfspec.classes()
    s = dfspec.base_spec('C02')
    S = z3.StringSort()
    leaf = z3.Function('leaf', Ref, Shape)
    term = z3.Function('term', Name, Shape)
    nothing = z3.Const('absent', Shape)

    def make(name, null, undef):
        f = SpecFun(name, Shape, {}, null=lambda: null)
        h = Hom(name + 's', 'seq', lambda p, v: f(p, v), Shape, dfspec.is_node_type)
        return f, h
    shape, shapes = make('shape', nothing, None)
    filled, filleds = make('filled', term(NM), term(NM))
    # both image sequences live in one sort so that they can be compared
    filleds.seqsort, filleds.nil, filleds.cons, filleds.app = shapes.seqsort, shapes.nil, shapes.cons, shapes.app
    filleds.fn = z3.Function('filleds', RSeq, shapes.seqsort)
    q = shapes.seqsort
    mk = {
        'branch': z3.Function('Branch', Shape, Shape, Shape, Shape), 'op': z3.Function('Operator', S, q, Shape),
        'concat': z3.Function('Concat', q, Shape), 'part': z3.Function('Partselect', Shape, Shape, Shape, Shape),
        'ptr': z3.Function('Pointer', Shape, Shape, Shape)}

    def rules(g, h, undef):
        return {
            D.DFBranch: lambda p, r, f: mk['branch'](g(p, f('condnode')), g(p, f('truenode')), g(p, f('falsenode'))),
            D.DFOperator: lambda p, r, f: mk['op'](p.sterm(f('operator')), p.hom(h, f('nextnodes'))),
            D.DFConcat: lambda p, r, f: mk['concat'](p.hom(h, f('nextnodes'))),
            D.DFPartselect: lambda p, r, f: mk['part'](g(p, f('var')), g(p, f('msb')), g(p, f('lsb'))),
            D.DFPointer: lambda p, r, f: mk['ptr'](g(p, f('var')), g(p, f('ptr'))),
            D.DFTerminal: lambda p, r, f: term(f('name').t),
            D.DFUndefined: undef,
        }
    shape.unfold = rules(shape, shapes, lambda p, r, f: leaf(r.t))
    filled.unfold = rules(filled, filleds, lambda p, r, f: term(NM))
    shape.default = filled.default = lambda p, r, f: leaf(r.t)
    s.specfuns = [shape, filled]
    s.homs = [shapes, filleds]

    def kinds(cls):
        return [c for c in dfspec.node_types() if c not in (D.DFHighImpedance, D.DFDelay, D.DFSyscall)]
    N = TObj(tuple(kinds(None)), True)
    R = TObj(tuple(kinds(None)))
    s.families = [tuple(kinds(None))]
    for c in s.schema:
        for k, t in list(s.schema[c].items()):
            if t == s.NN:
                s.schema[c][k] = N
            elif isinstance(t, TSeq):
                s.schema[c][k] = TSeq(N)

    s.cross = [(shapes, filleds)]
    s.add(Contract('pyverilog.dataflow.replace:replaceUndefined', {'tree': N, 'termname': lambda p, it, a: SOpq(NM)},
                   returns=R,
                   requires=lambda p, a: [('the signal', p.force(a['termname']).t == NM)],
                   ensures=lambda p, a, r, o: [('absent and undefined become the signal, the rest is kept',
                                                shape(p, r) == filled(p, a['tree']))]))
    return s


def specs():
    return [spec]


# ------------------------------------------------------------------ bounded search on the real code
KINDS = ('branch', 'op', 'part', 'ptr', 'concat')


def hole(rng, t):
    """punch absent children into any position that can hold them"""
    if t is None:
        return None
    h = lambda x: None if rng.random() < .15 else hole(rng, x)
    if isinstance(t, DF.DFBranch):
        return DF.DFBranch(h(t.condnode), h(t.truenode), h(t.falsenode))
    if isinstance(t, DF.DFOperator):
        return DF.DFOperator(tuple(hole(rng, x) for x in t.nextnodes), t.operator)
    if isinstance(t, DF.DFConcat):
        return DF.DFConcat(tuple(h(x) for x in t.nextnodes))
    if isinstance(t, DF.DFPartselect):
        return DF.DFPartselect(h(t.var), h(t.msb), h(t.lsb))
    if isinstance(t, DF.DFPointer):
        return DF.DFPointer(h(t.var), h(t.ptr))
    return t


def cases(rng, tier, shard, nshards):
    lv = [dfgen.term('a'), DF.DFUndefined(4), None]
    small = [x for x in dfgen.enum_small([dfgen.term('a'), DF.DFUndefined(4)])
             if not any(isinstance(y, DF.DFDelay) for y in dfgen.walk(x))]
    for i, t in enumerate(small + lv):
        if i % nshards == shard:
            yield {'tree': ser(t), 'name': 'sig'}
    while True:
        t = hole(rng, dfgen.rnd(rng, rng.randrange(1, 6), kinds=KINDS))
        yield {'tree': ser(t), 'name': rng.choice(['sig', 'a', 'b'])}


def fill(t, name):
    if t is None or isinstance(t, DF.DFUndefined):
        return ('term', str(name))
    if isinstance(t, DF.DFBranch):
        return ('branch', fill(t.condnode, name), fill(t.truenode, name), fill(t.falsenode, name))
    if isinstance(t, DF.DFOperator):
        return ('op', t.operator) + tuple(fill(x, name) for x in t.nextnodes)
    if isinstance(t, DF.DFConcat):
        return ('cat',) + tuple(fill(x, name) for x in t.nextnodes)
    if isinstance(t, DF.DFPartselect):
        return ('part', fill(t.var, name), fill(t.msb, name), fill(t.lsb, name))
    if isinstance(t, DF.DFPointer):
        return ('ptr', fill(t.var, name), fill(t.ptr, name))
    if isinstance(t, DF.DFTerminal):
        return ('term', str(t.name))
    return (type(t).__name__,) + tuple(sorted((k, repr(v)) for k, v in t.__dict__.items()))


def shape(t):
    if t is None:
        return 'ABSENT'
    if isinstance(t, DF.DFUndefined):
        return 'UNDEFINED'
    if isinstance(t, DF.DFBranch):
        return ('branch', shape(t.condnode), shape(t.truenode), shape(t.falsenode))
    if isinstance(t, DF.DFOperator):
        return ('op', t.operator) + tuple(shape(x) for x in t.nextnodes)
    if isinstance(t, DF.DFConcat):
        return ('cat',) + tuple(shape(x) for x in t.nextnodes)
    if isinstance(t, DF.DFPartselect):
        return ('part', shape(t.var), shape(t.msb), shape(t.lsb))
    if isinstance(t, DF.DFPointer):
        return ('ptr', shape(t.var), shape(t.ptr))
    return fill(t, None)


def check_case(case):
    t = deser(case['tree'])
    name = dfgen.chain(case['name'])
    before = dfgen.show(t)
    try:
        r = real.replaceUndefined(t, name)
    except RecursionError:
        return None
    except Exception as e:
        return ('exception', 'replaceUndefined(%s, %s) raised %s: %s' % (before, name, type(e).__name__, e))
    if dfgen.show(t) != before:
        return ('argument-changed', 'replaceUndefined changed its argument %s into %s' % (before, dfgen.show(t)))
    if shape(r) != fill(t, name):
        return ('value', 'replaceUndefined(%s, %s) = %s' % (before, name, dfgen.show(r)))
    return None


def case_from_cex(target, cex):
    return {'tree': cex['tree'], 'name': 'sig'}


def case_key(case):
    return dfgen.show(deser(case['tree'])) + ' / ' + case['name']


LEVEL = 'proof'
LEVEL_NOTE = ('replaceUndefined proved for every tree of the node kinds the front end builds (no DFHighImpedance, DFDelay, '
              'DFSyscall: nothing in the tool creates them) against a structural specification; termination not covered')
QUICK_S = 8
THOROUGH_S = 200
ASSUMPTIONS = ['trees contain only the node kinds the front end builds']
RULE = ('real replaceUndefined() on every small tree (depth<=2) and random trees of depth<=5 with absent children anywhere; '
        'distinct = different tree texts')
