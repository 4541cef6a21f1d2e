"""Value of a dataflow tree, and the contracts of pyverilog/dataflow/reorder.py over it."""
import z3
from pyvc.types import *
from pyvc.core import *
from pyvc import dfspec
from pyvc.dfspec import Val


class Names(object):
    pass


def base(name, without=()):
    """schema and the value of a tree: den, plus the shape predicates the conditions-to-top pass needs"""
    D = dfspec.classes()
    s = dfspec.base_spec(name, without)
    S = z3.StringSort()
    ite_truth = z3.Function('truth', Val, z3.BoolSort())
    vmiss = z3.Const('missing', Val)
    leaf = z3.Function('leaf', Ref, Val)

    den = SpecFun('den', Val, {}, null=lambda: vmiss)
    dens = Hom('dens', 'seq', lambda p, v: den(p, v), Val, dfspec.is_node_type)
    opsem = z3.Function('opsem', S, dens.seqsort, Val)
    catsem = z3.Function('catsem', dens.seqsort, Val)
    partsem = z3.Function('partsem', Val, Val, Val, Val)
    ptrsem = z3.Function('ptrsem', Val, Val, Val)
    delaysem = z3.Function('delaysem', Val, Val)
    tuse = lambda p, r, f: leaf(r.t)
    den.unfold = {
        D.DFBranch: lambda p, r, f: z3.If(ite_truth(den(p, f('condnode'))), den(p, f('truenode')),
                                          den(p, f('falsenode'))),
        D.DFOperator: lambda p, r, f: opsem(p.sterm(f('operator')), p.hom(dens, f('nextnodes'))),
        D.DFConcat: lambda p, r, f: catsem(p.hom(dens, f('nextnodes'))),
        D.DFPartselect: lambda p, r, f: partsem(den(p, f('var')), den(p, f('msb')), den(p, f('lsb'))),
        D.DFPointer: lambda p, r, f: ptrsem(den(p, f('var')), den(p, f('ptr'))),
        D.DFDelay: lambda p, r, f: delaysem(den(p, f('nextnode'))),
    }
    den.default = tuse
    B = z3.BoolSort()
    hasbr = SpecFun('has_branch', B, {}, null=lambda: z3.BoolVal(False), default=lambda p, r, f: z3.BoolVal(False))
    full = SpecFun('no_missing', B, {}, null=lambda: z3.BoolVal(False), default=lambda p, r, f: z3.BoolVal(True))
    wf = SpecFun('reorderable', B, {}, null=lambda: z3.BoolVal(True), default=lambda p, r, f: z3.BoolVal(True))
    isterm = SpecFun('is_terminal', B, {D.DFTerminal: lambda p, r, f: z3.BoolVal(True)}, null=lambda: z3.BoolVal(False),
                     default=lambda p, r, f: z3.BoolVal(False))
    anybr = Hom('any_branch', 'any', lambda p, v: hasbr(p, v), None, dfspec.is_node_type)
    allfull = Hom('all_no_missing', 'all', lambda p, v: full(p, v), None, dfspec.is_node_type)
    allwf = Hom('all_reorderable', 'all', lambda p, v: wf(p, v), None, dfspec.is_node_type)
    T_ = z3.BoolVal(True)
    three = lambda g, a, c: (lambda p, r, f: c([g(p, f(x)) for x in a]))
    hasbr.unfold = {
        D.DFBranch: lambda p, r, f: T_,
        D.DFOperator: lambda p, r, f: p.hom(anybr, f('nextnodes')),
        D.DFConcat: lambda p, r, f: p.hom(anybr, f('nextnodes')),
        D.DFPartselect: three(hasbr, ('var', 'msb', 'lsb'), z3.Or),
        D.DFPointer: three(hasbr, ('var', 'ptr'), z3.Or),
        D.DFDelay: three(hasbr, ('nextnode',), z3.Or),
    }
    full.unfold = {
        D.DFBranch: three(full, ('condnode', 'truenode', 'falsenode'), z3.And),
        D.DFOperator: lambda p, r, f: p.hom(allfull, f('nextnodes')),
        D.DFConcat: lambda p, r, f: p.hom(allfull, f('nextnodes')),
        D.DFPartselect: three(full, ('var', 'msb', 'lsb'), z3.And),
        D.DFPointer: three(full, ('var', 'ptr'), z3.And),
        D.DFDelay: three(full, ('nextnode',), z3.And),
    }
    wf.unfold = {
        D.DFBranch: three(wf, ('condnode', 'truenode', 'falsenode'), z3.And),
        D.DFOperator: lambda p, r, f: z3.And(p.hom(allwf, f('nextnodes')), p.hom(allfull, f('nextnodes'))),
        D.DFConcat: lambda p, r, f: p.hom(allwf, f('nextnodes')),
        D.DFPartselect: three(wf, ('var', 'msb', 'lsb'), z3.And),
        D.DFPointer: three(wf, ('var', 'ptr'), z3.And),
        D.DFDelay: three(wf, ('nextnode',), z3.And),
        D.DFSyscall: lambda p, r, f: z3.BoolVal(False),
    }
    s.specfuns = [den, hasbr, full, wf, isterm]
    s.homs = [dens, anybr, allfull, allwf]
    # a selection from a missing value is missing (the tool keeps a missing arm missing)
    x, y = z3.Consts('x y', Val)
    s.axioms = [z3.ForAll([x, y], partsem(vmiss, x, y) == vmiss), z3.ForAll([x], ptrsem(vmiss, x) == vmiss)]
    ns = Names()
    ns.__dict__.update(locals())
    return s, ns


def reorder_contracts(s, ns):
    D, den, dens, opsem, catsem, partsem, ptrsem = ns.D, ns.den, ns.dens, ns.opsem, ns.catsem, ns.partsem, ns.ptrsem
    hasbr, full, wf, allfull, allwf, ite_truth = ns.hasbr, ns.full, ns.wf, ns.allfull, ns.allwf, ns.ite_truth
    N, NN = s.N, s.NN
    M = 'pyverilog.dataflow.reorder:'

    def keep(p, t, r):
        return [('well-formed', z3.Implies(wf(p, t), wf(p, r))),
                ('no arm lost', z3.Implies(full(p, t), full(p, r))),
                ('no branch invented', z3.Implies(z3.Not(hasbr(p, t)), z3.Not(hasbr(p, r))))]

    # equal expressions have the same structure (property C10), hence the same value
    s.virtuals[(D.DFNode, '__eq__')] = Contract(
        'pyverilog.dataflow.dataflow:DFNode.__eq__', {'self': N, 'other': NN}, returns=BOOL, trusted=True,
        ensures=lambda p, a, r, o: [('same structure, same value', z3.Implies(p.bterm(r), den(p, a['self']) == den(p, a['other'])))])
    s.add(Contract(M + 'reorder', {'tree': NN}, returns=NN,
                   requires=lambda p, a: [('reorderable', wf(p, a['tree']))],
                   ensures=lambda p, a, r, o: [('same value', den(p, r) == den(p, a['tree']))] + keep(p, a['tree'], r)))
    s.add(Contract(M + 'insertBranch', {'base': NN, 'truenode': NN, 'falsenode': NN}, returns=TObj((D.DFBranch,)),
                   ensures=lambda p, a, r, o: [
                       ('not a bare signal', z3.Not(ns.isterm(p, r))),
                       ('selects by the value of the condition',
                        den(p, r) == z3.If(ite_truth(den(p, a['base'])), den(p, a['truenode']), den(p, a['falsenode']))),
                       ('wf', z3.Implies(z3.And([wf(p, a[k]) for k in a if k[0] != '_']), wf(p, r))),
                       ('full', z3.Implies(z3.And([full(p, a[k]) for k in a if k[0] != '_']), full(p, r)))]))
    s.add(Contract(M + 'insertUnaryOp', {'base': N, 'op': STR}, returns=N,
                   requires=lambda p, a: [('full', full(p, a['base'])), ('wf', wf(p, a['base']))],
                   ensures=lambda p, a, r, o: [
                       ('not a bare signal', z3.Not(ns.isterm(p, r))),
                       ('same value', den(p, r) == opsem(p.sterm(a['op']), p.hom(dens, [('e', a['base'])]))),
                       ('wf', wf(p, r)), ('full', full(p, r))]))
    s.add(Contract(M + 'insertOp', {'left': N, 'right': N, 'op': STR}, returns=N,
                   requires=lambda p, a: [('full', z3.And(full(p, a['left']), full(p, a['right'])))],
                   ensures=lambda p, a, r, o: [
                       ('not a bare signal', z3.Not(ns.isterm(p, r))),
                       ('same value', den(p, r) == opsem(p.sterm(a['op']), p.hom(dens, [('e', a['left']), ('e', a['right'])]))),
                       ('wf', z3.Implies(z3.And(wf(p, a['left']), wf(p, a['right'])), wf(p, r))), ('full', full(p, r))]))
    s.add(Contract(M + 'insertOpList', {'nextnodes': TSeq(NN), 'op': STR}, returns=N,
                   requires=lambda p, a: [('full', p.hom(allfull, a['nextnodes'])), ('wf', p.hom(allwf, a['nextnodes']))],
                   ensures=lambda p, a, r, o: [
                       ('not a bare signal', z3.Not(ns.isterm(p, r))),
                       ('same value', den(p, r) == opsem(p.sterm(a['op']), p.hom(dens, a['nextnodes']))),
                       ('wf', wf(p, r)), ('full', full(p, r))]))
    s.add(Contract(M + 'insertConcat', {'nextnodes': TSeq(NN)}, returns=N,
                   requires=lambda p, a: [('wf', p.hom(allwf, a['nextnodes']))],
                   ensures=lambda p, a, r, o: [
                       ('not a bare signal', z3.Not(ns.isterm(p, r))),
                       ('same value', den(p, r) == catsem(p.hom(dens, a['nextnodes']))),
                       ('wf', wf(p, r)), ('full', z3.Implies(p.hom(allfull, a['nextnodes']), full(p, r)))]))
    s.add(Contract(M + 'insertPartselect', {'var': NN, 'msb': NN, 'lsb': NN}, returns=NN,
                   requires=lambda p, a: [('wf', z3.And([wf(p, a[k]) for k in ('var', 'msb', 'lsb')]))],
                   ensures=lambda p, a, r, o: [
                       ('not a bare signal', z3.Not(ns.isterm(p, r))),
                       ('same value', den(p, r) == partsem(den(p, a['var']), den(p, a['msb']), den(p, a['lsb']))),
                       ('wf', wf(p, r)),
                       ('full', z3.Implies(z3.And([full(p, a[k]) for k in ('var', 'msb', 'lsb')]), full(p, r))),
                       ]))
    s.add(Contract(M + 'insertPointer', {'var': NN, 'ptr': NN}, returns=NN,
                   requires=lambda p, a: [('wf', z3.And(wf(p, a['var']), wf(p, a['ptr'])))],
                   ensures=lambda p, a, r, o: [
                       ('not a bare signal', z3.Not(ns.isterm(p, r))),
                       ('same value', den(p, r) == ptrsem(den(p, a['var']), den(p, a['ptr']))),
                       ('wf', wf(p, r)),
                       ('full', z3.Implies(z3.And(full(p, a['var']), full(p, a['ptr'])), full(p, r)))]))
    return s
