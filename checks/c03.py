"""C03: constant folding keeps the value."""
import itertools
import pyverilog.dataflow.dataflow as D
from checks import dfgen, optspec, optref
from checks.dfgen import ser, deser


def specs():
    return [optspec.arith_spec, lambda: optspec.Fold('C03').contracts()]


PLAIN = ({}, {})


def cases(rng, tier, shard, nshards):
    n = 0
    vals = [(0, 1), (1, 1), (-1, 4), (3, 4), (-8, 4), (6, 3), (7, 3), (200, 8), (255, 8), (5, 32)]
    for op in optref.UNARY:
        for v, w in vals:
            n += 1
            if n % nshards == shard:
                yield dict(optref.ser_decls(*PLAIN), tree=ser(D.DFOperator((D.DFEvalValue(v, w),), op)))
    for op in optref.BINARY:
        for (v, w), (x, k) in itertools.product(vals, vals):
            n += 1
            if n % nshards == shard and not (op in ('Power', 'Sll', 'Sla') and x > 10):
                yield dict(optref.ser_decls(*PLAIN),
                           tree=ser(D.DFOperator((D.DFEvalValue(v, w), D.DFEvalValue(x, k)), op)))
    while True:
        ts, cs = optref.decls(rng)
        for _ in range(20):
            yield dict(optref.ser_decls(ts, cs), tree=ser(optref.tree(rng, rng.randrange(1, 5), True, rng.random() < .5)))


def check_case(case):
    opt, ref = optref.build(case)
    t = deser(case['tree'])
    text = dfgen.show(t)
    try:
        want = ref.den(t)
    except optref.TooBig:
        return None
    try:
        r = opt.optimizeConstant(t)
    except RecursionError:
        return None
    except Exception as e:
        return ('exception', 'optimizeConstant(%s) raised %s: %s' % (text, type(e).__name__, e))
    if dfgen.show(t) != text:
        return ('argument-changed', 'optimizeConstant changed its argument %s into %s' % (text, dfgen.show(t)))
    if not (r is None or isinstance(r, D.DFNode)):
        return ('type', 'optimizeConstant(%s) = %r' % (text, r))
    got = ref.den(r)
    if got != want:
        return ('value', 'optimizeConstant(%s) = %s means %r, not %r' % (text, dfgen.show(r), got, want))
    if want[0] in 'ns' and not isinstance(r, D.DFEvalValue):
        if t is not None:
            return ('not folded', 'optimizeConstant(%s) = %s is not the constant %r' % (text, dfgen.show(r), want))
    return None


def case_from_cex(target, cex):
    if not target.endswith('_evalOperator') or not isinstance(cex.get('operator'), str):
        return None
    t = D.DFOperator(tuple(D.DFEvalValue(x, cex['width']) for x in cex['valuelist']), cex['operator'])
    return dict(optref.ser_decls(*PLAIN), tree=ser(t))


def case_key(case):
    return dfgen.show(deser(case['tree']))


LEVEL = 'proof'
LEVEL_NOTE = ('VerilogOptimizer._evalOperator, evalOperator, evalConcat, evalPartselect, evalPointer, isCondTrue, getWidth, '
              'evalNextnodes and optimizeConstant proved for every tree, all integers and all widths; the value and width of '
              'an integer literal (DFIntConst.eval/width) are proved in C14')
QUICK_S = 20
THOROUGH_S = 300
ASSUMPTIONS = ['folding is on unbounded integers: the width of a result is carried along, a value is reduced to it only where '
               'the operator says so (complement, reductions, xnor, concatenation, selections)',
               'no DFFloatConst and no DFDelay in the tree; a text literal is true as a condition and is never an index',
               'a selected signal and a signal with a known constant value are declared',
               'a literal of the tree has the value and the width DFIntConst.eval/width report']
TRUSTED = ['DFIntConst.eval and .width: contracts used here, proved in C14']
RULE = ('real optimizeConstant() on every operator with 10 (unary) or 100 (binary) operand pairs, then random trees of '
        'depth<=4 over random declarations, compared with an independent evaluator; distinct = different tree texts')
