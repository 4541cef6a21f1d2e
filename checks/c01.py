"""C01: moving conditions to the top of an expression preserves its value."""
import pyverilog.dataflow.dataflow as DF
import pyverilog.dataflow.reorder as real
from checks import denspec, dfgen
from checks.dfgen import ser, deser


def spec():
    s, ns = denspec.base('C01')
    return denspec.reorder_contracts(s, ns)


def specs():
    return [spec]


# ------------------------------------------------------------------ bounded search on the real code
def wf(t):
    for n in dfgen.walk(t):
        if isinstance(n, DF.DFSyscall):
            return False
        if isinstance(n, DF.DFOperator):
            # an operand that may be missing at run time is outside the property (the tool refuses it)
            if any(x is None for k in n.nextnodes for x in dfgen.walk(k)):
                return False
    return True


def top_shape(t):
    """conditions end up above every other node"""
    if isinstance(t, DF.DFBranch):
        return not isinstance(t.condnode, DF.DFBranch) and top_shape(t.truenode) and top_shape(t.falsenode)
    return True


def cases(rng, tier, shard, nshards):
    lv = [dfgen.term('a'), DF.DFIntConst('1'), dfgen.term('b')]
    for i, t in enumerate(dfgen.enum_small(lv)):
        if i % nshards == shard and wf(t):
            yield {'tree': ser(t)}
    while True:
        if rng.random() < 0.2:
            l, r = dfgen.rnd(rng, rng.randrange(0, 3)), dfgen.rnd(rng, rng.randrange(0, 3))
            op = rng.choice(dfgen.OPS2)
            if wf(DF.DFOperator((l, r), op)):
                l2, r2 = real.reorder(l), real.reorder(r)
                yield {'fn': 'insertOp', 'args': ser([l2, r2, op])}
                yield {'fn': 'insertUnaryOp', 'args': ser([l2, 'Unot'])}
        t = dfgen.rnd(rng, rng.randrange(1, 5))
        if wf(t) and sum(1 for _ in dfgen.walk(t)) < 120:
            yield {'tree': ser(t)}


HELPERS = {'insertOp': lambda l, r, op: DF.DFOperator((l, r), op), 'insertUnaryOp': lambda b, op: DF.DFOperator((b,), op)}


def check_helper(case):
    fn = getattr(real, case['fn'], None)
    if fn is None:
        return None
    args = deser(case['args'])
    t = HELPERS[case['fn']](*args)
    try:
        r = fn(*args)
    except Exception as e:
        return ('exception', '%s(%s) raised %s: %s' % (case['fn'], dfgen.show(t), type(e).__name__, e))
    for salt in range(12):
        f = dfgen.truth_fn(salt)
        a, b = dfgen.den(t, f), dfgen.den(r, f)
        if a != b:
            return ('value', '%s on %s gives %s: value %r instead of %r' % (case['fn'], dfgen.show(t), dfgen.show(r), b, a))
    return None


def check_case(case):
    if case.get('fn'):
        return check_helper(case)
    t = deser(case['tree'])
    before = dfgen.show(t)
    try:
        r = real.reorder(t)
    except RecursionError:
        return None
    except Exception as e:
        return ('exception', 'reorder(%s) raised %s: %s' % (before, type(e).__name__, e))
    if dfgen.show(t) != before:
        return ('argument-changed', 'reorder changed its argument %s into %s' % (before, dfgen.show(t)))
    for salt in range(12):
        f = dfgen.truth_fn(salt)
        a, b = dfgen.den(t, f), dfgen.den(r, f)
        if a != b:
            return ('value', 'reorder(%s) = %s: for one outcome of the conditions the value is %r instead of %r'
                    % (before, dfgen.show(r), b, a))
    if not any(isinstance(x, DF.DFDelay) for x in dfgen.walk(t)) and not top_shape(r):
        return ('shape', 'a condition of %s is itself conditional' % dfgen.show(r))
    return None


def case_from_cex(target, cex):
    fn = target.split(':')[1]
    a = dict((k, deser(v)) for k, v in cex.items())
    if fn == 'reorder':
        t = a['tree']
    elif fn == 'insertOp':
        return {'fn': fn, 'args': ser([a['left'], a['right'], a['op']])}
    elif fn == 'insertUnaryOp':
        return {'fn': fn, 'args': ser([a['base'], a['op']])}
    elif fn == 'insertBranch':
        t = DF.DFBranch(a['base'], a['truenode'], a['falsenode'])
    elif fn == 'insertOpList':
        t = DF.DFOperator(tuple(a['nextnodes']), a['op'])
    elif fn == 'insertConcat':
        t = DF.DFConcat(tuple(a['nextnodes']))
    elif fn == 'insertPartselect':
        t = DF.DFPartselect(a['var'], a['msb'], a['lsb'])
    elif fn == 'insertPointer':
        t = DF.DFPointer(a['var'], a['ptr'])
    else:
        return None
    return {'tree': ser(t)} if wf(t) else None


def case_key(case):
    return dfgen.show(deser(case['tree'])) if 'tree' in case else repr(case)


LEVEL = 'proof'
LEVEL_NOTE = ('reorder and all seven insert* helpers proved for every tree (structural induction by contracts, loops by '
              'invariants); operators uninterpreted; termination and the printed form are not covered; a bounded search on '
              'the real code supplies failing inputs')
QUICK_S = 12
THOROUGH_S = 300
ASSUMPTIONS = ['operators, concatenations, selections and delays are uninterpreted functions of the values of their operands',
               'a selection from a missing value is missing', 'operands of operators contain no missing arm (guaranteed by '
               'the walker, which turns None into DFUndefined)', 'equal expressions have equal values (C10)']
RULE = ('real reorder() on every tree of depth<=2 over 3 leaves and random trees of depth<=4, compared in the free term '
        'algebra under 12 outcomes of the conditions; distinct = different tree texts')
