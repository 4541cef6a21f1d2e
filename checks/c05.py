"""C05: the transitions of a state machine are those of its register."""
import random
from checks import fsmspec
import pyverilog.dataflow.dataflow as DF
from checks import fsmgen, vtool


def dfval(n, env, w):
    """(value, width) of a dataflow expression"""
    v = lambda x: dfval(x, env, w)
    if isinstance(n, DF.DFTerminal):
        k = str(n.name[-1])
        return env[k], w[k]
    if isinstance(n, DF.DFEvalValue):
        return n.value, max(n.width, 1)
    if isinstance(n, DF.DFIntConst):
        return n.eval(), n.width()
    if isinstance(n, DF.DFPointer):
        return v(n.var)[0] >> v(n.ptr)[0] & 1, 1
    if isinstance(n, DF.DFPartselect):
        m, l = v(n.msb)[0], v(n.lsb)[0]
        return v(n.var)[0] >> l & (2 ** (m - l + 1) - 1), m - l + 1
    if isinstance(n, DF.DFBranch):
        return v(n.truenode if v(n.condnode)[0] else n.falsenode)
    if isinstance(n, DF.DFConcat):
        r, t = 0, 0
        for x in n.nextnodes:
            a, b = v(x)
            r, t = r << b | a, t + b
        return r, t
    xs = [v(x) for x in n.nextnodes]
    o = n.operator
    if len(xs) == 1:
        (x, k), = xs
        if o == 'Ulnot':
            return int(not x), 1
        if o == 'Unot':
            return 2 ** k - 1 - x, k
        R = {'Uand': '&', 'Uor': '|', 'Uxor': '^', 'Unand': '~&', 'Unor': '~|', 'Uxnor': '~^'}
        if o in R:
            return int(fsmgen.red(R[o], x, k)), 1
        raise KeyError(o)
    (x, k), (y, l) = xs
    C = {'Eq': '==', 'NotEq': '!=', 'LessThan': '<', 'GreaterThan': '>', 'LessEq': '<=', 'GreaterEq': '>=', 'Eql': '===',
         'NotEql': '!=='}
    if o in C:
        return int(fsmgen.CMP[C[o]](x, y)), 1
    if o == 'Land':
        return int(bool(x) and bool(y)), 1
    if o == 'Lor':
        return int(bool(x) or bool(y)), 1
    k = max(k, l)
    if o in ('And', 'Or', 'Xor', 'Plus', 'Minus'):
        r = {'And': x & y, 'Or': x | y, 'Xor': x ^ y, 'Plus': x + y, 'Minus': x - y}[o]
        return r % 2 ** k, k
    raise KeyError(o)


def machine(text, top='top'):
    """the controlflow analyzer of a design, and the finite state machine of top.state"""
    from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
    from pyverilog.controlflow.controlflow_analyzer import VerilogControlflowAnalyzer
    import pyverilog.utils.util as util
    with vtool.quiet():
        an = vtool.dataflow(text, top)
        terms, binds = an.getTerms(), an.getBinddict()
        opt = VerilogDataflowOptimizer(terms, binds)
        opt.resolveConstant()
        c = VerilogControlflowAnalyzer(top, terms, binds, opt.getResolvedTerms(), opt.getResolvedBinddict(), opt.getConstlist())
        name = next((n for n in binds if str(n) == top + '.state'), None)
        if name is None:
            return None     # never assigned
        funcdict, delay = c.getFuncdict(name)
        fsm = c.getFiniteStateMachine(name, funcdict)
        fsm.resolve(c.optimizer)
        return c, fsm, c.getFiniteStateMachines()


def fires(fsm, env, w):
    out = set()
    for cond, dst in list(fsm.any.items()) + list(fsm.fsm.get(env['state'], {}).items()):
        if cond is None or dfval(cond, env, w)[0]:
            out.add(dst)
    return out


def check_machine(m):
    text = fsmgen.text(m)
    w = dict(fsmgen.widths(m), rst=1)
    try:
        r = machine(text)
        if r is None:
            return None
        c, fsm, all_ = r
    except Exception as x:
        return ('exception', '%s: %s for\n%s' % (type(x).__name__, x, text))
    for s in fsm.fsm:
        if not 0 <= s < 2 ** m['w']:
            return ('state', 'a transition from %s, no value of the register, for\n%s' % (s, text))
    if (fsm.size() > 0) != ('top.state' in [str(n) for n in all_]):
        return ('machine', 'a machine with %d transitions, the analyzer reports %s, for\n%s' % (fsm.size(), list(all_), text))
    if fsm.size() == 0:
        # no state is treated apart: not reported as a machine
        by = {}
        for env in fsmgen.environments(m):
            by.setdefault(tuple(sorted((k, v) for k, v in env.items() if k != 'state')), set()).add(
                fsmgen.run(m['body'], env, w))
        if all(len(x) == 1 for x in by.values()):
            return None
    for env in fsmgen.environments(m):
        want = fsmgen.run(m['body'], env, w)
        want = set() if want is None else {want}
        got = fires(fsm, env, w)
        if got != want:
            return ('transition', 'with %s the next states are %s instead of %s; transitions %s, any %s, for\n%s' % (
                ' '.join('%s=%s' % x for x in sorted(env.items())), sorted(got), sorted(want),
                sorted((s, [(x and x.tocode(), t) for x, t in y.items()]) for s, y in fsm.fsm.items()),
                [(x and x.tocode(), t) for x, t in fsm.any.items()], text))
    return None


def check_case(case):
    return check_machine(fsmgen.G(random.Random(case['seed'])).machine())


def specs():
    return [fsmspec.spec]


def cases(rng, tier, shard, nshards):
    while True:
        yield {'seed': rng.randrange(10 ** 9)}


def case_from_cex(target, cex):
    return None


def case_key(case):
    return repr(case)


LEVEL = 'proof'
LEVEL_NOTE = ('proved: the condition of a transition and the states it is taken from hold exactly when the conditions on the path '
              'to the assignment do (transition.py, inference.infer); cutting the definition of the register into paths '
              '(splitter), collecting the transitions by state (FiniteStateMachine) and the dataflow below are only checked '
              'by the bounded search over random machines')
QUICK_S = 60
THOROUGH_S = 500
CASE_S = 20
ASSUMPTIONS = ['the operands of & | ~ in a condition are single bits (the analyzer treats them like && || !)',
               'conditions are not real numbers or strings; values of signals are not negative',
               'every operator of a condition has one or two operands, a negation one',
               'the conditions on signals with a name of a reset are left out by design; a machine without any transition '
               'from a particular state is not reported by design; only assignments of constants are transitions']
TRUSTED = ['util.maxValue: 2 ** width - 1 is the largest value of the register',
           'sorted() and set() keep the members; the lemma on sorted ranges is discharged step by step']
RULE = 'random machines (1 to 3 bits, case, if, ternary, sync/async reset, one or two processes), every state and input'
