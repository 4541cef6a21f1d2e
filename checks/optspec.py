"""Integer meaning of the operators, and contracts of the constant folding in pyverilog/dataflow/optimizer.py."""
import z3
import pyverilog.dataflow.dataflow as D
import pyverilog.dataflow.optimizer as real
from pyvc.types import *
from pyvc.core import *
from pyvc import dfspec
from pyvc.dfspec import Val, Name
from pyvc.pymodels import (POW2, BIT, BAND, BOR, BXOR, SHL, SHR, MODP, POW, low_bits, nonneg_pow2, shr_term,
                           pyfloordiv)

I, B = z3.IntSort(), z3.BoolSort()
S = z3.StringSort()
UNARY = ('Uminus', 'Uplus', 'Ulnot', 'Unot', 'Uand', 'Unand', 'Uor', 'Unor', 'Uxor', 'Uxnor')
BINARY = ('Power', 'Times', 'Divide', 'Mod', 'Plus', 'Minus', 'Sll', 'Sla', 'Srl', 'Sra', 'LessThan', 'GreaterThan',
          'LessEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql', 'And', 'Xor', 'Xnor', 'Or', 'Land', 'Lor')
ONEBIT = ('LessThan', 'GreaterThan', 'LessEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql', 'Land', 'Lor', 'Ulnot',
          'Uand', 'Unand', 'Uor', 'Unor', 'Uxor', 'Uxnor')
PAR = z3.Function('parity_of_low_bits', I, I, B)
# value of an operator applied to integers; is it a value at all; width of the result
ARITH = z3.Function('op_value', S, I, I, I, I)
DEFINED = z3.Function('op_defined', S, I, I, B)


def bit_step(p, x, n):
    """x mod 2^(n+1) and its parity, from those of x mod 2^n   (n >= 0)"""
    key = ('bitstep', x.get_id(), n.get_id())
    if key in p.bitfacts:
        return
    p.bitfacts.add(key)
    p.extra.setdefault('keep', []).extend([x, n])
    a, b = low_bits(p, x, n), low_bits(p, x, n + 1)
    w = nonneg_pow2(p, n)
    nonneg_pow2(p, n + 1)
    p.assume(z3.Implies(n >= 0, z3.And(
        b == a + z3.If(BIT(x, n), w, 0), POW2(n + 1) == 2 * w, PAR(x, n + 1) == z3.Xor(PAR(x, n), BIT(x, n)))))


def bit_below(p, x, i, w):
    """what bit i says about x mod 2^w for i < w"""
    key = ('bitbelow', x.get_id(), i.get_id(), w.get_id())
    if key in p.bitfacts:
        return
    p.bitfacts.add(key)
    p.extra.setdefault('keep', []).extend([x, i, w])
    m = low_bits(p, x, w)
    k = nonneg_pow2(p, i)
    p.assume(z3.Implies(z3.And(i >= 0, i < w), z3.If(BIT(x, i), m >= k, m <= POW2(w) - 1 - k)))


def b2i(f):
    return z3.If(f, z3.IntVal(1), z3.IntVal(0))


def meaning(p, op, x, y, w):
    """(defined?, value) of the operator on integers, w the width of the operands"""
    T = z3.BoolVal(True)
    if op in ('Unot', 'Uand', 'Unand', 'Uor', 'Unor'):
        m, full = low_bits(p, x, w), POW2(w) - 1
        nonneg_pow2(p, w)
        return T, {'Unot': full - m, 'Uand': b2i(m == full), 'Unand': b2i(m != full), 'Uor': b2i(m != 0),
                   'Unor': b2i(m == 0)}[op]
    if op in ('Uxor', 'Uxnor'):
        p.assume(z3.Not(PAR(x, z3.IntVal(0))))
        return T, b2i(PAR(x, w)) if op == 'Uxor' else b2i(z3.Not(PAR(x, w)))
    if op == 'Uplus':
        return T, x
    if op == 'Uminus':
        return T, -x
    if op == 'Ulnot':
        return T, b2i(x == 0)
    if op == 'Power':
        return y >= 0, POW(x, y)
    if op == 'Times':
        return T, x * y
    if op in ('Divide', 'Mod'):
        ax, ay = z3.If(x < 0, -x, x), z3.If(y < 0, -y, y)
        q = pyfloordiv(ax, ay)
        if op == 'Divide':
            return y != 0, z3.If((x < 0) == (y < 0), q, -q)
        m = ax - ay * q
        return y != 0, z3.If(x < 0, -m, m)
    if op == 'Plus':
        return T, x + y
    if op == 'Minus':
        return T, x - y
    if op in ('Sll', 'Sla'):
        return y >= 0, SHL(x, y)
    if op == 'Srl':
        return y >= 0, z3.If(x < 0, SHR(low_bits(p, x, w), y), SHR(x, y))
    if op == 'Sra':
        return y >= 0, SHR(x, y)
    cmp_ = {'LessThan': lambda: x < y, 'GreaterThan': lambda: x > y, 'LessEq': lambda: x <= y,
            'GreaterEq': lambda: x >= y, 'Eq': lambda: x == y, 'Eql': lambda: x == y, 'NotEq': lambda: x != y,
            'NotEql': lambda: x != y, 'Land': lambda: z3.And(x != 0, y != 0), 'Lor': lambda: z3.Or(x != 0, y != 0)}
    if op in cmp_:
        return T, b2i(cmp_[op]())
    if op == 'And':
        return T, BAND(x, y)
    if op == 'Or':
        return T, BOR(x, y)
    if op == 'Xor':
        return T, BXOR(x, y)
    if op == 'Xnor':
        return T, low_bits(p, -BXOR(x, y) - 1, w)
    return z3.BoolVal(False), z3.IntVal(0)


def operator_param(p, it, a):
    """one concrete operator at a time (proof side)"""
    ops = UNARY + BINARY + (None,)
    i = p.choose(len(ops), 'operator')
    if ops[i] is not None:
        return ops[i]
    v = p.make(STR, 'operator')
    p.assume(z3.And([v.t != o for o in UNARY + BINARY]))
    return v


def operands_param(p, it, a):
    op = a['operator']
    n = 1 if op in UNARY else 2
    if not isinstance(op, str):
        n = 1 + p.choose(2, 'operands')
    return p.make(TTup(*[INT] * n), 'operand')


def eval_operator_contract():
    def items(p, v):
        c = p.concrete_items(p.force(v))
        x = p.iterm(c[0])
        return x, (p.iterm(c[1]) if len(c) > 1 else z3.IntVal(0)), len(c)

    def ensures(p, a, r, o):
        op, w = p.force(a['operator']), p.iterm(a['width'])
        x, y, n = items(p, a['valuelist'])
        r = p.force(r)
        if not isinstance(op, str):
            # seen by a caller, or an operator the tool does not know
            ot = p.sterm(op)
            if r is None:
                return [('no value', z3.Not(DEFINED(ot, x, y)))]
            return [('value', z3.And(DEFINED(ot, x, y), p.iterm(r) == ARITH(ot, x, y, w)))]
        ok, val = meaning(p, op, x, y, w)
        if r is None:
            return [('value of %s' % op, z3.Not(ok))]
        return [('value of %s' % op, z3.And(ok, p.iterm(r) == val))]

    def requires(p, a):
        op, w = p.force(a['operator']), p.iterm(a['width'])
        x, y, n = items(p, a['valuelist'])
        if isinstance(op, str):
            return [('operands', z3.And(w >= 0, z3.BoolVal((op in UNARY) == (n == 1))))]
        ot = op.t
        un = z3.Or([ot == u for u in UNARY])
        bi = z3.Or([ot == u for u in BINARY])
        # an operator without meaning has no value
        p.assume(z3.Implies(z3.Not(z3.Or(un, bi)), z3.Not(DEFINED(ot, x, y))))
        return [('operands', z3.And(w >= 0, z3.Not(bi) if n == 1 else z3.Not(un)))]
    return Contract('pyverilog.dataflow.optimizer:VerilogOptimizer._evalOperator',
                    {'self': TObj(real.VerilogOptimizer), 'operator': operator_param, 'valuelist': operands_param,
                     'width': INT}, returns=TUnion(INT, NONE), requires=requires, ensures=ensures)


def bit_candidates(it, ln, v, v0, P, seg):
    """what a loop over bit positions has computed after n positions"""
    p = it.p
    x = _operand(p)
    if x is None or not isinstance(v, (SInt, int)) or isinstance(v, bool):
        return []
    n = z3.simplify(p.len_of(P))
    iv = p.iterm(v)
    steps(p, x, P)
    m, full = low_bits(p, x, n), nonneg_pow2(p, n) - 1
    p.assume(z3.Not(PAR(x, z3.IntVal(0))))
    return [('complement', z3.And(iv == full - m)), ('parity', iv == b2i(PAR(x, n))),
            ('no parity', iv == b2i(z3.Not(PAR(x, n))))]


def not_negative(it, ln, v, v0, P, seg):
    return [('not negative', v.t >= 0)] if isinstance(v, SInt) else []


def steps(p, x, P):
    if P and P[-1][0] == 'e':
        bit_step(p, x, z3.simplify(p.len_of(P[:-1])))
    else:
        n = z3.simplify(p.len_of(P))
        bit_step(p, x, n)
        w = p.extra['args'].get('width')
        if w is not None:
            bit_below(p, x, n, p.iterm(w))


def _operand(p):
    a = p.extra.get('args') or {}
    v = a.get('valuelist')
    if v is None:
        return None
    c = p.concrete_items(p.force(v))
    return p.iterm(c[0])


def bits_pure(want):
    def g(p, P):
        x = _operand(p)
        if x is None:
            return None
        steps(p, x, P)
        n = z3.simplify(p.len_of(P))
        m = low_bits(p, x, n)
        return m == nonneg_pow2(p, n) - 1 if want else m == 0
    return g


BITS = [('all bits so far', lambda t: isinstance(t, TInt), bits_pure(True)),
        ('no bit so far', lambda t: isinstance(t, TInt), bits_pure(False))]


def arith_spec():
    s = dfspec.base_spec('C03 operators')
    s.schema[real.VerilogOptimizer] = {}
    s.add(eval_operator_contract())
    s.scalar_candidates = [bit_candidates]
    s.pure = BITS
    return s


# ---------------------------------------------------------------- trees
EV = z3.Function('number', I, I, Val)              # an integer of some width
STRV = z3.Function('text', S, Val)
STRI = z3.Function('some_text', I, Val)
UNDEF = z3.Function('undefined', I, Val)
TRUTH = z3.Function('truth', Val, B)
DENT = z3.Function('signal_value', Name, Val)
KNOWN = z3.Function('declared', Name, B)
INTVAL = z3.Function('literal_value', S, I)
INTW = z3.Function('literal_width', S, I)
EXCLUDED = (D.DFFloatConst, D.DFDelay)


class Fold(object):
    def __init__(self, name):
        s = self.s = dfspec.base_spec(name)
        kinds = tuple(c for c in dfspec.node_types() if c not in EXCLUDED)
        self.kinds = kinds
        s.families = [kinds]
        s.N, s.NN = TObj(kinds), TObj(kinds, True)
        N, NN = s.N, s.NN
        s.schema = {
            D.DFTerminal: {'name': TSort(Name)}, D.DFIntConst: {'value': STR}, D.DFStringConst: {'value': STR},
            D.DFEvalValue: {'value': INT, 'width': TUnion(INT, NONE), 'isfloat': BOOL, 'isstring': BOOL},
            D.DFUndefined: {'width': INT}, D.DFHighImpedance: {'width': INT},
            D.DFBranch: {'condnode': NN, 'truenode': NN, 'falsenode': NN},
            D.DFOperator: {'operator': STR, 'nextnodes': TUnion(TTup(N), TTup(N, N))},
            D.DFConcat: {'nextnodes': TSeq(N)}, D.DFSyscall: {'syscall': STR, 'nextnodes': TSeq(N)},
            D.DFPartselect: {'var': N, 'msb': N, 'lsb': N}, D.DFPointer: {'var': N, 'ptr': N},
            D.Term: {'msb': NN, 'lsb': NN, 'dims': TUnion(NONE, TSeq(TTup(N, N)))},
            real.VerilogOptimizer: {
                'terms': TDict(TSort(Name), TObj(D.Term)), 'constlist': TDict(TSort(Name), TObj(D.DFEvalValue)),
                'default_width': INT, 'level': INT},
        }
        is_node = dfspec.is_node_type
        den = self.den = SpecFun('value', Val, {}, null=lambda: z3.Const('missing', Val))
        isev = self.isev = SpecFun('is_number', B, {D.DFEvalValue: lambda p, r, f: z3.BoolVal(True)},
                                   null=lambda: z3.BoolVal(False), default=lambda p, r, f: z3.BoolVal(False))
        const = self.const = SpecFun('is_constant', B, {}, null=lambda: z3.BoolVal(False),
                                     default=lambda p, r, f: z3.BoolVal(False))
        known = self.known = SpecFun('declarations_known', B, {}, null=lambda: z3.BoolVal(True),
                                     default=lambda p, r, f: z3.BoolVal(True))
        wfv = self.wfv = SpecFun('has_width', B, {
            D.DFEvalValue: lambda p, r, f: z3.And(self.wterm(p, f('width')) >= z3.If(p.bterm(f('isstring')), -1, 0),
                                                  self.int_width(p, f('width')))},
            null=lambda: z3.BoolVal(True), default=lambda p, r, f: z3.BoolVal(True))
        dens = self.dens = Hom('values', 'seq', lambda p, v: den(p, v), Val, is_node)
        allev = self.allev = Hom('all_numbers', 'all', lambda p, v: isev(p, v), None, is_node)
        allconst = self.allconst = Hom('all_constant', 'all', lambda p, v: const(p, v), None, is_node)
        allknown = self.allknown = Hom('all_known', 'all', lambda p, v: known(p, v), None, is_node)
        full = self.full = SpecFun('not_missing', B, {D.DFBranch: lambda p, r, f: z3.And(
            full(p, f('truenode')), full(p, f('falsenode')))},
            null=lambda: z3.BoolVal(False), default=lambda p, r, f: z3.BoolVal(True))
        allfull = self.allfull = Hom('all_not_missing', 'all', lambda p, v: full(p, v), None, is_node)
        W = self.width = SpecFun('width_of', I, {}, default=lambda p, r, f: self.dw(p) if any(c is not None and issubclass(c, D.DFNode) for c in p.classes[r.key]) else None)
        sized = self.sized = SpecFun('sized', B, {}, null=lambda: z3.BoolVal(True), default=lambda p, r, f: z3.BoolVal(True))
        allsized = self.allsized = Hom('all_sized', 'all', lambda p, v: sized(p, v), None, is_node)
        widths = self.widths = Hom('widths', 'sum', lambda p, v: W(p, v), None, is_node)
        maxwidth = self.maxwidth = Hom('max_width', 'max', lambda p, v: W(p, v), None, is_node)
        bits = self.bits = SpecFun('bits_of', I, {D.DFEvalValue: lambda p, r, f: self.ebits(p, r, f)})
        joined = self.joined = Hom('joined_bits', 'horner', lambda p, v: (bits(p, v), nonneg_pow2(p, W(p, v))), None, is_node)
        istext = self.istext = SpecFun('is_text', B, {D.DFEvalValue: lambda p, r, f: p.bterm(f('isstring'))})
        notext = self.notext = Hom('no_text', 'all', lambda p, v: z3.Not(istext(p, v)), None, is_node)
        sel = self.sel = SpecFun('selectable', B, {D.DFTerminal: lambda p, r, f: p.dict_has(self.dicts(p)[1], f('name').t)},
                                 null=lambda: z3.BoolVal(True), default=lambda p, r, f: z3.BoolVal(True))
        bit = self.bit = SpecFun('bit_of_a_signal', B, {D.DFTerminal: lambda p, r, f: self.nodims(p, f('name').t)},
                                 null=lambda: z3.BoolVal(False), default=lambda p, r, f: z3.BoolVal(False))
        we = self.we = SpecFun('width_of_element', I, {D.DFTerminal: lambda p, r, f: z3.If(
            self.nodims(p, f('name').t), z3.IntVal(1), self.declared_width(p, f('name').t))},
            null=lambda: z3.IntVal(1), default=lambda p, r, f: z3.IntVal(1))
        s.specfuns = [den, isev, const, known, wfv, full, W, sized, bits, istext, sel, bit, we]
        s.homs = [dens, allev, allconst, allknown, allfull, allsized, widths, maxwidth, joined, notext]
        W.unfold = {
            D.DFEvalValue: lambda p, r, f: self.ewidth(p, f('width')),
            D.DFIntConst: lambda p, r, f: INTW(p.sterm(f('value'))),
            D.DFUndefined: lambda p, r, f: p.iterm(f('width')), D.DFHighImpedance: lambda p, r, f: p.iterm(f('width')),
            D.DFTerminal: lambda p, r, f: self.declared_width(p, f('name').t),
            D.DFBranch: lambda p, r, f: self.max2(self.w0(p, f('truenode')), self.w0(p, f('falsenode'))),
            D.DFOperator: lambda p, r, f: z3.If(z3.Or([p.sterm(f('operator')) == k for k in ONEBIT]), z3.IntVal(1),
                                                self.seq(p, maxwidth, f('nextnodes'))),
            D.DFConcat: lambda p, r, f: p.hom(widths, f('nextnodes')),
            D.DFPartselect: lambda p, r, f: self.span(p, f('msb'), f('lsb')),
            D.DFPointer: lambda p, r, f: we(p, f('var')),
        }
        cst = lambda p, x: z3.And(const(p, x), known(p, x), p.term(x) != NULL)
        self.cst = cst
        sized.unfold = {
            D.DFTerminal: lambda p, r, f: self.declared(p, f('name').t),
            D.DFBranch: lambda p, r, f: z3.And(sized(p, f('truenode')), sized(p, f('falsenode'))),
            D.DFOperator: lambda p, r, f: self.seq(p, allsized, f('nextnodes')),
            D.DFConcat: lambda p, r, f: p.hom(allsized, f('nextnodes')),
            D.DFPartselect: lambda p, r, f: z3.And(cst(p, f('msb')), cst(p, f('lsb'))),
            D.DFPointer: lambda p, r, f: sized(p, f('var')),
        }
        s.scalar_candidates = [bit_candidates, not_negative]
        s.pure = BITS
        s.cross = [(allev, allconst)]
        q = dens.seqsort
        self.OP, self.OPOK = z3.Function('op', S, q, Val), z3.Function('op_is_constant', S, q, B)
        self.CAT, self.CATOK = z3.Function('cat', q, Val), z3.Function('cat_is_constant', q, B)
        self.PART, self.PARTOK = z3.Function('part', Val, Val, Val, Val), z3.Function('part_is_constant', Val, Val, Val, B)
        self.PTR, self.PTROK = z3.Function('bit', Val, Val, Val), z3.Function('bit_is_constant', Val, Val, B)
        self.SYS = z3.Function('syscall', S, q, Val)
        HASXZ = lambda p, f: z3.Or([z3.Contains(p.sterm(f('value')), z3.StringVal(c)) for c in 'xzXZ?'])
        iw = lambda p, f: INTW(p.sterm(f('value')))
        den.unfold = {
            D.DFEvalValue: lambda p, r, f: self.number(p, f),
            D.DFIntConst: lambda p, r, f: z3.If(HASXZ(p, f), UNDEF(iw(p, f)), self.ev(p, INTVAL(p.sterm(f('value'))), iw(p, f))),
            D.DFStringConst: lambda p, r, f: self.text(p, f('value')),
            D.DFUndefined: lambda p, r, f: UNDEF(p.iterm(f('width'))),
            D.DFHighImpedance: lambda p, r, f: z3.Function('highz', I, Val)(p.iterm(f('width'))),
            D.DFTerminal: lambda p, r, f: DENT(f('name').t),
            D.DFBranch: lambda p, r, f: z3.If(TRUTH(den(p, f('condnode'))), den(p, f('truenode')), den(p, f('falsenode'))),
            D.DFOperator: lambda p, r, f: self.OP(p.sterm(f('operator')), self.seq(p, dens, f('nextnodes'))),
            D.DFConcat: lambda p, r, f: self.CAT(p.hom(dens, f('nextnodes'))),
            D.DFPartselect: lambda p, r, f: self.PART(den(p, f('var')), den(p, f('msb')), den(p, f('lsb'))),
            D.DFPointer: lambda p, r, f: self.PTR(den(p, f('var')), den(p, f('ptr'))),
            D.DFSyscall: lambda p, r, f: self.SYS(p.sterm(f('syscall')), p.hom(dens, f('nextnodes'))),
        }
        den.facts = self.facts
        T = z3.BoolVal(True)
        const.unfold = {
            D.DFEvalValue: lambda p, r, f: T, D.DFStringConst: lambda p, r, f: T,
            D.DFIntConst: lambda p, r, f: z3.Not(HASXZ(p, f)),
            D.DFTerminal: lambda p, r, f: self.hasconst(p, f('name').t),
            D.DFBranch: lambda p, r, f: z3.And(const(p, f('condnode')), z3.If(
                TRUTH(den(p, f('condnode'))), const(p, f('truenode')), const(p, f('falsenode')))),
            D.DFOperator: lambda p, r, f: z3.And(self.seq(p, allconst, f('nextnodes')), self.OPOK(
                p.sterm(f('operator')), self.seq(p, dens, f('nextnodes')))),
            D.DFConcat: lambda p, r, f: z3.And(p.hom(allconst, f('nextnodes')), self.CATOK(p.hom(dens, f('nextnodes')))),
            D.DFPartselect: lambda p, r, f: z3.And(const(p, f('var')), const(p, f('msb')), const(p, f('lsb')), self.PARTOK(
                den(p, f('var')), den(p, f('msb')), den(p, f('lsb')))),
            D.DFPointer: self.const_pointer,
        }
        both = lambda p, *xs: z3.And([known(p, x) for x in xs] + [full(p, x) for x in xs])
        seq = lambda p, v: z3.And(self.seq(p, allknown, v), self.seq(p, allfull, v))
        known.unfold = {
            D.DFTerminal: lambda p, r, f: KNOWN(f('name').t),
            D.DFBranch: lambda p, r, f: z3.And(known(p, f('condnode')), known(p, f('truenode')), known(p, f('falsenode'))),
            D.DFOperator: lambda p, r, f: z3.And(seq(p, f('nextnodes')), self.arity(p, p.sterm(f('operator')), f('nextnodes'))),
            D.DFConcat: lambda p, r, f: seq(p, f('nextnodes')),
            D.DFSyscall: lambda p, r, f: seq(p, f('nextnodes')),
            D.DFPartselect: lambda p, r, f: both(p, f('var'), f('msb'), f('lsb')),
            D.DFPointer: lambda p, r, f: z3.And(both(p, f('var'), f('ptr')), self.is_term(p, f('var'))),
        }

    # ---- pieces of the definitions
    def wterm(self, p, w):
        """the width as a number, -1 when there is none"""
        if isinstance(w, SUnion):
            return z3.If(w.sel == 0, w.thunks[0]().t, z3.IntVal(-1))
        return z3.IntVal(-1) if w is None else p.iterm(w)

    def ev(self, p, v, w):
        t = EV(v, w)
        p.assume(TRUTH(t) == (v != 0))
        return t

    def text(self, p, v):
        t = STRV(p.sterm(v))
        p.assume(TRUTH(t))
        return t

    def number(self, p, f):
        v = f('value')
        if isinstance(v, (str, SStr)):
            return self.text(p, v)
        v, w, st = p.iterm(v), self.wterm(p, f('width')), p.bterm(f('isstring'))
        p.assume(TRUTH(STRI(v)) == (v != 0))
        return z3.simplify(z3.If(st, STRI(v), self.ev(p, v, w)))

    def seq(self, p, h, v):
        """image of an operand tuple (one or two operands)"""
        if isinstance(v, SUnion):
            key = ('union', v.sel.get_id())
            if key in p.store:
                return p.hom(h, p.store[key][1])
            a, b = v.thunks[0](), v.thunks[1]()
            return z3.If(v.sel == 0, p.hom(h, a), p.hom(h, b))
        return p.hom(h, v)

    def dw(self, p):
        return p.iterm(p.field(p.extra['args']['self'], 'default_width'))

    def ewidth(self, p, w):
        t = self.wterm(p, w)
        return z3.simplify(z3.If(t == -1, self.dw(p), t))

    def ebits(self, p, r, f):
        v = f('value')
        return z3.IntVal(0) if isinstance(v, (str, SStr)) else low_bits(p, p.iterm(v), self.ewidth(p, f('width')))

    def w0(self, p, x):
        return z3.If(p.term(x) == NULL, self.dw(p), self.width(p, x))

    def max2(self, a, b):
        return z3.If(a < b, b, a)

    def span(self, p, msb, lsb):
        m, l = self.numval(p, self.den(p, msb)), self.numval(p, self.den(p, lsb))
        return z3.If(m > l, m - l, l - m) + 1

    def int_width(self, p, w):
        if isinstance(w, SUnion):
            return z3.Or(w.sel != 0, w.thunks[0]().t >= 0)
        return z3.BoolVal(True) if w is None else p.iterm(w) >= 0

    def nodims(self, p, n):
        return p.field(p.dict_get(self.dicts(p)[1], n), 'dims').sel == 0

    def declared(self, p, n):
        term = p.dict_get(self.dicts(p)[1], n)
        return z3.And(p.dict_has(self.dicts(p)[1], n), self.cst(p, p.field(term, 'msb')), self.cst(p, p.field(term, 'lsb')))

    def declared_width(self, p, n):
        term = p.dict_get(self.dicts(p)[1], n)
        return self.span(p, p.field(term, 'msb'), p.field(term, 'lsb'))

    def arity(self, p, op, v):
        un, bi = z3.Or([op == u for u in UNARY]), z3.Or([op == u for u in BINARY])
        return z3.If(self.count(p, v) == 1, z3.Not(bi), z3.Not(un))

    def count(self, p, v):
        if isinstance(v, SUnion):
            key = ('union', v.sel.get_id())
            if key not in p.store:
                return v.sel + 1
            v = p.store[key][1]
        return p.len_of(v.pieces)

    def dicts(self, p):
        me = p.extra['args']['self']
        return p.field(me, 'constlist'), p.field(me, 'terms')

    def hasconst(self, p, n):
        return p.dict_has(self.dicts(p)[0], n)

    def is_term(self, p, v):
        """a selected signal is declared"""
        return self.sel(p, v)

    def const_pointer(self, p, r, f):
        return z3.And(self.bit(p, f('var')), self.const(p, f('var')),
                      self.const(p, f('ptr')), self.PTROK(self.den(p, f('var')), self.den(p, f('ptr'))))

    def facts(self, p, r, cls):
        out = []
        if cls is D.DFTerminal:
            n = p.field(r, 'name').t
            key = ('terminal', n.get_id())
            C, T = self.dicts(p)
            if key not in p.store:
                p.store[key] = True
                p.extra.setdefault('keep', []).append(n)
                c, term = p.dict_get(C, n), p.dict_get(T, n)
                msb, lsb = p.field(term, 'msb'), p.field(term, 'lsb')
                v, st = p.field(c, 'value').t, p.field(c, 'isstring').t
                declared = z3.And(p.term(msb) != NULL, p.term(lsb) != NULL, self.const(p, msb), self.const(p, lsb))
                # the declared range of the signal fixes the width of its value
                m, l = self.numval(p, self.den(p, msb)), self.numval(p, self.den(p, lsb))
                w = z3.If(declared, z3.If(m > l, m - l, l - m) + 1, self.wterm(p, p.field(c, 'width')))
                p.assume(TRUTH(STRI(v)) == (v != 0))
                out += [z3.Implies(p.dict_has(C, n), DENT(n) == z3.If(st, STRI(v), self.ev(p, v, w))),
                        KNOWN(n) == z3.Implies(p.dict_has(C, n), z3.And(
                            p.dict_has(T, n), self.known(p, msb), self.known(p, lsb)))]
        if cls is D.DFEvalValue and r.key not in p.closed:
            out.append(self.wfv(p, r))
            out.append(z3.Implies(p.field(r, 'isstring').t, p.field(r, 'value').t != 0))
        if cls is D.DFEvalValue:
            v = p.field(r, 'value')
            if not isinstance(v, (str, SStr)):
                out.append(self.numval(p, self.den(p, r)) == p.iterm(v))
        return out

    def numval(self, p, t):
        return z3.Function('number_of', Val, I)(t)

    # ---- contracts
    def contracts(self):
        s, den, dens, isev, const, known, wfv = self.s, self.den, self.dens, self.isev, self.const, self.known, self.wfv
        M = 'pyverilog.dataflow.optimizer:VerilogOptimizer.'
        ME = TObj(real.VerilogOptimizer)
        N, NN = s.N, s.NN
        EVT = TObj(D.DFEvalValue)
        s.add(eval_operator_contract())
        sv = lambda p, a: p.sterm(p.field(a['self'], 'value'))
        s.add(Contract('pyverilog.dataflow.dataflow:DFIntConst.eval', {'self': TObj(D.DFIntConst)}, returns=INT,
                       ensures=lambda p, a, r, o: [('v', p.iterm(r) == INTVAL(sv(p, a)))], trusted=True))
        s.add(Contract('pyverilog.dataflow.dataflow:DFIntConst.width', {'self': TObj(D.DFIntConst)}, returns=INT,
                       ensures=lambda p, a, r, o: [('w', z3.And(p.iterm(r) == INTW(sv(p, a)), p.iterm(r) >= 0))], trusted=True))
        s.add(Contract(M + 'optimizeConstant', {'self': ME, 'tree': NN}, returns=NN,
                       requires=lambda p, a: [('declarations known', known(p, a['tree']))],
                       ensures=lambda p, a, r, o: [
                           ('same value', den(p, r) == den(p, a['tree'])),
                           ('a number exactly when constant', isev(p, r) == const(p, a['tree'])),
                           ('width', wfv(p, r)), ('nothing from nothing', z3.Implies(p.term(a['tree']) == NULL, p.term(r) == NULL)),
                           ('not missing', z3.Implies(self.full(p, a['tree']), self.full(p, r)))]))
        s.add(Contract(M + 'evalNextnodes', {'self': ME, 'nextnodes': TUnion(TTup(N), TTup(N, N), TSeq(N))},
                       returns=self.next_returns,
                       requires=lambda p, a: [('declarations known', p.hom(self.allknown, p.force(a['nextnodes']))),
                                              ('no missing operand', p.hom(self.allfull, p.force(a['nextnodes'])))],
                       ensures=self.next_ensures))
        s.add(Contract(M + 'isCondTrue', {'self': ME, 'cond': N}, returns=BOOL,
                       requires=lambda p, a: [('a number', isev(p, a['cond']))],
                       ensures=lambda p, a, r, o: [('truth', p.bterm(r) == TRUTH(den(p, a['cond'])))]))
        s.add(Contract(M + 'evalOperator', {'self': ME, 'operator': STR, 'nextnodes': TUnion(TTup(N), TTup(N, N))},
                       returns=TObj(D.DFEvalValue, True), requires=self.op_requires, ensures=self.op_ensures))
        s.add(Contract(M + 'evalPartselect', {'self': ME, 'var': EVT, 'msb': EVT, 'lsb': EVT},
                       returns=TObj((D.DFEvalValue, D.DFPartselect)), ensures=self.part_ensures))
        s.add(Contract(M + 'evalPointer', {'self': ME, 'var': EVT, 'ptr': EVT},
                       returns=TObj((D.DFEvalValue, D.DFPointer)), ensures=self.ptr_ensures))
        s.add(Contract(M + 'getWidth', {'self': ME, 'node': NN}, returns=INT,
                       requires=lambda p, a: [('sized', self.sized(p, a['node']))],
                       ensures=lambda p, a, r, o: [('width', p.iterm(r) == self.w0(p, a['node']))]))
        s.add(Contract(M + 'evalConcat', {'self': ME, 'nextnodes': TSeq(N)}, returns=TObj(D.DFEvalValue, True),
                       requires=lambda p, a: [('numbers', p.hom(self.allev, a['nextnodes']))],
                       ensures=self.cat_ensures))
        return s

    def cat_ensures(self, p, a, r, o):
        sq = p.hom(self.dens, a['nextnodes'])
        ok = self.CATOK(sq)
        p.assume(ok == p.hom(self.notext, a['nextnodes']))
        p.assume(z3.Implies(ok, self.CAT(sq) == self.ev(p, p.hom(self.joined, a['nextnodes']),
                                                       p.hom(self.widths, a['nextnodes']))))
        return [('folded when no text', (p.term(r) != NULL) == ok),
                ('value of the concatenation', z3.Implies(p.term(r) != NULL, self.den(p, r) == self.CAT(sq))),
                ('width', self.wfv(p, r)), ('number', self.isev(p, r) == ok)]

    def next_returns(self, p, a):
        src = p.force(a['nextnodes'])
        c = p.concrete_items(src)
        return p.make(TTup(TSeq(self.s.N) if c is None else TTup(*[self.s.N] * len(c)), BOOL), 'optimized')

    def next_ensures(self, p, a, r, o):
        r = p.force(r)
        out, flag = p.concrete_items(r)
        out = p.force(out)
        src = p.force(a['nextnodes'])
        return [('same values', p.hom(self.dens, out) == p.hom(self.dens, src)),
                ('all constant', p.bterm(flag) == p.hom(self.allev, out)),
                ('constant parts are numbers', p.hom(self.allev, out) == p.hom(self.allconst, src)),
                ('no missing operand', p.hom(self.allfull, out)),
                ('same length', p.len_of(out.pieces) == p.len_of(src.pieces))]

    def operands(self, p, a):
        return p.concrete_items(p.force(a['nextnodes']))

    def op_requires(self, p, a):
        ot, ops = p.sterm(a['operator']), self.operands(p, a)
        un, bi = z3.Or([ot == u for u in UNARY]), z3.Or([ot == u for u in BINARY])
        return [('operands', z3.Not(bi) if len(ops) == 1 else z3.Not(un))]

    def num(self, p, x):
        """(value, width, is text) of a number node"""
        v = p.field(x, 'value')
        st = p.bterm(p.field(x, 'isstring'))
        return (z3.IntVal(0) if isinstance(v, (str, SStr)) else p.iterm(v)), self.wterm(p, p.field(x, 'width')), st

    def op_ensures(self, p, a, r, o):
        ot, ops = p.sterm(a['operator']), [p.force(x) for x in self.operands(p, a)]
        if not all([p.decide_class(x, (D.DFEvalValue,)) for x in ops]):
            return [('not constant', p.term(r) == NULL)]
        sq = p.hom(self.dens, [('e', x) for x in ops])
        ns = [self.num(p, x) for x in ops]
        x, y = ns[0][0], (ns[1][0] if len(ns) > 1 else z3.IntVal(0))
        w = z3.IntVal(0)
        for v, k, st in ns:
            w = z3.If(k > w, k, w)
        one = z3.Or([ot == k for k in ONEBIT])
        ok = self.OPOK(ot, sq)
        p.assume(ok == z3.And([z3.Not(st) for v, k, st in ns] + [DEFINED(ot, x, y)]))
        p.assume(z3.Implies(ok, self.OP(ot, sq) == self.ev(p, ARITH(ot, x, y, w), z3.If(one, z3.IntVal(1), w))))
        return [('folded when defined', (p.term(r) != NULL) == ok),
                ('value of the operator', z3.Implies(p.term(r) != NULL, self.den(p, r) == self.OP(ot, sq))),
                ('width', self.wfv(p, r))]

    def part_ensures(self, p, a, r, o):
        (v, w, st), (m, _, _), (l, _, _) = [self.num(p, p.force(a[k])) for k in ('var', 'msb', 'lsb')]
        dv, dm, dl = [self.den(p, a[k]) for k in ('var', 'msb', 'lsb')]
        width = m - l + 1
        ok = self.PARTOK(dv, dm, dl)
        p.assume(ok == z3.And(width > 0, l >= 0, z3.Not(st)))
        p.assume(z3.Implies(ok, self.PART(dv, dm, dl) == self.ev(p, low_bits(p, shr_term(p, v, l), width), width)))
        return [('folded when defined', self.isev(p, r) == ok), ('not missing', self.full(p, r)),
                ('value of the part', self.den(p, r) == self.PART(dv, dm, dl)), ('width', self.wfv(p, r))]

    def ptr_ensures(self, p, a, r, o):
        (v, w, st), (i, _, _) = [self.num(p, p.force(a[k])) for k in ('var', 'ptr')]
        dv, di = [self.den(p, a[k]) for k in ('var', 'ptr')]
        ok = self.PTROK(dv, di)
        p.assume(ok == z3.And(i >= 0, z3.Not(st)))
        p.assume(z3.Implies(ok, self.PTR(dv, di) == self.ev(p, shr_term(p, v, i) % 2, z3.IntVal(1))))
        return [('folded when defined', self.isev(p, r) == ok), ('not missing', self.full(p, r)),
                ('value of the bit', self.den(p, r) == self.PTR(dv, di)), ('width', self.wfv(p, r))]
