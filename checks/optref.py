"""Reference evaluation of dataflow trees with declared signals and constants (used by the bounded searches)."""
import pyverilog.dataflow.dataflow as D
import pyverilog.dataflow.optimizer as real
from checks import dfgen
from checks.dfgen import ser, deser

UNARY = ('Uminus', 'Uplus', 'Ulnot', 'Unot', 'Uand', 'Unand', 'Uor', 'Unor', 'Uxor', 'Uxnor')
BINARY = ('Power', 'Times', 'Divide', 'Mod', 'Plus', 'Minus', 'Sll', 'Sla', 'Srl', 'Sra', 'LessThan', 'GreaterThan',
          'LessEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql', 'And', 'Xor', 'Xnor', 'Or', 'Land', 'Lor')
ONEBIT = ('LessThan', 'GreaterThan', 'LessEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql', 'Land', 'Lor', 'Ulnot',
          'Uand', 'Unand', 'Uor', 'Unor', 'Uxor', 'Uxnor')


def low(x, w):
    return x & ((1 << w) - 1)


def arith(op, x, y, w):
    """value of the operator on integers (w: width of the operands), None when it has none"""
    if op == 'Unot':
        return low(~x, w)
    if op == 'Uand':
        return int(low(x, w) == low(-1, w))
    if op == 'Unand':
        return int(low(x, w) != low(-1, w))
    if op == 'Uor':
        return int(low(x, w) != 0)
    if op == 'Unor':
        return int(low(x, w) == 0)
    if op in ('Uxor', 'Uxnor'):
        return (bin(low(x, w)).count('1') + (op == 'Uxnor')) % 2
    if op == 'Uplus':
        return x
    if op == 'Uminus':
        return -x
    if op == 'Ulnot':
        return int(x == 0)
    if op == 'Power':
        return None if y < 0 else x ** y
    if op in ('Divide', 'Mod'):
        if y == 0:
            return None
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return q if op == 'Divide' else x - y * q
    if op in ('Sll', 'Sla', 'Srl', 'Sra') and y < 0:
        return None
    if op in ('Sll', 'Sla'):
        return x * 2 ** y
    if op == 'Srl':
        return (low(x, w) if x < 0 else x) // 2 ** y
    if op == 'Sra':
        return x // 2 ** y
    f = {'Times': lambda: x * y, 'Plus': lambda: x + y, 'Minus': lambda: x - y, 'LessThan': lambda: int(x < y),
         'GreaterThan': lambda: int(x > y), 'LessEq': lambda: int(x <= y), 'GreaterEq': lambda: int(x >= y),
         'Eq': lambda: int(x == y), 'Eql': lambda: int(x == y), 'NotEq': lambda: int(x != y),
         'NotEql': lambda: int(x != y), 'And': lambda: x & y, 'Or': lambda: x | y, 'Xor': lambda: x ^ y,
         'Xnor': lambda: low(~(x ^ y), w), 'Land': lambda: int(x != 0 and y != 0),
         'Lor': lambda: int(x != 0 or y != 0)}
    return f[op]() if op in f else None


def number(x):
    return x[0] == 'n'


def join(parts, dw):
    v = w = 0
    for _, x, k in parts:
        k = dw if k is None else k
        v, w = v * 2 ** k + low(x, k), w + k
    return ('n', v, w)


class TooBig(Exception):
    """outside the property: a text as an index, an enormous part"""


class Ref(object):
    def __init__(self, terms, consts, dw=32):
        self.terms, self.consts, self.dw = terms, consts, dw

    def op(self, op, ds):
        if all(number(d) for d in ds):
            w = max([0] + [d[2] if d[2] is not None else 0 for d in ds])
            v = arith(op, ds[0][1], ds[1][1] if len(ds) > 1 else 0, w)
            if v is not None:
                return ('n', v, 1 if op in ONEBIT else w)
        return ('op', op) + tuple(ds)

    def cat(self, ds):
        return join(ds, self.dw) if all(number(d) for d in ds) else ('cat',) + tuple(ds)

    def part(self, v, m, l):
        if 's' in (v[0], m[0], l[0]) and all(x[0] in 'ns' for x in (m, l)):
            raise TooBig()
        if number(v) and number(m) and number(l):
            w = m[1] - l[1] + 1
            if w > 5000:
                raise TooBig()
            if w > 0 and l[1] >= 0:
                return ('n', low(v[1] >> l[1], w), w)
        return ('part', v, m, l)

    def bit(self, v, i, plain):
        if i[0] == 's':
            raise TooBig()
        if plain and number(v) and number(i) and i[1] >= 0:
            return ('n', (v[1] >> i[1]) & 1, 1)
        return ('bit', v, i)

    def literal(self, text):
        if any(c in text for c in 'xzXZ?'):
            return ('x', D.DFIntConst(text).width())
        return ('n', D.DFIntConst(text).eval(), D.DFIntConst(text).width())

    def den(self, t):
        d = self.den
        if t is None:
            return ('missing',)
        if isinstance(t, D.DFBranch):
            c, a, b = d(t.condnode), d(t.truenode), d(t.falsenode)
            if number(c) or c[0] == 's':
                return a if self.true(c) else b
            return ('br', c, a, b)
        if isinstance(t, D.DFOperator):
            return self.op(t.operator, [d(x) for x in t.nextnodes])
        if isinstance(t, D.DFConcat):
            return self.cat([d(x) for x in t.nextnodes])
        if isinstance(t, D.DFPartselect):
            return self.part(d(t.var), d(t.msb), d(t.lsb))
        if isinstance(t, D.DFPointer):
            plain = isinstance(t.var, D.DFTerminal) and self.terms[str(t.var.name)].dims is None
            return self.bit(d(t.var), d(t.ptr), plain)
        if isinstance(t, D.DFSyscall):
            return ('sys', t.syscall) + tuple(d(x) for x in t.nextnodes)
        if isinstance(t, D.DFTerminal):
            n = str(t.name)
            if n not in self.consts:
                return ('sig', n)
            c, term = self.consts[n], self.terms[n]
            w, m, l = c.width, d(term.msb), d(term.lsb)
            if number(m) and number(l):
                w = abs(m[1] - l[1]) + 1
            return ('s', c.value) if c.isstring else ('n', c.value, w)
        if isinstance(t, D.DFEvalValue):
            return ('s', t.value) if t.isstring else ('n', t.value, t.width)
        if isinstance(t, D.DFIntConst):
            return self.literal(t.value)
        if isinstance(t, D.DFStringConst):
            return ('s', t.value)
        if isinstance(t, (D.DFUndefined, D.DFHighImpedance)):
            return ('x' if isinstance(t, D.DFUndefined) else 'z', t.width)
        raise KeyError(type(t).__name__)

    def true(self, c):
        return c[1] != 0


LITS = ["0", "1", "4'd3", "2'b10", "8'hff", "8'd200", "3'o5", "32'hf0", "7", "12", "1'b1", "1'b0", "4'bx01z", "16'h1_0"]
SIGS = ['a', 'b', 'c', 'mem']
CONSTS = ['P', 'Q', 'R', 'S', 'T']


def num(rng, t=None):
    k = rng.randrange(10)
    if k < 5:
        return D.DFIntConst(rng.choice(LITS))
    if k < 8:
        return D.DFEvalValue(rng.choice([0, 1, 2, 3, 5, 7, 8, -1, -2, -7, 12, 200, 255]), rng.choice([1, 2, 4, 8, 32]))
    return dfgen.term(rng.choice(CONSTS))


def leaf(rng):
    k = rng.randrange(12)
    if k < 8:
        return num(rng)
    if k < 11:
        return dfgen.term(rng.choice(SIGS[:3]))
    return rng.choice([D.DFUndefined(4), D.DFHighImpedance(2), D.DFStringConst('txt'), D.DFStringConst('')])


def tree(rng, depth, nullable=False, konst=False):
    lf = num if konst or rng.random() < .3 else leaf
    if nullable and rng.random() < .1:
        return None
    if depth <= 0 or rng.random() < .12:
        return lf(rng)
    k = rng.randrange(20)
    r = lambda n=False: tree(rng, depth - 1, n, konst)
    if k < 3:
        return D.DFBranch(r(), r(nullable), r(nullable))
    if k < 6:
        return D.DFOperator((r(),), rng.choice(UNARY))
    if k < 12:
        op = rng.choice(BINARY)
        b = r()
        if op in ('Power', 'Sll', 'Sla', 'Srl', 'Sra'):
            b = rng.choice([D.DFEvalValue(rng.choice([-1, 0, 1, 2, 3, 5]), 32), D.DFIntConst(str(rng.randrange(5))),
                            dfgen.term('b')])
        a = r()
        if op == 'Power' and any(isinstance(x, D.DFOperator) and x.operator == 'Power' for x in dfgen.walk(a)):
            op = 'Plus'
        return D.DFOperator((a, b), op)
    if k < 15:
        return D.DFConcat(tuple(r() for _ in range(rng.randrange(1, 4))))
    small = lambda n=0: rng.choice([D.DFEvalValue(rng.randrange(-1, 9), 32), D.DFIntConst(str(rng.randrange(9))),
                                    D.DFIntConst(str(rng.randrange(9))), tree(rng, depth - 2, False, True) if n else dfgen.term('Q')])
    if k < 17:
        return D.DFPartselect(r(), small(1), small(1))
    if k < 19:
        return D.DFPointer(dfgen.term(rng.choice(SIGS + CONSTS)) if rng.random() < .6 else r(), small())
    return D.DFSyscall('signed', tuple(r() for _ in range(rng.randrange(1, 3))))


def decls(rng):
    """random declarations: terms and the values of the constants"""
    W = [1, 2, 4, 8, 32]
    ts, cs = {}, {}
    for n in SIGS + CONSTS:
        w, lo = rng.choice(W), rng.choice([0, 0, 0, 1, 4])
        m, l = D.DFIntConst(str(w - 1 + lo)), D.DFIntConst(str(lo))
        if rng.random() < .2:
            m, l = l, m
        dims = None
        if n == 'mem' or n == 'T' and rng.random() < .5:
            dims = ((D.DFIntConst('3'), D.DFIntConst('0')),)
        ts[n] = (m, l, dims)
    for n in CONSTS:
        cs[n] = D.DFEvalValue(rng.choice([0, 1, 2, 3, 4, -1, 7, 100]), rng.choice(W))
        if rng.random() < .4:
            ts[n] = (None, None, ts[n][2])
    if rng.random() < .2:
        cs['S'] = D.DFEvalValue('abc', None, isstring=True)
        ts['S'] = (None, None, None)
    return ts, cs


def ser_decls(ts, cs):
    return {'terms': dict((n, [ser(m), ser(l), None if d is None else [[ser(a), ser(b)] for a, b in d]])
                          for n, (m, l, d) in ts.items()),
            'consts': dict((n, ser(c)) for n, c in cs.items())}


def build(case):
    """-> real optimizer, reference"""
    ts, cs, rt, rc = {}, {}, {}, {}
    for n, (m, l, d) in case['terms'].items():
        k = dfgen.chain(n)
        t = D.Term(k, (), deser(m), deser(l), None if d is None else tuple((deser(a), deser(b)) for a, b in d))
        ts[k] = rt[str(k)] = t
    for n, c in case['consts'].items():
        k = dfgen.chain(n)
        cs[k] = rc[str(k)] = deser(c)
    return real.VerilogOptimizer(ts, cs), Ref(rt, rc)
