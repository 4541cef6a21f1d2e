"""Random source texts together with the syntax tree they mean, built independently of the parser: a tree is drawn, then
written with the least parentheses Verilog's precedence needs (or more), white space, comments and directives at random."""
import pyverilog.vparser.ast as A

BIN = {'Power': ('**', 11), 'Times': ('*', 10), 'Divide': ('/', 10), 'Mod': ('%', 10), 'Plus': ('+', 9), 'Minus': ('-', 9),
       'Sll': ('<<', 8), 'Srl': ('>>', 8), 'Sla': ('<<<', 8), 'Sra': ('>>>', 8), 'LessThan': ('<', 7),
       'GreaterThan': ('>', 7), 'LessEq': ('<=', 7), 'GreaterEq': ('>=', 7), 'Eq': ('==', 6), 'NotEq': ('!=', 6),
       'Eql': ('===', 6), 'NotEql': ('!==', 6), 'And': ('&', 5), 'Xor': ('^', 4), 'Xnor': ('~^', 4), 'Or': ('|', 3),
       'Land': ('&&', 2), 'Lor': ('||', 1)}
UN = {'Uminus': '-', 'Ulnot': '!', 'Unot': '~', 'Uand': '&', 'Unand': '~&', 'Uor': '|', 'Unor': '~|', 'Uxor': '^',
      'Uxnor': '~^'}
UNARY, PRIMARY = 12, 13
NAMES = ['a', 'b', 'clk', 'x1', 'data_in', 'reg_', 'modulex', 'or1', 'begin0', '_q', 'w$', 'sens_or', 'endx', 'E', 'h',
         '\\q+1', '\\a[0]']
NUMS = ['0', '1', '12', '1_000', "4'b10x1", "8'hfF", "'h0", "'b1", "3'o7", "4'sd3", "4'sb1010", "4'sbX1z0", "8'shZx", "6'd1_2",
        "4'B1?", "32'HDEAD_beef", "'d5", "5'sO17", "9'so0x", "4'Sd7"]
FLOATS = ['1.5', '0.25', '2e3', '1.0e-3', '10.5E+2']
STRINGS = ['say \\"hi\\"', '\\"', '', 'hello', 'a b', 'x;//y', '%d\\n', 'q\\"q', '/*c*/']


class G(object):
    def __init__(self, rng):
        self.r = rng

    def pick(self, *xs):
        return self.r.choice(xs)

    def p(self, x):
        return self.r.random() < x

    def name(self):
        return self.r.choice(NAMES)

    def some(self, f, lo=1, hi=3):
        return [f() for _ in range(self.r.randint(lo, hi))]

    # ------------------------------------------------------------ expressions: (tree, tokens, precedence)
    def ident(self, d=0):
        if d > 0 and self.p(.15):
            labels, toks = [], []
            for _ in range(self.r.randint(1, 2)):
                n = self.name()
                if self.p(.3):
                    e, t, _p = self.expr(d - 1)
                    labels.append(A.IdentifierScopeLabel(n, e))
                    toks += [n, '['] + t + [']', '.']
                else:
                    labels.append(A.IdentifierScopeLabel(n))
                    toks += [n, '.']
            n = self.name()
            return A.Identifier(n, A.IdentifierScope(tuple(labels))), toks + [n], PRIMARY
        if self.p(.03):
            return A.Identifier('\\esc+1'), ['\\esc+1 '], PRIMARY
        n = self.name()
        return A.Identifier(n), [n], PRIMARY

    def pointer(self, d):
        v, t, _p = self.ident(d)
        for _ in range(1 if self.p(.7) else 2):
            i, ti, _p = self.expr(d - 1)
            v, t = A.Pointer(v, i), t + ['['] + ti + [']']
        return v, t, PRIMARY

    def partselect(self, d):
        v, t, _p = self.pointer(d) if self.p(.3) else self.ident(d)
        x, tx, _p = self.expr(d - 1)
        y, ty, _p = self.expr(d - 1)
        k = self.pick(':', ':', '+:', '-:')
        t = t + ['['] + tx + [k] + ty + [']']
        if k == ':':
            return A.Partselect(v, x, y), t, PRIMARY
        w1 = A.Minus(y, A.IntConst('1'))
        if k == '+:':
            return A.Partselect(v, A.Plus(x, w1), x), t, PRIMARY
        return A.Partselect(v, x, A.Minus(x, w1)), t, PRIMARY

    def const(self):
        k = self.r.random()
        if k < .8:
            n = self.r.choice(NUMS)
            return A.IntConst(n), [n], PRIMARY
        if k < .9:
            n = self.r.choice(FLOATS)
            return A.FloatConst(n), [n], PRIMARY
        s = self.r.choice(STRINGS)
        return A.StringConst(s), ['"' + s + '"'], PRIMARY

    def sep(self, xs):
        """the trees, and the tokens with commas between"""
        toks = []
        for i, x in enumerate(xs):
            toks += ([','] if i else []) + x[1]
        return tuple(x[0] for x in xs), toks

    def paren(self, x, need):
        e, t, q = x
        n = 1 if need else 0
        while self.p(.08) and n < 3:
            n += 1
        return ['('] * n + t + [')'] * n

    def expr(self, d):
        if d <= 0:
            return self.const() if self.p(.4) else self.ident()
        k = self.r.random()
        if k < .35:
            c = self.r.choice(sorted(BIN))
            op, q = BIN[c]
            if op == '~^' and self.p(.4):
                op = '^~'
            x, y = self.expr(d - 1), self.expr(d - 1)
            return getattr(A, c)(x[0], y[0]), self.paren(x, x[2] < q) + [op] + self.paren(y, y[2] <= q), q
        if k < .47:
            c = self.r.choice(sorted(UN))
            x = self.expr(d - 1)
            op = self.pick('~^', '^~') if c == 'Uxnor' else UN[c]
            return getattr(A, c)(x[0]), [op] + self.paren(x, x[2] < PRIMARY), UNARY
        if k < .49:
            x = self.expr(d - 1)
            return x[0], ['+'] + self.paren(x, x[2] < PRIMARY), UNARY
        if k < .58:
            c, x, y = self.expr(d - 1), self.expr(d - 1), self.expr(d - 1)
            return A.Cond(c[0], x[0], y[0]), self.paren(c, c[2] <= 0) + ['?'] + self.paren(x, False) + [':'] + \
                self.paren(y, False), 0
        if k < .65:
            return self.pointer(d)
        if k < .72:
            return self.partselect(d)
        if k < .79:
            l, t = self.sep(self.some(lambda: self.expr(d - 1)))
            return A.Concat(l), ['{'] + t + ['}'], PRIMARY
        if k < .84:
            l, t = self.sep(self.some(lambda: self.expr(d - 1)))
            n = self.const() if self.p(.6) else self.ident()
            return A.Repeat(A.Concat(l), n[0]), ['{'] + n[1] + ['{'] + t + ['}', '}'], PRIMARY
        if k < .89:
            l, t = self.sep(self.some(lambda: self.expr(d - 1), 0))
            f = self.ident(d - 1)
            return A.FunctionCall(f[0], l), f[1] + ['('] + t + [')'], PRIMARY
        if k < .93:
            return self.systemcall(d)
        return self.const() if self.p(.4) else self.ident(d)

    def systemcall(self, d):
        n = self.pick('signed', 'unsigned', 'time', 'display', 'random')
        if n != 'signed' and self.p(.3):
            return A.SystemCall(n, ()), ['$' + n], PRIMARY
        l, t = self.sep(self.some(lambda: self.expr(d - 1), 0))
        return A.SystemCall(n, l), ['$' + n, '('] + t + [')'], PRIMARY

    def width(self, d=1):
        x, y = self.expr(d), self.expr(d)
        return A.Width(x[0], y[0]), ['['] + x[1] + [':'] + y[1] + [']']

    def maybe_width(self):
        return self.width() if self.p(.5) else (None, [])

    def dims(self, p):
        if not self.p(p):
            return None, []
        ls, t = [], []
        for _ in range(self.r.randint(1, 2)):
            w, tw = self.width()
            ls.append(A.Length(w.msb, w.lsb))
            t += tw
        return A.Dimensions(ls), t

    def lvalue(self, d=2):
        def one(n):
            k = self.r.random()
            if k < .5:
                return self.ident(1)
            if k < .65:
                return self.pointer(d)
            if k < .8 or n <= 0:
                return self.partselect(d)
            l, t = self.sep(self.some(lambda: one(n - 1)))
            return A.LConcat(l), ['{'] + t + ['}'], PRIMARY
        x = one(2)
        return A.Lvalue(x[0]), x[1]

    def rvalue(self, d=2):
        x = self.expr(d)
        return A.Rvalue(x[0]), x[1]

    def delay(self, p):
        if not self.p(p):
            return None, []
        k = self.r.random()
        if k < .3:
            x = self.expr(1)
            return A.DelayStatement(x[0]), ['#', '('] + x[1] + [')']
        if k < .6:
            n = self.name()
            return A.DelayStatement(A.Identifier(n)), ['#', n]
        if k < .8:
            return A.DelayStatement(A.IntConst('5')), ['#', '5']
        return A.DelayStatement(A.FloatConst('1.5')), ['#', '1.5']

    # ------------------------------------------------------------ statements: (tree, tokens, ends in an if without else)
    def assign_base(self, cls, op, p=.15):
        d1, t1 = self.delay(p)
        l, tl = self.lvalue()
        d2, t2 = self.delay(p)
        r, tr = self.rvalue()
        return cls(l, r, d1, d2), t1 + tl + [op] + t2 + tr

    def blocking(self):
        n, t = self.assign_base(A.BlockingSubstitution, '=')
        return n, t + [';'], False

    def closed(self, d):
        """a statement that may stand before else"""
        s = self.stmt(d)
        if s[2]:
            return A.Block((s[0],)), ['begin'] + s[1] + ['end'], False
        return s

    def stmt(self, d, only=None):
        kinds = ['blocking', 'blocking', 'nonblocking', 'if', 'case', 'casex', 'casez', 'for', 'while', 'block', 'named',
                 'wait', 'forever', 'fork', 'event', 'system', 'disable', 'delay', 'null', 'unique']
        if d <= 0:
            kinds = ['blocking', 'nonblocking', 'system', 'null']
        if only:
            kinds = [k for k in kinds if k in only] or only[:1]
        k = self.r.choice(kinds)
        if k == 'blocking':
            return self.blocking()
        if k == 'nonblocking':
            n, t = self.assign_base(A.NonblockingSubstitution, '<=')
            return n, t + [';'], False
        if k == 'if':
            c = self.expr(1)
            head = ['if', '('] + c[1] + [')']
            if self.p(.5):
                x, y = self.closed(d - 1), self.stmt(d - 1)
                return A.IfStatement(c[0], x[0], y[0]), head + x[1] + ['else'] + y[1], y[2]
            x = self.stmt(d - 1)
            return A.IfStatement(c[0], x[0], None), head + x[1], True
        if k in ('case', 'casex', 'casez', 'unique'):
            cls = {'case': A.CaseStatement, 'casex': A.CasexStatement, 'casez': A.CasezStatement, 'unique': A.UniqueCaseStatement}[k]
            c = self.expr(1)
            t = (['unique', 'case'] if k == 'unique' else [k]) + ['('] + c[1] + [')']
            l = []
            n = self.r.randint(1, 3)
            for i in range(n):
                s = self.stmt(d - 1)
                if i == n - 1 and self.p(.4):
                    l.append(A.Case(None, s[0]))
                    t += ['default', ':'] + s[1]
                else:
                    cs, tc = self.sep(self.some(lambda: self.expr(1), 1, 2))
                    l.append(A.Case(cs, s[0]))
                    t += tc + [':'] + s[1]
            return cls(c[0], tuple(l)), t + ['endcase'], False
        if k == 'for':
            pre = self.assign_base(A.BlockingSubstitution, '=', 0) if self.p(.8) else (None, [])
            post = self.assign_base(A.BlockingSubstitution, '=', 0) if self.p(.8) else (None, [])
            c = self.expr(1) if self.p(.8) else (None, [])
            s = self.stmt(d - 1)
            return A.ForStatement(pre[0], c[0], post[0], s[0]), ['for', '('] + pre[1] + [';'] + c[1] + [';'] + post[1] + [')'] + s[1], s[2]
        if k == 'while':
            c, s = self.expr(1), self.stmt(d - 1)
            return A.WhileStatement(c[0], s[0]), ['while', '('] + c[1] + [')'] + s[1], s[2]
        if k == 'wait':
            c = self.expr(1)
            if self.p(.4):
                return A.WaitStatement(c[0], None), ['wait', '('] + c[1] + [')', ';'], False
            s = self.stmt(d - 1)
            while isinstance(s[0], A.Block) and not s[0].statements and s[1] == [';']:
                s = self.stmt(d - 1)
            return A.WaitStatement(c[0], s[0]), ['wait', '('] + c[1] + [')'] + s[1], s[2]
        if k == 'forever':
            s = self.stmt(d - 1)
            return A.ForeverStatement(s[0]), ['forever'] + s[1], s[2]
        if k == 'block':
            l = self.some(lambda: self.stmt(d - 1), 0)
            return A.Block(tuple(x[0] for x in l)), ['begin'] + [y for x in l for y in x[1]] + ['end'], False
        if k == 'named':
            l = self.some(lambda: self.stmt(d - 1) if self.p(.7) else self.local(), 0)
            n = self.name()
            return A.Block(tuple(x[0] for x in l), n), ['begin', ':', n] + [y for x in l for y in x[1]] + ['end'], False
        if k == 'fork':
            l = self.some(lambda: self.stmt(d - 1), 0)
            return A.ParallelBlock(tuple(x[0] for x in l)), ['fork'] + [y for x in l for y in x[1]] + ['join'], False
        if k == 'event':
            s, t = self.senslist(False)
            return A.EventStatement(s), t + [';'], False
        if k == 'system':
            s = self.systemcall(2)
            return A.SingleStatement(s[0]), s[1] + [';'], False
        if k == 'disable':
            n = self.name()
            return A.SingleStatement(A.Disable(n)), ['disable', n, ';'], False
        if k == 'delay':
            x = self.expr(1)
            return A.SingleStatement(A.DelayStatement(x[0])), ['#'] + x[1] + [';'], False
        if k == 'null':
            return A.Block(()), [';'], False
        raise AssertionError(k)

    def local(self):
        """a declaration inside a named block"""
        k = self.r.random()
        if k < .5:
            return self.decl([['reg'], ['wire'], ['reg', 'signed']])
        if k < .7:
            return self.integers()
        if k < .8:
            return self.reals()
        return self.params(self.pick('parameter', 'localparam'))

    def senslist(self, optional=True):
        k = self.r.random()
        if optional and k < .1:
            return A.SensList((A.Sens(None, 'all'),)), []
        if k < .2:
            return A.SensList((A.Sens(None, 'all'),)), ['@', '*']
        if k < .3:
            return A.SensList((A.Sens(None, 'all'),)), ['@', '(', '*', ')']
        if k < .4:
            x = self.pick(self.ident, lambda: self.pointer(1))()
            return A.SensList((A.Sens(x[0], 'level'),)), ['@'] + x[1]
        edge = self.p(.5)
        l, t = [], ['@', '(']
        for i in range(self.r.randint(1, 3)):
            x = self.pick(lambda: self.ident(1), lambda: self.pointer(1)) if edge else \
                self.pick(lambda: self.ident(1), lambda: self.pointer(1), lambda: self.partselect(1))
            x = x()
            if i:
                t.append(self.pick('or', ','))
            ty = self.pick('posedge', 'negedge') if edge else 'level'
            l.append(A.Sens(x[0], ty))
            t += ([ty] if edge else []) + x[1]
        return A.SensList(tuple(l)), t + [')']

    # ------------------------------------------------------------ items
    def variables(self, types, n, w, d):
        signed = 'signed' in types
        out = []
        for x in ('input', 'output', 'inout', 'wire', 'reg', 'tri'):
            if x in types:
                out.append(getattr(A, x.capitalize())(n, width=w, signed=signed, dimensions=d))
        for x in ('supply0', 'supply1'):
            if x in types:
                out.append(A.Supply(n, A.IntConst(x[-1]), width=w))
        return out

    TYPES = [['wire'], ['reg'], ['wire', 'signed'], ['reg', 'signed'], ['tri'], ['input'], ['output'], ['inout'],
             ['input', 'wire'], ['output', 'reg'], ['output', 'reg', 'signed'], ['output', 'wire'], ['input', 'signed'],
             ['supply0'], ['supply1'], ['inout', 'tri']]

    def decl(self, types=None):
        ty = self.r.choice(types or self.TYPES)
        w, tw = self.maybe_width()
        l, t = [], []
        for i in range(self.r.randint(1, 3)):
            n = self.name()
            d, td = self.dims(0 if ty[0].startswith('supply') else .2)
            l += self.variables(ty, n, w, d)
            t += ([','] if i else []) + [n] + td
        return A.Decl(tuple(l)), ty + tw + t + [';'], False

    def declassign(self):
        ty = self.r.choice([t for t in self.TYPES if 'wire' in t or 'reg' in t])
        w, tw = self.maybe_width()
        n = self.name()
        d1, t1 = self.delay(.2)
        d2, t2 = self.delay(.2) if d1 else (None, [])
        r, tr = self.rvalue()
        a = A.Assign(A.Lvalue(A.Identifier(n)), r, d1, d2)
        return A.Decl(tuple(self.variables(ty, n, w, None)) + (a,)), ty + tw + t1 + [n, '='] + t2 + tr + [';'], False

    def integers(self):
        l, t = [], []
        for i in range(self.r.randint(1, 3)):
            n = self.name()
            v, tv = self.rvalue(1) if self.p(.3) else (None, [])
            l.append(A.Integer(n, A.Width(A.IntConst('31'), A.IntConst('0')), True, None, v))
            t += ([','] if i else []) + [n] + (['='] + tv if tv else [])
        return A.Decl(tuple(l)), ['integer'] + (['signed'] if self.p(.2) else []) + t + [';'], False

    def reals(self):
        ns = self.some(self.name)
        return A.Decl(tuple(A.Real(n, A.Width(A.IntConst('31'), A.IntConst('0'))) for n in ns)), \
            ['real'] + self.sep([(None, [n]) for n in ns])[1] + [';'], False

    def paramlist(self, word, cls):
        signed = self.p(.3)
        w, tw = self.maybe_width()
        l, t = [], []
        for i in range(self.r.randint(1, 3)):
            n = self.name()
            v, tv = self.rvalue(1)
            l.append(cls(n, v, w, signed))
            t += ([','] if i else []) + [n, '='] + tv
        return A.Decl(tuple(l)), [word] + (['signed'] if signed else []) + tw + t

    def params(self, word):
        n, t = self.paramlist(word, A.Parameter if word == 'parameter' else A.Localparam)
        return n, t + [';'], False

    def genvars(self):
        ns = self.some(self.name)
        return A.Decl(tuple(A.Genvar(n, A.Width(A.IntConst('31'), A.IntConst('0'))) for n in ns)), \
            ['genvar'] + self.sep([(None, [n]) for n in ns])[1] + [';'], False

    def assign(self):
        n, t = self.assign_base(A.Assign, '=', .2)
        if n.ldelay is None and n.rdelay is not None:
            n.rdelay = None
            n, t = self.assign_base(A.Assign, '=', 0)
        return n, ['assign'] + t + [';'], False

    def always(self):
        k = self.pick('always', 'always', 'always_ff', 'always_comb', 'always_latch')
        cls = {'always': A.Always, 'always_ff': A.AlwaysFF, 'always_comb': A.AlwaysComb, 'always_latch': A.AlwaysLatch}[k]
        s, ts = self.senslist()
        b = self.stmt(3)
        while not ts and b[1][0] == '@':
            b = self.stmt(3)
        return cls(s, b[0]), [k] + ts + b[1], b[2]

    def initial(self):
        b = self.stmt(3)
        return A.Initial(b[0]), ['initial'] + b[1], b[2]

    def instance(self):
        m = self.name()
        k = self.r.random()
        ps, tp = (), []
        if k < .25:
            l = self.some(lambda: self.expr(1))
            ps, t = self.sep([(A.ParamArg(None, x[0]), x[1]) for x in l])
            tp = ['#', '('] + t + [')']
        elif k < .5:
            l = []
            for _ in range(self.r.randint(0, 2)):
                n, x = self.name(), self.expr(1)
                l.append((A.ParamArg(n, x[0]), ['.', n, '('] + x[1] + [')']))
            ps, t = self.sep(l)
            tp = ['#', '('] + t + [')']
        noname = not tp and self.p(.2)
        l, t = [], []
        for i in range(self.r.randint(1, 2)):
            n = '' if noname else self.name()
            arr, ta = self.width() if self.p(.2) and not noname else (None, [])
            q = []
            if self.p(.5):
                k = self.r.randint(0, 3)
                for _ in range(k):
                    x = self.expr(2) if k == 1 or self.p(.85) else (None, [])
                    q.append((A.PortArg(None, x[0]), x[1]))
            else:
                for _ in range(self.r.randint(1, 3)):
                    pn = self.name()
                    x = self.expr(2) if self.p(.8) else (None, [])
                    q.append((A.PortArg(pn, x[0]), ['.', pn, '('] + x[1] + [')']))
            qs, tq = self.sep(q)
            l.append(A.Instance(m, n, qs, ps, arr))
            t += ([','] if i else []) + ([n] if n else []) + ta + ['('] + tq + [')']
        return A.InstanceList(m, ps, tuple(l)), [m] + tp + t + [';'], False

    CALC = ['blocking', 'if', 'for', 'while', 'case', 'casex', 'casez', 'block', 'named']

    def function(self):
        n = self.name()
        k = self.r.random()
        if k < .4:
            w, t = self.width()
        elif k < .7:
            w, t = A.Width(A.IntConst('0'), A.IntConst('0')), []
        else:
            w, t = A.Width(A.IntConst('31'), A.IntConst('0')), ['integer']
        ds = self.some(lambda: self.integers() if self.p(.2) else self.decl([['input'], ['reg'], ['input', 'signed']]))
        b = self.stmt(2, self.CALC)
        return A.Function(n, w, tuple(x[0] for x in ds) + (b[0],)), \
            ['function'] + t + [n, ';'] + [y for x in ds for y in x[1]] + b[1] + ['endfunction'], False

    def task(self):
        n = self.name()
        ds = self.some(lambda: self.integers() if self.p(.2) else self.decl([['input'], ['reg'], ['input', 'signed']]), 0)
        b = self.stmt(2, self.CALC)
        return A.Task(n, tuple(x[0] for x in ds) + (b[0],)), \
            ['task', n, ';'] + [y for x in ds for y in x[1]] + b[1] + ['endtask'], False

    def pragma(self):
        n = self.name()
        if self.p(.5):
            return A.Pragma(A.PragmaEntry(n)), ['(*', n, '*)'], False
        x = self.const()
        return A.Pragma(A.PragmaEntry(n, x[0])), ['(*', n, '='] + x[1] + ['*)'], False

    def standard(self):
        return self.pick(self.decl, self.decl, self.declassign, self.integers, self.reals, lambda: self.params('parameter'),
                         lambda: self.params('localparam'), self.genvars, self.assign, self.always, self.initial,
                         self.instance, self.instance, self.function, self.task, self.pragma)()

    def gen_item(self, d):
        k = self.r.random()
        if d <= 0 or k < .5:
            return self.standard()
        if k < .8:
            c = self.expr(1)
            head = ['if', '('] + c[1] + [')']
            x = self.gen_body(d - 1)
            if self.p(.5):
                if x[2]:
                    x = A.Block((x[0],)), ['begin'] + x[1] + ['end'], False
                y = self.gen_body(d - 1)
                return A.IfStatement(c[0], x[0], y[0]), head + x[1] + ['else'] + y[1], y[2]
            return A.IfStatement(c[0], x[0], None), head + x[1], True
        pre, post, c = self.assign_base(A.BlockingSubstitution, '=', 0), self.assign_base(A.BlockingSubstitution, '=', 0), self.expr(1)
        s = self.gen_body(d - 1)
        return A.ForStatement(pre[0], c[0], post[0], s[0]), ['for', '('] + pre[1] + [';'] + c[1] + [';'] + post[1] + [')'] + s[1], s[2]

    def gen_body(self, d):
        if self.p(.3):
            return self.gen_item(d)
        l = self.some(lambda: self.gen_item(d), 0)
        n = self.name() if self.p(.6) else None
        return A.Block(tuple(x[0] for x in l), n), ['begin'] + ([':', n] if n else []) + [y for x in l for y in x[1]] + ['end'], False

    def generate(self):
        l = self.some(lambda: self.gen_item(2), 0)
        return A.GenerateStatement(tuple(x[0] for x in l)), ['generate'] + [y for x in l for y in x[1]] + ['endgenerate'], False

    def item(self):
        return self.generate() if self.p(.12) else self.standard()

    def ports(self):
        k = self.r.random()
        if k < .15:
            return A.Portlist(()), [';']
        if k < .3:
            return A.Portlist(()), ['(', ')', ';']
        if k < .45:
            ns = self.some(self.name)
            return A.Portlist(tuple(A.Port(n, None, None, None) for n in ns)), ['('] + self.sep([(None, [n]) for n in ns])[1] + [')', ';']
        l, t = [], []
        last = None
        for i in range(self.r.randint(1, 5)):
            n = self.name()
            if last is not None and self.p(.4):
                types, w, tw = last
                d, td = None, []
                t += [',', n]
            else:
                types = self.r.choice([['input'], ['output'], ['inout'], ['input', 'wire'], ['output', 'reg'], ['output', 'wire'],
                                       ['input', 'signed'], ['output', 'reg', 'signed'], ['inout', 'tri'], ['inout', 'wire']])
                w, tw = self.maybe_width()
                d, td = self.dims(.2 if w is not None else 0)
                t += ([','] if i else []) + types + tw + [n] + td
            v = self.variables(types, n, w, d)
            l.append(A.Ioport(v[0], v[1] if len(v) > 1 else None))
            last = types, w, tw
        return A.Portlist(tuple(l)), ['('] + t + [')', ';']

    def module(self, nettype='wire'):
        n = self.name()
        pl, tp = (), []
        if self.p(.3):
            ps = [self.paramlist('parameter', A.Parameter) for _ in range(self.r.randint(1, 3))]
            pl, t = self.sep(ps)
            tp = ['#', '('] + t + [')']
        q, tq = self.ports()
        items = self.some(self.item, 0, 4)
        return A.ModuleDef(n, A.Paramlist(pl), q, tuple(x[0] for x in items), nettype), \
            ['module', n] + tp + tq + [y for x in items for y in x[1]] + ['endmodule']

    def source(self):
        defs, t = [], []
        nettype = 'wire'
        for _ in range(self.r.randint(1, 2)):
            if self.p(.1):
                nettype = self.pick('none', 'wire')
                t.append('\n`default_nettype ' + nettype + '\n')
            if self.p(.1):
                t.append('\n`timescale 1ns / 1ps\n')
            if self.p(.1):
                x = self.pragma()
            else:
                x = self.module(nettype)
            defs.append(x[0])
            t += x[1]
        return A.Source('', A.Description(tuple(defs))), self.text(t)

    # ------------------------------------------------------------ lay-out
    GLUE = set('()[]{},;@')

    def text(self, toks):
        out = []
        prev = ''
        plain = self.p(.5)
        for t in toks:
            tight = (prev[-1:] in self.GLUE or t[:1] in self.GLUE) and not (prev == '(' and t[0] == '*') and not (prev == '*' and t == ')')
            if tight and prev[:1] != '\\' and self.p(.5):
                pass
            elif plain or self.p(.8):
                out.append(' ')
            else:
                out.append(self.pick('\n', '\t', '  ', '\r\n', ' /* x ; * y */ ', ' /**/', ' // end module ;\n', ' //\n', '\n\n'))
            out.append(t)
            prev = t
        if self.p(.2):
            out.append(self.pick('\n', ' // done', '// done\n', '/* e */'))
        return ''.join(out)
