"""Small procedural blocks, their reference execution, and the value of the dataflow the tool extracts from them.

A program is JSON: {'mode': 'comb'|'seq', 'vars': {name: [kind, width]}, 'body': [stmt]}; statements are
['=', lhs, e], ['<=', lhs, e], ['if', e, [..], [..]|None], ['case', e, [[[consts] | None, [..]], ..]], ['begin', [..]];
lhs is a name, ['cat', name, ..] or ['sl', name, msb, lsb]."""
import itertools
import pyverilog.dataflow.dataflow as D
from checks import vtool


# ------------------------------------------------------------------ text
def etext(e):
    k = e[0]
    if k == 'id':
        return e[1]
    if k == 'const':
        return "%d'd%d" % (e[1], e[2])
    if k == 'not':
        return '(~%s)' % etext(e[1])
    if k in ('&', '|', '^', '=='):
        return '(%s %s %s)' % (etext(e[1]), k, etext(e[2]))
    if k == '?':
        return '(%s ? %s : %s)' % tuple(etext(x) for x in e[1:])
    if k == 'cat':
        return '{%s}' % ', '.join(etext(x) for x in e[1:])
    if k == 'sl':
        return '%s[%d:%d]' % (e[1], e[2], e[3])
    if k == 'bit':
        return '%s[%d]' % (e[1], e[2])
    raise KeyError(k)


def ltext(l):
    if isinstance(l, str):
        return l
    if l[0] == 'cat':
        return '{%s}' % ', '.join(ltext(x) for x in l[1:])
    return '%s[%d:%d]' % (l[1], l[2], l[3])


def stext(s, ind='  '):
    k = s[0]
    if k in ('=', '<='):
        return '%s%s %s %s;\n' % (ind, ltext(s[1]), k, etext(s[2]))
    if k == 'if':
        r = '%sif (%s) begin\n%s%send\n' % (ind, etext(s[1]), btext(s[2], ind + '  '), ind)
        if s[3] is not None:
            r += '%selse begin\n%s%send\n' % (ind, btext(s[3], ind + '  '), ind)
        return r
    if k == 'case':
        r = '%scase (%s)\n' % (ind, etext(s[1]))
        for vals, b in s[2]:
            lab = 'default' if vals is None else ', '.join(etext(v) for v in vals)
            r += '%s  %s: begin\n%s%s  end\n' % (ind, lab, btext(b, ind + '    '), ind)
        return r + ind + 'endcase\n'
    if k == 'begin':
        return '%sbegin\n%s%send\n' % (ind, btext(s[1], ind + '  '), ind)
    raise KeyError(k)


def btext(b, ind='  '):
    return ''.join(stext(s, ind) for s in b)


def text(prog):
    rng = lambda w: '' if w == 1 else '[%d:0] ' % (w - 1)
    ports = ['input clk'] + ['%s %s%s' % ('input' if k == 'in' else 'output reg', rng(w), n)
                             for n, (k, w) in prog['vars'].items()]
    return 'module top(%s);\nalways @(%s) begin\n%send\nendmodule\n' % (
        ', '.join(ports), '*' if prog['mode'] == 'comb' else 'posedge clk', btext(prog['body']))


# ------------------------------------------------------------------ reference execution
def ewidth(prog, e):
    k = e[0]
    if k == 'id':
        return prog['vars'][e[1]][1]
    if k == 'const':
        return e[1]
    if k in ('not', '&', '|', '^'):
        return ewidth(prog, e[1])
    if k in ('==', 'bit'):
        return 1
    if k == '?':
        return ewidth(prog, e[2])
    if k == 'cat':
        return sum(ewidth(prog, x) for x in e[1:])
    if k == 'sl':
        return e[2] - e[3] + 1


def ev(prog, e, env):
    k = e[0]
    if k == 'id':
        return env[e[1]]
    if k == 'const':
        return e[2]
    if k == 'not':
        return ~ev(prog, e[1], env) & ((1 << ewidth(prog, e[1])) - 1)
    if k == '?':
        return ev(prog, e[2 if ev(prog, e[1], env) else 3], env)
    if k == 'cat':
        v = 0
        for x in e[1:]:
            v = v << ewidth(prog, x) | ev(prog, x, env)
        return v
    if k == 'sl':
        return env[e[1]] >> e[3] & ((1 << (e[2] - e[3] + 1)) - 1)
    if k == 'bit':
        return env[e[1]] >> e[2] & 1
    a, b = ev(prog, e[1], env), ev(prog, e[2], env)
    return {'&': a & b, '|': a | b, '^': a ^ b, '==': int(a == b)}[k]


def store(prog, lhs, val, env):
    if isinstance(lhs, str):
        env[lhs] = val & ((1 << prog['vars'][lhs][1]) - 1)
    elif lhs[0] == 'sl':
        m = ((1 << (lhs[2] - lhs[3] + 1)) - 1)
        env[lhs[1]] = env[lhs[1]] & ~(m << lhs[3]) | (val & m) << lhs[3]
    else:
        for l in reversed(lhs[1:]):
            w = prog['vars'][l][1] if isinstance(l, str) else l[2] - l[3] + 1
            store(prog, l, val & ((1 << w) - 1), env)
            val >>= w


def run(prog, body, env, nba):
    for s in body:
        k = s[0]
        if k == '=':
            store(prog, s[1], ev(prog, s[2], env), env)
        elif k == '<=':
            nba.append((s[1], ev(prog, s[2], env)))
        elif k == 'if':
            if ev(prog, s[1], env):
                run(prog, s[2], env, nba)
            elif s[3] is not None:
                run(prog, s[3], env, nba)
        elif k == 'case':
            v = ev(prog, s[1], env)
            for vals, b in s[2]:
                if vals is None or v in [ev(prog, x, env) for x in vals]:
                    run(prog, b, env, nba)
                    break
        elif k == 'begin':
            run(prog, s[1], env, nba)


def execute(prog, env):
    env = dict(env)
    nba = []
    run(prog, prog['body'], env, nba)
    for l, v in nba:
        store(prog, l, v, env)
    return env


# ------------------------------------------------------------------ value of the extracted dataflow
class Flow(object):
    def __init__(self, prog, a):
        self.prog = prog
        self.a = a
        self.binds = {}
        for name, bl in a.getBinddict().items():
            self.binds[str(name)] = bl

    def width(self, n):
        base = n.split('.')[-1]
        if base in self.prog['vars']:
            return self.prog['vars'][base][1]
        bl = self.binds.get(n)
        if bl and len(bl) == 1 and bl[0].msb is not None:
            return self.const(bl[0].msb) - self.const(bl[0].lsb) + 1
        if base.startswith('_rn'):
            return self.prog['vars'][base.split('_', 2)[2]][1]
        raise KeyError(n)

    def const(self, t):
        return self.val(t, {}, None)[0]

    def val(self, t, env, old):
        """(value, width); old: what an absent value stands for"""
        if t is None:
            return old
        if isinstance(t, D.DFIntConst):
            s = t.value
            if "'" in s:
                w, d = s.split("'")
                return int(d[1:], {'d': 10, 'h': 16, 'b': 2, 'o': 8}[d[0]]), int(w)
            return int(s), 32
        if isinstance(t, D.DFEvalValue):
            return t.value, 32
        if isinstance(t, D.DFTerminal):
            n = str(t.name)
            base = n.split('.')[-1]
            if base in self.prog['vars']:
                return env[base], self.width(n)
            w = self.width(n)
            if ('rn', n) not in env:
                env[('rn', n)] = self.val(self.binds[n][0].tree, env, old)[0] & ((1 << w) - 1)
            return env[('rn', n)], w
        if isinstance(t, D.DFBranch):
            return self.val(t.truenode if self.val(t.condnode, env, old)[0] else t.falsenode, env, old)
        if isinstance(t, D.DFConcat):
            v = w = 0
            for x in t.nextnodes:
                xv, xw = self.val(x, env, old)
                v, w = v << xw | xv, w + xw
            return v, w
        if isinstance(t, D.DFPartselect):
            v, w = self.val(t.var, env, old)
            m, l = self.val(t.msb, env, old)[0], self.val(t.lsb, env, old)[0]
            return v >> l & ((1 << (m - l + 1)) - 1), m - l + 1
        if isinstance(t, D.DFOperator):
            xs = [self.val(x, env, old) for x in t.nextnodes]
            w = max(x[1] for x in xs)
            a = xs[0][0]
            b = xs[1][0] if len(xs) > 1 else None
            o = t.operator
            if o == 'Unot':
                return ~a & ((1 << w) - 1), w
            if o == 'Ulnot':
                return int(not a), 1
            if o in ('And', 'Or', 'Xor'):
                return {'And': a & (b or 0), 'Or': a | b, 'Xor': a ^ b}[o], w
            if o == 'Eq':
                return int(a == b), 1
            if o == 'Lor':
                return int(bool(a or b)), 1
            if o == 'Land':
                return int(bool(a and b)), 1
            if o == 'Plus':
                return a + b, w
            if o == 'Minus':
                return a - b, w
        raise NotImplementedError(type(t).__name__)

    def final(self, name, env):
        """value of a register after the block"""
        w = self.prog['vars'][name][1]
        v = env[name]
        for b in self.binds.get('top.' + name, ()):
            e2 = dict(env)
            if b.msb is None and b.lsb is None:
                v = self.val(b.tree, e2, (env[name], w))[0] & ((1 << w) - 1)
            else:
                m, l = self.const(b.msb), self.const(b.lsb)
                k = (1 << (m - l + 1)) - 1
                x = self.val(b.tree, e2, (env[name] >> l & k, m - l + 1))[0] & k
                v = v & ~(k << l) | x << l
        return v


def check_case(prog):
    src = text(prog)
    try:
        a = vtool.dataflow(src)
    except RecursionError:
        return None
    except Exception as e:
        return ('exception', 'extracting the dataflow of\n%s raised %s: %s' % (src, type(e).__name__, e))
    f = Flow(prog, a)
    names = list(prog['vars'])
    regs = [n for n in names if prog['vars'][n][0] == 'reg']
    spaces = [range(1 << prog['vars'][n][1]) for n in names]
    total = 1
    for s in spaces:
        total *= len(s)
    if total <= 256:
        combos = itertools.product(*spaces)
    else:
        import random
        r = random.Random(total)
        combos = [[r.choice(s) for s in spaces] for _ in range(160)]
    for c in combos:
        env = dict(zip(names, c))
        want = execute(prog, env)
        for n in regs:
            got = f.final(n, env)
            if got != want[n]:
                return ('value', 'after\n%swith %s the register %s is %d, the extracted dataflow gives %d: %s' % (
                    src, env, n, want[n], got, '; '.join(b.tostr() for b in f.binds.get('top.' + n, ()))))
    return None


def case_key(prog):
    return text(prog)


# ------------------------------------------------------------------ generation
class Gen(object):
    def __init__(self, rng):
        self.r = rng
        self.prog = None

    def names(self, w, kinds=('in', 'reg')):
        return [n for n, (k, ww) in self.prog['vars'].items() if ww == w and k in kinds and n not in self.noread]

    def expr(self, w, d):
        r = self.r
        if d <= 0 or r.random() < .35:
            ns = self.names(w)
            if not ns or r.random() < .15:
                return ['const', w, r.randrange(1 << w)]
            return ['id', r.choice(ns)]
        k = r.choice(['op', 'op', 'not', '?', 'x', 'x'])
        if k == 'op':
            return [r.choice('&|^'), self.expr(w, d - 1), self.expr(w, d - 1)]
        if k == 'not':
            return ['not', self.expr(w, d - 1)]
        if k == '?':
            return ['?', self.expr(1, d - 1), self.expr(w, d - 1), self.expr(w, d - 1)]
        if w == 1:
            if r.random() < .5:
                return ['==', self.expr(2, d - 1), self.expr(2, d - 1)]
            ns = self.names(2)
            if ns:
                return ['bit', r.choice(ns), r.randrange(2)]
            return self.expr(w, d - 1)
        return ['cat', self.expr(1, d - 1), self.expr(1, d - 1)]

    def assign(self):
        r = self.r
        b = self.blocking
        regs = [n for n, (k, w) in self.prog['vars'].items() if k == 'reg']
        ones = [n for n in regs if self.prog['vars'][n][1] == 1 and n not in self.sliced]
        if self.cats and len(ones) >= 2 and r.random() < .5:
            l = ['cat'] + r.sample(ones, 2)
            op = r.choice([b[n] for n in l[1:]])
            if b[l[1]] == b[l[2]]:
                return [op, l, self.expr(2, self.d)]
        n = r.choice([x for x in regs if x not in self.cats] or regs)
        if n in self.cats:
            l = ['cat', n, [x for x in self.cats if x != n][0]]
            return [b[n], l, self.expr(2, self.d)]
        w = self.prog['vars'][n][1]
        if n in self.sliced:
            i = r.randrange(w)
            return [b[n], ['sl', n, i, i], self.expr(1, self.d)]
        return [b[n], n, self.expr(w, self.d)]

    def block(self, n, d):
        return [self.stmt(d) for _ in range(n)]

    def stmt(self, d):
        r = self.r
        x = r.random()
        if d <= 0 or x < .5:
            return self.assign()
        if x < .85:
            return ['if', self.expr(1, self.d), self.block(r.randrange(1, 3), d - 1),
                    self.block(r.randrange(1, 3), d - 1) if r.random() < .5 else None]
        if x < .95:
            vals = r.sample(range(4), r.randrange(1, 4))
            arms = []
            while vals:
                k = r.randrange(1, 3)
                arms.append([[['const', 2, v] for v in vals[:k]], self.block(r.randrange(1, 3), d - 1)])
                vals = vals[k:]
            if r.random() < .6:
                arms.append([None, self.block(1, d - 1)])
            return ['case', self.expr(2, self.d), arms]
        return ['begin', self.block(r.randrange(1, 3), d - 1)]

    def program(self):
        r = self.r
        v = {}
        for i in range(r.randrange(1, 4)):
            v['i%d' % i] = ['in', r.choice((1, 1, 2))]
        for i in range(r.randrange(1, 4)):
            v['r%d' % i] = ['reg', r.choice((1, 1, 2))]
        self.prog = {'mode': r.choice(('comb', 'seq')), 'vars': v, 'body': []}
        regs = [n for n in v if v[n][0] == 'reg']
        comb = self.prog['mode'] == 'comb'
        self.blocking = {n: '=' if comb or r.random() < .3 else '<=' for n in regs}
        self.sliced = set(n for n in regs if v[n][1] == 2 and r.random() < .25)
        self.noread = set(self.sliced)
        ones = [n for n in regs if v[n][1] == 1]
        self.cats = ones[:2] if len(ones) >= 2 and r.random() < .3 else []
        if self.cats and self.blocking[self.cats[0]] != self.blocking[self.cats[1]]:
            self.blocking[self.cats[1]] = self.blocking[self.cats[0]]
        self.d = r.choice((0, 0, 1, 1, 2))
        self.prog['body'] = self.block(r.randrange(1, 4), r.randrange(0, 4))
        while len(btext(self.prog['body'])) > (700 if self.d < 2 else 400):
            self.prog['body'] = self.block(r.randrange(1, 4), r.randrange(0, 4))
        return self.prog


def cases(rng, tier, shard, nshards):
    while True:
        yield Gen(rng).program()
