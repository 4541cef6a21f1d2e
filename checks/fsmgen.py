"""Random clocked state machines as Verilog text, and what they do (independent of the tool)."""
import re

CMP = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b,
       '>': lambda a, b: a > b, '>=': lambda a, b: a >= b, '===': lambda a, b: a == b, '!==': lambda a, b: a != b}
INPUTS = {'a': 1, 'b': 1, 'c': 1, 'd': 2}


def red(op, v, w):
    ones = bin(v).count('1')
    r = {'&': v == 2 ** w - 1, '|': v != 0, '^': ones % 2 == 1}[op.strip('~')]
    return r != op.startswith('~')


class G(object):
    def __init__(self, rng):
        self.rng = rng
        self.w = rng.choice((1, 2, 2, 3, 3))
        self.max = 2 ** self.w - 1
        self.reset = rng.choice((None, None, 'sync', 'async', 'low'))
        self.case = rng.random() < 0.5

    def const(self, over=0.1):
        if self.rng.random() < over:
            return self.rng.randrange(self.max + 6)
        return self.rng.randrange(self.max + 1)

    def cond(self, depth):
        """one-bit condition"""
        r = self.rng
        k = r.random()
        if depth > 0 and k < 0.4:
            op = r.choice(('&&', '||', '&&', '||', '&', '|'))
            if len(op) == 2 and r.random() < 0.15:
                return (op, ('wide', r.choice(('d', 'state'))), self.cond(depth - 1))
            return (op, self.cond(depth - 1), self.cond(depth - 1))
        if depth > 0 and k < 0.5:
            return (r.choice('!!~'), self.cond(depth - 1))
        k = r.random()
        if k < 0.3:
            return ('in', r.choice('abc'))
        if k < 0.75:
            return ('cmp', r.choice(sorted(CMP)), 'state', self.const(), r.random() < 0.25)
        if k < 0.82:
            return ('cmp', r.choice(sorted(CMP)), 'd', r.randrange(5), r.random() < 0.25)
        if k < 0.87:
            return ('var', r.choice(sorted(CMP)), 'state', r.choice(('d', 'a')), r.random() < 0.5)
        if k < 0.92:
            return ('red', r.choice(('&', '|', '^', '~&', '~|', '~^')), r.choice(('d', 'state', 'state')))
        if k < 0.95:
            return ('const', r.randrange(2))
        return ('bit', r.choice(('d', 'state')), 0)

    def top(self, depth):
        """condition of an if: any width"""
        r = self.rng
        k = r.random()
        if k < 0.04:
            return ('wide', 'd')
        if k < 0.08:
            return ('wide', 'state')
        if k < 0.12:
            return ('!', ('wide', r.choice(('d', 'state'))))
        return self.cond(depth)

    def stmt(self, depth):
        r = self.rng
        k = r.random()
        if depth == 0 or k < 0.12:
            k = r.random()
            if k < 0.72:
                return ('set', self.const(0))
            if k < 0.8:
                return ('hold',)
            if k < 0.9:
                return ('nop',)
            if r.random() < 0.5:
                return ('ter', self.top(1), self.const(0), self.const(0))
            return ('expr', r.choice(('d', "state + 1", "state - d", "{a, b}", "~state")))
        if k < 0.4:
            labels, arms = [], []
            for i in range(r.randrange(1, 4)):
                labels.append(tuple(r.sample(range(self.max + 1), r.choice((1, 1, 1, 2)) if self.max > 1 else 1)))
                arms.append(self.stmt(depth - 1))
            return ('case', labels, arms, self.stmt(depth - 1) if r.random() < 0.5 else None)
        if k < 0.5:
            return ('seq', self.stmt(0), self.stmt(depth - 1))
        return ('if', self.top(2), self.stmt(depth - 1), self.stmt(depth - 1) if r.random() < 0.7 else None)

    def machine(self):
        return {'w': self.w, 'reset': self.reset, 'style': self.rng.choice((1, 1, 2)), 'names': self.rng.random() < 0.3, 'body': self.stmt(self.rng.choice((1, 2, 2, 3, 3)))}


def ctext(c):
    k = c[0]
    if k == 'in' or k == 'wide':
        return c[1]
    if k == 'cmp':
        return '(%s %s %s)' % ((c[3], c[1], c[2]) if c[4] else (c[2], c[1], c[3]))
    if k == 'var':
        return '(%s %s %s)' % ((c[3], c[1], c[2]) if c[4] else (c[2], c[1], c[3]))
    if k == 'red':
        return '(%s%s)' % (c[1], c[2])
    if k == 'const':
        return "1'b%d" % c[1]
    if k == 'bit':
        return '%s[%d]' % (c[1], c[2])
    if len(c) == 2:
        return '(%s(%s))' % (k, ctext(c[1]))
    return '(%s %s %s)' % (ctext(c[1]), k, ctext(c[2]))


def stext(s, ind='    ', to='state <='):
    k = s[0]
    if k == 'set':
        return ind + '%s %s;\n' % (to, s[1])
    if k == 'hold':
        return ind + '%s state;\n' % to
    if k == 'nop':
        return ind + 'begin end\n'
    if k == 'expr':
        return ind + '%s %s;\n' % (to, s[1])
    if k == 'ter':
        return ind + '%s %s ? %s : %s;\n' % (to, ctext(s[1]), s[2], s[3])
    if k == 'seq':
        return ind + 'begin\n' + ''.join(stext(x, ind + '  ', to) for x in s[1:]) + ind + 'end\n'
    if k == 'case':
        t = ind + 'case (state)\n'
        for ls, a in zip(s[1], s[2]):
            t += ind + '  %s: begin\n%s%s  end\n' % (', '.join(map(str, ls)), stext(a, ind + '    ', to), ind)
        if s[3] is not None:
            t += ind + '  default: begin\n%s%s  end\n' % (stext(s[3], ind + '    ', to), ind)
        return t + ind + 'endcase\n'
    t = ind + 'if (%s) begin\n%s%send\n' % (ctext(s[1]), stext(s[2], ind + '  ', to), ind)
    if s[3] is not None:
        t += ind + 'else begin\n%s%send\n' % (stext(s[3], ind + '  ', to), ind)
    return t


def text(m):
    w, two = m['w'], m['style'] == 2
    body = stext(m['body'], to='next =' if two else 'state <=')
    if m['names']:
        # states by name
        body = re.sub(r'(state [<>=!]=+ |, |^ +|= |[?:] )(\d+)\b(?!\')', r'\1S\2', body, flags=re.M)
    decls = 'parameter ' + ', '.join('S%d = %d' % (i, i) for i in range(14)) + ';\n  ' if m['names'] else ''
    decls += 'reg [%d:0] state;\n  assign y = state;\n' % (w - 1)
    if two:
        decls += '  reg [%d:0] next;\n  always @* begin\n    next = state;\n%s  end\n' % (w - 1, body)
        body = '    state <= next;\n'
    sens = 'posedge clk'
    if m['reset']:
        sens += {'sync': '', 'async': ' or posedge rst', 'low': ' or negedge rst'}[m['reset']]
        body = '    if (%srst) state <= 0;\n    else begin\n%s    end\n' % ('!' if m['reset'] == 'low' else '', body)
    else:
        body = '    begin\n%s    end\n' % body
    return ('module top(input clk, input rst, input a, input b, input c, input [1:0] d, output [%d:0] y);\n'
            '  %s  always @(%s)\n%sendmodule\n' % (w - 1, decls, sens, body))


def widths(m):
    return dict(INPUTS, state=m['w'])


def ceval(c, env, w):
    k = c[0]
    if k == 'in':
        return bool(env[c[1]])
    if k == 'wide':
        return env[c[1]] != 0
    if k in ('cmp', 'var'):
        x, y = env[c[2]], c[3] if k == 'cmp' else env[c[3]]
        return CMP[c[1]](y, x) if c[4] else CMP[c[1]](x, y)
    if k == 'red':
        return red(c[1], env[c[2]], w[c[2]])
    if k == 'const':
        return bool(c[1])
    if k == 'bit':
        return bool(env[c[1]] >> c[2] & 1)
    if len(c) == 2:
        return not ceval(c[1], env, w)
    x, y = ceval(c[1], env, w), ceval(c[2], env, w)
    return (x and y) if k in ('&&', '&') else (x or y)


def run(s, env, w, nxt=None):
    """the constant next state, or None (kept or computed)"""
    k = s[0]
    if k == 'set':
        return s[1]
    if k == 'ter':
        return s[2] if ceval(s[1], env, w) else s[3]
    if k in ('hold', 'expr'):
        return None
    if k == 'nop':
        return nxt
    if k == 'seq':
        for x in s[1:]:
            nxt = run(x, env, w, nxt)
        return nxt
    if k == 'case':
        for ls, a in zip(s[1], s[2]):
            if env['state'] in ls:
                return run(a, env, w, nxt)
        return nxt if s[3] is None else run(s[3], env, w, nxt)
    if ceval(s[1], env, w):
        return run(s[2], env, w, nxt)
    return nxt if s[3] is None else run(s[3], env, w, nxt)


def environments(m):
    for st in range(2 ** m['w']):
        for a in (0, 1):
            for b in (0, 1):
                for c in (0, 1):
                    for d in range(4):
                        yield {'state': st, 'a': a, 'b': b, 'c': c, 'd': d, 'rst': 1 if m['reset'] == 'low' else 0}
