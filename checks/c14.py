"""C14: an integer literal has the value and the width its text says."""
import itertools
import z3
import pyverilog.dataflow.dataflow as D
from pyvc.types import *
from pyvc.core import *
from pyvc import dfspec
from pyvc.pymodels import low_bits
from pyvc.pieces import Pieces, Var, number
from checks import vtool

DEC = '0123456789'
ALPHABET = {'b': '01', 'o': '01234567', 'd': DEC, 'h': DEC + 'abcdefABCDEF'}
BASE = {'b': 2, 'o': 8, 'd': 10, 'h': 16}
UNKNOWN = 'xXzZ?'


# ------------------------------------------------------------------ contracts
def forms():
    """(name, size given?, sign letter, base letter) of every form of a literal"""
    for size, sign, base in itertools.product((True, False), ('', 's', 'S'), 'bBoOdDhH'):
        yield ("%s'%s%s" % ('N' if size else '', sign, base), size, sign, base)
    yield 'plain', False, None, None
    yield 'negative', False, '-', None


def form_spec(name, size, sign, base, unknown):
    def make():
        s = dfspec.base_spec('C14')
        s.families = [tuple(dfspec.node_types())]
        b = (base or 'd').lower()
        digits = Var('digits', ALPHABET[b] + (UNKNOWN if unknown else ''), True)
        text = [digits] if base is None else ([Var('size', DEC)] if size else []) + ["'", sign, base, digits]
        if sign == '-':
            text = ['-', digits]

        def literal(p, it, a):
            r = p.new_object(D.DFIntConst)
            p.set_field(r, 'value', Pieces(text))
            p.finish_object(r)
            return r
        n = number('size', 10)
        val = number('digits', BASE[b])
        pos = lambda p, a: [('the size is positive', n >= 1)] if size else []
        want = lambda p: low_bits(p, val, n) if size else -val if sign == '-' else val
        if not unknown:
            s.add(Contract('pyverilog.dataflow.dataflow:DFIntConst.eval', {'self': literal}, returns=INT, requires=pos,
                           ensures=lambda p, a, r, o: [('the value of %s' % name, p.iterm(r) == want(p))]))
        s.add(Contract('pyverilog.dataflow.dataflow:DFIntConst.width', {'self': literal}, returns=INT, requires=pos,
                       ensures=lambda p, a, r, o: [('the width of %s' % name, p.iterm(r) == (n if size else 32))]))
        s.contracts_inline = True
        return s
    make.__name__ = 'form'
    return make


def text_spec():
    s = dfspec.base_spec('C14')
    s.families = [tuple(dfspec.node_types())]
    s.schema = {D.DFStringConst: {'value': STR}}
    s.add(Contract('pyverilog.dataflow.dataflow:DFStringConst.eval', {'self': TObj(D.DFStringConst)}, returns=STR,
                   ensures=lambda p, a, r, o: [('the text', p.sterm(r) == p.sterm(p.field(a['self'], 'value')))]))
    return s


def specs():
    return [form_spec(*f, unknown=False) for f in forms()] + \
        [form_spec(*f, unknown=True) for f in forms() if f[3]] + [text_spec]


# ------------------------------------------------------------------ bounded search on the real code
def literal(rng, form=None, unknown=False, big=True):
    name, size, sign, base = form or rng.choice(list(forms())[:-1])
    al = ALPHABET[(base or 'd').lower()]
    if unknown and base:
        al += UNKNOWN * 2
    n = rng.choice([1, 1, 2, 3, 5, 9, 20])
    digits = ''.join(rng.choice(al) for _ in range(n))
    for i in range(len(digits) - 1, 0, -1):
        if rng.random() < .2:
            digits = digits[:i] + '_' * rng.choice([1, 1, 2]) + digits[i:]
    if rng.random() < .1:
        digits += '_'
    if base is None:
        return sign + digits if sign else digits
    return "%s'%s%s%s" % (rng.choice(['1', '2', '3', '4', '8', '12', '32', '64', '008', '100']) if size else '', sign, base, digits)


def read(text):
    """(value or None when not known, width), read character by character"""
    size, base, digits = '', 10, text
    if "'" in text:
        i = text.index("'")
        size, digits = text[:i], text[i + 1:]
        if digits[0] in 'sS':
            digits = digits[1:]
        base, digits = BASE[digits[0].lower()], digits[1:]
    w = 32
    if size:
        w = 0
        for c in size:
            w = w * 10 + '0123456789'.index(c)
    v = 0
    for c in digits:
        if c == '_':
            continue
        if c in UNKNOWN:
            return None, w
        v = v * base + '0123456789abcdef'.index(c.lower())
    return v % 2 ** w if size else v, w


def cases(rng, tier, shard, nshards):
    for i, f in enumerate(forms()):
        if i % nshards == shard and f[2] != '-':
            for u in (False, True, False, False):
                yield {'text': literal(rng, f, u)}
    for i, t in enumerate(['0', '1', "4'b1111", "4'hff", "4'sb1111", "'hff", "8'hbd", "8'hDB", "2'd7", "8'd255", "'o17",
                           "12'hd0b", "8'Sd9", "3'o7_7", "4'bxz1?", "1'bz", "16'hx", "99", "1_000", "8'h0d"]):
        if i % nshards == shard:
            yield {'text': t}
    while True:
        yield {'text': literal(rng, None, rng.random() < .2), 'whole': rng.random() < .05}


def whole(text, v, w):
    """the literal as the value of a parameter of a module"""
    a = vtool.dataflow('module top(output [127:0] o);\n  parameter P = %s;\n  assign o = %s;\nendmodule\n' % (text, text))
    from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
    for name, bs in a.getBinddict().items():
        t = bs[0].tree
        if not isinstance(t, D.DFIntConst) or t.value != text:
            return 'the dataflow of %s has %r for %s' % (name, t, text)
    o = VerilogDataflowOptimizer(a.getTerms(), a.getBinddict())
    with vtool.quiet():
        o.resolveConstant()
    cs = {str(k): x for k, x in o.getConstlist().items()}
    got = cs.get('top.P')
    if v is None:
        return None if not isinstance(got, D.DFEvalValue) else 'the parameter %s is %r' % (text, got)
    if not isinstance(got, D.DFEvalValue) or got.value != v:
        return 'the parameter %s is %r, not %d' % (text, got, v)
    return None


def check_case(case):
    from pyverilog.dataflow.optimizer import VerilogOptimizer
    text = case['text']
    v, w = read(text)
    n = D.DFIntConst(text)
    try:
        got = n.width()
        if got != w:
            return ('width', 'the width of %s is %r, not %d' % (text, got, w))
        if v is not None:
            got = n.eval()
            if got != v:
                return ('value', 'the value of %s is %r, not %d' % (text, got, v))
        opt = VerilogOptimizer({})
        r = opt.optimizeConstant(n)
        if opt.getWidth(n) != w:
            return ('width', 'getWidth(%s) is %r, not %d' % (text, opt.getWidth(n), w))
        if v is None:
            if not isinstance(r, D.DFUndefined) or r.width != w:
                return ('unknown', '%s is folded to %r, not to an undefined value of %d bits' % (text, r, w))
        elif not isinstance(r, D.DFEvalValue) or (r.value, r.width) != (v, w):
            return ('folded', '%s is folded to %r (width %r), not %d (width %d)' % (text, r, getattr(r, 'width', None), v, w))
        if n.value != text:
            return ('argument-changed', '%s became %s' % (text, n.value))
        if case.get('whole'):
            m = whole(text, v, w)
            if m:
                return ('whole', m)
    except Exception as e:
        return ('exception', 'the literal %s raised %s: %s' % (text, type(e).__name__, e))
    return None


def case_from_cex(target, cex):
    return None


def case_key(case):
    return case['text']


LEVEL = 'proof'
LEVEL_NOTE = ('DFIntConst.eval and .width proved for every literal of the 50 forms (size or none, sign letter, base letter, digits '
              'of any length, underscores anywhere behind the first digit); the reading of x, z and ? by the optimizer is '
              'proved in C03 and searched here')
QUICK_S = 10
THOROUGH_S = 120
ASSUMPTIONS = ['int(digits, base) of the Python library reads digits without underscores', 'a size is at least 1',
               'the value of a literal is that of its bits: a sign letter has no influence on it']
RULE = ('every form, then random literals (1 to 20 digits), compared with a reader that goes character by character, through '
        'eval, width, the optimizer and, for one in twenty, as the value of a parameter of a module')
