"""C19: the parser builds the tree the source text means."""
import random
import pyverilog.vparser.ast as A
from checks import gramspec, grammar, vtext, vtool, astgen


def plan():
    """the specifications to check: alternatives of one function apart; rules that loop over a list each on their own"""
    rules = gramspec.rules()
    count = {}
    groups = {}
    for prod, fname in gramspec.productions():
        i = count[fname] = count.get(fname, -1) + 1
        rec = rules.get(prod)
        if prod == 'ioports : ioports COMMA ioport':
            groups.setdefault(('inherit',), []).append((prod, fname, rec, 0))
            groups.setdefault((0,), []).append((prod, fname, rec, 1))
        elif rec is not None and gramspec.find_each(rec) is not None:
            groups.setdefault(('each', fname, i), []).append((prod, fname, rec, 0))
        else:
            groups.setdefault((i,), []).append((prod, fname, rec, 0))
    # a rule of the table that the grammar no longer has under this form
    have = {prod for prod, f in gramspec.productions()}
    for prod in rules:
        if prod not in have:
            groups[(0,)].append((prod, 'p_?(%s)' % prod, rules[prod], 0))
    out = {}
    for k, g in groups.items():
        if len(k) == 1 and k != ('inherit',):
            for j in range(0, len(g), 24):
                out[k + (j,)] = g[j:j + 24]
        else:
            out[k] = g
    return out


def make(key, group):
    def spec():
        s, w = gramspec.base('C19 %s' % (key,))
        if key != (0, 0):
            for c in s.contracts.values():
                c.trusted = True        # proved in the first group
        types = gramspec.symbol_types(s)
        for prod, fname, rec, variant in group:
            c = s.add(gramspec.add_rule(s, w, types, prod, fname, rec, variant))
            if c.each is not None:
                w.each = c.each
                s.cross.append((w.shapes, c.each))
        return s
    return spec


_specs = []


def specs():
    if not _specs:
        _specs.extend(make(k, g) for k, g in sorted(plan().items(), key=str))
    return _specs


# ------------------------------------------------------------------ bounded search on the real code
def wrap(e):
    return 'module m; assign y = %s; endmodule' % e


def fixed_texts():
    """(name, text, expected tree): the grouping of every pair of operators without parentheses, and the limits"""
    I = A.Identifier

    def mod(x):
        items = x if isinstance(x, tuple) else (A.Assign(A.Lvalue(I('y')), A.Rvalue(x), None, None),)
        return A.Source('', A.Description((A.ModuleDef('m', A.Paramlist(()), A.Portlist(()), items),)))
    a, b, c, d, e = (I(x) for x in 'abcde')
    B = [(k, op, q) for k, (op, q) in sorted(vtext.BIN.items())] + [('Xnor', '^~', vtext.BIN['Xnor'][1])]
    n = lambda k, *xs: getattr(A, k)(*xs)
    for k1, o1, q1 in B:
        for k2, o2, q2 in B:
            t = n(k2, n(k1, a, b), c) if q1 >= q2 else n(k1, a, n(k2, b, c))
            yield 'a %s b %s c' % (o1, o2), mod(t)
        for u, ou in sorted(vtext.UN.items()) + [('Uxnor', '^~')]:
            yield '%sa %s %s b' % (ou, o1, ou), mod(n(k1, n(u, a), n(u, b)))
        yield '+a %s + b' % o1, mod(n(k1, a, b))
        yield 'a %s b ? c %s d : d %s e' % (o1, o1, o1), mod(A.Cond(n(k1, a, b), n(k1, c, d), n(k1, d, e)))
        yield 'a ? b : c %s d' % o1, mod(A.Cond(a, b, n(k1, c, d)))
        yield 'a[b %s c]' % o1, mod(A.Pointer(a, n(k1, b, c)))
        yield '{a %s b, c}' % o1, mod(A.Concat((n(k1, a, b), c)))
    yield 'a ? b : c ? d : e', mod(A.Cond(a, b, A.Cond(c, d, e)))
    yield 'a ? b ? c : d : e', mod(A.Cond(a, A.Cond(b, c, d), e))
    yield '{a, {b, c}}', mod(A.Concat((a, A.Concat((b, c)))))
    yield '{2{a, b}}', mod(A.Repeat(A.Concat((a, b)), A.IntConst('2')))


# texts that are parsed into something else than they mean, and recorded as such
LIMITS = [
    ('logic', 'module m; logic a; endmodule', lambda: ('the declaration of a variable of type logic is dropped', A.Decl(()))),
    ('delay-if', 'module m; initial #5 if (a) b = 1; endmodule',
     lambda: ('the delay in front of an if statement is dropped', A.Initial(A.IfStatement(A.Identifier('a'), A.BlockingSubstitution(
         A.Lvalue(A.Identifier('b')), A.Rvalue(A.IntConst('1')), None, None), None)))),
]


def cases(rng, tier, shard, nshards):
    for i in range(len(LIMITS)):
        if i % nshards == shard:
            yield {'limit': i}
    for i, x in enumerate(fixed_texts()):
        if i % nshards == shard:
            yield {'fixed': i}
    while True:
        yield {'seed': rng.randrange(10 ** 9)}


_fixed = []


def check_case(case):
    if 'limit' in case:
        name, text, f = LIMITS[case['limit']]
        what, tree = f()
        got = vtool.parse(text).description.definitions[0].items
        if [astgen.show(x) for x in got] == [astgen.show(tree)]:
            return (name, '%s: %s' % (what, text))
        return None
    if 'fixed' in case:
        if not _fixed:
            _fixed.extend(fixed_texts())
        text, want = _fixed[case['fixed']]
        text = wrap(text)
    else:
        want, text = vtext.G(random.Random(case['seed'])).source()
    try:
        got = vtool.parse(text)
    except Exception as x:
        return ('exception', '%s: %s for the text\n%s' % (type(x).__name__, x, text))
    a, b = astgen.show(want), astgen.show(got)
    if a != b:
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        i = max(0, i - 80)
        return ('tree', 'parsed as ...%s instead of ...%s; text:\n%s' % (b[i:i + 200], a[i:i + 200], text))
    return None


def case_from_cex(target, cex):
    return None


def case_key(case):
    return repr(case)


LEVEL = 'proof'
LEVEL_NOTE = ('every one of the 412 grammar actions proved to build the node its rule means, for all values of its symbols; '
              'that the LALR tables and the token expressions recognise the language (precedence, associativity, dangling '
              'else, white space, comments) is only checked by the bounded search')
QUICK_S = 40
THOROUGH_S = 400
CASE_S = 10
ASSUMPTIONS = ['PLY builds the tables of the grammar given and hands each action the values of the symbols of its rule; '
               'its YaccProduction is executed from its source',
               'the rule table checks/grammar.py states what each rule means; unary plus stands for its operand, an always '
               'without event control for one sensitive to everything; the type word of a parameter is not represented',
               'declarations with two directions or two kinds of net are not Verilog and may be rejected',
               'line numbers are not compared']
RULE = ('random source texts of the whole supported grammar with an independently built tree (minimal parentheses, random white '
        'space, comments, directives), and every pair of operators without parentheses; distinct = different texts')
