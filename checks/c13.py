"""C13: the source text generated from a syntax tree means that tree."""
import random
import pyverilog.vparser.ast as A
from pyverilog.ast_code_generator.codegen import ASTCodeGenerator
from checks import vtext, vtool, astgen, textspec

SINGLE = {'IfStatement': ('true_statement', 'false_statement'), 'ForStatement': ('statement',), 'WhileStatement': ('statement',),
          'ForeverStatement': ('statement',), 'WaitStatement': ('statement',), 'Case': ('statement',), 'Initial': ('statement',),
          'Always': ('statement',), 'AlwaysFF': ('statement',), 'AlwaysComb': ('statement',), 'AlwaysLatch': ('statement',)}


def items(x):
    """the members of a list, declarations one by one: the text does not show their grouping"""
    out = []
    for y in x:
        if isinstance(y, A.Decl):
            out += items(y.list)
        else:
            out.append(y)
    return out


def bare(x):
    """one statement or item; begin and end around exactly one without a name mean the same without them"""
    if isinstance(x, A.Decl):
        x = A.Block(tuple(items(x.list)))
    while isinstance(x, A.Block) and type(x) is A.Block and not x.scope and len(items(x.statements)) == 1:
        x = items(x.statements)[0]
    return x


def norm(x):
    if isinstance(x, (list, tuple)):
        return [norm(y) for y in items(x)]
    if isinstance(x, A.Node):
        c = type(x).__name__
        return (c, [(k, norm(bare(v) if k in SINGLE.get(c, ()) else v)) for k, v in sorted(x.__dict__.items())
                    if k not in ('lineno', 'end_lineno', 'default_nettype')])
    return x


def rewrite(x, rng, p):
    """a tree as a program may build it: no begin and end around single statements; $signed always has an argument"""
    if isinstance(x, (list, tuple)):
        return type(x)(rewrite(y, rng, p) for y in x)
    if not isinstance(x, A.Node):
        return x
    for k, v in list(x.__dict__.items()):
        if isinstance(v, (A.Node, list, tuple)):
            v = rewrite(v, rng, p)
            if isinstance(v, A.Block) and type(x).__name__ in ('IfStatement', 'ForStatement', 'WhileStatement') and \
                    k in SINGLE[type(x).__name__] and len(v.statements) == 1 and not v.scope and rng.random() < p:
                v = v.statements[0]
            setattr(x, k, v)
    if isinstance(x, A.SystemCall) and x.syscall == 'signed' and not x.args:
        x.args = (A.IntConst('1'),)
    return x


# ------------------------------------------------------------------ all pairs of operators, in every kind of place
def module(*its):
    return A.Source('', A.Description((A.ModuleDef('m', A.Paramlist(()), A.Portlist(()), tuple(its)),)))


def assign(x):
    return A.Assign(A.Lvalue(A.Identifier('y')), A.Rvalue(x))


def places():
    I, R, L = A.Identifier, A.Rvalue, A.Lvalue
    b = lambda e: A.BlockingSubstitution(L(I('y')), R(e))
    st = lambda s: A.Initial(s)
    blk = A.Block((b(I('a')),))
    yield 'assign', assign
    yield 'pointer', lambda e: assign(A.Pointer(I('a'), e))
    yield 'part', lambda e: assign(A.Partselect(I('a'), e, e))
    yield 'concat', lambda e: assign(A.Concat((e, I('b'), e)))
    yield 'repeat', lambda e: assign(A.Repeat(A.Concat((e, e)), A.IntConst('2')))
    yield 'call', lambda e: assign(A.FunctionCall(I('f'), (e, e)))
    yield 'system', lambda e: assign(A.SystemCall('clog2', (e, e)))
    yield 'width', lambda e: A.Decl((A.Wire('w', A.Width(e, e)),))
    yield 'length', lambda e: A.Decl((A.Wire('w', A.Width(I('a'), I('b')), False, A.Dimensions([A.Length(e, e)])),))
    yield 'parameter', lambda e: A.Decl((A.Parameter('p', R(e), A.Width(e, e)),))
    yield 'localparam', lambda e: A.Decl((A.Localparam('p', R(e)),))
    yield 'integer', lambda e: A.Decl((A.Integer('i', A.Width(A.IntConst('31'), A.IntConst('0')), True, None, R(e)),))
    yield 'lvalue', lambda e: st(A.NonblockingSubstitution(L(A.LConcat((A.Pointer(I('a'), e), A.Partselect(I('b'), e, e)))), R(e)))
    yield 'delays', lambda e: st(A.BlockingSubstitution(L(I('a')), R(e), A.DelayStatement(e), A.DelayStatement(e)))
    yield 'delay', lambda e: st(A.SingleStatement(A.DelayStatement(e)))
    yield 'if', lambda e: st(A.IfStatement(e, b(e), b(e)))
    yield 'while', lambda e: st(A.WhileStatement(e, blk))
    yield 'wait', lambda e: st(A.WaitStatement(e, blk))
    yield 'for', lambda e: st(A.ForStatement(b(e), e, b(e), blk))
    yield 'case', lambda e: st(A.CaseStatement(e, (A.Case((e, I('a'), e), b(e)), A.Case(None, b(e)))))
    yield 'sens', lambda e: A.Always(A.SensList((A.Sens(A.Pointer(I('c'), e), 'posedge'),)), b(e))
    yield 'instance', lambda e: A.InstanceList('n', (A.ParamArg('p', e), A.ParamArg('q', e)), (A.Instance(
        'n', 'i', (A.PortArg('a', e), A.PortArg('b', e)), (A.ParamArg('p', e), A.ParamArg('q', e)), A.Width(e, e)),))
    yield 'instance by order', lambda e: A.InstanceList('n', (A.ParamArg(None, e), A.ParamArg(None, e)), (A.Instance(
        'n', 'i', (A.PortArg(None, e), A.PortArg(None, e)), (A.ParamArg(None, e), A.ParamArg(None, e))),))
    yield 'scope', lambda e: assign(A.Identifier('a', A.IdentifierScope((A.IdentifierScopeLabel('g', e), A.IdentifierScopeLabel('h')))))
    yield 'generate', lambda e: A.GenerateStatement((A.IfStatement(e, assign(e), assign(e)), A.ForStatement(b(e), e, b(e), assign(e))))
    yield 'function', lambda e: A.Function('f', A.Width(e, e), (A.Decl((A.Input('a', A.Width(e, e)),)), A.Block((b(e),))))


def shapes(c1):
    """expressions of the operator c1 (or Cond) with each other operator in each operand"""
    a, b, c, d, e = (A.Identifier(x) for x in 'abcde')
    mk = lambda k, *xs: getattr(A, k)(*xs)

    def ops(x, y):
        for k in sorted(vtext.BIN):
            yield mk(k, x, y)
        for k in sorted(vtext.UN):
            yield mk(k, x)
        yield A.Cond(x, y, e)
        yield A.IntConst("'h0")
        yield A.IntConst("4'sb1")
        yield A.StringConst('a b ( )')
        yield A.Identifier('\\q+1')
        yield A.SystemCall('time', ())
        yield A.FloatConst('1.0e-3')
    if c1 in vtext.BIN:
        for x in ops(a, b):
            yield mk(c1, x, c)
            yield mk(c1, c, x)
            yield mk(c1, x, x)
    elif c1 in vtext.UN:
        for x in ops(a, b):
            yield mk(c1, x)
    else:
        for x in ops(a, b):
            yield A.Cond(x, c, d)
            yield A.Cond(c, x, d)
            yield A.Cond(c, d, x)
            yield A.Cond(x, x, x)


FIXED = [(k, n) for k in sorted(vtext.BIN) + sorted(vtext.UN) + ['Cond'] for n, f in places()]


def trees(case):
    if 'fixed' in case:
        k, n = case['fixed']
        f = dict(places())[n]
        return [module(*[f(e) for e in shapes(k)])]
    rng = random.Random(case['seed'])
    return [rewrite(vtext.G(rng).source()[0], rng, .5)]


def cases(rng, tier, shard, nshards):
    order = sorted(FIXED, key=lambda x: (x[1] not in ('assign', 'width', 'part'), hash_(x)))
    for i, x in enumerate(order):
        if i % nshards == shard:
            yield {'fixed': x}
            yield {'seed': rng.randrange(10 ** 9)}
            yield {'seed': rng.randrange(10 ** 9)}
    while True:
        yield {'seed': rng.randrange(10 ** 9)}


def hash_(x):
    return random.Random(repr(x)).random()


_gen = []


def check_case(case):
    if not _gen:
        _gen.append(ASTCodeGenerator())
    for tree in trees(case):
        before = astgen.show(tree)
        try:
            text = _gen[0].visit(tree)
        except Exception as x:
            return ('exception', '%s: %s generating code for %s' % (type(x).__name__, x, before[:300]))
        if astgen.show(tree) != before:
            return ('changed', 'generating code changed the tree into %s' % astgen.show(tree)[:300])
        try:
            back = vtool.parse(text)
        except Exception as x:
            return ('parse', '%s: %s for the generated text\n%s' % (type(x).__name__, x, text))
        a, b = repr(norm(tree)), repr(norm(back))
        if a != b:
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            i = max(0, i - 120)
            return ('tree', 'the generated text means ...%s instead of ...%s; text:\n%s' % (b[i:i + 250], a[i:i + 250], text))
        if ASTCodeGenerator().visit(tree) != text:
            return ('state', 'a fresh generator gives another text than one that was used before for\n%s' % text)
    return None


def case_from_cex(target, cex):
    return None


def case_key(case):
    return repr(case)


def specs():
    return textspec.specs()


LEVEL = 'proof'
LEVEL_NOTE = ('every method of the generator with its template proved to give exactly the tokens of its node, for all trees of '
              'the schema: every part once and in place, nothing run together, parentheses left out only where the grammar '
              'groups the same way; that the parser reads these tokens back as the node is C19 and the bounded search')
QUICK_S = 90
THOROUGH_S = 500
CASE_S = 20
ASSUMPTIONS = ['the parser reads the text as it means (C19)',
               'a begin and end without a name around a single statement or item mean the same without them; the grouping of '
               'declarations is not part of the meaning; line numbers are not compared',
               'trees have the classes and field values of the schema in checks/textspec.py, which is that of the parser',
               'jinja2 parses the template files; its trees are executed by pyvc/text.py (output, if, for, concatenation, '
               'comparison; the white space control is done by jinja2 itself)',
               'del_space, indent_multiline_assign and textwrap.indent only change white space between tokens']
RULE = ('trees of random source texts of the whole supported grammar, also without begin and end around single statements, and '
        'every pair of operators in every kind of place; distinct = different trees')
TRUSTED = ['codegen.del_space', 'codegen.indent_multiline_assign', 'textwrap.indent']
