"""The text of every node as a sequence of tokens, and the contracts of the code generator's functions over it.
Word = that token; %f = the name f; .f = the text of the sub-node f (nothing for None); *f = the texts of the list f,
*f:X = with X between them; ~f = without the semicolon at its end; ^f = as a branch; ?f{ ... } = if f is there (true, not
None; ?#f: a list that is not empty), !f{ ... } = if not."""
import ast
import os
import re
import z3
import pyverilog.vparser.ast as A
from pyverilog.vparser.parser import VerilogParser
from pyverilog.vparser.lexer import VerilogLexer
from pyverilog.ast_code_generator import codegen as CG
from pyvc.types import *
from pyvc.core import *
from pyvc import pymodels, extract
from pyvc.text import *
from pyvc.text import value as whole
from checks import astspec, grammar, vtext

UNARY = {'Uminus': '-', 'Ulnot': '!', 'Unot': '~', 'Uand': '&', 'Unand': '~&', 'Uor': '|', 'Unor': '~|', 'Uxor': '^',
         'Uxnor': '~^'}
BINARY = dict((k, v[0]) for k, v in vtext.BIN.items())
TEXT = '''
Source: .description
Description: *definitions
ModuleDef: module %name ?+paramlist{ # ( .paramlist ) } ( .portlist ) ; *items endmodule
Portlist: *ports:,
Port: %name
Width: [ .msb : .lsb ]
Length: [ .msb : .lsb ]
Dimensions: *lengths
Identifier: .scope %name
Input: input ?signed{ signed } .width %name .dimensions ;
Output: output ?signed{ signed } .width %name .dimensions ;
Inout: inout ?signed{ signed } .width %name .dimensions ;
Tri: tri ?signed{ signed } .width %name .dimensions ;
Wire: wire ?signed{ signed } .width %name .dimensions ;
Reg: reg ?signed{ signed } .width %name .dimensions ;
Integer: integer %name ?value{ = .value } ;
Real: real %name ;
Genvar: genvar %name ;
Parameter: parameter ?signed{ signed } .width %name = .value ;
Localparam: localparam ?signed{ signed } .width %name = .value ;
Decl: *list
Concat: { *list:, }
LConcat: { *list:, }
Repeat: { .times .value }
Partselect: .var [ .msb : .lsb ]
Pointer: .var [ .ptr ]
Lvalue: .var
Rvalue: .var
Uplus: ( .right )
Cond: ( ( .cond ) ? .true_value : .false_value )
Assign: assign .ldelay .left = .rdelay .right ;
Always: always @ ( .sens_list ) .statement
AlwaysFF: always_ff @ ( .sens_list ) .statement
AlwaysComb: always_comb @ ( .sens_list ) .statement
AlwaysLatch: always_latch @ ( .sens_list ) .statement
SensList: *list:or
BlockingSubstitution: .ldelay .left = .rdelay .right ;
NonblockingSubstitution: .ldelay .left <= .rdelay .right ;
ForStatement: for ( ?pre{ .pre } !pre{ ; } .cond ; ~post ) ^statement
WhileStatement: while ( .cond ) .statement
CaseStatement: case ( .comp ) *caselist endcase
CasexStatement: casex ( .comp ) *caselist endcase
CasezStatement: casez ( .comp ) *caselist endcase
UniqueCaseStatement: unique case ( .comp ) *caselist endcase
Case: ?cond{ *cond:, } !cond{ default } : .statement
Block: begin ?scope{ : %scope } *statements end
ParallelBlock: fork ?scope{ : %scope } *statements join
Initial: initial .statement
EventStatement: @ ( .senslist ) ;
WaitStatement: wait ( .cond ) ?statement{ .statement } !statement{ ; }
ForeverStatement: forever .statement
InstanceList: %module ?#parameterlist{ # ( *parameterlist:, ) } *instances:, ;
Instance: %name .array ( *portlist:, )
ParamArg: ?paramname{ . %paramname ( .argname ) } !paramname{ .argname }
PortArg: ?portname{ . %portname ( .argname ) } !portname{ .argname }
Function: function .retwidth %name ; *statement endfunction
FunctionCall: .name ( *args:, )
Task: task %name ; *statement endtask
GenerateStatement: generate *items endgenerate
SystemCall: $ %syscall ?#args{ ( *args:, ) }
IdentifierScopeLabel: %name ?loop{ [ .loop ] } .
IdentifierScope: *labellist
Pragma: ( * .entry * )
PragmaEntry: %name ?value{ = .value }
Disable: disable %dest
SingleStatement: .statement ;
'''
for _k, _o in UNARY.items():
    TEXT += '%s: ( %s .right )\n' % (_k, _o)
for _k, _o in BINARY.items():
    TEXT += '%s: ( .left %s .right )\n' % (_k, _o)
RULE = dict((l.split(':', 1)[0], l.split(':', 1)[1].split()) for l in TEXT.strip().split('\n'))
CUSTOM = ('Paramlist', 'IntConst', 'FloatConst', 'StringConst', 'Supply', 'Ioport', 'Sens', 'IfStatement', 'DelayStatement')
# never in a tree of the parser, or nothing the parser reads back
OUTSIDE = {'Value', 'Constant', 'Variable', 'Operator', 'UnaryOperator', 'Substitution', 'TaskCall', 'EmbeddedCode'}


def C(*names):
    return tuple(getattr(A, n) for ns in names for n in ns.split() if hasattr(A, n))


PAREN = C('Uplus Cond', ' '.join(UNARY), ' '.join(BINARY))
VALUES = C('IntConst FloatConst StringConst Identifier Pointer Partselect Concat Repeat FunctionCall SystemCall')
EXPR = PAREN + VALUES
DECLS = C('Input Output Inout Tri Wire Reg Integer Real Genvar Parameter Localparam Supply Assign')
LOOPS = C('IfStatement ForStatement')
CASES = C('CaseStatement CasexStatement CasezStatement UniqueCaseStatement')
ALWAYS = C('Always AlwaysFF AlwaysComb AlwaysLatch')
STMT = LOOPS + CASES + C('WhileStatement Block ParallelBlock BlockingSubstitution NonblockingSubstitution EventStatement '
                         'WaitStatement ForeverStatement SingleStatement')
ITEM = ALWAYS + DECLS[3:] + C('Decl Initial InstanceList Function Task GenerateStatement Pragma IfStatement ForStatement Block')
BODY = STMT + tuple(c for c in ITEM if c not in STMT)
EDGE = C('Rvalue ParamArg PortArg Case')
MAYBE_EMPTY = C('Source Description Paramlist Portlist Decl SensList Dimensions IdentifierScope ParamArg PortArg')


def facts():
    """class: (kinds of the first character, of the last, first token, last token)"""
    f = {}

    def put(names, first, last, ft=None, lt=None):
        for c in (names if isinstance(names, tuple) else C(names)):
            f[c] = (first, last, ft, lt)
    put(tuple(v for v in astspec.node_classes() if v.__name__ not in OUTSIDE), 'wp ', 'wp ')
    put(PAREN, '(', 'p')
    put('IntConst', 'w', 'w')
    put('FloatConst', 'wp', 'wp')
    put('StringConst Width Length', 'p', 'p')
    put('Dimensions', 'p ', 'p ')
    put('Block', 'w', 'w')
    put('DelayStatement', 'p', 'wp ')
    put('Concat Repeat LConcat', 'p', 'p', '{')
    put('Identifier', 'w', 'w ')
    put('Pointer Partselect FunctionCall IdentifierScopeLabel', 'w', 'p')
    put('IdentifierScope', 'w', 'p')
    put('SystemCall', 'p', 'pw ')
    put('Lvalue', 'wp', 'wp ')
    put(EDGE, 'wpo( ', 'wpo ')
    put('SensList Sens', 'wpo', 'wpo ')
    put(DECLS, 'w', 'p', None, ';')
    put('Ioport Port', 'w', 'w p')
    put('Port', 'w', 'w ')
    put('Decl', 'w ', 'p ')
    put('Pragma', '(', 'p')
    put('PragmaEntry', 'w', 'wpo ')
    put('BlockingSubstitution NonblockingSubstitution', 'wp', 'p', None, ';')
    put('ModuleDef Source Description Paramlist Portlist', 'wp( ', 'wpo ')
    put('GenerateStatement', 'w ', 'w ')
    return f


FACTS = facts()


def fields_types(s):
    E, EN = TObj(EXPR), TObj(EXPR, True)
    W, WN = TObj(A.Width), TObj(A.Width, True)
    D, DN = TObj(A.DelayStatement), TObj(A.DelayStatement, True)
    V = C('Identifier Pointer')
    L = TObj(A.Lvalue)
    R = TObj(A.Rvalue)
    B = TObj(BODY)
    over = {
        'Source': {'description': TObj(A.Description)},
        'Description': {'definitions': TSeq(TObj(C('ModuleDef Pragma')))},
        'ModuleDef': {'paramlist': TObj(A.Paramlist), 'portlist': TObj(A.Portlist), 'items': TSeq(B)},
        'Paramlist': {'params': TSeq(TObj(C('Decl Parameter')))},
        'Portlist': {'ports': TSeq(TObj(C('Port Ioport')))},
        'Width': {'msb': E, 'lsb': E}, 'Length': {'msb': E, 'lsb': E},
        'Dimensions': {'lengths': TSeq(TObj(A.Length))},
        'Identifier': {'scope': TObj(A.IdentifierScope, True)},
        'IntConst': {'value': TText('w', 'w')}, 'FloatConst': {'value': TText('wp', 'wp')}, 'StringConst': {'value': STR},
        'Ioport': {'first': TObj(C('Input Output Inout')), 'second': TObj(C('Wire Reg Tri'), True)},
        'Decl': {'list': TSeq(TObj(DECLS), 'tuple')},
        'Concat': {'list': TSeq(E)}, 'LConcat': {'list': TSeq(TObj(C('Identifier Pointer Partselect LConcat')))},
        'Repeat': {'value': TObj(C('Concat Repeat')), 'times': E},
        'Partselect': {'var': TObj(V), 'msb': E, 'lsb': E}, 'Pointer': {'var': TObj(V), 'ptr': E},
        'Lvalue': {'var': TObj(C('Identifier Pointer Partselect LConcat'))}, 'Rvalue': {'var': E},
        'Cond': {'cond': E, 'true_value': E, 'false_value': E},
        'SensList': {'list': TSeq(TObj(A.Sens))},
        'Sens': {'sig': TObj(C('Identifier Pointer Partselect'), True), 'type': STR},
        'IfStatement': {'cond': E, 'true_statement': B, 'false_statement': TObj(BODY, True)},
        'ForStatement': {'pre': TObj(A.BlockingSubstitution, True), 'cond': EN, 'post': TObj(A.BlockingSubstitution, True),
                         'statement': B},
        'WhileStatement': {'cond': E, 'statement': TObj(STMT)},
        'Case': {'cond': TUnion(NONE, TSeq(E)), 'statement': B},
        'Block': {'statements': TSeq(B), 'scope': TOpt(STR)}, 'ParallelBlock': {'statements': TSeq(B), 'scope': TOpt(STR)},
        'Initial': {'statement': TObj(STMT)},
        'EventStatement': {'senslist': TObj(A.SensList)},
        'WaitStatement': {'cond': E, 'statement': TObj(STMT, True)},
        'ForeverStatement': {'statement': TObj(STMT)},
        'DelayStatement': {'delay': E},
        'InstanceList': {'parameterlist': TSeq(TObj(A.ParamArg)), 'instances': TSeq(TObj(A.Instance))},
        'Instance': {'portlist': TSeq(TObj(A.PortArg)), 'parameterlist': TSeq(TObj(A.ParamArg)), 'array': WN},
        'ParamArg': {'paramname': TOpt(STR), 'argname': EN}, 'PortArg': {'portname': TOpt(STR), 'argname': EN},
        'Function': {'retwidth': W, 'statement': TSeq(B)}, 'Task': {'statement': TSeq(B)},
        'FunctionCall': {'name': TObj(A.Identifier), 'args': TSeq(E)},
        'SystemCall': {'syscall': STR, 'args': TSeq(E)},
        'GenerateStatement': {'items': TSeq(B)},
        'IdentifierScopeLabel': {'loop': EN},
        'IdentifierScope': {'labellist': TSeq(TObj(A.IdentifierScopeLabel))},
        'Pragma': {'entry': TObj(A.PragmaEntry)}, 'PragmaEntry': {'value': EN},
        'Disable': {'dest': STR},
        'SingleStatement': {'statement': TObj(C('DelayStatement SystemCall Disable'))},
    }
    for c in C(' '.join(x.__name__ for x in CASES)):
        over[c.__name__] = {'comp': E, 'caselist': TSeq(TObj(A.Case))}
    for c in ALWAYS:
        over[c.__name__] = {'sens_list': TObj(A.SensList), 'statement': TObj(STMT)}
    for n in ('Assign', 'BlockingSubstitution', 'NonblockingSubstitution'):
        over[n] = {'left': L, 'right': R, 'ldelay': DN, 'rdelay': DN}
    for n in 'Input Output Inout Tri Wire Reg Integer Real Genvar Parameter Localparam Supply'.split():
        over[n] = {'width': WN, 'signed': BOOL, 'dimensions': TObj(A.Dimensions, True),
                   'value': R if n in ('Parameter', 'Localparam') else TObj(A.Rvalue, True) if n == 'Integer' else
                   TObj(A.IntConst) if n == 'Supply' else NONE}
    for k in UNARY:
        over[k] = {'right': E}
    over['Uplus'] = {'right': E}
    for k in BINARY:
        over[k] = {'left': E, 'right': E}
    for c in astspec.node_classes():
        n = c.__name__
        sch = {'lineno': INT}
        for f, k in astspec.T.get(n, ((), ()))[0]:
            sch[f] = over.get(n, {}).get(f, STR if k == '=' else NONE)
        s.schema[c] = sch


# ------------------------------------------------------------------ precedence, from the grammar itself
def levels():
    """operator text -> (level, associativity); class -> level; unary operators"""
    prec = {}
    for i, (assoc, *names) in enumerate(VerilogParser.precedence):
        for x in names:
            prec[x] = (i, assoc)
    op, cls, unary = {}, {}, []
    for l in grammar.RULES.strip().split('\n'):
        m = re.match(r'expression : expression (\w+) expression => (\w+)\(', l)
        if m and m.group(1) in prec and m.group(2) in BINARY:
            cls[m.group(2)] = prec[m.group(1)]
            op[BINARY[m.group(2)]] = prec[m.group(1)]
        m = re.match(r'expression : \w+ expression %prec (\w+) => ', l)
        if m:
            unary.append(m.group(1))
    doc = '\n'.join(getattr(getattr(VerilogParser, n), '__doc__', None) or '' for n in dir(VerilogParser) if n.startswith('p_'))
    unary = set(re.findall(r'%prec\s+(\w+)', doc))
    top = max([prec[u][0] for u in unary if u in prec and u.startswith('U')] or [-1])
    low = min([prec[u][0] for u in unary if u in prec and u.startswith('U')] or [-1])
    return op, cls, low


OPS, LEVEL_OF, ULEVEL = levels()


def grouping(cname, side, op):
    """does an operand of this class keep together without parentheses beside this operator?"""
    if cname in UNARY or cname == 'Uplus':
        return ULEVEL > max(l for l, a in OPS.values())
    if cname in BINARY:
        if cname not in LEVEL_OF or op not in OPS:
            return False
        a, b = LEVEL_OF[cname], OPS[op]
        return a[0] > b[0] or a[0] == b[0] and b[1] == side
    return cname != 'Cond'


ASSIGNS = {'assign', 'blockingsubstitution', 'nonblockingsubstitution', 'parameter', 'localparam', 'integer'}


def bare_ok(p, nodes, before, after):
    r = p.extra.get('rendering')
    if before in LEFT and after in RIGHT:
        return True
    if r in ASSIGNS and after == ';' and before in ('=', '<=', None):
        return True
    if r == 'case' and before == '^' and after == ':':
        # after the parenthesis of the case, or the end of a statement
        return True
    if r == 'pragmaentry' and before == '=' and after == '$':
        return True
    for n in nodes:
        if n == '?':
            return False
        side, op = ('left', after) if before == '(' and after in OPS else ('right', before) if before in OPS and after == ')' \
            else (None, None)
        if side is None:
            return False
        for c in p.classes[n.key]:
            if c is None or not grouping(c.__name__, side, op):
                return False
    return True


# ------------------------------------------------------------------ the specification functions
def nest(ws):
    """words -> nested list of words and (sign, field, [...])"""
    out, stack = [], []
    for w in ws:
        m = re.match(r'([?!])([+#]?\w+)\{$', w)
        if m:
            stack.append((out, m.group(1), m.group(2)))
            out = []
        elif w == '}' and stack:
            old, sign, f = stack.pop()
            old.append((sign, f, out))
            out = old
        else:
            out.append(w)
    return out


BR = NE = DANGLES = TX = TXs = NTXs = PARAMS = None
NOSEMI = z3.Function('without_semicolon', SEQ, SEQ)
WORD = re.compile(r'[%.*~^]\w')


def opt(p, v, f):
    """f(value), nothing for None, without deciding which"""
    if v is None:
        return EMPTY
    if isinstance(v, SUnion):
        return z3.If(v.sel == 0, EMPTY, f(v.thunks[1]()))
    return f(v)


def there(p, v, sharp):
    """formula: the part is there"""
    if sharp == '+':
        return NE.fn(p.term(v))
    if isinstance(v, SUnion):
        return v.sel != 0
    if v is None:
        return z3.BoolVal(False)
    if isinstance(v, SRef):
        return v.t != NULL
    if isinstance(v, (bool, SBool)):
        return p.bterm(v)
    if isinstance(v, VSeq):
        return (p.len_of(v.pieces) > 0) if sharp == '#' else z3.BoolVal(True)
    return z3.BoolVal(True)


def join_text(p, v, sep):
    if v is None:
        return EMPTY
    return joined(p, ((), (sep,) if sep else (), (), False), p.hom(TXs, v))


def tx(p, get, ws):
    out = []
    for w in ws:
        if isinstance(w, tuple):
            sign, f, body = w
            sharp, f = (f[0], f[1:]) if f[0] in '+#' else ('', f)
            c = there(p, get(f), sharp)
            t = tx(p, get, body)
            out.append(z3.If(c, t, EMPTY) if sign == '?' else z3.If(c, EMPTY, t))
            continue
        if not WORD.match(w):
            out.append(z3.Unit(tok(w)))
            continue
        k, f = w[0], w[1:]
        f, _, sep = f.partition(':')
        v = get(f)
        if k == '%':
            out.append(opt(p, v, lambda x: LEX(p.sterm(x))))
        elif k == '.':
            out.append(TX.fn(p.term(v)))
        elif k == '~':
            out.append(z3.If(p.term(v) == NULL, EMPTY, NOSEMI(TX.fn(p.term(v)))))
        elif k == '^':
            out.append(BR.fn(p.term(v)))
        else:
            out.append(opt(p, v, lambda x: join_text(p, x, sep)))
    return cat(out)


def unfold_tx():
    u = {}

    def rule(ws):
        ws = nest(ws)
        return lambda p, r, get: tx(p, get, ws)
    for n, ws in RULE.items():
        if hasattr(A, n):
            u[getattr(A, n)] = rule(ws)
    is_ = lambda p, r, names: z3.Or([TAG(r) == p.engine.classid(c) for c in C(names)])

    def ifstatement(p, r, get):
        t, f = p.term(get('true_statement')), p.term(get('false_statement'))
        block = cat([literal('begin'), joined(p, ((), (), (), False), texts.cons(TX.fn(t), texts.nil)), literal('end')])
        first = z3.If(z3.And(f != NULL, DANGLES.fn(t)), block, BR.fn(t))
        return cat([literal('if ('), TX.fn(p.term(get('cond'))), literal(')'), first,
                    z3.If(f == NULL, EMPTY, cat([literal('else'), BR.fn(f)]))])

    def sens(p, r, get):
        ty = p.sterm(get('type'))
        edge = z3.Or(ty == z3.StringVal('posedge'), ty == z3.StringVal('negedge'))
        return cat([z3.If(edge, LEX(ty), EMPTY),
                    z3.If(ty == z3.StringVal('all'), literal('*'), TX.fn(p.term(get('sig'))))])

    def ioport(p, r, get):
        a, b = get('first'), get('second')
        first = EMPTY
        for c in C('Input Output Inout'):
            first = z3.If(TAG(a.t) == p.engine.classid(c), literal(c.__name__.lower()), first)
        second = EMPTY
        for c in C('Wire Reg Tri'):
            second = z3.If(TAG(b.t) == p.engine.classid(c), literal(c.__name__.lower()), second)
        return cat([first, z3.If(b.t == NULL, EMPTY, second), portsign(p, a, b),
                    PART['width'].fn(a.t), PART['name'].fn(a.t), PART['dimensions'].fn(a.t)])
    u[A.Paramlist] = lambda p, r, get: joined(p, ((), (',',), (), False), p.hom(PARAMS, get('params')))
    u[A.IntConst] = u[A.FloatConst] = lambda p, r, get: get('value').t
    u[A.StringConst] = lambda p, r, get: z3.Unit(STRLIT(p.sterm(get('value'))))
    u[A.Supply] = lambda p, r, get: cat([GLUED(literal('supply'), TX.fn(p.term(get('value')))),
                                         tx(p, get, nest('?signed{ signed } .width %name ;'.split()))])
    u[A.IfStatement] = ifstatement
    u[A.Sens] = sens
    u[A.Ioport] = ioport
    u[A.DelayStatement] = lambda p, r, get: z3.If(
        is_(p, p.term(get('delay')), 'Identifier IntConst FloatConst'),
        cat([literal('#'), TX.fn(p.term(get('delay')))]),
        cat([literal('# ('), TX.fn(p.term(get('delay'))), literal(')')]))
    return u


PART = {}


def portsign(p, a, b):
    return z3.If(z3.Or(SIGN.fn(a.t), z3.And(b.t != NULL, SIGN.fn(b.t))), literal('signed'), EMPTY)


def make_funs():
    global BR, NE, DANGLES, TX, TXs, NTXs, PARAMS, SIGN, PAIRS
    def wellformed(p, ref, cls):
        if cls is getattr(A, 'Sens', None):
            return [z3.Or(p.sterm(p.field(ref, 'type')) == z3.StringVal('all'), p.term(p.field(ref, 'sig')) != NULL)]
        return []
    TX = SpecFun('text_of', SEQ, unfold_tx(), null=lambda: EMPTY, facts=wellformed)

    def decl_br(p, r, get):
        one = TX.fn(r.t)
        block = cat([literal('begin'), joined(p, ((), (), (), False), texts.cons(one, texts.nil)), literal('end')])
        return z3.If(p.len_of(get('list').pieces) != 1, block, one)
    same = lambda p, r, get: TX.fn(r.t)
    same.shared = True
    u = dict((c, same) for c in astspec.node_classes())
    u[A.Decl] = decl_br
    BR = SpecFun('branch', SEQ, u)
    NE = SpecFun('has_text', z3.BoolSort(), {
        A.Paramlist: lambda p, r, get: p.hom(PARAMS, get('params')) != texts.nil,
        A.Decl: lambda p, r, get: p.len_of(get('list').pieces) > 0})
    no = lambda p, r, get: z3.BoolVal(False)
    no.shared = 'constant'
    d = dict((c, no) for c in astspec.node_classes())
    d[A.IfStatement] = lambda p, r, get: z3.Or(p.term(get('false_statement')) == NULL,
                                               DANGLES.fn(p.term(get('false_statement'))))
    for c in ALWAYS + C('ForStatement WhileStatement ForeverStatement WaitStatement Initial'):
        d[c] = lambda p, r, get: DANGLES.fn(p.term(get('statement')))
    DANGLES = SpecFun('takes_an_else', z3.BoolSort(), d, null=lambda: z3.BoolVal(False))
    decls = C('Input Output Inout Wire Reg Tri')
    SIGN = SpecFun('is_signed', z3.BoolSort(), dict((c, lambda p, r, get: p.bterm(get('signed'))) for c in decls))
    PART['width'] = SpecFun('width_text', SEQ, dict((c, lambda p, r, get: TX.fn(p.term(get('width')))) for c in decls))
    PART['name'] = SpecFun('name_text', SEQ, dict((c, lambda p, r, get: LEX(p.sterm(get('name')))) for c in decls))
    PART['dimensions'] = SpecFun('dims_text', SEQ, dict((c, lambda p, r, get: TX.fn(p.term(get('dimensions')))) for c in decls))
    node = lambda t: isinstance(t, TObj)
    TXs = Hom('texts_of', 'seq', lambda p, v: TX.fn(p.term(v)), like=texts, applies=node)
    NTXs = Hom('texts_of_without_semicolon', 'seq', lambda p, v: NOSEMI(TX.fn(p.term(v))), like=texts, applies=node)

    def flat_params(p, v):
        v = p.force(v)
        if p.decide_class(v, (A.Decl,), 'is Decl'):
            return p.hom(NTXs, p.field(v, 'list'))
        return texts.cons(NOSEMI(TX.fn(p.term(v))), texts.nil)
    PARAMS = Hom('params', 'seq', flat_params, like=texts, applies=lambda t: isinstance(t, TObj) and set(t.classes) <= {A.Decl, A.Parameter})
    PARAMS.flat = True
    PAIRS = Hom('texts_and_commas', 'seq', lambda p, v: texts.cons(text_of(p, v), texts.cons(literal(','), texts.nil)), like=texts,
                applies=texts.applies)
    PAIRS.flat = True
    for h in (texts, TXs, NTXs, PAIRS):
        h.faithful = True


make_funs()


def join_seg(it, sep, seq):
    p = it.p
    fl = p.flat(seq.pieces)
    if sep == '' and len(fl) == 1 and fl[0][0] == 's':
        # x, ',', y, ',', ... without the last element is the texts x, y, ... with commas between
        for S in list(p.segs.values()):
            if S.resolved and len(S.resolved) == 2 and S.resolved[0] == fl[0] and S.resolved[1][0] == 'e':
                for src in list(p.segs.values()):
                    if isinstance(src.elem, TText) and src is not S and src.resolved is None and \
                            p.valid(p.hom(texts, S.resolved) == p.hom(PAIRS, [('s', src)])) is True:
                        return TextCat(it, [Joined('', ', ', '', VSeq('list', [('s', src)]), p)])
    return TextCat(it, [Joined('', sep, '', seq, p)])


# ------------------------------------------------------------------ contracts
def text_value(p, node):
    """what visit() returns for the node"""
    cs = [c for c in p.classes[node.key] if c is not None]
    fs = [FACTS[c] for c in cs]
    first = set().union(*[set(f[0]) for f in fs])
    last = set().union(*[set(f[1]) for f in fs])
    one = lambda xs: next(iter(xs)) if len(xs) == 1 else None
    ne = NE.fn(node.t) if any(c in MAYBE_EMPTY for c in cs) else True
    bare = ('?',) if any(c in EDGE and c is not getattr(A, 'Case', None) for c in cs) else None
    return SText(TX.fn(node.t), first, last, ne, bare, one({f[2] for f in fs}), one({f[3] for f in fs}), node)


def text_ensures(p, a, r, o, node=None, t=None):
    node = node or p.force(a['node'])
    if p.extra.get('mode') == 'assume':
        ne = r.nonempty()
        return [('nothing has no tokens', z3.Implies(z3.Not(ne), r.t == EMPTY))]
    it = a['_it']
    r = whole(it, r)
    if not isinstance(r, SText):
        r = compose(it, [r])
    cs = [c for c in p.classes[node.key] if c is not None]
    out = [('the tokens of the text', r.t == (TX.fn(node.t) if t is None else t))]
    if t is not None:
        return out
    for c in cs:
        f = FACTS[c]
        out.append(('first character', r.first <= set(f[0])))
        out.append(('last character', r.last <= set(f[1])))
        if f[2]:
            out.append(('first token', r.firsttok == f[2]))
        if f[3]:
            out.append(('last token', r.lasttok == f[3]))
        if r.bare and c not in EDGE:
            out.append(('parentheses are kept at the edges', False))
        if c not in MAYBE_EMPTY:
            out.append(('is not empty', r.nonempty()))
        elif c in (A.Paramlist, A.Decl):
            out.append(('is empty exactly without elements', r.nonempty() == NE.fn(node.t)))
        out.append(('nothing has no tokens', z3.Implies(z3.Not(r.nonempty()), r.t == EMPTY)))
    return out


GEN = CG.ASTCodeGenerator


def specs():
    return [gen_spec, string_spec]


def all_nodes():
    return tuple(c for c in astspec.node_classes() if c.__name__ not in OUTSIDE)


def gen_spec():
    s = Spec('C13 texts')
    real = GEN()
    if real.template_cache:
        raise ValueError('the template cache of a new generator is not empty')
    s.fields = lambda cls: s.schema.get(cls, {})
    fields_types(s)
    s.schema[GEN] = {'env': TValue(EnvVal(real.env)), 'template_cache': TValue(CacheVal(real.env)),
                     'indent': TValue(Callable(lambda it, args, kwargs: args[0]))}
    s.families.append(all_nodes())
    s.immutable = {A.Node}
    s.specfuns = [TX, BR, NE, DANGLES, SIGN] + list(PART.values())
    s.homs = [texts, TXs, NTXs, PARAMS, PAIRS]
    s.cross = [(texts, TXs), (texts, NTXs), (texts, PARAMS), (texts, PAIRS)]
    s.class_name = ClassName
    s.bare_ok = bare_ok
    s.external = set()
    s.join_seg = join_seg
    s.while_funs = [DANGLES]
    x, l = z3.Const('x', SEQ), z3.Const('l', texts.seqsort)
    s.axioms = [z3.ForAll([x, l], texts.cons(x, l) != texts.nil)]

    def text_arg(it, fn, args):
        v = whole(it, args[0])
        if isinstance(v, SText):
            return v
        return None

    def del_paren(it, args, kwargs):
        v = text_arg(it, CG.del_paren, args)
        if v is None:
            return it.inline(CG.del_paren, args, kwargs)
        p = it.p
        if v.src is None:
            raise Unsupported('outer parentheses of a text of no node')
        cs = [c for c in p.classes[v.src.key] if c is not None]
        if not any(c in PAREN for c in cs):
            p.oblige('nothing in parentheses is taken apart', all('(' not in FACTS[c][0] for c in cs))
            return v
        p.oblige('nothing else in parentheses is taken apart', all(c in PAREN or '(' not in FACTS[c][0] for c in cs))
        return v.but(first='wpo(' if all(c in PAREN for c in cs) else set('wpo(') | v.first, last=set('wpo ') | v.last,
                     bare=(v.src,), firsttok=None, lasttok=None)

    def del_semicolon(it, args, kwargs):
        v = text_arg(it, CG.del_semicolon, args)
        if v is None:
            return it.inline(CG.del_semicolon, args, kwargs)
        if v.lasttok != ';':
            raise Unsupported('the text has no semicolon at its end')
        return SText(NOSEMI(v.t), v.first, 'wpo ', v.ne, None, v.firsttok, None)

    def same_tokens(fn):
        def f(it, args, kwargs):
            v = text_arg(it, fn, args)
            if v is None:
                return it.inline(fn, args, kwargs)
            return v
        return f

    def escape(it, args, kwargs):
        v = it.p.force(args[0])
        if isinstance(v, str):
            return it.inline(CG.escape, args, kwargs)
        if not isinstance(v, SStr):
            raise Unsupported('escape of %r' % (v,))
        return SText(LEX(v.t), 'w', 'w ')
    s.opaque_calls = {}
    for n, f in (('del_paren', del_paren), ('del_semicolon', del_semicolon), ('escape', escape)):
        if hasattr(CG, n):
            s.opaque_calls[getattr(CG, n)] = f
    for n in ('del_space', 'indent_multiline_assign'):
        if hasattr(CG, n):
            s.opaque_calls[getattr(CG, n)] = same_tokens(getattr(CG, n))
    SELF = TObj((GEN,))

    def visited(p, a):
        return text_value(p, p.force(a['node']))

    def need(p, a):
        n = p.force(a['node'])
        if isinstance(n, SRef) and None in p.classes[n.key] and p.valid(n.t != NULL) is True:
            p.narrow(n, [c for c in p.classes[n.key] if c is not None])
        ok = isinstance(n, SRef) and None not in p.classes[n.key] and all(c in FACTS for c in p.classes[n.key])
        return [('a node', ok)]
    V = 'pyverilog.ast_code_generator.codegen:'
    s.add(Contract(V + 'ConvertVisitor.visit', {'self': SELF, 'node': TObj(all_nodes())}, visited, need, text_ensures))
    for n in sorted(vars(GEN)):
        if not n.startswith('visit_') or n in ('visit_Operator', 'visit_UnaryOperator', 'visit_branch'):
            continue
        cn = n[6:]
        if cn in OUTSIDE or not hasattr(A, cn):
            continue
        cs = (getattr(A, cn),)
        if cn == 'Always':
            cs = ALWAYS
        elif cn == 'CaseStatement':
            cs = tuple(c for c in CASES if c.__name__ != 'CasexStatement')
        s.add(Contract(V + 'ASTCodeGenerator.' + n, {'self': SELF, 'node': TObj(cs)}, visited, need, text_ensures, budget=120))
    if hasattr(GEN, 'visit_branch'):
        def branch(p, a):
            v = text_value(p, p.force(a['node']))
            r = v.but(t=BR.fn(p.force(a['node']).t), firsttok=None, lasttok=None, src=None, first=v.first | set('w'),
                      last=v.last | set('w'), ne=True)
            return r

        def branch_ens(p, a, r, o):
            if p.extra.get('mode') == 'assume':
                return []
            n = p.force(a['node'])
            r = whole(a['_it'], r)
            out = text_ensures(p, a, r, o, n, BR.fn(n.t))
            out.append(('outer characters', r.src is n or r.first | r.last == set('w')))
            out.append(('parentheses', not r.bare))
            out.append(('is not empty', r.nonempty()))
            return out
        s.add(Contract(V + 'ASTCodeGenerator.visit_branch', {'self': SELF, 'node': TObj(BODY)}, branch, need, branch_ens))
    if hasattr(CG, 'takes_else'):
        s.add(Contract(V + 'takes_else', {'node': TObj(all_nodes(), True)}, BOOL, None,
                       lambda p, a, r, o: [('an else would become a part of it', p.bterm(r) == DANGLES.fn(p.term(a['node'])))]))
    return s



def string_spec():
    """the helpers, on real strings"""
    s = Spec('C13 strings')
    V = 'pyverilog.ast_code_generator.codegen:'
    sv = z3.StringVal
    semi = sv(';')

    def paren(p, a, r, o):
        x, y = p.sterm(a['s']), p.sterm(r)
        return [('the text or what is between its outer parentheses', z3.Or(y == x, x == z3.Concat(sv('('), y, sv(')'))))]

    def semicolon(p, a, r, o):
        x, y = p.sterm(a['s']), p.sterm(r)
        return [('without the semicolon at its end', z3.If(z3.SuffixOf(semi, x), x == z3.Concat(y, semi), y == x))]

    def escape(p, a, r, o):
        x, y = p.sterm(a['s']), p.sterm(r)
        return [('a space ends an escaped name', z3.Or(y == z3.Concat(x, sv(' ')),
                                                      z3.And(y == x, z3.Not(z3.PrefixOf(sv('\\'), x)))))]
    for n, f in (('del_paren', paren), ('del_semicolon', semicolon), ('escape', escape)):
        if hasattr(CG, n):
            s.add(Contract(V + n, {'s': STR}, STR, None, f))
    return s
