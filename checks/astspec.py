"""Which parts a node of the syntax tree has (constructor order), and in which order it reports its sub-nodes.
name= : attribute, name? : one sub-node or None, name* : sequence of sub-nodes; after '|' the order of the children."""
import z3
import pyverilog.vparser.ast as A
from pyvc.types import *
from pyvc.core import *

Attr = z3.DeclareSort('Attr')
TABLE = '''
Source: name= description?
Description: definitions*
ModuleDef: name= paramlist? portlist? items* default_nettype=
Paramlist: params*
Portlist: ports*
Port: name= width? dimensions? type=
Width: msb? lsb?
Length: msb? lsb?
Dimensions: lengths*
Identifier: name= scope?
Value: value?
Constant: value=
IntConst: value=
FloatConst: value=
StringConst: value=
Variable: name= width? signed= dimensions? value?
Input: name= width? signed= dimensions? value?
Output: name= width? signed= dimensions? value?
Inout: name= width? signed= dimensions? value?
Tri: name= width? signed= dimensions? value?
Wire: name= width? signed= dimensions? value?
Reg: name= width? signed= dimensions? value?
Integer: name= width? signed= dimensions? value?
Real: name= width? signed= dimensions? value?
Genvar: name= width? signed= dimensions? value?
Ioport: first? second?
Parameter: name= value? width? signed= -dimensions?
Localparam: name= value? width? signed= -dimensions?
Supply: name= value? width? signed= -dimensions?
Decl: list*
Concat: list*
LConcat: list*
Repeat: value? times?
Partselect: var? msb? lsb?
Pointer: var? ptr?
Lvalue: var?
Rvalue: var?
Operator: left? right?
UnaryOperator: right?
Uplus: right?
Uminus: right?
Ulnot: right?
Unot: right?
Uand: right?
Unand: right?
Uor: right?
Unor: right?
Uxor: right?
Uxnor: right?
Power: left? right?
Times: left? right?
Divide: left? right?
Mod: left? right?
Plus: left? right?
Minus: left? right?
Sll: left? right?
Srl: left? right?
Sla: left? right?
Sra: left? right?
LessThan: left? right?
GreaterThan: left? right?
LessEq: left? right?
GreaterEq: left? right?
Eq: left? right?
NotEq: left? right?
Eql: left? right?
NotEql: left? right?
And: left? right?
Xor: left? right?
Xnor: left? right?
Or: left? right?
Land: left? right?
Lor: left? right?
Cond: cond? true_value? false_value?
Assign: left? right? ldelay? rdelay?
Always: sens_list? statement?
AlwaysFF: sens_list? statement?
AlwaysComb: sens_list? statement?
AlwaysLatch: sens_list? statement?
SensList: list*
Sens: sig? type=
Substitution: left? right? ldelay? rdelay?
BlockingSubstitution: left? right? ldelay? rdelay?
NonblockingSubstitution: left? right? ldelay? rdelay?
IfStatement: cond? true_statement? false_statement?
ForStatement: pre? cond? post? statement?
WhileStatement: cond? statement?
CaseStatement: comp? caselist*
CasexStatement: comp? caselist*
CasezStatement: comp? caselist*
UniqueCaseStatement: comp? caselist*
Case: cond* statement?
Block: statements* scope=
Initial: statement?
EventStatement: senslist?
WaitStatement: cond? statement?
ForeverStatement: statement?
DelayStatement: delay?
InstanceList: module= parameterlist* instances*
Instance: module= name= portlist* parameterlist* array? | array parameterlist portlist
ParamArg: paramname= argname?
PortArg: portname= argname?
Function: name= retwidth? statement*
FunctionCall: name? args*
Task: name= statement*
TaskCall: name? args*
GenerateStatement: items*
SystemCall: syscall= args*
IdentifierScopeLabel: name= loop=
IdentifierScope: labellist*
Pragma: entry?
PragmaEntry: name= value?
Disable: dest=
ParallelBlock: statements* scope=
SingleStatement: statement?
EmbeddedCode: code=
'''
# compared by == besides class and children
COMPARED_NOT = {'default_nettype'}


def table():
    out = {}
    for l in TABLE.strip().split('\n'):
        name, rest = l.split(':', 1)
        rest, _, order = rest.partition('|')
        fields = [(f.strip('-*?='), '-' if f.startswith('-') else f[-1]) for f in rest.split()]
        order = order.split() or [n for n, k in fields if k in '?*']
        out[name] = (fields, order)
    return out


T = table()


def node_classes():
    """every node class of the current source (a class added later has no contract and is reported as such)"""
    return tuple(v for v in vars(A).values() if isinstance(v, type) and issubclass(v, A.Node) and v is not A.Node)


def base_spec(name):
    s = Spec(name)
    cs = node_classes()
    # a sub-node of any class: only None-ness, ==, hash() are ever used on it, so its class stays open
    plain = not any(m in k.__dict__ for c in cs for k in c.__mro__ if k is not object
                    for m in ('__bool__', '__len__', '__nonzero__', '__getattr__', '__getattribute__', '__setattr__'))
    s.families.append(cs)
    some = (A.Node,) if plain else cs
    NN = TObj(some, True)
    N = TObj(some)
    s.schema = {A.Node: {}}
    s.fields = lambda cls: s.schema[cls]
    for c in cs:
        sch = {'lineno': INT}
        for f, k in T.get(c.__name__, ((), ()))[0]:
            sch[f] = {'=': TSort(Attr), '?': NN, '*': TSeq(N), '-': NONE}[k]
            if f in COMPARED_NOT:
                sch[f] = STR
        s.schema[c] = sch
    s.immutable = {A.Node}
    s.N, s.NN = N, NN
    s.opaque_value = lambda sort, n: ['posedge', None, False, True][n] if n < 4 else 'v%d' % n
    truth = z3.Function('attr_is_true', Attr, z3.BoolSort())
    s.opq_truth = lambda it, v: SBool(truth(v.t))
    return s


def closed_nodes(v, memo=None):
    """counter-models leave the class of sub-nodes open: make them identifiers of different names"""
    memo = {} if memo is None else memo
    if type(v) is A.Node:
        if id(v) not in memo:
            memo[id(v)] = A.Identifier('n%d' % len(memo))
        return memo[id(v)]
    if isinstance(v, (list, tuple)):
        return type(v)(closed_nodes(x, memo) for x in v)
    if isinstance(v, A.Node):
        for k in v.__dict__:
            v.__dict__[k] = closed_nodes(v.__dict__[k], memo)
    return v
