"""Shared schema of the dataflow tree classes."""
from .types import *
from .core import *
import z3

Val = z3.DeclareSort('Val')
Name = z3.DeclareSort('Name')      # hierarchical signal name (ScopeChain), compared by ==


class ND(object):
    pass


def classes():
    import pyverilog.dataflow.dataflow as D
    return D


def node_types():
    D = classes()
    return (D.DFIntConst, D.DFFloatConst, D.DFStringConst, D.DFEvalValue, D.DFUndefined, D.DFHighImpedance,
            D.DFTerminal, D.DFBranch, D.DFOperator, D.DFPartselect, D.DFPointer, D.DFConcat, D.DFDelay,
            D.DFSyscall)


def node(exclude=(), nullable=False):
    return TObj(tuple(c for c in node_types() if c not in exclude), nullable)


def base_spec(name, without=()):
    D = classes()
    s = Spec(name)
    all_ = tuple(c for c in node_types() if c.__name__ not in without)
    N = TObj(all_)
    NN = TObj(all_, True)
    s.families.append(all_)
    s.schema = {
        D.DFTerminal: {'name': TSort(Name)},
        D.DFIntConst: {'value': STR},
        D.DFFloatConst: {'value': STR},
        D.DFStringConst: {'value': STR},
        D.DFEvalValue: {'value': TUnion(INT, TSort(z3.DeclareSort('Float')), STR), 'width': TUnion(INT, NONE),
                        'isfloat': BOOL, 'isstring': BOOL},
        D.DFUndefined: {'width': INT},
        D.DFHighImpedance: {'width': INT},
        D.DFBranch: {'condnode': NN, 'truenode': NN, 'falsenode': NN},
        D.DFOperator: {'operator': STR, 'nextnodes': TSeq(NN)},
        D.DFConcat: {'nextnodes': TSeq(NN)},
        D.DFPartselect: {'var': NN, 'msb': NN, 'lsb': NN},
        D.DFPointer: {'var': NN, 'ptr': NN},
        D.DFDelay: {'nextnode': NN},
        D.DFSyscall: {'syscall': STR, 'nextnodes': TSeq(NN)},
    }
    s.immutable = {D.DFNode}
    s.N, s.NN = N, NN
    s.leaf_class = D.DFTerminal

    def opq(sort, n):
        import pyverilog.utils.scope as SC
        if sort == 'Name':
            return SC.ScopeChain([SC.ScopeLabel('top', 'module'), SC.ScopeLabel('s%d' % n, 'signal')])
        return float(n)
    s.opaque_value = opq
    return s


def is_node_type(t):
    return isinstance(t, (TObj, TNone))
