"""Type descriptions used by contracts and class schemas, and the values of the symbolic interpreter."""
import z3

Ref = z3.DeclareSort('Ref')        # every Python object instance
RSeq = z3.DeclareSort('RSeq')      # an unexpanded stretch of a sequence of unknown length
NULL = z3.Const('None', Ref)
TAG = z3.Function('class_of', Ref, z3.IntSort())
RLEN = z3.Function('len', RSeq, z3.IntSort())


class T(object):
    def __eq__(self, o):
        return type(self) is type(o) and self.__dict__ == o.__dict__

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(repr(self))

    def __repr__(self):
        return type(self).__name__ + repr(sorted(self.__dict__.items(), key=str))


class TInt(T):
    pass


class TBool(T):
    pass


class TStr(T):
    pass


class TNone(T):
    pass


class TConst(T):
    """exactly this concrete Python value (number, string, None, class, function...)"""
    def __init__(self, value):
        self.value = value


class TObj(T):
    """an instance of exactly one of these classes (or None when nullable)"""
    def __init__(self, classes, nullable=False):
        if isinstance(classes, type):
            classes = (classes,)
        self.classes = tuple(classes)
        self.nullable = nullable

    def __hash__(self):
        return hash((self.classes, self.nullable))


class TSeq(T):
    def __init__(self, elem, kind='tuple'):
        self.elem = elem
        self.kind = kind


class TTup(T):
    def __init__(self, *elems, **kw):
        self.elems = elems
        self.kind = kw.get('kind', 'tuple')


class TUnion(T):
    """one of several alternatives, decided lazily"""
    def __init__(self, *alts):
        self.alts = alts


def TOpt(t):
    if isinstance(t, TObj):
        return TObj(t.classes, True)
    return TUnion(TNone(), t)


class TDict(T):
    """an unknown mapping; keys compared by key(k) -> z3 term"""
    def __init__(self, key, val, keysort=None):
        self.key = key
        self.val = val


class TSort(T):
    """an opaque value of an uninterpreted sort (supports == only)"""
    def __init__(self, sort):
        self.sort = sort

    def __hash__(self):
        return hash(str(self.sort))

    def __eq__(self, o):
        return isinstance(o, TSort) and o.sort.eq(self.sort)


INT, BOOL, STR, NONE = TInt(), TBool(), TStr(), TNone()


# ---------------------------------------------------------------- values
class SVal(object):
    pass


class SInt(SVal):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SInt(%s)' % self.t


class SBool(SVal):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SBool(%s)' % self.t


class SStr(SVal):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SStr(%s)' % self.t


class SOpq(SVal):
    """value of an uninterpreted sort"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SOpq(%s)' % self.t


class SRef(SVal):
    """an object; z3 term of sort Ref; class set and fields live in the path"""
    __slots__ = ('t', 'key')

    def __init__(self, t):
        self.t = t
        self.key = t.get_id()

    def __repr__(self):
        return 'SRef(%s)' % self.t


class SUnion(SVal):
    """lazily decided alternative: sel = i selects alts[i]"""
    __slots__ = ('sel', 'thunks', 'chosen')

    def __init__(self, sel, thunks):
        self.sel = sel
        self.thunks = thunks


class Seg(object):
    """unexpanded stretch of a sequence"""
    __slots__ = ('t', 'elem', 'resolved', 'key')

    def __init__(self, t, elem):
        self.t = t
        self.elem = elem
        self.resolved = None
        self.key = t.get_id()

    def __repr__(self):
        return 'Seg(%s)' % self.t


class VSeq(SVal):
    """list or tuple: pieces are ('e', value) or ('s', Seg)"""
    __slots__ = ('kind', 'pieces', 'birth')

    def __init__(self, kind, pieces, birth=0):
        self.kind = kind
        self.pieces = pieces
        self.birth = birth

    def __repr__(self):
        return '%s%s' % (self.kind, self.pieces)


class VDict(SVal):
    """dict with a concrete list of entries (keys pairwise known distinct), insertion ordered"""
    __slots__ = ('items', 'birth')

    def __init__(self, items=None, birth=0):
        self.items = items if items is not None else []
        self.birth = birth


class VSet(SVal):
    __slots__ = ('items', 'birth')

    def __init__(self, items=None, birth=0):
        self.items = items if items is not None else []
        self.birth = birth


class SDict(SVal):
    """unknown mapping: has/get are z3 functions of the key term; overlay holds updates"""
    __slots__ = ('name', 'ktype', 'vtype', 'cache', 'birth', 'log', 'idt')

    def __init__(self, name, ktype, vtype):
        self.name = name
        self.ktype = ktype
        self.vtype = vtype
        self.cache = []      # (key value, present?, value)
        self.log = []
        self.birth = 0
        self.idt = None      # identifies the mapping in has/get functions of an opaque key


class Poison(SVal):
    """a value the verifier has lost track of; any use is Unsupported"""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why


class FuncVal(object):
    """a real function (or method) of /repo, executed from its extracted AST"""
    __slots__ = ('fn', 'owner')

    def __init__(self, fn, owner=None):
        self.fn = fn
        self.owner = owner


class BoundMethod(object):
    __slots__ = ('self_', 'fn', 'name')

    def __init__(self, self_, fn, name=None):
        self.self_ = self_
        self.fn = fn
        self.name = name


class ModelMethod(object):
    """method of a modelled builtin container/string"""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name


class Closure(object):
    __slots__ = ('node', 'frame', 'defaults')

    def __init__(self, node, frame, defaults):
        self.node = node
        self.frame = frame
        self.defaults = defaults


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    pass


class Restart(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, cls, args=(), note=''):
        Exception.__init__(self, '%s %s' % (cls.__name__, note))
        self.cls = cls
        self.pyargs = args
        self.note = note


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass
