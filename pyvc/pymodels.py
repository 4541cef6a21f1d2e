"""Models of the Python built-ins the functions under contract use."""
import ast
import copy
import re
import types as pytypes
import z3
from .types import *
from .core import *
from . import extract

POW2 = z3.Function('pow2', z3.IntSort(), z3.IntSort())
BIT = z3.Function('bit', z3.IntSort(), z3.IntSort(), z3.BoolSort())
BAND = z3.Function('band', z3.IntSort(), z3.IntSort(), z3.IntSort())
BOR = z3.Function('bor', z3.IntSort(), z3.IntSort(), z3.IntSort())
BXOR = z3.Function('bxor', z3.IntSort(), z3.IntSort(), z3.IntSort())
SHL = z3.Function('shl', z3.IntSort(), z3.IntSort(), z3.IntSort())
MODP = z3.Function('low_bits', z3.IntSort(), z3.IntSort(), z3.IntSort())   # x mod 2^k
SHR = z3.Function('shr', z3.IntSort(), z3.IntSort(), z3.IntSort())
POW = z3.Function('ipow', z3.IntSort(), z3.IntSort(), z3.IntSort())
FDIV = z3.Function('float_div', z3.IntSort(), z3.IntSort(), z3.IntSort())
STRINT = z3.Function('str_of_int', z3.IntSort(), z3.StringSort())

_st = (str, SStr)
_num = (bool, int, SInt, SBool)


class TypeOf(SVal):
    def __init__(self, ref):
        self.ref = ref


class SuperVal(object):
    def __init__(self, self_, owner, cls_of):
        self.self_ = self_
        self.owner = owner
        self.cls_of = cls_of


class ExcVal(object):
    def __init__(self, cls, args):
        self.cls = cls
        self.args = args

    def getattr(self, it, name):
        if name == 'args':
            return VSeq('tuple', [('e', x) for x in self.args], 0)
        raise Unsupported('attribute of exception')


class FloatVal(SVal):
    """opaque float obtained from true division of ints"""
    def __init__(self, t):
        self.t = t


class VirtualMethod(object):
    def __init__(self, obj, contract):
        self.obj = obj
        self.contract = contract


class Chunks(object):
    """pieces to iterate over, with an item function"""

    def __init__(self, pieces, item=None):
        self.pieces = list(pieces)
        self._item = item

    def item(self, it, v, done):
        return self._item(it, v, done) if self._item else v


def eq_types(it, a, b):
    p = it.p

    def cl(x):
        if isinstance(x, TypeOf):
            cs = p.classes[x.ref.key]
            return cs
        if isinstance(x, type):
            return (x,)
        return None
    ca, cb = cl(a), cl(b)
    if ca is None or cb is None:
        raise Unsupported('type comparison')
    if len(ca) == 1 and len(cb) == 1:
        return ca[0] is cb[0] if not (ca[0] in (None, type(None)) and cb[0] in (None, type(None))) else True
    if isinstance(a, TypeOf) and isinstance(b, TypeOf):
        if a.ref.key == b.ref.key:
            return True
        r = p.decide(TAG(a.ref.t) == TAG(b.ref.t), 'same type')
        both = tuple(c for c in ca if c in cb)
        if r:
            p.narrow(a.ref, both, assume=True)
            p.narrow(b.ref, both, assume=True)
        return r
    x, c = (a, cb[0]) if isinstance(a, TypeOf) else (b, ca[0])
    if c is type(None):
        c = None
    return p.decide_class(x.ref, (c,), 'type is')


def subclasses_of(it, ref, cls):
    cs = it.p.classes[ref.key]
    return tuple(c for c in cs if c is not None and issubclass(c, cls)) + \
        ((None,) if cls in (object, type(None)) and None in cs else ())


PYTYPE = [((bool, SBool), bool), ((int, SInt), int), ((str, SStr), str), ((float, FloatVal), float)]


def isinstance_(it, args, kwargs):
    v, cls = it.p.force(args[0]), it.p.force(args[1])
    if isinstance(cls, VSeq):
        clss = it.p.concrete_items(cls)
    else:
        clss = [cls]
    if isinstance(v, SRef):
        yes = ()
        for c in clss:
            c = it.p.force(c)
            if not isinstance(c, type):
                raise PyRaise(TypeError, (), 'isinstance arg 2')
            yes += subclasses_of(it, v, c)
        return it.p.decide_class(v, yes, 'isinstance %s' % ','.join(c.__name__ for c in clss))
    t = pytype(it, v)
    if t is None:
        raise Unsupported('isinstance of %r' % (v,))
    return any(issubclass(t, c) for c in clss)


def pytype(it, v):
    if v is None:
        return type(None)
    for reps, t in PYTYPE:
        if isinstance(v, reps):
            return t
    if isinstance(v, VSeq):
        return tuple if v.kind == 'tuple' else list
    if isinstance(v, (VDict, SDict)):
        return dict
    if isinstance(v, VSet):
        return set
    if isinstance(v, type):
        return type
    if isinstance(v, (FuncVal, Closure, pytypes.FunctionType)):
        return pytypes.FunctionType
    if isinstance(v, ExcVal):
        return v.cls
    return None


def type_(it, args, kwargs):
    v = it.p.force(args[0])
    if isinstance(v, SRef):
        cs = it.p.classes[v.key]
        if len(cs) == 1:
            return cs[0] if cs[0] is not None else type(None)
        return TypeOf(v)
    t = pytype(it, v)
    if t is None:
        raise Unsupported('type of %r' % (v,))
    return t


def len_(it, args, kwargs):
    v = it.p.force(args[0])
    if isinstance(v, VSeq):
        c = it.p.concrete_items(v)
        if c is not None:
            return len(c)
        return SInt(it.p.len_of(v.pieces))
    if isinstance(v, (VDict, VSet)):
        return len(v.items)
    if isinstance(v, str):
        return len(v)
    if isinstance(v, SStr):
        return SInt(z3.Length(v.t))
    if isinstance(v, SRef):
        return it.call(it.getattr(v, '__len__'), [], {})
    if v is None or isinstance(v, _num):
        raise PyRaise(TypeError, (), 'object has no len()')
    raise Unsupported('len of %r' % (v,))


def to_pieces(it, v):
    v = it.p.force(v)
    ch = iterate(it, v)
    if ch._item is None:
        return list(ch.pieces)
    out = []
    done = []
    for k, x in ch.pieces:
        if k == 's':
            raise Unsupported('materialising a mapped sequence of unknown length')
        out.append(('e', ch.item(it, x, done)))
        done.append((k, x))
    return out


def iterate(it, v):
    v = it.p.force(v)
    if isinstance(v, Chunks):
        return v
    if isinstance(v, VSeq):
        return Chunks(it.p.flat(v.pieces))
    if isinstance(v, VDict):
        return Chunks([('e', k) for k, x in v.items])
    if isinstance(v, VSet):
        return Chunks([('e', k) for k in v.items])
    if isinstance(v, str):
        return Chunks([('e', c) for c in v])
    if isinstance(v, SRef):
        cls = it.p.the_class(v)
        if cls is None:
            raise PyRaise(TypeError, (), 'None is not iterable')
        owner, fn = extract.find_owner(cls, '__iter__')
        if fn is not None:
            return iterate(it, it.call_function(fn, [v], {}, owner))
        raise PyRaise(TypeError, (), 'not iterable')
    if v is None or isinstance(v, _num):
        raise PyRaise(TypeError, (), 'not iterable')
    raise Unsupported('iteration over %r' % (v,))


def unpack(it, v, n, star):
    v = it.p.force(v)
    if star:
        raise Unsupported('starred unpacking')
    if isinstance(v, VSeq):
        c = it.p.concrete_items(v)
        if c is None:
            it_len = it.p.len_of(v.pieces)
            if not it.p.decide(it_len == n, 'len==%d' % n):
                raise PyRaise(ValueError, (), 'unpack')
            out = []
            for i in range(n):
                ok, x = it.p.elem_at(v, i)
                if not ok:
                    raise PathEnd()
                out.append(x)
            return out
        if len(c) != n:
            raise PyRaise(ValueError, (), 'cannot unpack %d into %d' % (len(c), n))
        return c
    if v is None or isinstance(v, _num):
        raise PyRaise(TypeError, (), 'cannot unpack')
    ch = to_pieces(it, v)
    if any(k == 's' for k, x in ch):
        raise Unsupported('unpack')
    if len(ch) != n:
        raise PyRaise(ValueError, (), 'unpack')
    return [x for k, x in ch]


def touch(it, obj):
    it.p.mutlog.append(('obj', obj))


# ------------------------------------------------------------------ subscripts
def getitem(it, o, k):
    p = it.p
    o = p.force(o)
    k = p.force(k)
    if hasattr(o, 'sym_getitem'):
        return o.sym_getitem(it, k)
    if hasattr(k, 'sym_index'):
        return k.sym_index(it, o)
    if isinstance(o, VSeq):
        if isinstance(k, bool):
            k = int(k)
        f = it.spec.__dict__.get('index_seq')
        if f and isinstance(k, (int, SInt)):
            v = f(it, o, k)
            if v is not None:
                return v
        if isinstance(k, int):
            ok, v = p.elem_at(o, k)
            if not ok:
                raise PyRaise(IndexError, (), 'index %d' % k)
            return p.force(v) if not isinstance(v, SUnion) else v
        if isinstance(k, SInt):
            items = p.concrete_items(o)
            if items is None:
                n = 0
                segs = []
                for kk, v in p.flat(o.pieces):
                    if kk == 'e' and p.valid(k.t == z3.Sum(segs + [z3.IntVal(n)])) is True:
                        return v
                    if kk == 'e':
                        n += 1
                    elif kk == 's':
                        segs.append(RLEN(v.t))
                raise Unsupported('symbolic index into symbolic sequence')
            n = len(items)
            if not p.decide(z3.And(k.t >= -n, k.t < n), 'index in range'):
                raise PyRaise(IndexError, (), 'index')
            for i in range(n):
                if i == n - 1 or p.decide(z3.Or(k.t == i, k.t == i - n), 'index==%d' % i):
                    return items[i]
        if isinstance(k, str) or k is None:
            raise PyRaise(TypeError, (), 'sequence index')
        raise Unsupported('index %r' % (k,))
    if isinstance(o, VDict):
        i = dict_find(it, o, k)
        if i is None:
            raise PyRaise(KeyError, (k,), 'key')
        return o.items[i][1]
    if isinstance(o, SDict):
        pres, val = sdict_get(it, o, k)
        if not pres:
            raise PyRaise(KeyError, (k,), 'key')
        return val
    if isinstance(o, str) and isinstance(k, int):
        try:
            return o[k]
        except IndexError:
            raise PyRaise(IndexError, (), 'string index')
    if isinstance(o, SStr) and isinstance(k, int):
        n = z3.Length(o.t)
        if k >= 0:
            if not p.decide(n > k, 'len>%d' % k):
                raise PyRaise(IndexError, (), 'string index')
            return SStr(z3.SubString(o.t, k, 1))
        if not p.decide(n >= -k, 'len>=%d' % -k):
            raise PyRaise(IndexError, (), 'string index')
        return SStr(z3.SubString(o.t, n + k, 1))
    if isinstance(o, SRef):
        return it.call(it.getattr(o, '__getitem__'), [k], {})
    if o is None or isinstance(o, _num):
        raise PyRaise(TypeError, (), 'not subscriptable')
    if isinstance(o, SliceVal):
        raise Unsupported('slice')
    raise Unsupported('getitem %r[%r]' % (o, k))


class SliceVal(object):
    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


def getslice(it, o, lo, hi, st):
    p = it.p
    o = p.force(o)
    lo, hi, st = p.force(lo), p.force(hi), p.force(st)
    if isinstance(o, SRef):
        return it.call(it.getattr(o, '__getitem__'), [SliceVal(lo, hi, st)], {})
    if hasattr(o, 'sym_slice'):
        return o.sym_slice(it, lo, hi, st)
    if isinstance(o, str) and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
        return o[lo:hi:st]
    if isinstance(o, SStr) and st is None:
        n = z3.Length(o.t)

        def norm(x, dflt):
            if x is None:
                return dflt
            if isinstance(x, int):
                if x >= 0:
                    return z3.If(n < x, n, z3.IntVal(x))
                return z3.If(n < -x, z3.IntVal(0), n + x)
            raise Unsupported('string slice bound')
        a, b = norm(lo, z3.IntVal(0)), norm(hi, n)
        return SStr(z3.If(b > a, z3.SubString(o.t, a, b - a), z3.StringVal('')))
    if isinstance(o, VSeq):
        items = p.concrete_items(o)
        if items is not None and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
            return VSeq(o.kind, [('e', x) for x in items[lo:hi:st]], next(p.births))
        if items is not None and st is None:
            # symbolic bounds over a known length
            n = len(items)

            def pick(x, d):
                if x is None:
                    return d
                if isinstance(x, int):
                    return max(0, min(n, x if x >= 0 else x + n))
                for i in range(n):
                    if p.decide(z3.Or(p.iterm(x) == i, p.iterm(x) == i - n) if i < n else p.iterm(x) == i, 'b=%d' % i):
                        return i
                if p.decide(p.iterm(x) >= n, 'b>=n'):
                    return n
                return 0
            a, b = pick(lo, 0), pick(hi, n)
            return VSeq(o.kind, [('e', x) for x in items[a:b]], next(p.births))
        if items is None and st is None:
            if (lo is None or lo == 0) and isinstance(hi, int) and hi < 0:
                # drop the last -hi elements
                for _ in range(-hi):
                    pass
                return drop_back(it, o, -hi)
            if hi is None and isinstance(lo, int) and lo >= 0:
                for i in range(lo):
                    p.elem_at(o, i)
                fl = p.flat(o.pieces)
                return VSeq(o.kind, fl[min(lo, len(fl)):], next(p.births))
            if lo is None and hi is None:
                return VSeq(o.kind, fl_copy(p, o), next(p.births))
        if st == -1 and lo is None and hi is None and items is None:
            raise Unsupported('reversed symbolic sequence')
        raise Unsupported('slice of symbolic sequence')
    if o is None or isinstance(o, _num):
        raise PyRaise(TypeError, (), 'not subscriptable')
    raise Unsupported('slice of %r' % (o,))


def fl_copy(p, o):
    return list(p.flat(o.pieces))


def drop_back(it, o, n):
    p = it.p
    for i in range(n):
        ok, v = p.elem_at(o, -1 - i)
        if not ok:
            return VSeq(o.kind, [], next(p.births))
    fl = p.flat(o.pieces)
    return VSeq(o.kind, fl[:-n], next(p.births))


def dict_find(it, d, k):
    k = it.p.force(k)
    for i, (kk, v) in enumerate(d.items):
        if kk is k:
            return i
        if it.truth(it.eq(kk, k)):
            return i
    return None


def setitem(it, o, k, v):
    o = it.p.force(o)
    k = it.p.force(k)
    if hasattr(o, 'sym_setitem'):
        o.sym_setitem(it, k, v)
        return
    if isinstance(o, VDict):
        i = dict_find(it, o, k)
        if i is None:
            o.items = o.items + [(k, v)]
        else:
            o.items = o.items[:i] + [(o.items[i][0], v)] + o.items[i + 1:]
        touch(it, o)
        return
    if isinstance(o, SDict):
        o.log = o.log + [('set', k, v)]
        o.cache = o.cache + [(k, True, v, 'w')]
        touch(it, o)
        return
    if isinstance(o, SRef) and any('__setitem__' in c.__dict__ for c in it.p.classes[o.key][0].__mro__):
        it.call(it.getattr(o, '__setitem__'), [k, v], {})
        return
    if isinstance(o, VSeq) and o.kind == 'list' and isinstance(k, int):
        items = it.p.concrete_items(o)
        if items is None:
            ok, _ = it.p.elem_at(o, k)
            if not ok:
                raise PyRaise(IndexError, (), 'assignment index')
            fl = it.p.flat(o.pieces)
            j = k if k >= 0 else len(fl) + k
            fl[j] = ('e', v)
            o.pieces = fl
        else:
            if not -len(items) <= k < len(items):
                raise PyRaise(IndexError, (), 'assignment index')
            items[k] = v
            o.pieces = [('e', x) for x in items]
        touch(it, o)
        return
    if isinstance(o, VSeq) and o.kind == 'list' and isinstance(k, SInt):
        items = it.p.concrete_items(o)
        if items is not None:
            n = len(items)
            if not it.p.decide(z3.And(k.t >= -n, k.t < n), 'index in range'):
                raise PyRaise(IndexError, (), 'assignment index')
            for i in range(n):
                if i == n - 1 or it.p.decide(z3.Or(k.t == i, k.t == i - n), 'index==%d' % i):
                    items[i] = v
                    o.pieces = [('e', x) for x in items]
                    touch(it, o)
                    return
    if isinstance(o, VSeq) and o.kind == 'tuple' or o is None:
        raise PyRaise(TypeError, (), 'no item assignment')
    raise Unsupported('setitem on %r' % (o,))


def delitem(it, o, k):
    o = it.p.force(o)
    if isinstance(o, VDict):
        i = dict_find(it, o, k)
        if i is None:
            raise PyRaise(KeyError, (k,))
        o.items = o.items[:i] + o.items[i + 1:]
        touch(it, o)
        return
    raise Unsupported('del item of %r' % (o,))


def key_eq(it, a, b):
    return it.eq(a, b)


def sdict_get(it, d, k):
    """(present?, value) for the unknown mapping d at key k"""
    p = it.p
    for e in reversed(d.cache):
        kk, pres, v = e[0], e[1], e[2]
        if kk is k:
            return pres, v
        if it.truth(it.eq(kk, k)):
            return pres, v
    if d.idt is not None and isinstance(k, SOpq):
        has = p.decide(p.dict_has(d, k.t), 'has key')
        v = p.dict_get(d, k.t) if has else None
    else:
        has = p.decide(p.fresh('%s_has' % d.name, z3.BoolSort()), 'has key')
        v = p.make(d.vtype, '%s_get' % d.name) if has else None
    # read entries go below later writes
    d.cache = [(k, has, v, 'r')] + list(d.cache) if not any(e[3] == 'w' for e in d.cache) else \
        list(d.cache) + [(k, has, v, 'r')]
    if has and d.__class__ is SDict and p.extra.get('dict_inv'):
        p.extra['dict_inv'](p, d, k, v)
    return has, v


def contains(it, c, x):
    p = it.p
    c = p.force(c)
    x = p.force(x)
    if hasattr(x, 'sym_in'):
        return x.sym_in(it, c)
    if hasattr(c, 'sym_contains'):
        return c.sym_contains(it, x)
    if isinstance(c, VSeq):
        fl = p.flat(c.pieces)
        if any(k == 's' for k, v in fl):
            f = p.extra.get('contains_seg') or it.spec.__dict__.get('contains_seg')
            if f:
                return f(it, c, x)
            raise Unsupported('membership in a sequence of unknown length')
        if all(_conc(v) for k, v in fl) and isinstance(x, SStr) and all(isinstance(v, str) for k, v in fl):
            return SBool(z3.Or([x.t == z3.StringVal(v) for k, v in fl])) if fl else False
        for k, v in fl:
            if v is x and x is not None and not isinstance(x, float):
                return True
            if it.truth(it.eq(v, x)):
                return True
        return False
    if isinstance(c, VDict):
        if isinstance(x, SStr) and all(isinstance(k, str) for k, v in c.items):
            return SBool(z3.Or([x.t == z3.StringVal(k) for k, v in c.items])) if c.items else False
        return dict_find(it, c, x) is not None
    if isinstance(c, SDict):
        return sdict_get(it, c, x)[0]
    if isinstance(c, VSet):
        for k in c.items:
            if k is x:
                return True
            if it.truth(it.eq(k, x)):
                return True
        return False
    if isinstance(c, _st):
        if x is None or isinstance(x, _num):
            raise PyRaise(TypeError, (), 'in <string> requires string')
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        return SBool(z3.Contains(p.sterm(c), p.sterm(x)))
    if isinstance(c, SRef):
        cls = it.p.the_class(c)
        if cls is not None and extract.find_owner(cls, '__contains__')[0] is not None:
            return it.call(it.getattr(c, '__contains__'), [x], {})
        if cls is not None and extract.find_owner(cls, '__iter__')[0] is not None:
            ch = iterate(it, c)
            return contains(it, VSeq('list', [(k, v) for k, v in ch.pieces]), x)
    if c is None or isinstance(c, _num):
        raise PyRaise(TypeError, (), 'not iterable')
    raise Unsupported('in %r' % (c,))


def _conc(v):
    return v is None or isinstance(v, (bool, int, float, str))


def set_add(it, s, x):
    if not contains(it, s, x) is True:
        r = contains(it, s, x)
        if it.truth(r):
            return
        s.items = s.items + [x]
        touch(it, s)


# ------------------------------------------------------------------ operators
def str_concat(it, a, b):
    for x, y, right in ((a, b, False), (b, a, True)):
        if hasattr(x, 'sym_add'):
            return x.sym_add(it, y, right)
    if isinstance(a, str) and isinstance(b, str):
        return a + b
    if a == '' and isinstance(a, str):
        return b
    if b == '' and isinstance(b, str):
        return a
    return SStr(z3.Concat(it.p.sterm(a), it.p.sterm(b)))


def binary(it, op, a, b):
    p = it.p
    a, b = p.force(a), p.force(b)
    if isinstance(op, ast.Add):
        for x, y, right in ((a, b, False), (b, a, True)):
            if hasattr(x, 'sym_add'):
                return x.sym_add(it, y, right)
        if isinstance(a, VSeq) and isinstance(b, VSeq):
            if a.kind != b.kind:
                raise PyRaise(TypeError, (), 'concatenate %s and %s' % (a.kind, b.kind))
            return VSeq(a.kind, list(a.pieces) + list(b.pieces), next(p.births))
        if isinstance(a, _st) and isinstance(b, _st):
            return str_concat(it, a, b)
        if isinstance(a, _st) or isinstance(b, _st) or isinstance(a, VSeq) or isinstance(b, VSeq):
            if not isinstance(a, SRef):
                raise PyRaise(TypeError, (), 'unsupported operand +')
    if isinstance(op, ast.Mod) and isinstance(a, _st):
        return str_format(it, a, b)
    if isinstance(op, ast.Mult) and isinstance(a, _st + (VSeq,)) and isinstance(b, int):
        if isinstance(a, str):
            return a * b
        if isinstance(a, VSeq):
            return VSeq(a.kind, list(a.pieces) * b, next(p.births))
    if isinstance(a, VSet) and isinstance(b, VSet):
        return set_op(it, op, a, b)
    if isinstance(a, SRef):
        m = {ast.Add: '__add__', ast.Sub: '__sub__', ast.BitOr: '__or__', ast.BitAnd: '__and__',
             ast.RShift: '__rshift__', ast.LShift: '__lshift__'}.get(type(op))
        cls = p.the_class(a)
        if cls is not None and m and extract.find_owner(cls, m)[0] is not None:
            return it.call(it.getattr(a, m), [b], {})
        raise PyRaise(TypeError, (), 'unsupported operand types')
    if a is None or b is None or isinstance(b, SRef):
        raise PyRaise(TypeError, (), 'unsupported operand types')
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return concrete_binary(op, a, b)
    if isinstance(a, str) and isinstance(b, str) or isinstance(a, (VSeq, VDict)) or isinstance(b, (VSeq, VDict)):
        raise PyRaise(TypeError, (), 'unsupported operand types')
    if isinstance(a, _num) and isinstance(b, _num):
        return int_binary(it, op, a, b)
    if isinstance(a, _st) or isinstance(b, _st):
        raise PyRaise(TypeError, (), 'unsupported operand types')
    raise Unsupported('binary %s on %r, %r' % (type(op).__name__, a, b))


_cops = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
         ast.Div: lambda a, b: a / b, ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b,
         ast.Pow: lambda a, b: a ** b, ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b,
         ast.BitOr: lambda a, b: a | b, ast.BitAnd: lambda a, b: a & b, ast.BitXor: lambda a, b: a ^ b}


def concrete_binary(op, a, b):
    try:
        if isinstance(op, ast.Pow) and isinstance(b, int) and abs(b) > 100000:
            raise Unsupported('huge power')
        if isinstance(op, ast.LShift) and isinstance(b, int) and b > 100000:
            raise Unsupported('huge shift')
        return _cops[type(op)](a, b)
    except (ZeroDivisionError, ValueError, TypeError, OverflowError) as e:
        raise PyRaise(type(e), (), str(e))


def is_pow2_term(t):
    return t.decl().eq(POW2) if z3.is_app(t) and t.num_args() == 1 else False


def nonneg_pow2(p, k):
    t = POW2(k)
    key = ('pow2', t.get_id())
    if key not in p.bitfacts:
        p.bitfacts.add(key)
        p.extra.setdefault('keep', []).append(t)
        p.assume(z3.Implies(k >= 0, t >= 1))
        p.assume(z3.Implies(k == 0, t == 1))
        p.assume(z3.Implies(k >= 1, t >= 2))
    return t


def low_bits(p, x, k):
    """x mod 2^k; its first facts (k >= 0)"""
    t = MODP(x, k)
    key = ('modp', t.get_id())
    if key not in p.bitfacts:
        p.bitfacts.add(key)
        p.extra.setdefault('keep', []).append(t)
        w = nonneg_pow2(p, k)
        p.assume(z3.Implies(k >= 0, z3.And(t >= 0, t < w)))
        p.assume(z3.Implies(k == 0, t == 0))
    return t


def low_mask(y):
    """k when y is 2^k - 1"""
    if z3.is_app(y) and y.num_args() == 2:
        a, b = y.arg(0), y.arg(1)
        if z3.is_sub(y) and is_pow2_term(a) and z3.is_int_value(b) and b.as_long() == 1:
            return a.arg(0)
        if z3.is_add(y) and is_pow2_term(b) and z3.is_int_value(a) and a.as_long() == -1:
            return b.arg(0)
        if z3.is_add(y) and is_pow2_term(a) and z3.is_int_value(b) and b.as_long() == -1:
            return a.arg(0)
    return None


def int_binary(it, op, a, b):
    p = it.p
    x, y = p.iterm(a), p.iterm(b)
    if isinstance(op, ast.Add):
        return SInt(x + y)
    if isinstance(op, ast.Sub):
        return SInt(x - y)
    if isinstance(op, ast.Mult):
        return SInt(x * y)
    if isinstance(op, (ast.FloorDiv, ast.Mod)):
        if not p.decide(y != 0, 'divisor nonzero'):
            raise PyRaise(ZeroDivisionError)
        q = pyfloordiv(x, y)
        return SInt(q) if isinstance(op, ast.FloorDiv) else SInt(x - y * q)
    if isinstance(op, ast.Div):
        if not p.decide(y != 0, 'divisor nonzero'):
            raise PyRaise(ZeroDivisionError)
        return FloatVal(FDIV(x, y))
    if isinstance(op, ast.Pow):
        if z3.is_int_value(z3.simplify(x)) and z3.simplify(x).as_long() == 2:
            if not p.decide(y >= 0, 'exponent>=0'):
                return FloatVal(POW(x, y))
            return SInt(nonneg_pow2(p, y))
        if not p.decide(y >= 0, 'exponent>=0'):
            return FloatVal(POW(x, y))
        return SInt(POW(x, y))
    if isinstance(op, (ast.LShift, ast.RShift)):
        if not p.decide(y >= 0, 'shift>=0'):
            raise PyRaise(ValueError, (), 'negative shift count')
        if isinstance(op, ast.LShift):
            xs = z3.simplify(x)
            if z3.is_int_value(xs) and xs.as_long() == 1:
                return SInt(nonneg_pow2(p, y))
            t = SHL(x, y)
            p.assume(t == x * nonneg_pow2(p, y))
            return SInt(t)
        ys = z3.simplify(y)
        if z3.is_int_value(ys) and ys.as_long() == 0:
            return SInt(x)
        return SInt(shr_term(p, x, y))
    if isinstance(op, ast.BitAnd):
        return SInt(band_term(p, x, y))
    if isinstance(op, ast.BitOr):
        return SInt(bor_term(p, x, y))
    if isinstance(op, ast.BitXor):
        xs, ys = sorted((x, y), key=lambda t: t.get_id())
        return SInt(BXOR(x, y))
    raise Unsupported('int op %s' % type(op).__name__)


def pyfloordiv(x, y):
    """Python floor division from SMT-LIB Euclidean div"""
    q = x / y
    return z3.If(y > 0, q, z3.If(x == y * q, q, q - 1))


def shr_term(p, x, y):
    t = SHR(x, y)
    key = ('shr', t.get_id())
    if key not in p.bitfacts:
        p.bitfacts.add(key)
        p.extra.setdefault('keep', []).append(t)
        p.assume(z3.Implies(x >= 0, t >= 0))
        p.assume(z3.Implies(x < 0, t < 0))
        p.assume(z3.Implies(y == 0, t == x))
        p.assume(z3.Implies(x == 0, t == 0))
    return t


def band_term(p, x, y):
    if is_pow2_term(y):
        x, y = x, y
    elif is_pow2_term(x):
        x, y = y, x
    else:
        xs, ys = z3.simplify(x), z3.simplify(y)
        for u, v in ((xs, y), (ys, x)):
            if z3.is_int_value(u):
                n = u.as_long()
                if n >= 0 and (n & (n + 1)) == 0:
                    return v % (n + 1)
        for u, v in ((x, y), (y, x)):
            k = low_mask(v)
            if k is not None:
                return low_bits(p, u, k)
        t = BAND(x, y)
        return t
    k = y.arg(0)
    t = BAND(x, y)
    key = ('band', t.get_id())
    if key not in p.bitfacts:
        p.bitfacts.add(key)
        p.extra.setdefault('keep', []).append(t)
        p.assume(t == z3.If(BIT(x, k), y, z3.IntVal(0)))
    return t


def bor_term(p, x, y):
    t = BOR(x, y)
    key = ('bor', t.get_id())
    if key not in p.bitfacts:
        p.bitfacts.add(key)
        p.extra.setdefault('keep', []).append(t)
        if is_pow2_term(y):
            for j in p.bitidx:
                p.assume(BIT(t, j) == z3.Or(BIT(x, j), j == y.arg(0)))
            p.assume(z3.Implies(x >= 0, t >= 0))
            # disjoint bits add up
            k = y.arg(0)
            p.assume(z3.Implies(z3.And(k >= 0, x >= 0, x < y), t == x + y))
        elif x.decl().eq(SHL) and y.decl().eq(MODP) and x.arg(1).eq(y.arg(1)):
            p.assume(z3.Implies(x.arg(1) >= 0, t == x + y))
    return t


def unary(it, op, v):
    v = it.p.force(v)
    if isinstance(v, (int, float)):
        if isinstance(op, ast.USub):
            return -v
        if isinstance(op, ast.UAdd):
            return +v
        if isinstance(op, ast.Invert) and isinstance(v, int):
            return ~v
    if isinstance(v, (SInt, SBool)):
        t = it.p.iterm(v)
        if isinstance(op, ast.USub):
            return SInt(-t)
        if isinstance(op, ast.UAdd):
            return SInt(t)
        if isinstance(op, ast.Invert):
            return SInt(-t - 1)
    if v is None or isinstance(v, _st):
        raise PyRaise(TypeError, (), 'bad operand type for unary')
    raise Unsupported('unary on %r' % (v,))


def inplace(it, op, a, b):
    a = it.p.force(a)
    if isinstance(a, VSeq) and a.kind == 'list' and isinstance(op, ast.Add):
        call_method(it, a, 'extend', [b], {})
        return a
    if isinstance(a, VSet):
        b = it.p.force(b)
        if isinstance(op, ast.BitOr):
            call_method(it, a, 'update', [b], {})
            return a
        r = set_op(it, op, a, b)
        a.items = r.items
        touch(it, a)
        return a
    return binary(it, op, a, b)


def set_op(it, op, a, b):
    p = it.p
    s = VSet(list(a.items) if not isinstance(op, (ast.BitAnd, ast.Sub)) else [], next(p.births))
    if isinstance(op, ast.BitOr):
        for x in b.items:
            set_add(it, s, x)
        return s
    if isinstance(op, ast.Sub):
        for x in a.items:
            if not it.truth(contains(it, b, x)):
                s.items = s.items + [x]
        return s
    if isinstance(op, ast.BitAnd):
        for x in a.items:
            if it.truth(contains(it, b, x)):
                s.items = s.items + [x]
        return s
    raise Unsupported('set operator')


def str_format(it, f, b):
    b = it.p.force(b)
    args = it.p.concrete_items(b) if isinstance(b, VSeq) and b.kind == 'tuple' else [b]
    if not isinstance(f, str) or args is None:
        raise Unsupported('string formatting')
    out = ''
    i = 0
    pos = 0
    for m in re.finditer(r'%(.)', f):
        out = str_concat(it, out, f[pos:m.start()])
        pos = m.end()
        c = m.group(1)
        if c == '%':
            out = str_concat(it, out, '%')
            continue
        if i >= len(args):
            raise PyRaise(TypeError, (), 'not enough arguments for format string')
        if c in 'sr':
            out = str_concat(it, out, to_str(it, args[i]))
        elif c == 'd':
            out = str_concat(it, out, to_str(it, args[i]))
        else:
            raise Unsupported('format %' + c)
        i += 1
    return str_concat(it, out, f[pos:])


def to_str(it, v):
    v = it.p.force(v)
    if isinstance(v, (bool, int, float, str)) or v is None:
        return str(v)
    if isinstance(v, SStr):
        return v
    if isinstance(v, SInt):
        return SStr(STRINT(v.t))
    if isinstance(v, SRef):
        cs = it.p.classes[v.key]
        vc = it.virtual_for(cs, '__str__') or it.virtual_for(cs, '__repr__')
        if vc is not None:
            return it.apply_contract(vc, {'self': v})
        cls = it.p.the_class(v)
        for n in ('__str__', '__repr__'):
            owner, fn = extract.find_owner(cls, n)
            if owner is not None and owner is not object and isinstance(fn, pytypes.FunctionType):
                return it.call_function(fn, [v], {}, owner)
    # text of anything else is only used in messages
    return SStr(it.p.fresh('str', z3.StringSort()))


# ------------------------------------------------------------------ methods of builtins
METHODS = {
    VSeq: {'append', 'extend', 'pop', 'insert', 'index', 'remove', 'reverse', 'sort', 'count', 'clear', 'copy'},
    VDict: {'items', 'keys', 'values', 'get', 'update', 'pop', 'copy', 'setdefault', 'clear'},
    SDict: {'get', 'items', 'keys', 'values', 'copy', 'update'},
    VSet: {'add', 'update', 'copy', 'discard', 'remove', 'union', 'difference', 'issubset', 'intersection', 'clear'},
}
STRM = {'lower', 'upper', 'replace', 'split', 'join', 'startswith', 'endswith', 'strip', 'lstrip', 'rstrip', 'format',
        'find', 'isdigit', 'count', 'index', 'splitlines'}


def has_method(o, name):
    for k, ms in METHODS.items():
        if isinstance(o, k):
            if isinstance(o, VSeq) and o.kind == 'tuple':
                return name in ('index', 'count')
            return name in ms
    if isinstance(o, _st):
        return name in STRM
    return False


def call_method(it, o, name, args, kwargs):
    p = it.p
    if isinstance(o, VirtualMethod):
        raise Unsupported('internal')
    if isinstance(o, SuperVal):
        return None
    if isinstance(o, VSeq):
        return seq_method(it, o, name, args, kwargs)
    if isinstance(o, VDict):
        return dict_method(it, o, name, args, kwargs)
    if isinstance(o, SDict):
        if name == 'get':
            pres, v = sdict_get(it, o, args[0])
            return v if pres else (args[1] if len(args) > 1 else None)
        raise Unsupported('unknown mapping .%s()' % name)
    if isinstance(o, VSet):
        if name == 'add':
            set_add(it, o, p.force(args[0]))
            return None
        if name == 'update':
            for a in args:
                for k, x in to_pieces(it, a):
                    if k == 's':
                        raise Unsupported('set update')
                    set_add(it, o, x)
            return None
        if name == 'copy':
            return VSet(list(o.items), next(p.births))
        if name == 'clear':
            o.items = []
            touch(it, o)
            return None
        if name in ('union', 'difference', 'intersection'):
            b = TYPES[set](it, args, {})
            return set_op(it, {'union': ast.BitOr(), 'difference': ast.Sub(), 'intersection': ast.BitAnd()}[name],
                          o, b)
        if name in ('discard', 'remove'):
            for i, x in enumerate(o.items):
                if it.truth(it.eq(x, args[0])):
                    o.items = o.items[:i] + o.items[i + 1:]
                    touch(it, o)
                    return None
            if name == 'remove':
                raise PyRaise(KeyError)
            return None
        raise Unsupported('set.%s' % name)
    if isinstance(o, _st):
        return str_method(it, o, name, args, kwargs)
    if isinstance(o, re.Pattern) or o.__class__.__module__ == 're':
        if all(_conc(a) for a in args):
            return it.from_py(getattr(o, name)(*args))
        if isinstance(o, re.Pattern) and args and hasattr(args[-1], 'sym_re'):
            return args[-1].sym_re(it, name, [o] + list(args))
    raise Unsupported('method %s of %r' % (name, o))


def seq_method(it, o, name, args, kwargs):
    p = it.p
    if name == 'append':
        o.pieces = list(o.pieces) + [('e', args[0])]
        touch(it, o)
        return None
    if name == 'extend':
        o.pieces = list(o.pieces) + to_pieces(it, args[0])
        touch(it, o)
        return None
    if name == 'insert' and p.force(args[0]) == 0:
        o.pieces = [('e', args[1])] + list(o.pieces)
        touch(it, o)
        return None
    if name == 'pop':
        i = p.force(args[0]) if args else -1
        if not isinstance(i, int):
            raise Unsupported('pop index')
        ok, v = p.elem_at(o, i)
        if not ok:
            raise PyRaise(IndexError, (), 'pop')
        fl = p.flat(o.pieces)
        j = i if i >= 0 else len(fl) + i
        o.pieces = fl[:j] + fl[j + 1:]
        touch(it, o)
        return v
    if name == 'copy':
        return VSeq('list', fl_copy(p, o), next(p.births))
    if name == 'clear':
        o.pieces = []
        touch(it, o)
        return None
    items = p.concrete_items(o)
    if name == 'reverse' and items is not None:
        o.pieces = [('e', x) for x in reversed(items)]
        touch(it, o)
        return None
    if name == 'index' and items is not None and len(args) == 1:
        for i, x in enumerate(items):
            if it.truth(it.eq(x, args[0])):
                return i
        raise PyRaise(ValueError, (), 'index')
    if name == 'count' and items is not None:
        n = 0
        for x in items:
            if it.truth(it.eq(x, args[0])):
                n += 1
        return n
    if name == 'insert' and items is not None and isinstance(p.force(args[0]), int):
        items.insert(p.force(args[0]), args[1])
        o.pieces = [('e', x) for x in items]
        touch(it, o)
        return None
    if name == 'remove' and items is not None:
        for i, x in enumerate(items):
            if it.truth(it.eq(x, args[0])):
                del items[i]
                o.pieces = [('e', x) for x in items]
                touch(it, o)
                return None
        raise PyRaise(ValueError)
    if name == 'sort':
        r = sorted_(it, [o], kwargs)
        o.pieces = list(r.pieces)
        touch(it, o)
        return None
    raise Unsupported('list.%s' % name)


def dict_method(it, o, name, args, kwargs):
    p = it.p
    if name == 'items':
        return VSeq('list', [('e', VSeq('tuple', [('e', k), ('e', v)], next(p.births))) for k, v in o.items],
                    next(p.births))
    if name == 'keys':
        return VSeq('list', [('e', k) for k, v in o.items], next(p.births))
    if name == 'values':
        return VSeq('list', [('e', v) for k, v in o.items], next(p.births))
    if name == 'get':
        i = dict_find(it, o, args[0])
        return o.items[i][1] if i is not None else (args[1] if len(args) > 1 else None)
    if name == 'copy':
        return VDict(list(o.items), next(p.births))
    if name == 'clear':
        o.items = []
        touch(it, o)
        return None
    if name == 'setdefault':
        i = dict_find(it, o, args[0])
        if i is not None:
            return o.items[i][1]
        v = args[1] if len(args) > 1 else None
        setitem(it, o, args[0], v)
        return v
    if name == 'update':
        for a in args:
            a = p.force(a)
            if not isinstance(a, VDict):
                raise Unsupported('dict.update')
            for k, v in a.items:
                setitem(it, o, k, v)
        for k, v in kwargs.items():
            setitem(it, o, k, v)
        return None
    if name == 'pop':
        i = dict_find(it, o, args[0])
        if i is None:
            if len(args) > 1:
                return args[1]
            raise PyRaise(KeyError)
        v = o.items[i][1]
        o.items = o.items[:i] + o.items[i + 1:]
        touch(it, o)
        return v
    raise Unsupported('dict.%s' % name)


LOWER = z3.Function('str_lower', z3.StringSort(), z3.StringSort())


def str_method(it, o, name, args, kwargs):
    p = it.p
    args = [p.force(a) for a in args]
    if name == 'join':
        pieces = to_pieces(it, args[0])
        if any(k == 's' for k, v in pieces):
            f = it.spec.__dict__.get('join_seg')
            if f:
                return f(it, o, VSeq('list', pieces))
            raise Unsupported('join over unknown length')
        out = ''
        for i, (k, v) in enumerate(pieces):
            v = p.force(v)
            if not isinstance(v, _st) and not hasattr(v, 'sym_add'):
                raise PyRaise(TypeError, (), 'join of non-string')
            if i:
                out = str_concat(it, out, o)
            out = str_concat(it, out, v)
        return out
    if isinstance(o, str) and all(_conc(a) for a in args):
        try:
            return it.from_py(getattr(o, name)(*args, **kwargs))
        except (TypeError, ValueError) as e:
            raise PyRaise(type(e), (), str(e))
    if name == 'lower':
        return SStr(LOWER(p.sterm(o)))
    if name == 'startswith' and isinstance(args[0], _st):
        return SBool(z3.PrefixOf(p.sterm(args[0]), p.sterm(o)))
    if name == 'endswith' and isinstance(args[0], _st):
        return SBool(z3.SuffixOf(p.sterm(args[0]), p.sterm(o)))
    raise Unsupported('str.%s on symbolic text' % name)


# ------------------------------------------------------------------ builtin functions
def sorted_(it, args, kwargs):
    p = it.p
    pieces = to_pieces(it, args[0])
    if any(k == 's' for k, v in pieces):
        f = it.spec.__dict__.get('sorted_seq')
        if f:
            return f(it, pieces, kwargs)
        raise Unsupported('sorted of unknown length')
    items = [v for k, v in pieces]
    key = kwargs.get('key')
    rev = bool(p.force(kwargs.get('reverse', False)))
    keys = [p.force(it.call(key, [x], {})) if key is not None else p.force(x) for x in items]

    def less(a, b):
        a, b = p.force(a), p.force(b)
        if isinstance(a, VSeq) and isinstance(b, VSeq):
            xa, xb = p.concrete_items(a), p.concrete_items(b)
            if xa is None or xb is None:
                raise Unsupported('sort key')
            for u, v in zip(xa, xb):
                if not it.truth(it.eq(u, v)):
                    return less(u, v)
            return len(xa) < len(xb)
        if isinstance(a, SStr) or isinstance(b, SStr):
            return it.truth(SBool(p.sterm(a) < p.sterm(b)))
        return it.truth(it.compare(ast.Lt(), a, b))
    # stable insertion sort
    out = []
    for x, k in zip(items, keys):
        j = len(out)
        while j > 0 and (less(k, out[j - 1][1]) if not rev else less(out[j - 1][1], k)):
            j -= 1
        out.insert(j, (x, k))
    return VSeq('list', [('e', x) for x, k in out], next(p.births))


def range_(it, args, kwargs):
    p = it.p
    a = [p.force(x) for x in args]
    if all(isinstance(x, int) for x in a):
        r = range(*a)
        if len(r) > 3000:
            raise Unsupported('large range')
        return VSeq('list', [('e', i) for i in r], next(p.births))
    if any(x is None or isinstance(x, (str, VSeq, SStr)) for x in a):
        raise PyRaise(TypeError, (), 'range argument')
    f = it.spec.__dict__.get('sym_range')
    if f is not None:
        return f(it, a)
    if len(a) > 2:
        raise Unsupported('range of symbolic length with a step')
    lo, hi = (p.iterm(a[0]), p.iterm(a[1])) if len(a) == 2 else (z3.IntVal(0), p.iterm(a[0]))
    seg = p.seg(p.fresh('range', RSeq), INT)
    p.assume(RLEN(seg.t) == z3.If(hi > lo, hi - lo, 0))

    def item(it2, v, done):
        return SInt(z3.simplify(lo + it2.p.len_of(done)))
    return Chunks([('s', seg)], item)


def enumerate_(it, args, kwargs):
    ch = iterate(it, args[0])
    start = it.p.force(args[1]) if len(args) > 1 else it.p.force(kwargs.get('start', 0))

    def item(it2, v, done):
        n = it2.p.len_of(done)
        n = z3.simplify(n)
        i = n.as_long() + start if z3.is_int_value(n) and isinstance(start, int) else SInt(n + it2.p.iterm(start))
        return VSeq('tuple', [('e', i), ('e', ch.item(it2, v, done))], next(it2.p.births))
    return Chunks(ch.pieces, item)


def zip_(it, args, kwargs):
    p = it.p
    ls = []
    for a in args:
        pcs = to_pieces(it, a)
        if any(k == 's' for k, v in pcs):
            raise Unsupported('zip of unknown length')
        ls.append([v for k, v in pcs])
    return VSeq('list', [('e', VSeq('tuple', [('e', x) for x in t], next(p.births))) for t in zip(*ls)],
                next(p.births))


def minmax(sign):
    def f(it, args, kwargs):
        p = it.p
        if kwargs:
            raise Unsupported('min/max key')
        if len(args) == 1:
            pcs = to_pieces(it, args[0])
            if any(k == 's' for k, v in pcs):
                raise Unsupported('min/max of unknown length')
            items = [p.force(v) for k, v in pcs]
        else:
            items = [p.force(a) for a in args]
        if not items:
            raise PyRaise(ValueError, (), 'empty min/max')
        if all(isinstance(x, (int, float)) for x in items):
            return min(items) if sign < 0 else max(items)
        if any(x is None for x in items):
            raise PyRaise(TypeError, (), 'min/max of None')
        acc = p.iterm(items[0])
        for x in items[1:]:
            t = p.iterm(x)
            acc = z3.If(t < acc, t, acc) if sign < 0 else z3.If(t > acc, t, acc)
        return SInt(acc)
    return f


def abs_(it, args, kwargs):
    v = it.p.force(args[0])
    if isinstance(v, (int, float)):
        return abs(v)
    if v is None or isinstance(v, _st):
        raise PyRaise(TypeError, (), 'abs')
    t = it.p.iterm(v)
    return SInt(z3.If(t < 0, -t, t))


def anyall(want):
    def f(it, args, kwargs):
        pcs = to_pieces(it, args[0])
        if any(k == 's' for k, v in pcs):
            h = it.spec.__dict__.get('anyall_seg')
            raise Unsupported('any/all of unknown length')
        for k, v in pcs:
            if it.truth(v) == want:
                return want
        return not want
    return f


def sum_(it, args, kwargs):
    acc = args[1] if len(args) > 1 else 0
    for k, v in to_pieces(it, args[0]):
        if k == 's':
            raise Unsupported('sum of unknown length')
        acc = binary(it, ast.Add(), acc, v)
    return acc


def getattr_fn(it, args, kwargs):
    name = it.p.force(args[1])
    if not isinstance(name, str):
        f = it.spec.__dict__.get('dyn_getattr')
        if f:
            return f(it, args)
        raise Unsupported('getattr with symbolic name')
    if len(args) > 2:
        return it.getattr(args[0], name, args[2])
    return it.getattr(args[0], name)


def hasattr_fn(it, args, kwargs):
    name = it.p.force(args[1])
    if not isinstance(name, str):
        raise Unsupported('hasattr')
    sentinel = object()
    return it.getattr(args[0], name, sentinel) is not sentinel


def setattr_fn(it, args, kwargs):
    name = it.p.force(args[1])
    if not isinstance(name, str):
        raise Unsupported('setattr')
    it.setattr(args[0], name, args[2])
    return None


def vars_(it, args, kwargs):
    """snapshot of the instance attributes (field names come from the declared schema)"""
    p = it.p
    v = p.force(args[0])
    if not isinstance(v, SRef):
        raise Unsupported('vars of %r' % (v,))
    cls = p.the_class(v)
    names = list(p.spec.fields(cls)) if v.key not in p.closed else []
    names += [f for (k, f) in p.store if k == v.key and f not in names]
    return VDict([(n, p.get_field(v, n)[1]) for n in names], next(p.births))


def int_fn(it, args, kwargs):
    v = it.p.force(args[0]) if args else 0
    if all(_conc(it.p.force(a)) for a in args):
        try:
            return int(*[it.p.force(a) for a in args])
        except (ValueError, TypeError) as e:
            raise PyRaise(type(e), (), str(e))
    if isinstance(v, SInt) and len(args) == 1:
        return v
    if isinstance(v, SBool):
        return SInt(it.p.iterm(v))
    if isinstance(v, FloatVal):
        return SInt(z3.Function('int_of_float', z3.IntSort(), z3.IntSort())(v.t))
    if hasattr(v, 'sym_int'):
        return v.sym_int(it, args)
    f = it.spec.__dict__.get('int_of_str')
    if f and isinstance(v, SStr):
        return f(it, args)
    raise Unsupported('int(%r)' % (v,))


def str_fn(it, args, kwargs):
    return to_str(it, args[0]) if args else ''


def bool_fn(it, args, kwargs):
    v = it.p.force(args[0])
    return v if isinstance(v, SBool) else it.truth(v)


def list_fn(it, args, kwargs):
    return VSeq('list', to_pieces(it, args[0]) if args else [], next(it.p.births))


def tuple_fn(it, args, kwargs):
    return VSeq('tuple', to_pieces(it, args[0]) if args else [], next(it.p.births))


def set_fn(it, args, kwargs):
    s = VSet([], next(it.p.births))
    if args:
        for k, v in to_pieces(it, args[0]):
            if k == 's':
                f = it.spec.__dict__.get('set_of')
                if f:
                    return f(it, to_pieces(it, args[0]))
                raise Unsupported('set of unknown length')
            set_add(it, s, v)
    return s


def dict_fn(it, args, kwargs):
    d = VDict([], next(it.p.births))
    if args:
        a = it.p.force(args[0])
        if isinstance(a, VDict):
            d.items = list(a.items)
        else:
            for k, v in to_pieces(it, a):
                x, y = unpack(it, v, 2, False)
                setitem(it, d, x, y)
    for k, v in kwargs.items():
        setitem(it, d, k, v)
    return d


def reversed_(it, args, kwargs):
    pcs = to_pieces(it, args[0])
    if any(k == 's' for k, v in pcs):
        raise Unsupported('reversed of unknown length')
    return VSeq('list', list(reversed(pcs)), next(it.p.births))


def repr_(it, args, kwargs):
    v = it.p.force(args[0])
    if isinstance(v, str):
        return repr(v)
    return to_str(it, v)


def hash_(it, args, kwargs):
    f = it.spec.__dict__.get('hash_model')
    if f is None:
        raise Unsupported('hash')
    return f(it, args[0])


def deepcopy_(it, args, kwargs):
    return deep(it, args[0], {})


def deep(it, v, memo):
    p = it.p
    v = p.force(v)
    if isinstance(v, VSeq):
        fl = p.flat(v.pieces)
        if any(k == 's' for k, x in fl):
            if it.spec.__dict__.get('deepcopy_identity'):
                return VSeq(v.kind, list(v.pieces), next(p.births))
            raise Unsupported('deepcopy of unknown length')
        return VSeq(v.kind, [('e', deep(it, x, memo)) for k, x in fl], next(p.births))
    if isinstance(v, VDict):
        return VDict([(deep(it, k, memo), deep(it, x, memo)) for k, x in v.items], next(p.births))
    if isinstance(v, VSet):
        return VSet(list(v.items), next(p.births))
    if isinstance(v, SRef):
        if any(any(issubclass(c, k) for k in it.spec.immutable) for c in p.classes[v.key] if c is not None):
            return v        # immutable structure: a copy is indistinguishable except by identity
        cls = p.the_class(v)
        if cls is None:
            return None
        if v.key in memo:
            return memo[v.key]
        owner, fn = extract.find_owner(cls, '__deepcopy__')
        if fn is not None:
            raise Unsupported('__deepcopy__')
        n = p.new_object(cls)
        memo[v.key] = n
        names = list(p.spec.fields(cls)) if v.key not in p.closed else \
            [f for (k, f) in list(p.store) if k == v.key]
        for f in names:
            p.store[(n.key, f)] = deep(it, p.field(v, f), memo)
        p.finish_object(n)
        return n
    return v


def shallow_(it, args, kwargs):
    v = it.p.force(args[0])
    if isinstance(v, VSeq):
        return VSeq(v.kind, list(v.pieces), next(it.p.births))
    if isinstance(v, VDict):
        return VDict(list(v.items), next(it.p.births))
    if isinstance(v, VSet):
        return VSet(list(v.items), next(it.p.births))
    if isinstance(v, SRef):
        p = it.p
        cls = p.the_class(v)
        if cls is None:
            return None
        for m in ('__copy__', '__reduce__', '__reduce_ex__', '__getstate__', '__setstate__', '__getnewargs__'):
            if any(m in k.__dict__ for k in cls.__mro__ if k is not object):
                raise Unsupported(m)
        n = p.new_object(cls)
        names = list(p.spec.fields(cls)) if v.key not in p.closed else [f for (k, f) in list(p.store) if k == v.key]
        for f in names:
            p.store[(n.key, f)] = p.field(v, f)
        p.finish_object(n)
        return n
    if isinstance(v, (SInt, SBool, SStr, SOpq, int, str, bool, type(None))):
        return v
    raise Unsupported('copy.copy')


def re_fn(name):
    real = getattr(re, name)

    def f(it, args, kwargs):
        a = [it.p.force(x) for x in args]
        if all(_conc(x) or isinstance(x, re.Pattern) for x in a):
            try:
                return it.from_py(real(*a, **{k: it.p.force(v) for k, v in kwargs.items()}))
            except TypeError as e:
                raise PyRaise(TypeError, (), str(e))
        if len(a) > 1 and hasattr(a[1], 'sym_re'):
            return a[1].sym_re(it, name, a + [it.p.force(v) for v in kwargs.values()])
        raise Unsupported('re.%s on symbolic text' % name)
    return f


def callable_(it, args, kwargs):
    v = it.p.force(args[0])
    return isinstance(v, (FuncVal, BoundMethod, Closure, ModelMethod, VirtualMethod, type, pytypes.FunctionType))


def map_(it, args, kwargs):
    pcs = to_pieces(it, args[1])
    if any(k == 's' for k, v in pcs):
        raise Unsupported('map over unknown length')
    return VSeq('list', [('e', it.call(args[0], [v], {})) for k, v in pcs], next(it.p.births))


def iter_(it, args, kwargs):
    return VSeq('list', to_pieces(it, args[0]), next(it.p.births))


FUNCTIONS = {
    isinstance: isinstance_, len: len_, sorted: sorted_, min: minmax(-1), max: minmax(1), abs: abs_,
    any: anyall(True), all: anyall(False), sum: sum_, getattr: getattr_fn, hasattr: hasattr_fn,
    setattr: setattr_fn, repr: repr_, hash: hash_, vars: vars_, callable: callable_, iter: iter_,
    print: lambda it, a, k: None,
    copy.deepcopy: deepcopy_, copy.copy: shallow_,
    re.search: re_fn('search'), re.match: re_fn('match'), re.fullmatch: re_fn('fullmatch'), re.sub: re_fn('sub'), re.compile: re_fn('compile'),
    issubclass: lambda it, a, k: issubclass(it.p.force(a[0]), it.p.force(a[1])),
    id: lambda it, a, k: SInt(it.p.fresh('id', z3.IntSort())),
}

import collections as _c
TYPES = {
    type: type_, range: range_, enumerate: enumerate_, zip: zip_, int: int_fn, str: str_fn, bool: bool_fn,
    list: list_fn, tuple: tuple_fn, set: set_fn, frozenset: set_fn, dict: dict_fn, reversed: reversed_,
    map: map_, _c.OrderedDict: dict_fn,
    object: lambda it, a, k: (_ for _ in ()).throw(Unsupported('object()')),
}
