"""Symbolic interpreter for the Python subset used by the functions under contract."""
import ast
import builtins
import copy
import re
import types as pytypes
import z3

from .types import *
from .core import *
from . import extract
from . import pymodels
from . import env

MISSING = object()


class Frame(object):
    def __init__(self, fn, node, globs, parent=None, owner=None):
        self.fn = fn
        self.node = node
        self.globs = globs
        self.locals = {}
        self.parent = parent
        self.owner = owner
        self.names = extract.local_names(node)
        self.loopcount = {}


def is_concrete(v):
    return v is None or isinstance(v, (bool, int, float, str, bytes, type, pytypes.ModuleType,
                                       pytypes.FunctionType, pytypes.BuiltinFunctionType, re.Pattern)) or v is Ellipsis


class Interp(object):
    def __init__(self, path, repo_prefix=None):
        self.p = path
        self.eng = path.engine
        self.spec = path.spec
        self.stack = []
        self.depth = 0
        self.repo = repo_prefix or (env.REPO.rstrip('/') + '/')

    # ================================================================ calls
    def call_function(self, fn, args, kwargs, owner=None, force_inline=False):
        """fn: real python function object"""
        key = (fn.__module__, fn.__qualname__)
        if fn in self.spec.opaque_calls:
            return self.spec.opaque_calls[fn](self, args, kwargs)
        if not force_inline:
            c = self.spec.contracts.get(key)
            if c is not None and key not in self._inline_ok():
                return self.call_contract(c, fn, args, kwargs)
        return self.inline(fn, args, kwargs, owner)

    def _inline_ok(self):
        return self.p.extra.get('inline', ())

    def run_inline(self, fn, args, owner=None):
        """the value the real body of fn returns for these arguments (used in relational postconditions)"""
        return self.inline(fn, args, {}, owner)

    def in_repo(self, fn):
        try:
            return fn.__code__.co_filename.startswith(self.repo) or fn.__module__ in self.spec.external
        except AttributeError:
            return False

    def inline(self, fn, args, kwargs, owner=None):
        if not self.in_repo(fn):
            raise Unsupported('call of external function %s.%s' % (fn.__module__, fn.__qualname__))
        node = extract.fn_ast(fn)
        if isinstance(node, ast.FunctionDef):
            for d in node.decorator_list:
                if not (isinstance(d, ast.Name) and d.id in ('property', 'staticmethod', 'classmethod')):
                    raise Unsupported('decorator on %s' % fn.__qualname__)
        sig = fn.__qualname__
        if sum(1 for f in self.stack if f.fn is fn) >= self.p.extra.get('recursion', 1):
            if not self._concrete_rec(args):
                raise Unsupported('recursion without contract: %s' % sig)
        if len(self.stack) > self.spec.inline_limit:
            raise Unsupported('inlining too deep at %s' % sig)
        self.eng.inlined.add((fn.__module__, fn.__qualname__))
        fr = Frame(fn, node, fn.__globals__, None, owner)
        if fn.__closure__:
            fr.parent = {n: c.cell_contents for n, c in zip(fn.__code__.co_freevars, fn.__closure__)
                         if self._cell(c)}
        defaults = fn.__defaults__ or ()
        kwdefaults = fn.__kwdefaults__ or {}
        self.bind_params(fr, node.args, args, kwargs, [self.from_py(d) for d in defaults],
                         {k: self.from_py(v) for k, v in kwdefaults.items()}, sig)
        return self.run_body(fr)

    @staticmethod
    def _cell(c):
        try:
            c.cell_contents
            return True
        except ValueError:
            return False

    def _concrete_rec(self, args):
        return len(self.stack) < 25 and self.p.extra.get('concrete', False)

    def run_body(self, fr):
        node = fr.node
        self.stack.append(fr)
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            if extract.is_generator(node):
                fr.yields = []
                try:
                    self.exec_block(node.body, fr)
                except ReturnEx:
                    pass
                return VSeq('list', fr.yields, next(self.p.births))
            try:
                self.exec_block(node.body, fr)
            except ReturnEx as e:
                return e.value
            return None
        finally:
            self.stack.pop()

    def bind_params(self, fr, a, args, kwargs, defaults, kwdefaults, sig):
        names = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        vals = {}
        args = list(args)
        if len(args) > len(names):
            if not a.vararg:
                raise PyRaise(TypeError, (), '%s() takes %d positional arguments' % (sig, len(names)))
            vals[a.vararg.arg] = VSeq('tuple', [('e', x) for x in args[len(names):]], next(self.p.births))
            args = args[:len(names)]
        elif a.vararg:
            vals[a.vararg.arg] = VSeq('tuple', [], next(self.p.births))
        for n, v in zip(names, args):
            vals[n] = v
        for n in list(kwargs):
            if n in names:
                if n in vals:
                    raise PyRaise(TypeError, (), 'multiple values for %s' % n)
                vals[n] = kwargs.pop(n)
        off = len(names) - len(defaults)
        for i, n in enumerate(names):
            if n not in vals:
                if i >= off:
                    vals[n] = defaults[i - off]
                else:
                    raise PyRaise(TypeError, (), '%s() missing argument %s' % (sig, n))
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                vals[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwdefaults:
                vals[x.arg] = kwdefaults[x.arg]
            else:
                raise PyRaise(TypeError, (), 'missing keyword %s' % x.arg)
        if kwargs:
            if not a.kwarg:
                raise PyRaise(TypeError, (), '%s() got unexpected keyword %s' % (sig, list(kwargs)))
            vals[a.kwarg.arg] = VDict([(k, v) for k, v in kwargs.items()], next(self.p.births))
        elif a.kwarg:
            vals[a.kwarg.arg] = VDict([], next(self.p.births))
        fr.locals.update(vals)

    def contract_args(self, c, fn, args, kwargs):
        """bind call arguments to parameter names"""
        node = extract.fn_ast(fn)
        fr = Frame(fn, node, fn.__globals__)
        self.bind_params(fr, node.args, args, kwargs, [self.from_py(d) for d in (fn.__defaults__ or ())],
                         {k: self.from_py(v) for k, v in (fn.__kwdefaults__ or {}).items()}, fn.__qualname__)
        return fr.locals

    def call_contract(self, c, fn, args, kwargs):
        self.eng.used_contracts.add(c.target)
        a = self.contract_args(c, fn, args, kwargs)
        return self.apply_contract(c, a)

    def apply_contract(self, c, a):
        p = self.p
        site = '%s' % c.qualname
        for name, f in c.requires(p, a):
            p.oblige('call %s: requires %s' % (site, name), f)
            p.assume(f if not isinstance(f, bool) else z3.BoolVal(f))
        old = c.old(p, a)
        rs = [(cls, cond) for cls, cond in c.raises.items()]
        for cls, cond in rs:
            f = cond(p, a)
            if isinstance(f, bool):
                f = z3.BoolVal(f)
            if z3.is_false(z3.simplify(f)):
                continue
            if p.choose(2, '%s raises %s' % (site, cls.__name__)) == 1:
                p.assume(f)
                if not p.feasible():
                    raise PathEnd()
                raise PyRaise(cls, (), 'from %s' % site)
        if c.modifies:
            c.modifies(p, a)
        if callable(c.returns) and not isinstance(c.returns, T):
            res = c.returns(p, a)
        elif c.returns is None:
            res = None
        else:
            res = p.make(c.returns, 'ret_%s' % c.qualname.split('.')[-1])
        p.extra['mode'] = 'assume'
        try:
            for name, f in c.ensures(p, a, res, old):
                p.assume(f)
        finally:
            p.extra['mode'] = 'prove'
        return res

    def call(self, f, args, kwargs):
        f = self.p.force(f)
        if hasattr(f, 'sym_call'):
            return f.sym_call(self, args, kwargs)
        if isinstance(f, BoundMethod):
            return self.call_method_fn(f, args, kwargs)
        if isinstance(f, FuncVal):
            return self.call_function(f.fn, args, kwargs, f.owner)
        if isinstance(f, Closure):
            return self.call_closure(f, args, kwargs)
        if isinstance(f, pymodels.VirtualMethod):
            a = {'self': f.obj}
            names = list(f.contract.params)[1:]
            for n, x in zip(names, args):
                a[n] = x
            for n in names[len(args):]:
                a[n] = kwargs.get(n)
            return self.apply_contract(f.contract, a)
        if isinstance(f, ModelMethod):
            return pymodels.call_method(self, f.obj, f.name, args, kwargs)
        if isinstance(f, pymodels.TypeOf):
            f = self.p.the_class(f.ref)
        if isinstance(f, type):
            return self.construct(f, args, kwargs)
        if isinstance(f, pytypes.FunctionType):
            if f in pymodels.FUNCTIONS and f not in self.spec.opaque_calls:
                return pymodels.FUNCTIONS[f](self, args, kwargs)
            return self.call_function(f, args, kwargs)
        try:
            if f in pymodels.FUNCTIONS:
                return pymodels.FUNCTIONS[f](self, args, kwargs)
        except TypeError:
            pass
        if isinstance(f, pytypes.BuiltinFunctionType) and all(is_concrete(x) for x in args) and not kwargs:
            raise Unsupported('builtin %s' % f)
        if isinstance(f, SRef):
            m = self.getattr(f, '__call__')
            return self.call(m, args, kwargs)
        if f is None:
            raise PyRaise(TypeError, (), 'None is not callable')
        raise Unsupported('call of %r' % (f,))

    def call_closure(self, f, args, kwargs):
        fr = Frame(None, f.node, f.frame.globs, f.frame, f.frame.owner)
        self.bind_params(fr, f.node.args, args, kwargs, f.defaults, {}, getattr(f.node, 'name', 'lambda'))
        if len(self.stack) > self.spec.inline_limit:
            raise Unsupported('closures too deep')
        return self.run_body(fr)

    def call_method_fn(self, bm, args, kwargs):
        return self.call_function(bm.fn, [bm.self_] + list(args), kwargs)

    def construct(self, cls, args, kwargs):
        if cls in pymodels.TYPES:
            return pymodels.TYPES[cls](self, args, kwargs)
        if isinstance(cls, type) and issubclass(cls, BaseException):
            return pymodels.ExcVal(cls, args)
        owner, init = extract.find_owner(cls, '__init__')
        if cls.__module__.split('.')[0] != 'pyverilog' and not self._repo_class(cls):
            raise Unsupported('construct external class %s' % cls)
        new_owner, _ = extract.find_owner(cls, '__new__')
        if new_owner is not object:
            raise Unsupported('__new__ in %s' % cls)
        ref = self.p.new_object(cls)
        if init is not None and owner is not object:
            c = self.spec.contracts.get((init.__module__, init.__qualname__))
            self.inline(init, [ref] + list(args), kwargs, owner)
        elif args or kwargs:
            raise PyRaise(TypeError, (), '%s() takes no arguments' % cls.__name__)
        self.p.finish_object(ref)
        return ref

    def _repo_class(self, cls):
        import sys
        m = sys.modules.get(cls.__module__)
        return m is not None and getattr(m, '__file__', '') and m.__file__.startswith(self.repo)

    # ================================================================ import of concrete python data
    def from_py(self, v):
        if is_concrete(v):
            return v
        if isinstance(v, (tuple, list)) and type(v) in (tuple, list):
            return VSeq('tuple' if isinstance(v, tuple) else 'list', [('e', self.from_py(x)) for x in v],
                        next(self.p.births))
        if type(v) in (set, frozenset):
            return VSet([self.from_py(x) for x in sorted(v, key=repr)], next(self.p.births))
        if isinstance(v, dict):
            return VDict([(self.from_py(k), self.from_py(x)) for k, x in v.items()], next(self.p.births))
        if isinstance(v, (pytypes.MethodType,)):
            return BoundMethod(self.from_py(v.__self__), v.__func__)
        if isinstance(v, (pytypes.ModuleType, pytypes.BuiltinFunctionType)):
            return v
        try:
            hash(v)
            if v in pymodels.FUNCTIONS:
                return v
        except TypeError:
            pass
        if hasattr(v, '__dict__') and self._repo_class(type(v)):
            memo = self.p.extra.setdefault('pymemo', {})
            if id(v) in memo:
                return memo[id(v)][0]
            r = self.p.new_object(type(v))
            memo[id(v)] = (r, v)
            for k, x in v.__dict__.items():
                self.p.store[(r.key, k)] = self.from_py(x)
            self.p.finish_object(r)
            return r
        return v

    def to_py(self, v):
        v = self.p.force(v)
        if is_concrete(v):
            return v
        if isinstance(v, VSeq):
            items = self.p.concrete_items(v)
            if items is None:
                raise Unsupported('symbolic sequence')
            items = [self.to_py(x) for x in items]
            return tuple(items) if v.kind == 'tuple' else items
        if isinstance(v, VSet):
            return set(self.to_py(x) for x in v.items)
        if isinstance(v, VDict):
            return dict((self.to_py(k), self.to_py(x)) for k, x in v.items)
        if isinstance(v, SRef):
            cls = self.p.classes[v.key][0]
            o = cls.__new__(cls)
            for (k, f), x in self.p.store.items():
                if k == v.key:
                    o.__dict__[f] = self.to_py(x)
            return o
        if isinstance(v, SInt):
            t = z3.simplify(v.t)
            if z3.is_int_value(t):
                return t.as_long()
        if isinstance(v, SBool):
            t = z3.simplify(v.t)
            if z3.is_true(t):
                return True
            if z3.is_false(t):
                return False
        raise Unsupported('to_py %r' % (v,))

    # ================================================================ names
    def lookup(self, name, fr):
        if name in fr.locals:
            v = fr.locals[name]
            if isinstance(v, Poison):
                raise Unsupported('variable %s lost (%s)' % (name, v.why))
            return v
        if name in fr.names:
            raise PyRaise(UnboundLocalError, (), name)
        par = fr.parent
        while par is not None:
            if isinstance(par, dict):
                if name in par:
                    return self.from_py(par[name])
                break
            if name in par.locals:
                return par.locals[name]
            par = par.parent
        if name in fr.globs:
            return self.wrap_global(fr.globs[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(NameError, (), name)

    def wrap_global(self, v):
        if is_concrete(v) or isinstance(v, (type, pytypes.ModuleType, pytypes.FunctionType)):
            return v
        # module-level containers are shared objects: import once per path
        memo = self.p.extra.setdefault('globals', {})
        if id(v) not in memo:
            memo[id(v)] = (self.from_py(v), v)
        return memo[id(v)][0]

    # ================================================================ attributes
    def getattr(self, obj, name, default=MISSING):
        obj = self.p.force(obj)
        if hasattr(obj, 'sym_getattr'):
            return obj.sym_getattr(self, name, default)
        if isinstance(obj, SRef):
            return self.getattr_ref(obj, name, default)
        if obj is None:
            if default is not MISSING:
                return default
            raise PyRaise(AttributeError, (), "'NoneType' has no attribute '%s'" % name)
        if isinstance(obj, pytypes.ModuleType):
            try:
                return self.wrap_global(getattr(obj, name))
            except AttributeError:
                if default is not MISSING:
                    return default
                raise PyRaise(AttributeError, (), 'module %s has no attribute %s' % (obj.__name__, name))
        if isinstance(obj, type):
            if name == '__name__':
                return obj.__name__
            owner, v = extract.find_owner(obj, name)
            if owner is None:
                if default is not MISSING:
                    return default
                raise PyRaise(AttributeError, (), '%s.%s' % (obj.__name__, name))
            if isinstance(v, pytypes.FunctionType):
                return FuncVal(v, owner)
            if isinstance(v, staticmethod):
                return FuncVal(v.__func__, owner)
            return self.from_py(v)
        if isinstance(obj, pymodels.SuperVal):
            mro = obj.cls_of.__mro__
            i = mro.index(obj.owner)
            for k in mro[i + 1:]:
                if name in k.__dict__:
                    v = k.__dict__[name]
                    if isinstance(v, pytypes.FunctionType):
                        return BoundMethod(obj.self_, v, name)
                    if k is object and name == '__init__':
                        return ModelMethod(obj, '__init__')
                    return self.from_py(v)
            if name == '__init__':
                return ModelMethod(obj, '__init__')
            raise PyRaise(AttributeError, (), name)
        if isinstance(obj, pymodels.TypeOf):
            if name == '__name__' and 'class_name' in self.spec.__dict__:
                return self.spec.class_name(obj.ref)
            return self.getattr(self.p.the_class(obj.ref), name, default)
        if isinstance(obj, pymodels.ExcVal):
            return obj.getattr(self, name)
        if pymodels.has_method(obj, name):
            return ModelMethod(obj, name)
        if isinstance(obj, re.Pattern) or obj.__class__.__module__ == 're':
            return ModelMethod(obj, name)
        if default is not MISSING:
            return default
        if isinstance(obj, (bool, int, float, str, SInt, SBool, SStr, VSeq, VDict, VSet)):
            raise PyRaise(AttributeError, (), '%s has no attribute %s' % (type(obj).__name__, name))
        raise Unsupported('getattr %r.%s' % (obj, name))

    def getattr_ref(self, obj, name, default=MISSING):
        p = self.p
        # virtual contracts cover all possible classes at once
        cs = p.classes[obj.key]
        if len(cs) > 1 and None not in cs:
            vc = self.virtual_for(cs, name)
            if vc is not None:
                return pymodels.VirtualMethod(obj, vc)
            fam = self._common_field(obj, cs, name)
            if fam is not None:
                return fam
        if name == '__class__':
            if len(cs) > 1 and None not in cs and 'class_name' in self.spec.__dict__:
                return pymodels.TypeOf(obj)
            return p.the_class(obj)
        cls = p.the_class(obj)
        if cls is None:
            if default is not MISSING:
                return default
            raise PyRaise(AttributeError, (), "'NoneType' has no attribute '%s'" % name)
        ok, v = p.get_field(obj, name)
        if ok:
            return p.force(v) if not isinstance(v, SUnion) else v
        vc = self.virtual_for((cls,), name)
        if vc is not None and obj.key not in p.closed:
            return pymodels.VirtualMethod(obj, vc)
        owner, v = extract.find_owner(cls, name)
        if owner is None:
            if default is not MISSING:
                return default
            raise PyRaise(AttributeError, (), "'%s' object has no attribute '%s'" % (cls.__name__, name))
        if isinstance(v, pytypes.FunctionType):
            if vc is not None and (v.__module__, v.__qualname__) not in self.spec.contracts:
                return pymodels.VirtualMethod(obj, vc)
            return BoundMethod(obj, v, name)
        if isinstance(v, property):
            return self.call_function(v.fget, [obj], {})
        if isinstance(v, staticmethod):
            return FuncVal(v.__func__, owner)
        if isinstance(v, classmethod):
            return BoundMethod(cls, v.__func__, name)
        if isinstance(v, (pytypes.WrapperDescriptorType, pytypes.MethodDescriptorType, pytypes.BuiltinFunctionType)):
            return ModelMethod(obj, name)
        return self.wrap_global(v)

    def _common_field(self, obj, cs, name):
        """a field with the same declared type in every possible class"""
        if obj.key in self.p.closed:
            return None
        t = None
        for c in cs:
            f = self.spec.fields(c)
            if name not in f:
                return None
            if t is None:
                t = f[name]
            elif t != f[name]:
                return None
        k = (obj.key, name)
        if k in self.p.store:
            return self.p.store[k]

        def fac(sort, suffix):
            return z3.Function('%s%s' % (name, suffix), Ref, sort)(obj.t)
        v = self.p.make(t, name, fac)
        self.p.store[k] = v
        return v

    def virtual_for(self, cs, name):
        for (root, m), c in self.spec.virtuals.items():
            if m == name and all(x is not None and issubclass(x, root) for x in cs):
                return c
        return None

    def setattr(self, obj, name, val):
        obj = self.p.force(obj)
        if isinstance(obj, SRef):
            if self.p.the_class(obj) is None:
                raise PyRaise(AttributeError, (), 'None has no attribute %s' % name)
            self.p.set_field(obj, name, val)
            return
        if obj is None:
            raise PyRaise(AttributeError, (), 'None has no attribute %s' % name)
        raise Unsupported('setattr on %r' % (obj,))

    # ================================================================ truth and comparison
    def truth(self, v):
        """python bool of v (forks)"""
        v = self.p.force(v)
        if hasattr(v, 'sym_truth'):
            return v.sym_truth(self)
        if isinstance(v, SBool):
            return self.p.decide(v.t, 'cond')
        if isinstance(v, SInt):
            return self.p.decide(v.t != 0, 'nonzero')
        if isinstance(v, SStr):
            return self.p.decide(z3.Length(v.t) != 0, 'nonempty')
        if isinstance(v, SRef):
            cs = self.p.classes[v.key]
            if None in cs:
                if self.p.decide_class(v, (None,), 'is None'):
                    return False
                cs = self.p.classes[v.key]
            if any(extract.find_owner(c, '__bool__')[0] is not None for c in cs):
                c = self.p.the_class(v)
                if extract.find_owner(c, '__bool__')[0] is not None:
                    return self.truth(self.call(self.getattr(v, '__bool__'), [], {}))
                return True
            if any(extract.find_owner(c, '__len__')[0] is not None for c in cs):
                c = self.p.the_class(v)
                if extract.find_owner(c, '__len__')[0] is not None:
                    return self.truth(self.call(self.getattr(v, '__len__'), [], {}))
            return True
        if isinstance(v, VSeq):
            if any(k == 'e' for k, x in self.p.flat(v.pieces)):
                return True
            return self.p.decide(self.p.len_of(v.pieces) != 0, 'nonempty')
        if isinstance(v, VDict):
            return bool(v.items)
        if isinstance(v, VSet):
            return bool(v.items)
        if isinstance(v, SDict):
            raise Unsupported('truth of unknown mapping')
        if v is None or isinstance(v, (bool, int, float, str)):
            return bool(v)
        if isinstance(v, SOpq) and 'opq_truth' in self.spec.__dict__:
            return self.truth(self.spec.opq_truth(self, v))
        if isinstance(v, (FuncVal, BoundMethod, Closure, ModelMethod, type, pytypes.FunctionType,
                          pymodels.ExcVal)):
            return True
        if hasattr(v, 'sym_truth'):
            return v.sym_truth(self)
        if v.__class__.__module__ == 're':
            return True
        raise Unsupported('truth of %r' % (v,))

    def eq(self, a, b):
        """a == b : python bool or SBool"""
        p = self.p
        a, b = p.force(a), p.force(b)
        for x, y in ((a, b), (b, a)):
            if hasattr(x, 'sym_eq'):
                return x.sym_eq(self, y)
        if a is b and not isinstance(a, float):
            if isinstance(a, SRef):
                cs = p.classes[a.key]
                # reflexivity through __eq__ is not assumed; fall through unless it is None
            else:
                return True
        if isinstance(a, SRef) or isinstance(b, SRef):
            return self.eq_ref(a, b)
        num = (bool, int, SInt, SBool)
        if isinstance(a, num) and isinstance(b, num):
            if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
                return a == b
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                return SBool(p.bterm(a) == p.bterm(b))
            return SBool(p.iterm(a) == p.iterm(b))
        st = (str, SStr)
        if isinstance(a, st) and isinstance(b, st):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            return SBool(p.sterm(a) == p.sterm(b))
        if a is None or b is None:
            return a is b
        if isinstance(a, SOpq) and isinstance(b, SOpq):
            if not a.t.sort().eq(b.t.sort()):
                raise Unsupported('comparison of different opaque sorts')
            return SBool(a.t == b.t)
        if isinstance(a, SOpq) and isinstance(b, num) or isinstance(b, SOpq) and isinstance(a, num):
            f = self.spec.__dict__.get('opq_num_eq')
            if f:
                return f(self, a, b)
        if isinstance(a, SOpq) and a.t.sort().name() == 'Float' and isinstance(b, st) or \
                isinstance(b, SOpq) and b.t.sort().name() == 'Float' and isinstance(a, st):
            return False
        if isinstance(a, VSeq) and isinstance(b, VSeq):
            return self.eq_seq(a, b)
        if isinstance(a, pymodels.TypeOf) or isinstance(b, pymodels.TypeOf):
            return pymodels.eq_types(self, a, b)
        if isinstance(a, VSet) and isinstance(b, VSet):
            if all(is_concrete(x) for x in a.items + b.items):
                return set(a.items) == set(b.items)
            raise Unsupported('set comparison')
        if isinstance(a, VDict) and isinstance(b, VDict):
            raise Unsupported('dict comparison')
        if is_concrete(a) and is_concrete(b):
            return a == b
        kinds = (num, st, (VSeq,), (VDict, SDict), (VSet,), (SOpq,))
        ka = [i for i, k in enumerate(kinds) if isinstance(a, k)]
        kb = [i for i, k in enumerate(kinds) if isinstance(b, k)]
        if ka and kb and ka != kb and 5 not in ka and 5 not in kb:
            return False
        if isinstance(a, float) and kb and kb[0] != 0 or isinstance(b, float) and ka and ka[0] != 0:
            return False
        raise Unsupported('== on %r and %r' % (a, b))

    def eq_ref(self, a, b):
        p = self.p
        if not isinstance(a, SRef):
            if a is None:
                # None == obj: NoneType.__eq__ gives NotImplemented, then reflected obj.__eq__(None)
                return self.eq_ref(b, a)
            return self.eq_ref(b, a)
        cs = p.classes[a.key]
        if None in cs and len(cs) > 1:
            if p.decide_class(a, (None,), 'is None'):
                return self.eq(None, b)
            cs = p.classes[a.key]
        if cs == (None,):
            return self.eq(None, b)
        vc = self.virtual_for(cs, '__eq__')
        if vc is not None:
            return self.apply_contract(vc, {'self': a, 'other': b})
        c = p.the_class(a)
        owner, fn = extract.find_owner(c, '__eq__')
        if owner is object:
            return SBool(p.term(a) == p.term(b)) if isinstance(b, SRef) else False
        r = self.call_function(fn, [a, b], {}, owner)
        return r

    def eq_seq(self, a, b):
        p = self.p
        if a.kind != b.kind:
            return False
        fa, fb = p.flat(a.pieces), p.flat(b.pieces)
        if len(fa) == len(fb) and all(x[0] == y[0] == 's' and x[1] is y[1] for x, y in zip(fa, fb)):
            return True
        if 'seq_eq' in self.spec.__dict__ and self.spec.seq_eq and any(k == 's' for k, v in fa + fb):
            return self.spec.seq_eq(self, a, b)
        # align by expanding
        i = 0
        la = p.len_of(a.pieces)
        lb = p.len_of(b.pieces)
        if not self.truth(SBool(la == lb)):
            return False
        limit = 12
        while True:
            fa, fb = p.flat(a.pieces), p.flat(b.pieces)
            # strip identical leading pieces
            if i > limit:
                raise Unsupported('sequence comparison too long')
            sa = [v for k, v in fa if k == 's']
            sb = [v for k, v in fb if k == 's']
            if not sa and not sb:
                break
            if sa:
                if not sb:
                    p.split_front(sa[0])
                else:
                    raise Unsupported('comparison of two symbolic sequences')
            else:
                p.split_front(sb[0])
            i += 1
        va, vb = [v for k, v in fa], [v for k, v in fb]
        if len(va) != len(vb):
            return False
        for x, y in zip(va, vb):
            if isinstance(x, SRef) and isinstance(y, SRef) and x.key == y.key:
                continue   # Python's container comparison: identity implies equality
            if not self.truth(self.eq(x, y)):
                return False
        return True

    def neg(self, v):
        if isinstance(v, SBool):
            return SBool(z3.Not(v.t))
        return not self.truth(v)

    def is_(self, a, b):
        p = self.p
        a, b = p.force(a), p.force(b)
        if a is b:
            return True
        if isinstance(a, SRef) and b is None or isinstance(b, SRef) and a is None:
            r = a if isinstance(a, SRef) else b
            return p.decide_class(r, (None,), 'is None') if None in p.classes[r.key] else False
        if isinstance(a, SRef) and isinstance(b, SRef):
            return SBool(a.t == b.t)
        if a is None or b is None:
            return False
        if isinstance(a, pymodels.TypeOf) or isinstance(b, pymodels.TypeOf):
            return pymodels.eq_types(self, a, b)
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return self.eq(a, b)
        if isinstance(a, type) and isinstance(b, type):
            return a is b
        if isinstance(a, SVal) and isinstance(b, SVal) and type(a) is not type(b):
            return False
        if isinstance(a, (VSeq, VDict, VSet)) and isinstance(b, (VSeq, VDict, VSet)):
            return False
        raise Unsupported('is on %r, %r' % (a, b))

    def compare(self, op, a, b):
        p = self.p
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return self.neg(self.is_(a, b))
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.ne(a, b)
        if isinstance(op, ast.In):
            return pymodels.contains(self, b, a)
        if isinstance(op, ast.NotIn):
            return self.neg(pymodels.contains(self, b, a))
        a, b = p.force(a), p.force(b)
        num = (bool, int, SInt, SBool)
        if isinstance(a, num) and isinstance(b, num):
            if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
                return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
            x, y = p.iterm(a), p.iterm(b)
            return SBool({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)])
        if is_concrete(a) and is_concrete(b) and a is not None and b is not None:
            try:
                return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b,
                        ast.GtE: lambda: a >= b}[type(op)]()
            except TypeError:
                raise PyRaise(TypeError, (), 'unorderable')
        if (a is None or b is None) and isinstance(a, num + (type(None), SRef, str)) and \
                isinstance(b, num + (type(None), SRef, str)):
            raise PyRaise(TypeError, (), 'unorderable None')
        if isinstance(a, num) and isinstance(b, (str, SStr)) or isinstance(b, num) and isinstance(a, (str, SStr)):
            raise PyRaise(TypeError, (), 'unorderable int/str')
        raise Unsupported('compare %r %r' % (a, b))

    def ne(self, a, b):
        p = self.p
        a, b = p.force(a), p.force(b)
        if isinstance(a, SRef) and p.classes[a.key] != (None,):
            # __ne__ defined in the classes of /repo as `not __eq__`
            cs = p.classes[a.key]
            if None not in cs and self.virtual_for(cs, '__ne__') is not None:
                return self.apply_contract(self.virtual_for(cs, '__ne__'), {'self': a, 'other': b})
            if None not in cs and self.virtual_for(cs, '__eq__') is None:
                c = p.the_class(a)
                owner, fn = extract.find_owner(c, '__ne__')
                if owner is not object and isinstance(fn, pytypes.FunctionType):
                    return self.call_function(fn, [a, b], {}, owner)
        return self.neg(self.eq(a, b))

    # ================================================================ statements
    def exec_block(self, body, fr):
        for s in body:
            self.exec(s, fr)

    def exec(self, s, fr):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        return m(s, fr)

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Yield):
            fr.yields.append(('e', self.eval(s.value.value, fr) if s.value.value else None))
            return
        self.eval(s.value, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Return(self, s, fr):
        raise ReturnEx(self.eval(s.value, fr) if s.value is not None else None)

    def x_If(self, s, fr):
        if self.truth(self.eval(s.test, fr)):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            new = pymodels.inplace(self, s.op, cur, self.eval(s.value, fr))
            fr.locals[t.id] = new
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            new = pymodels.inplace(self, s.op, cur, self.eval(s.value, fr))
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval(t.slice, fr)
            cur = pymodels.getitem(self, o, k)
            new = pymodels.inplace(self, s.op, cur, self.eval(s.value, fr))
            pymodels.setitem(self, o, k, new)
        else:
            raise Unsupported('augassign')

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id not in fr.names:
                raise Unsupported('assignment to global %s' % t.id)
            fr.locals[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = pymodels.unpack(self, v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            pymodels.setitem(self, self.eval(t.value, fr), self.eval(t.slice, fr), v)
        else:
            raise Unsupported('assign target')

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                pymodels.delitem(self, self.eval(t.value, fr), self.eval(t.slice, fr))
            else:
                raise Unsupported('del')

    def x_Raise(self, s, fr):
        if s.exc is None:
            cur = self.p.extra.get('handling')
            if cur:
                raise cur[-1]
            raise Unsupported('bare raise')
        v = self.p.force(self.eval(s.exc, fr))
        if isinstance(v, type) and issubclass(v, BaseException):
            raise PyRaise(v, ())
        if isinstance(v, pymodels.ExcVal):
            raise PyRaise(v.cls, v.args)
        raise Unsupported('raise %r' % (v,))

    def x_Try(self, s, fr):
        try:
            try:
                self.exec_block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.p.force(self.eval(h.type, fr))
                        ts = self.p.concrete_items(t) if isinstance(t, VSeq) else [t]
                        ok = any(issubclass(e.cls, x) for x in ts)
                    if ok:
                        if h.name:
                            fr.locals[h.name] = pymodels.ExcVal(e.cls, e.pyargs)
                        self.p.extra.setdefault('handling', []).append(e)
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            self.p.extra['handling'].pop()
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, fr)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            self.exec_block(s.finalbody, fr)
            raise
        self.exec_block(s.finalbody, fr)

    def x_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            raise PyRaise(AssertionError)

    def x_Break(self, s, fr):
        raise BreakEx()

    def x_Continue(self, s, fr):
        raise ContinueEx()

    def x_FunctionDef(self, s, fr):
        if s.decorator_list:
            raise Unsupported('decorated nested function')
        fr.locals[s.name] = Closure(s, fr, [self.eval(d, fr) for d in s.args.defaults])

    def x_Import(self, s, fr):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            if a.asname:
                fr.locals[a.asname] = m
            else:
                fr.locals[a.name.split('.')[0]] = importlib.import_module(a.name.split('.')[0])

    def x_ImportFrom(self, s, fr):
        import importlib
        m = importlib.import_module(s.module)
        for a in s.names:
            fr.locals[a.asname or a.name] = self.wrap_global(getattr(m, a.name))

    def x_Global(self, s, fr):
        raise Unsupported('global')

    def while_rule(self, s, fr):
        """a loop with the invariant that the specification functions named by the specification have the value they had
        for the variables assigned in the body"""
        p = self.p
        rec = self.eng.loops.setdefault(self.loop_key(s), LoopRec())
        names = [n for n in sorted(extract.stored_names(s)) if n in fr.locals]
        v0 = dict((n, fr.locals[n]) for n in names)
        for n in names:
            self._join_type(rec, ('w', n), p.typeof(v0[n]))

        def facts(n, v):
            if not isinstance(v, SRef) and v is not None or not isinstance(v0[n], SRef) and v0[n] is not None:
                return []
            return [((sf.name, n), sf.fn(p.term(v)) == sf.fn(p.term(v0[n]))) for sf in self.spec.while_funs]
        mode = 1 - p.choose(2, 'while@%d' % s.lineno)
        for n in names:
            if ('const', n) in rec.dead:
                fr.locals[n] = p.make(rec.types[('w', n)], 'while_' + n)
                p.abstract = True
                for c, f in facts(n, fr.locals[n]):
                    if c not in rec.dead:
                        p.assume(f)
        for n in extract.stored_names(s):
            if n not in names:
                fr.locals[n] = Poison('loop variable %s' % n)
        if mode == 0:
            if self.truth(self.eval(s.test, fr)):
                raise PathEnd()
            self.exec_block(s.orelse, fr)
            return
        if not self.truth(self.eval(s.test, fr)):
            raise PathEnd()
        mark = len(p.mutlog)
        try:
            self.exec_block(s.body, fr)
        except BreakEx:
            return
        except ContinueEx:
            pass
        if len(p.mutlog) != mark:
            raise Unsupported('while loop that changes objects')
        changed = False
        for n in names:
            v = fr.locals[n]
            if ('const', n) not in rec.dead and not self.same_value(p.force(v), p.force(v0[n])):
                rec.dead.add(('const', n))
                changed = True
            if self._join_type(rec, ('w', n), p.typeof(v)):
                changed = True
        if changed:
            raise Restart()
        for n in names:
            for c, f in facts(n, p.force(fr.locals[n])):
                if c not in rec.dead:
                    if p.valid(f) is not True:
                        rec.dead.add(c)
                        changed = True
                    else:
                        p.oblige('loop invariant %s of %s, line %d' % (c[0], n, s.lineno), f)
        if changed:
            raise Restart()
        raise PathEnd()

    def while_cands(self, s, fr):
        """a loop whose invariant is the inductive part of the candidates the specification gives for its variables"""
        p = self.p
        rec = self.eng.loops.setdefault(self.loop_key(s), LoopRec())
        names = [n for n in sorted(set(extract.stored_names(s)) | set(h[1] for h in rec.heap)) if n in fr.locals]

        def copy(v):
            return VSeq(v.kind, list(v.pieces), v.birth) if isinstance(v, VSeq) else v
        v0 = dict((n, copy(fr.locals[n])) for n in names)
        for n in names:
            self._join_type(rec, ('w', n), p.typeof(v0[n]))

        def cands():
            loc = dict((n, fr.locals[n]) for n in names if ('const', n) in rec.dead)
            return [x for x in self.spec.while_candidates(self, loc, fr.locals, v0) if x[0] not in rec.dead]
        mode = 1 - p.choose(2, 'while@%d' % s.lineno)
        if mode == 1:
            changed = False
            for c, f in cands():
                if p.valid(f) is not True:
                    rec.dead.add(c)
                    changed = True
            if changed:
                raise Restart()
        for n in names:
            if ('const', n) in rec.dead:
                if isinstance(v0[n], VSeq) and getattr(rec.types[('w', n)], 'elem', 0) is None:
                    continue
                v = p.make(rec.types[('w', n)], 'while_' + n)
                if isinstance(v, VSeq) and isinstance(fr.locals[n], VSeq):
                    fr.locals[n].pieces = v.pieces
                    pymodels.touch(self, fr.locals[n])
                else:
                    fr.locals[n] = v
                p.abstract = True
        for c, f in cands():
            rec.used.add(c)
            p.assume(f)
        for n in extract.stored_names(s):
            if n not in names:
                fr.locals[n] = Poison('loop variable %s' % n)
        if mode == 0:
            if self.truth(self.eval(s.test, fr)):
                raise PathEnd()
            self.exec_block(s.orelse, fr)
            return
        if not self.truth(self.eval(s.test, fr)):
            raise PathEnd()
        mark, birth = len(p.mutlog), next(p.births)
        left = False
        try:
            self.exec_block(s.body, fr)
        except BreakEx:
            left = True
        except ContinueEx:
            pass
        changed = False
        for m in p.mutlog[mark:]:
            if m[0] == 'obj' and getattr(m[1], 'birth', 0) > birth:
                continue
            h = self.heap_path(m[1], fr) if m[0] == 'obj' else None
            if h is None or h[0] != 'local*':
                raise Unsupported('while loop changes what the frame does not name')
            if h not in rec.heap:
                rec.heap.append(h)
                changed = True
        for n in names:
            v = fr.locals[n]
            if ('const', n) not in rec.dead:
                same = self.same_pieces(v, v0[n].pieces) if isinstance(v0[n], VSeq) else \
                    self.same_value(p.force(v), p.force(v0[n]))
                if not same:
                    rec.dead.add(('const', n))
                    changed = True
            if self._join_type(rec, ('w', n), p.typeof(v)):
                changed = True
        if changed:
            raise Restart()
        if left:
            return
        for c, f in cands():
            if c in rec.used:
                if p.valid(f) is not True:
                    rec.dead.add(c)
                    changed = True
                else:
                    p.oblige('loop invariant %s, line %d' % (' '.join(c), s.lineno), f)
        if changed:
            raise Restart()
        raise PathEnd()

    def x_While(self, s, fr):
        if self.spec.__dict__.get('while_candidates') is not None:
            return self.while_cands(s, fr)
        if self.spec.__dict__.get('while_funs') is not None:
            return self.while_rule(s, fr)
        n = 0
        while True:
            if not self.truth(self.eval(s.test, fr)):
                self.exec_block(s.orelse, fr)
                return
            n += 1
            if n > self.p.extra.get('while_limit', 40):
                raise Unsupported('while loop without invariant')
            try:
                self.exec_block(s.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                continue

    # ---------------------------------------------------------------- for loops
    def x_For(self, s, fr):
        it = self.eval(s.iter, fr)

        def bind(v):
            self.assign(s.target, v, fr)

        def body():
            self.exec_block(s.body, fr)
        broke = self.run_loop(it, bind, body, fr, s, extract.stored_names(s))
        if not broke:
            self.exec_block(s.orelse, fr)

    def run_loop(self, it, bind, body, fr, node, names, out=None):
        """iterate; returns True when left by break.  `out`: hidden accumulator list of a comprehension"""
        chunks = pymodels.iterate(self, it)
        done = []           # pieces already processed
        idx = 0
        while idx < len(chunks.pieces):
            k, v = chunks.pieces[idx]
            if k == 's' and v.resolved is not None:
                chunks.pieces[idx:idx + 1] = list(v.resolved)
                continue
            if k == 'e':
                bind(chunks.item(self, v, done))
                try:
                    body()
                except BreakEx:
                    return True
                except ContinueEx:
                    pass
                done.append((k, v))
                idx += 1
                continue
            rest = chunks.pieces[idx + 1:]
            left = self.loop_rule(chunks, v, done, rest, bind, body, fr, node, names, out)
            if left == 'break':
                return True
            if left == 'iter':
                raise Unsupported('internal: iteration fell through')
            done.append((k, v))
            idx += 1
        return False

    def loop_key(self, node):
        return tuple((f.fn.__qualname__ if f.fn else 'lambda') for f in self.stack) + \
            (node.lineno, node.col_offset)

    def heap_path(self, obj, fr):
        """an access path of a mutated container from the current frame"""
        for n in sorted(fr.locals):
            if fr.locals[n] is obj:
                return ('local*', n)
        for n in sorted(fr.locals):
            v = fr.locals[n]
            if isinstance(v, SRef) and len(self.p.classes[v.key]) == 1:
                for (k, f), x in self.p.store.items():
                    if k == v.key and x is obj:
                        return ('field*', n, f)
        return None

    def resolve_heap(self, loc, fr):
        if loc[0] == 'local*':
            return fr.locals[loc[1]]
        if loc[0] == 'field*':
            r = fr.locals[loc[1]]
            return self.p.store[(r.key, loc[2])]
        if loc[0] == 'out':
            return loc[1]

    def loop_rule(self, chunks, seg, done, rest, bind, body, fr, node, names, out):
        p = self.p
        rec = self.eng.loops.setdefault(self.loop_key(node), LoopRec())
        rec.used = set()        # what is assumed at this entry
        # --- locations
        locs = []
        for n in sorted(names):
            if n in fr.locals and not isinstance(fr.locals[n], Poison):
                locs.append(('local', n))
        for h in rec.heap:
            locs.append(h)
        if out is not None:
            locs.append(('out', out))
        # an accumulating local that is also rebound: treat as local only
        locnames = set(l[1] for l in locs if l[0] == 'local')
        locs = [l for l in locs if not (l[0] == 'local*' and l[1] in locnames)]

        def lname(l):
            return (l[0],) + tuple(x for x in l[1:] if isinstance(x, str))

        def read(l):
            if l[0] == 'local':
                return fr.locals[l[1]]
            if l[0] == 'field':
                return p.store[(fr.locals[l[1]].key, l[2])]
            return self.resolve_heap(l, fr)
        v0 = {}
        for l in locs:
            v = read(l)
            if isinstance(v, VSeq):
                v = VSeq(v.kind, list(v.pieces), v.birth)
            elif isinstance(v, VDict):
                v = VDict(list(v.items), v.birth)
            elif isinstance(v, VSet):
                v = VSet(list(v.items), v.birth)
            v0[lname(l)] = v
        for l in locs:
            t = self._loc_type(v0[lname(l)])
            self._join_type(rec, lname(l), t)

        def havoc(P):
            new = {}
            for l in locs:
                new[lname(l)] = self.havoc_loc(rec, l, lname(l), v0[lname(l)], P, fr, done, seg)
            self.assume_relational(rec, new, v0, P, seg)
            for c, f in self._pure(rec, P, seg):
                rec.used.add(c)
                p.assume(f)
            return new

        def temps_poison():
            for n in names:
                if ('local', n) not in locs:
                    fr.locals[n] = Poison('loop variable %s' % n)
        mode = 1 - p.choose(2, 'loop@%d' % node.lineno)    # the iteration first: what it refutes is not used after the loop
        if mode == 0:
            havoc([('s', seg)])
            temps_poison()
            if not p.feasible():
                raise PathEnd()
            return 'exit'
        # --- generic iteration
        if self.check_init(rec, locs, lname, v0, seg):
            raise Restart()
        P, n, S = p.split_mid(seg)
        cur = havoc([('s', P)])
        temps_poison()
        mark = next(p.births)
        mutmark = len(p.mutlog)
        # values of heap containers at iteration start, for change detection
        bind(chunks.item(self, n, done + [('s', P)]))
        if not p.feasible():
            raise PathEnd()
        try:
            body()
        except ContinueEx:
            pass
        except BreakEx:
            return 'break'
        # --- end of body: discover further locations, then check the invariants
        changed = False
        for m in p.mutlog[mutmark:]:
            obj = m[1] if m[0] == 'obj' else None
            if m[0] == 'field':
                ref, f = m[1], m[2]
                if p.closed.get(ref.key, 0) > mark:
                    continue
                raise Unsupported('loop mutates field %s of an object' % f)
            if obj is None or getattr(obj, 'birth', 0) > mark:
                continue
            if out is not None and obj is out:
                continue
            hp = self.heap_path(obj, fr)
            if hp is None:
                raise Unsupported('loop mutates a container the frame does not name')
            if hp[0] == 'local*' and ('local', hp[1]) in locs:
                # both rebound and mutated in place: covered when identical object
                continue
            if hp not in rec.heap:
                rec.heap.append(hp)
                changed = True
        if changed:
            raise Restart()
        for l in locs:
            t = self._loc_type(read(l))
            if self._join_type(rec, lname(l), t):
                changed = True
        if changed:
            raise Restart()
        dropped = False
        after = {}
        for l in locs:
            after[lname(l)] = read(l)
        for l in locs:
            if self.check_loc(rec, l, lname(l), v0[lname(l)], cur[lname(l)], after[lname(l)],
                              [('s', P), ('e', n)], ('s', S), rest, node):
                dropped = True
        if self.check_relational(rec, after, v0, [('s', P), ('e', n)], seg, node):
            dropped = True
        for c, f in self._pure(rec, [('s', P), ('e', n)], seg):
            if c in rec.used:
                if p.valid(f) is not True:
                    rec.dead.add(c)
                    dropped = True
                else:
                    p.oblige('loop invariant: %s of the elements passed, line %d' % (c[1], node.lineno), f)
        if dropped:
            raise Restart()
        raise PathEnd()

    def check_init(self, rec, locs, lname, v0, seg):
        """scalar candidates must hold before the first iteration"""
        p = self.p
        dropped = False
        for l in locs:
            ln = lname(l)
            v = v0[ln]
            if isinstance(v, VSeq) or ('const', ln) not in rec.dead:
                continue
            sv = self._as_sym(v)
            if isinstance(v, int) and not isinstance(v, bool):
                sv = SInt(z3.IntVal(v))
            for name, f in self.scalar_cands(ln, sv, v, [], seg):
                if (name, ln) in rec.dead:
                    continue
                if p.valid(f) is not True:
                    rec.dead.add((name, ln))
                    dropped = True
        return dropped

    def _loc_type(self, v):
        if isinstance(v, (VDict, VSet, SDict)):
            return None
        if isinstance(v, (Closure, FuncVal, type)):
            return None
        return self.p.typeof(v)

    def _join_type(self, rec, ln, t):
        old = rec.types.get(ln)
        new = join(old, t)
        if new != old:
            rec.types[ln] = new
            return old is not None
        return False

    def havoc_loc(self, rec, l, ln, v0, P, fr, done, seg):
        p = self.p

        def write(v):
            if l[0] == 'local':
                fr.locals[l[1]] = v
            else:
                obj = self.resolve_heap(l, fr)
                obj.pieces = v.pieces
                if l[0] != 'out':
                    pymodels.touch(self, obj)   # an enclosing loop changes it, too
        if isinstance(v0, VSeq):
            if ('same', ln) not in rec.dead:
                nv = VSeq(v0.kind, list(v0.pieces) + list(P), v0.birth)
                rec.used.add(('same', ln))
                write(nv)
                return nv
            if ('rest', ln) not in rec.dead and self._is_suffix(v0, seg):
                # v0 == [... seg ...]: elements up to and including the current one removed as they are processed
                fl = p.flat(v0.pieces)
                fl = [x for x in fl]
                i = self._suffix_pos(v0, seg, P)
                if i is not None:
                    nv = VSeq(v0.kind, fl[i:], v0.birth)
                    rec.used.add(('rest', ln))
                    write(nv)
                    return nv
            t = rec.types.get(ln)
            if isinstance(t, TTup):
                nv = p.make(t, 'loop_%s' % ln[1] if len(ln) > 1 else 'acc')
                p.abstract = True
                write(nv)
                return nv
            if t is None or not isinstance(t, TSeq):
                raise Unsupported('loop list of unknown type %r' % (t,))
            if t.elem is None:
                # nothing known is ever put in
                write(VSeq(v0.kind, list(v0.pieces), v0.birth))
                return v0
            s = p.seg(p.fresh('loop', RSeq), t.elem)
            nv = VSeq(v0.kind, [('s', s)], v0.birth)
            for h in self.spec.homs:
                if ('hom', h.name, ln) in rec.dead:
                    continue
                if h.applies and not (h.applies(t.elem) and h.applies(seg.elem)):
                    continue
                p.define_hom(h, s, list(v0.pieces) + list(P))
                rec.used.add(('hom', h.name, ln))
            for h, g in self.spec.cross:
                c = ('hom', h.name + '<-' + g.name, ln)
                if c in rec.dead or (h.name, s.key) in p.homdef:
                    continue
                if h.applies and not h.applies(t.elem) or g.applies and not g.applies(seg.elem):
                    continue
                p.define_hom(h, s, list(v0.pieces) + p.cross(g, P))
                rec.used.add(c)
            for h in self.spec.homs:
                if ('hom', h.name, ln) not in rec.dead or h.kind not in ('all', 'any') or \
                        ('himp', h.name, ln) in rec.dead:
                    continue
                if h.applies and not (h.applies(t.elem) and h.applies(seg.elem)):
                    continue
                p.assume(self._himp(h, nv, list(v0.pieces) + list(P)))
                rec.used.add(('himp', h.name, ln))
            if ('len', ln) not in rec.dead:
                p.assume(RLEN(s.t) == p.len_of(list(v0.pieces) + list(P)))
                rec.used.add(('len', ln))
            write(nv)
            return nv
        if l[0] != 'local':
            raise Unsupported('loop mutates %r' % type(v0).__name__)
        t = rec.types.get(ln)
        if t is None:
            raise Unsupported('loop variable %s of unsupported type' % (ln,))
        if ('const', ln) not in rec.dead:
            rec.used.add(('const', ln))
            return v0
        nv = p.make(t, 'loop_%s' % l[1])
        p.abstract = True
        for name, f in self.scalar_cands(ln, nv, v0, P, seg):
            if (name, ln) in rec.dead:
                continue
            rec.used.add((name, ln))
            p.assume(f)
        write(nv)
        return nv

    def _himp(self, h, built, src):
        a, b = self.p.hom(h, src), self.p.hom(h, built)
        return z3.Implies(a, b) if h.kind == 'all' else z3.Implies(b, a)

    def _is_suffix(self, v0, seg):
        return any(k == 's' and v is seg for k, v in self._unres(v0.pieces, seg)) or \
            self._suffix_pos(v0, seg, None) is not None

    def _unres(self, pieces, seg):
        out = []
        for k, v in pieces:
            if k == 's' and v is not seg and v.resolved is not None:
                out.extend(self._unres(v.resolved, seg))
            else:
                out.append((k, v))
        return out

    def _suffix_pos(self, v0, seg, P):
        """v0 = [seg] ++ rest, P processed prefix (whole seg on exit, or its first part)"""
        u = self._unres(v0.pieces, seg)
        if not u or not (u[0][0] == 's' and u[0][1] is seg):
            return None
        if P is None:
            return 0
        fl = self.p.flat(v0.pieces)
        if len(P) == 1 and P[0][1] is seg:
            return 1
        # seg resolved to [P, n, S]
        return 1

    def scalar_cands(self, ln, v, v0, P, seg):
        p = self.p
        out = []
        v = v if not isinstance(v, SUnion) else v
        homs = [h for h in self.spec.homs if not h.applies or h.applies(seg.elem)]
        if isinstance(v, SBool) and isinstance(v0, (bool, SBool)):
            b0 = p.bterm(v0)
            for h in homs:
                if h.kind == 'all':
                    out.append(('and_' + h.name, v.t == z3.And(b0, p.hom(h, P))))
                    out.append(('implies_' + h.name, z3.Implies(v.t, z3.And(b0, p.hom(h, P)))))
                if h.kind == 'any':
                    out.append(('or_' + h.name, v.t == z3.Or(b0, p.hom(h, P))))
                    out.append(('nor_' + h.name, v.t == z3.And(b0, z3.Not(p.hom(h, P)))))
        if isinstance(v, (SInt, int)) and not isinstance(v, bool) and isinstance(v0, (int, SInt)):
            i0 = p.iterm(v0)
            for h in homs:
                if h.kind == 'sum':
                    out.append(('sum_' + h.name, p.iterm(v) == i0 + p.hom(h, P)))
                if h.kind == 'horner' and i0.eq(z3.IntVal(0)):
                    out.append(('horner_' + h.name, p.iterm(v) == p.hom(h, P)))
                if h.kind == 'max':
                    m = p.hom(h, P)
                    out.append(('max_' + h.name, p.iterm(v) == z3.If(m > i0, m, i0)))
            out.append(('len', p.iterm(v) == i0 + p.len_of(P)))
        for g in self.spec.scalar_candidates:
            out.extend(g(self, ln, v, v0, P, seg))
        return out

    def check_loc(self, rec, l, ln, v0, cur, after, P1, S, rest, node):
        """preservation; returns True when a candidate was dropped"""
        p = self.p
        site = '%s:%d' % (ln[-1] if len(ln) > 1 else 'acc', node.lineno)
        if isinstance(v0, VSeq):
            if ('same', ln) not in rec.dead:
                want = list(v0.pieces) + P1
                if not self.same_pieces(after, want):
                    rec.dead.add(('same', ln))
                    self._forget_types()
                    return True
                p.oblige('loop invariant %s = prefix' % site, True)
                return False
            if ('rest', ln) in rec.used and ('rest', ln) not in rec.dead:
                fl = p.flat(v0.pieces)
                # [P, n, S, ...] -> after processing n: [S, ...]
                if not self.same_pieces(after, fl[2:]):
                    rec.dead.add(('rest', ln))
                    self._forget_types()
                    return True
                p.oblige('loop invariant %s = suffix' % site, True)
                return False
            t = rec.types.get(ln)
            if t is None or isinstance(t, TTup) or t.elem is None:
                return False
            dropped = False
            for h in self.spec.homs:
                c = ('hom', h.name, ln)
                if c in rec.dead or c not in rec.used:
                    continue
                f = p.hom(h, after) == p.hom(h, list(v0.pieces) + P1)
                if p.valid(f) is not True:
                    rec.dead.add(c)
                    dropped = True
                else:
                    p.oblige('loop invariant %s: %s' % (site, h.name), f)
            for h, g in self.spec.cross:
                c = ('hom', h.name + '<-' + g.name, ln)
                if c in rec.dead or c not in rec.used:
                    continue
                f = p.hom(h, after) == p.hom(h, list(v0.pieces) + p.cross(g, P1))
                if p.valid(f) is not True:
                    rec.dead.add(c)
                    dropped = True
                else:
                    p.oblige('loop invariant %s: %s is %s of the source' % (site, h.name, g.name), f)
            for h in self.spec.homs:
                c = ('himp', h.name, ln)
                if c in rec.dead or c not in rec.used:
                    continue
                f = self._himp(h, after, list(v0.pieces) + P1)
                if p.valid(f) is not True:
                    rec.dead.add(c)
                    dropped = True
                else:
                    p.oblige('loop invariant %s: preserves %s' % (site, h.name), f)
            c = ('len', ln)
            if c not in rec.dead and c in rec.used:
                f = p.len_of(after.pieces) == p.len_of(list(v0.pieces) + P1)
                if p.valid(f) is not True:
                    rec.dead.add(c)
                    dropped = True
                else:
                    p.oblige('loop invariant %s: len' % site, f)
            return dropped
        if ('const', ln) not in rec.dead:
            same = after is v0 or (is_concrete(after) and is_concrete(v0) and type(after) == type(v0) and after == v0)
            if not same and isinstance(after, SVal) and type(after) is type(v0) and hasattr(after, 't'):
                same = p.valid(after.t == v0.t) is True
            if not same:
                rec.dead.add(('const', ln))
                self._forget_types()
                return True
            return False
        dropped = False
        seg = None
        cands = self.scalar_cands(ln, after, v0, P1, self._seglike(P1))
        names = dict(cands)
        for (name, l2) in list(x for x in rec.used if len(x) == 2 and x[1] == ln):
            if name in ('const', 'same', 'rest', 'len') and name != 'len':
                continue
            if (name, ln) in rec.dead:
                continue
            f = names.get(name)
            if f is None or p.valid(f) is not True:
                rec.dead.add((name, ln))
                dropped = True
            else:
                p.oblige('loop invariant %s: %s' % (site, name), f)
        return dropped

    def _forget_types(self):
        # element types recorded under a dropped hypothesis are too wide
        for r in self.eng.loops.values():
            r.types.clear()

    def _seglike(self, P1):
        return P1[0][1]

    def _pure(self, rec, P, seg):
        """facts about the elements already passed (searches that leave the loop on a hit)"""
        out = []
        for h in self.spec.homs:
            if h.kind == 'first':
                h = h.any
            if h.kind not in ('all', 'any') or h.applies and not h.applies(seg.elem):
                continue
            c = ('pure', h.name)
            if c not in rec.dead:
                f = self.p.hom(h, P)
                out.append((c, f if h.kind == 'all' else z3.Not(f)))
        for name, applies, g in self.spec.pure:
            if ('pure', name) not in rec.dead and applies(seg.elem):
                f = g(self.p, P)
                if f is not None:
                    out.append((('pure', name), f))
        return out

    # relational candidates between a flag and lists built in the same loop
    def _rel(self, vals, v0, P, seg):
        p = self.p
        out = []
        for ln, v in vals.items():
            if isinstance(v, SBool) and isinstance(v0[ln], (bool, SBool)):
                b0 = p.bterm(v0[ln])
                for l2, w in vals.items():
                    if isinstance(w, VSeq):
                        et = self._elem_type(w)
                        for h in self.spec.homs:
                            if h.applies and (et is None or not h.applies(et)):
                                continue
                            if h.kind == 'all':
                                out.append((('rel', ln, l2, h.name), v.t == z3.And(b0, p.hom(h, w))))
        for g in self.spec.loop_relations:
            out.extend(g(self, vals, v0, P, seg))
        return out

    def _elem_type(self, w):
        et = None
        for k, v in self.p.flat(w.pieces):
            try:
                et = join(et, v.elem if k == 's' else self.p.typeof(v))
            except Unsupported:
                return None
        return et

    def assume_relational(self, rec, new, v0, P, seg):
        for c, f in self._rel(new, v0, P, seg):
            # the candidate must hold on entry (empty prefix)
            if c in rec.dead:
                continue
            rec.used.add(c)
            self.p.assume(f)

    def check_relational(self, rec, after, v0, P, seg, node):
        dropped = False
        # entry: flags/lists at v0
        entry = dict(self._rel({k: (self._as_sym(v)) for k, v in v0.items()}, v0, [], seg))
        for c, f in self._rel({k: self._as_sym(v) for k, v in after.items()}, v0, P, seg):
            if c in rec.dead or c not in rec.used:
                continue
            fe = entry.get(c)
            if (fe is not None and self.p.valid(fe) is not True) or self.p.valid(f) is not True:
                rec.dead.add(c)
                dropped = True
            else:
                self.p.oblige('loop invariant relation %s:%d' % (c[1][-1], node.lineno), f)
        seen = set(c for c, f in self._rel({k: self._as_sym(v) for k, v in after.items()}, v0, P, seg))
        for c in list(rec.used):
            if c[0] == 'rel' and c not in rec.dead and c not in seen:
                rec.dead.add(c)
                dropped = True
        return dropped

    def _as_sym(self, v):
        if isinstance(v, bool):
            return SBool(z3.BoolVal(v))
        return v

    def same_pieces(self, v, want):
        if not isinstance(v, VSeq):
            return False
        a = self.p.flat(v.pieces)
        b = self.p.flat(want)
        if len(a) != len(b):
            return False
        for (k, x), (m, y) in zip(a, b):
            if k != m:
                return False
            if k == 's':
                if x is not y:
                    return False
            elif not self.same_value(x, y):
                return False
        return True

    def same_value(self, x, y):
        if x is y:
            return True
        if isinstance(x, SRef) and isinstance(y, SRef):
            return x.key == y.key
        if is_concrete(x) and is_concrete(y):
            return type(x) is type(y) and x == y
        if hasattr(x, 'sym_same'):
            return x.sym_same(self, y)
        if type(x) is type(y) and isinstance(x, (SInt, SBool, SStr, SOpq)):
            return self.p.valid(x.t == y.t) is True
        if isinstance(x, VSeq) and isinstance(y, VSeq) and x.kind == y.kind == 'tuple':
            return self.same_pieces(x, y.pieces)
        return False

    # ================================================================ expressions
    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def e_Tuple(self, e, fr):
        return VSeq('tuple', self.elems(e.elts, fr), next(self.p.births))

    def e_List(self, e, fr):
        return VSeq('list', self.elems(e.elts, fr), next(self.p.births))

    def elems(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(pymodels.to_pieces(self, self.eval(x.value, fr)))
            else:
                out.append(('e', self.eval(x, fr)))
        return out

    def e_Set(self, e, fr):
        s = VSet([], next(self.p.births))
        for x in e.elts:
            pymodels.set_add(self, s, self.eval(x, fr))
        return s

    def e_Dict(self, e, fr):
        d = VDict([], next(self.p.births))
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported('dict unpacking')
            pymodels.setitem(self, d, self.eval(k, fr), self.eval(v, fr))
        return d

    def e_BoolOp(self, e, fr):
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return self.p.force(v) if not isinstance(v, SBool) else False
            if isinstance(e.op, ast.Or) and t:
                return self.p.force(v) if not isinstance(v, SBool) else True
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            v = self.p.force(v)
            if isinstance(v, SBool):
                return SBool(z3.Not(v.t))
            return not self.truth(v)
        return pymodels.unary(self, e.op, v)

    def e_BinOp(self, e, fr):
        return pymodels.binary(self, e.op, self.eval(e.left, fr), self.eval(e.right, fr))

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        if len(e.ops) == 1:
            return self.compare(e.ops[0], left, self.eval(e.comparators[0], fr))
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, fr)
            if not self.truth(self.compare(op, left, right)):
                return False
            left = right
        return True

    def e_IfExp(self, e, fr):
        if self.truth(self.eval(e.test, fr)):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def e_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in fr.locals:
            if not e.args:
                first = extract.fn_ast(fr.fn).args.args[0].arg
                s = fr.locals[first]
                owner = fr.owner or self._owner_of(fr.fn, s)
            else:
                owner = self.eval(e.args[0], fr)
                s = self.eval(e.args[1], fr)
            return pymodels.SuperVal(s, owner, self.p.the_class(s))
        f = self.eval(e.func, fr)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                items = self.p.concrete_items(VSeq('list', pymodels.to_pieces(self, self.eval(x.value, fr))))
                if items is None:
                    raise Unsupported('star args of unknown length')
                args.extend(items)
            else:
                args.append(self.eval(x, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.p.force(self.eval(k.value, fr))
                if not isinstance(d, VDict):
                    raise Unsupported('** of non-dict')
                for kk, vv in d.items:
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        return self.call(f, args, kwargs)

    def _owner_of(self, fn, s):
        cls = self.p.the_class(s)
        for k in cls.__mro__:
            for v in k.__dict__.values():
                if v is fn:
                    return k
        raise Unsupported('super() owner')

    def e_Lambda(self, e, fr):
        return Closure(e, fr, [self.eval(d, fr) for d in e.args.defaults])

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(e.slice.lower, fr) if e.slice.lower else None
            hi = self.eval(e.slice.upper, fr) if e.slice.upper else None
            st = self.eval(e.slice.step, fr) if e.slice.step else None
            return pymodels.getslice(self, o, lo, hi, st)
        return pymodels.getitem(self, o, self.eval(e.slice, fr))

    def e_JoinedStr(self, e, fr):
        acc = ''
        for v in e.values:
            if isinstance(v, ast.Constant):
                acc = pymodels.str_concat(self, acc, v.value)
            else:
                if v.format_spec is not None:
                    raise Unsupported('format spec')
                acc = pymodels.str_concat(self, acc, pymodels.to_str(self, self.eval(v.value, fr)))
        return acc

    def e_ListComp(self, e, fr):
        return self.comp(e, fr, 'list')

    def e_GeneratorExp(self, e, fr):
        return self.comp(e, fr, 'list')

    def e_SetComp(self, e, fr):
        l = self.comp(e, fr, 'list')
        return pymodels.TYPES[set](self, [l], {})

    def e_DictComp(self, e, fr):
        out = VDict([], next(self.p.births))
        self._comp(e, 0, self._comp_frame(e, fr), fr,
                   lambda f: pymodels.setitem(self, out, self.eval(e.key, f), self.eval(e.value, f)), None)
        return out

    def _comp_frame(self, e, fr):
        f = Frame(None, fr.node, fr.globs, fr, fr.owner)
        v = extract.LocalsVisitor()
        for g in e.generators:
            v.visit(g.target)
        f.names = frozenset(v.names)
        return f

    def comp(self, e, fr, kind):
        out = VSeq('list', [], next(self.p.births))

        def emit(f):
            out.pieces = out.pieces + [('e', self.eval(e.elt, f))]
            self.p.mutlog.append(('obj', out))
        self._comp(e, 0, self._comp_frame(e, fr), fr, emit, out)
        return out

    def _comp(self, e, i, f, outer, emit, out):
        if i == len(e.generators):
            emit(f)
            return
        g = e.generators[i]
        it = self.eval(g.iter, outer if i == 0 else f)
        v = extract.LocalsVisitor()
        v.visit(g.target)

        def bind(x):
            self.assign(g.target, x, f)

        def body():
            for c in g.ifs:
                if not self.truth(self.eval(c, f)):
                    return
            self._comp(e, i + 1, f, outer, emit, out)
        # the comprehension's own frame holds the targets; the accumulator is a hidden location
        self.run_loop(it, bind, body, f, g.target, frozenset(v.names), out)
