"""Path state, specification functions, contracts and the driver of the verifier.

The verifier executes the AST of the functions of /repo symbolically, path by path, re-executing from the
start for every decision prefix.  Calls to functions under contract use the contract only (check requires,
havoc, assume ensures); calls to other functions of /repo are executed from their own AST.  Loops over
sequences of unknown length use invariants (candidate templates filtered to an inductive set)."""
import itertools
import time
import z3
from .types import *


class Hom(object):
    """homomorphic extension of an element function to sequences.
    kind: 'seq' (ordered list of images), 'sum', 'all', 'any', 'max'"""

    flat = False

    def __init__(self, name, kind, elem, sort=None, applies=None, default=None, like=None):
        # kind 'first': elem gives (matches, value); the value of the first matching element, else default
        self.default = default
        self.any = Hom('any_' + name, 'any', lambda p, v: elem(p, v)[0], None, applies) if kind == 'first' else None
        self.name = name
        self.kind = kind
        self.elem = elem            # (path, value) -> z3 term
        self.sort = sort            # element image sort for 'seq'
        self.applies = applies      # (type) -> bool
        if kind == 'seq' and like is not None:
            # another image in the same sequences
            self.seqsort, self.nil, self.cons, self.app = like.seqsort, like.nil, like.cons, like.app
            self.fn = z3.Function('%s' % name, RSeq, self.seqsort)
        elif kind == 'seq':
            self.seqsort = z3.DeclareSort('Seq_%s' % name)
            self.nil = z3.Const('nil_%s' % name, self.seqsort)
            self.cons = z3.Function('cons_%s' % name, sort, self.seqsort, self.seqsort)
            self.app = z3.Function('app_%s' % name, self.seqsort, self.seqsort, self.seqsort)
            self.fn = z3.Function('%s' % name, RSeq, self.seqsort)
        elif kind == 'first':
            self.fn = z3.Function('%s' % name, RSeq, sort)
        else:
            tgt = z3.IntSort() if kind in ('sum', 'max', 'horner') else z3.BoolSort()
            # 'horner': elem gives (value, base); empty 0, s ++ [e] is s * base(e) + value(e)
            self.bases = z3.Function('bases_%s' % name, RSeq, z3.IntSort())
            self.fn = z3.Function('%s' % name, RSeq, tgt)


class SpecFun(object):
    """recursive specification function on objects, unfolded once the class is decided"""

    def __init__(self, name, sort, unfold, null=None, default=None, facts=None):
        self.name = name
        self.sort = sort
        self.unfold = unfold     # {class: fn(path, ref, fieldgetter) -> z3 term}
        self.null = null         # fn() -> z3 term for None (or None)
        self.default = default   # fn(path, ref, fields) for other classes
        self.facts = facts
        self.fn = z3.Function(name, Ref, sort)

    def __call__(self, path, v):
        return self.fn(path.term(v))


class Contract(object):
    """contract of one function of /repo.

    target   'module:qualname'
    params   ordered {name: type or callable(path)->value}
    requires fn(path, args) -> list of (name, formula)
    ensures  fn(path, args, result, old) -> list of (name, formula)
    raises   {exception class name: fn(path, args) -> formula when it may be raised} (names resolved by attr)
    returns  type of the result or callable(path, args) -> value
    modifies fn(path, args): havocs what the callee may change (used at call sites)
    """

    def __init__(self, target, params, returns=None, requires=None, ensures=None, raises=None, old=None,
                 modifies=None, self_fields=None, frame=True, virtual=False, props=(), note='', trusted=False,
                 loop_candidates=None, must_return=False, setup=None, inline=(), budget=None, nopost=False):
        self.target = target
        self.module, self.qualname = target.split(':')
        self.params = params
        self.returns = returns
        self.requires = requires or (lambda p, a: [])
        self.ensures = ensures or (lambda p, a, r, o: [])
        self.raises = raises or {}
        self.old = old or (lambda p, a: None)
        self.modifies = modifies
        self.frame = frame
        self.virtual = virtual
        self.note = note
        self.trusted = trusted
        self.loop_candidates = loop_candidates
        self.setup = setup
        self.inline = inline
        self.budget = budget

    def __repr__(self):
        return 'Contract(%s)' % self.target


class LoopRec(object):
    def __init__(self):
        self.heap = []        # access paths of mutated heap containers
        self.types = {}       # loc -> join type
        self.dead = set()     # dropped candidates
        self.used = set()


class Obligation(object):
    __slots__ = ('name', 'status', 'backend', 'time', 'model', 'smt', 'abstract', 'path', 'cex')

    def __init__(self, name, status, backend, time_, model=None, smt=None, abstract=False, path='', cex=None):
        self.cex = cex
        self.name = name
        self.status = status
        self.backend = backend
        self.time = time_
        self.model = model
        self.smt = smt
        self.abstract = abstract
        self.path = path


class Spec(object):
    """everything property-specific: schemas, spec functions, homs, contracts"""

    def __init__(self, name):
        self.name = name
        self.schema = {}         # class -> {field: type}
        self.families = []       # list of tuples of classes
        self.specfuns = []
        self.homs = []
        self.contracts = {}      # (module, qualname) -> Contract
        self.virtuals = {}       # (root class, method) -> Contract
        self.immutable = set()   # classes whose instances must not be mutated after construction
        self.eqfacts = []        # fn(path, a, b) -> formulas implied by structural equality
        self.opaque_calls = {}   # real function -> fn(interp, args, kwargs) -> value
        self.scalar_candidates = []
        self.loop_relations = []
        self.new_seg = None      # fn(path, segment): facts about every segment
        self.axioms = []         # closed formulas asserted on every path
        self.trusted = []
        self.inline_limit = 60
        self.bits = False
        self.path_init = None
        self.pure = []           # (name, applies, fn(path, passed elements) -> formula or None): loop candidates
        self.external = set()    # modules outside /repo whose functions are executed from their source too
        self.cross = []          # (h, g): lists built element by element may satisfy h(result) = g(source)

    def add(self, c):
        self.contracts[(c.module, c.qualname)] = c
        return c

    def family(self, cls):
        for f in self.families:
            if cls in f:
                return f
        return (cls,)

    def fields(self, cls):
        out = {}
        for k in reversed(cls.__mro__):
            if k in self.schema:
                out.update(self.schema[k])
        return out


class Engine(object):
    def __init__(self, spec, opts=None):
        self.spec = spec
        self.opts = opts or {}
        self.classids = {None: 0}
        self.classlist = [None]
        self.loops = {}
        self.obl_timeout = self.opts.get('obl_timeout', 10000)
        self.branch_timeout = self.opts.get('branch_timeout', 1500)
        self.max_paths = self.opts.get('max_paths', 6000)
        self.stats = {'paths': 0, 'solver_s': 0.0, 'queries': 0, 'cvc5': 0}
        self.keep_smt = self.opts.get('keep_smt', False)
        self.used_contracts = set()
        self.inlined = set()
        self.deadline = None

    def classid(self, cls):
        if cls not in self.classids:
            self.classids[cls] = len(self.classlist)
            self.classlist.append(cls)
        return self.classids[cls]


class Path(object):
    def __init__(self, engine, prefix):
        self.engine = engine
        self.spec = engine.spec
        self.prefix = prefix
        self.pos = 0
        self.taken = []
        self.alts = []
        self.solver = z3.Solver()
        self.solver.set('timeout', engine.branch_timeout)
        self.classes = {}      # ref key -> tuple of classes (None = NoneType)
        self.refs = {}         # ref key -> SRef
        self.store = {}        # (ref key, field) -> value
        self.building = set()
        self.closed = {}       # ref key -> True when fields come only from the store
        self.unfolded = set()
        self.homdef = {}       # (hom name, seg key) -> pieces
        self.segs = {}
        self.segfacts = set()
        self.counter = itertools.count()
        self.births = itertools.count(1)
        self.mutlog = []
        self.obls = []
        self.abstract = False  # an over-approximation (loop havoc without exact candidate) happened
        self.trace = []
        self.entry_birth = 0
        self.strlits = {}
        self.hooks = []
        self.bitidx = []
        self.bitfacts = set()
        self.extra = {}
        for a in engine.spec.axioms:
            self.solver.add(a)
        for sf in self.spec.specfuns:
            if sf.null is not None:
                self.solver.add(sf.fn(NULL) == sf.null())
        self.solver.add(TAG(NULL) == 0)
        self.classes[NULL.get_id()] = (None,)
        if engine.spec.path_init:
            engine.spec.path_init(self)

    # -------------------------------------------------------------- solver
    def assume(self, f):
        if f is True or f is None:
            return
        if f is False:
            raise PathEnd()
        self.solver.add(f)

    def _check(self, *fs, **kw):
        t0 = time.time()
        if self.engine.deadline and t0 > self.engine.deadline:
            raise Unsupported('time budget of this function exhausted')
        r = self.solver.check(*fs)
        self.engine.stats['solver_s'] += time.time() - t0
        self.engine.stats['queries'] += 1
        return r

    def valid(self, f):
        """is f entailed now?  (True/False/None)"""
        if isinstance(f, bool):
            return f
        r = self._check(z3.Not(f))
        if r == z3.unsat:
            return True
        return False if r == z3.sat else None

    def decide(self, f, tag=''):
        """branch on formula f; returns a bool"""
        if isinstance(f, bool):
            return f
        f = z3.simplify(f) if z3.is_expr(f) else f
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        if self.pos < len(self.prefix):
            b = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(b)
            self.solver.add(f if b else z3.Not(f))
            self.trace.append((tag, b))
            return b
        rt = self._check(f)
        if rt == z3.unsat:
            b, other = False, False
        else:
            rf = self._check(z3.Not(f))
            b, other = True, rf != z3.unsat
        self.pos += 1
        if other:
            self.alts.append(self.taken + [False])
        self.taken.append(b)
        self.solver.add(f if b else z3.Not(f))
        self.trace.append((tag, b))
        return b

    def choose(self, n, tag=''):
        """nondeterministic n-way choice (no formula)"""
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(c)
            self.trace.append((tag, c))
            return c
        self.pos += 1
        for i in range(n - 1, 0, -1):
            self.alts.append(self.taken + [i])
        self.taken.append(0)
        self.trace.append((tag, 0))
        return 0

    def feasible(self):
        return self._check() != z3.unsat

    def fresh(self, name, sort):
        return z3.Const('%s!%d' % (name, next(self.counter)), sort)

    # -------------------------------------------------------------- obligations
    def oblige(self, name, f, abstract=None):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        t0 = time.time()
        smt = None
        self.solver.push()
        self.solver.add(z3.Not(f))
        self.solver.set('timeout', self.engine.obl_timeout)
        r = self.solver.check()
        backend = 'z3'
        model = cex = None
        if r == z3.unsat:
            st = 'proved'
        elif r == z3.sat:
            st = 'refuted'
            try:
                m = self.solver.model()
                model = str(m)[:3000]
                cex = self.concretize(m)
            except z3.Z3Exception:
                pass
        else:
            st = 'unknown'
        if st != 'proved' or self.engine.keep_smt:
            smt = self.solver.to_smt2()
        if st == 'unknown' and self.engine.opts.get('cvc5', True):
            from . import backends
            r2 = backends.cvc5_check(smt, 20)
            self.engine.stats['cvc5'] += 1
            if r2 == 'unsat':
                st, backend = 'proved', 'cvc5'
        self.solver.pop()
        self.solver.set('timeout', self.engine.branch_timeout)
        dt = time.time() - t0
        self.engine.stats['solver_s'] += dt
        self.engine.stats['queries'] += 1
        o = Obligation(name, st, backend, dt, model, smt, self.abstract if abstract is None else abstract,
                       self.describe(), cex)
        self.obls.append(o)
        return st == 'proved'

    def concretize(self, model):
        """concrete arguments of the function under contract in this counter-model, or None"""
        args = self.extra.get('args')
        if args is None or self.engine.stats.get('cex', 0) >= 12:
            return None
        self.engine.stats['cex'] = self.engine.stats.get('cex', 0) + 1
        from . import concretize, codec
        saved = [(d, dict(d)) for d in (self.classes, self.refs, self.store, self.segs, self.closed)]
        try:
            c = concretize.Concretizer(self, model, self.extra.get('initial'))
            return dict((k, codec.ser(c.value(v))) for k, v in args.items())
        except Exception:
            return None
        finally:
            for d, o in saved:
                d.clear()
                d.update(o)

    def describe(self):
        return ' '.join('%s=%s' % (t, b) for t, b in self.trace if t)[-1500:]

    # -------------------------------------------------------------- values
    def ref(self, term, classes, nullable=False):
        r = SRef(term)
        if r.key in self.refs:
            return self.refs[r.key]
        self.refs[r.key] = r
        cs = tuple(classes) + ((None,) if nullable else ())
        if r.key in self.classes:
            return r
        self.classes[r.key] = cs
        self.solver.add(z3.Or([TAG(term) == self.engine.classid(c) for c in cs]))
        if nullable:
            self.solver.add((TAG(term) == 0) == (term == NULL))
        else:
            self.solver.add(term != NULL)
        if len(cs) == 1:
            self._unfold(r, cs[0])
        return r

    def make(self, t, name, fac=None):
        """materialise a value of type t. fac(sort, suffix) -> z3 term"""
        if fac is None:
            base = '%s!%d' % (name, next(self.counter))

            def fac(sort, suffix, base=base):
                return z3.Const(base + suffix, sort)
        if callable(t) and not isinstance(t, T):
            return t(self)
        if isinstance(t, TInt):
            return SInt(fac(z3.IntSort(), ''))
        if isinstance(t, TBool):
            return SBool(fac(z3.BoolSort(), ''))
        if isinstance(t, TStr):
            return SStr(fac(z3.StringSort(), ''))
        if isinstance(t, TNone):
            return None
        if isinstance(t, TConst):
            return t.value
        if isinstance(t, TObj):
            return self.ref(fac(Ref, ''), t.classes, t.nullable)
        if isinstance(t, TSeq):
            return VSeq(t.kind, [('s', self.seg(fac(RSeq, ''), t.elem))], next(self.births))
        if isinstance(t, TTup):
            return VSeq(t.kind, [('e', self.make(e, name, lambda s, x, i=i: fac(s, '.%d%s' % (i, x))))
                                 for i, e in enumerate(t.elems)], next(self.births))
        if isinstance(t, TUnion):
            sel = fac(z3.IntSort(), '?')
            self.solver.add(sel >= 0, sel < len(t.alts))
            return SUnion(sel, [lambda a=a, i=i: self.make(a, name, lambda s, x: fac(s, '|%d%s' % (i, x)))
                                for i, a in enumerate(t.alts)])
        if isinstance(t, TDict):
            d = SDict('%s!%d' % (name, next(self.counter)), t.key, t.val)
            if isinstance(t.key, TSort):
                d.name = name
                d.idt = fac(z3.IntSort(), '#')
            return d
        if isinstance(t, TSort):
            return SOpq(fac(t.sort, ''))
        if hasattr(t, 'make'):
            return t.make(self, fac)
        raise Unsupported('make %r' % (t,))

    def dict_has(self, d, kt):
        return z3.Function('has_' + d.name, z3.IntSort(), kt.sort(), z3.BoolSort())(d.idt, kt)

    def dict_get(self, d, kt):
        key = ('dictget', d.idt.get_id(), kt.get_id())
        if key not in self.store:
            self.extra.setdefault('keep', []).extend([d.idt, kt])
            self.store[key] = self.make(d.vtype, d.name, lambda sort, suffix: z3.Function(
                'get_%s%s' % (d.name, suffix), z3.IntSort(), kt.sort(), sort)(d.idt, kt))
        return self.store[key]

    def seg(self, term, elem):
        k = term.get_id()
        if k in self.segs:
            return self.segs[k]
        s = Seg(term, elem)
        self.segs[k] = s
        self.solver.add(RLEN(term) >= 0)
        for h in self.spec.homs:
            if h.kind != 'first' and (not h.applies or h.applies(elem)):
                self.solver.add(z3.Implies(RLEN(term) == 0, h.fn(term) == self.hom(h, [])))
                if getattr(h, 'faithful', False):
                    self.solver.add(z3.Implies(h.fn(term) == h.nil, RLEN(term) == 0))
        if self.spec.new_seg:
            self.spec.new_seg(self, s)
        return s

    def force(self, v):
        """decide unions and None-ness only where the value has become definite"""
        while isinstance(v, SUnion):
            key = ('union', v.sel.get_id())
            if key not in self.store:
                n = len(v.thunks)
                i = 0
                while i < n - 1:
                    if self.decide(v.sel == i, 'alt%d' % i):
                        break
                    i += 1
                else:
                    self.solver.add(v.sel == n - 1)
                self.store[key] = (v.sel, v.thunks[i]())
            v = self.store[key][1]
        if isinstance(v, SRef) and self.classes.get(v.key) == (None,):
            return None
        if isinstance(v, Poison):
            raise Unsupported('value lost: ' + v.why)
        return v

    def classes_of(self, v):
        return self.classes[v.key]

    def narrow(self, ref, classes, assume=True):
        cur = self.classes[ref.key]
        new = tuple(c for c in cur if c in classes)
        if not new:
            raise PathEnd()
        if new != cur:
            self.classes[ref.key] = new
            if assume:
                self.solver.add(z3.Or([TAG(ref.t) == self.engine.classid(c) for c in new]))
        if len(new) == 1:
            if new[0] is None:
                self.solver.add(ref.t == NULL)
            self._unfold(ref, new[0])
        else:
            self._unfold_common(ref, new)

    @staticmethod
    def _rule(sf, cls):
        for k in cls.__mro__:
            if k in sf.unfold:
                return sf.unfold[k]
        return None

    def _unfold_common(self, ref, classes):
        """spec functions whose rule is the default for every class still possible"""
        maybe = None in classes
        for sf in self.spec.specfuns:
            if (sf.name, ref.key) not in self.unfolded:
                # one rule for all the classes still possible
                rules = set(self._rule(sf, c) for c in classes if c is not None)
                same = len(rules) == 1 and None not in rules and getattr(next(iter(rules)), 'shared', False)
                if same == 'constant' and maybe:
                    self.unfolded.add((sf.name, ref.key))
                    self.solver.add(z3.Implies(ref.t != NULL, sf.fn(ref.t) == next(iter(rules))(self, ref, None)))
                    continue
                if same and not maybe:
                    self.unfolded.add((sf.name, ref.key))
                    self.solver.add(sf.fn(ref.t) == next(iter(rules))(self, ref, lambda f: self.field(ref, f)))
                    continue
            if sf.default is None or (sf.name, ref.key) in self.unfolded:
                continue
            if all(not any(k in sf.unfold for k in c.__mro__) for c in classes if c is not None):
                self.unfolded.add((sf.name, ref.key))
                val = sf.default(self, ref, lambda f: self.field(ref, f))
                if val is not None:
                    f = sf.fn(ref.t) == val
                    self.solver.add(z3.Implies(ref.t != NULL, f) if maybe else f)

    def decide_class(self, ref, classes, tag='class'):
        """is ref's class in `classes`?"""
        cur = self.classes[ref.key]
        yes = [c for c in cur if c in classes]
        no = [c for c in cur if c not in classes]
        if not yes:
            return False
        if not no:
            return True
        f = z3.Or([TAG(ref.t) == self.engine.classid(c) for c in yes])
        b = self.decide(f, tag)
        self.narrow(ref, yes if b else no, assume=False)
        return b

    def the_class(self, ref):
        """fork until the class of ref is known; returns it (None for NoneType)"""
        while len(self.classes[ref.key]) > 1:
            c = self.classes[ref.key][0]
            self.decide_class(ref, (c,), 'is %s' % (c.__name__ if c else 'None'))
        return self.classes[ref.key][0]

    # -------------------------------------------------------------- objects
    def new_object(self, cls):
        t = self.fresh(cls.__name__, Ref)
        r = SRef(t)
        self.refs[r.key] = r
        self.classes[r.key] = (cls,)
        self.closed[r.key] = next(self.births)
        self.building.add(r.key)
        self.solver.add(TAG(t) == self.engine.classid(cls), t != NULL)
        return r

    def finish_object(self, ref):
        self.building.discard(ref.key)
        self._unfold(ref, self.classes[ref.key][0])

    def get_field(self, ref, field):
        """field of an object with decided class; None if no such instance field"""
        k = (ref.key, field)
        if k in self.store:
            return True, self.store[k]
        if ref.key in self.closed:
            return False, None
        cls = self.classes[ref.key][0]
        sch = self.spec.fields(cls)
        if field not in sch:
            return False, None
        t = sch[field]

        def fac(sort, suffix):
            return z3.Function('%s%s' % (field, suffix), Ref, sort)(ref.t)
        v = self.make(t, field, fac)
        self.store[k] = v
        return True, v

    def set_field(self, ref, field, val):
        cls = self.classes[ref.key][0]
        if ref.key not in self.building:
            if any(issubclass(cls, c) for c in self.spec.immutable):
                self.mutlog.append(('immut', ref, field))
                raise Unsupported('mutation of a %s after construction' % cls.__name__)
            self.mutlog.append(('field', ref, field))
        self.store[(ref.key, field)] = val

    def _unfold(self, ref, cls):
        if ref.key in self.building or ref.key in self.unfolded:
            return
        self.unfolded.add(ref.key)
        if cls is None:
            return
        for sf in self.spec.specfuns:
            fn = None
            for k in cls.__mro__:
                if k in sf.unfold:
                    fn = sf.unfold[k]
                    break
            if fn is None:
                fn = sf.default
            if fn is None and not sf.facts:
                continue
            val = fn and fn(self, ref, lambda f: self.field(ref, f))
            if val is not None:
                self.solver.add(sf.fn(ref.t) == val)
            if sf.facts:
                for f in sf.facts(self, ref, cls):
                    self.solver.add(f)

    def field(self, ref, f):
        ok, v = self.get_field(ref, f)
        if not ok:
            raise Unsupported('field %s missing in %s' % (f, self.classes[ref.key]))
        return v

    # -------------------------------------------------------------- terms
    def term(self, v):
        if v is None:
            return NULL
        if isinstance(v, SRef):
            return v.t
        if isinstance(v, SUnion):
            return self.term(self.force(v))
        raise Unsupported('no object term for %r' % (v,))

    def iterm(self, v):
        v = self.force(v)
        if isinstance(v, bool):
            return z3.IntVal(1 if v else 0)
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, SInt):
            return v.t
        if isinstance(v, SBool):
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported('not an int: %r' % (v,))

    def sterm(self, v):
        v = self.force(v)
        if isinstance(v, str):
            return z3.StringVal(v)
        if isinstance(v, SStr):
            return v.t
        raise Unsupported('not a str: %r' % (v,))

    def bterm(self, v):
        v = self.force(v)
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, SBool):
            return v.t
        raise Unsupported('not a bool: %r' % (v,))

    # -------------------------------------------------------------- sequences
    def flat(self, pieces):
        out = []
        for k, v in pieces:
            if k == 's' and v.resolved is not None:
                out.extend(self.flat(v.resolved))
            elif k == 'x' and v[1][0] == 's' and v[1][1].resolved is not None:
                out.extend(self.cross(v[0], self.flat(v[1][1].resolved)))
            else:
                out.append((k, v))
        return out

    def new_elem(self, elemtype, name='elem'):
        return self.make(elemtype, name)

    def split_front(self, seg):
        """decide whether seg is empty; if not seg = [h] ++ t"""
        if seg.resolved is not None:
            return
        if self.decide(RLEN(seg.t) == 0, 'empty'):
            self.resolve_seg(seg, [])
        else:
            h = self.new_elem(seg.elem)
            t = self.seg(self.fresh('rest', RSeq), seg.elem)
            self.resolve_seg(seg, [('e', h), ('s', t)])

    def split_back(self, seg):
        if seg.resolved is not None:
            return
        if self.decide(RLEN(seg.t) == 0, 'empty'):
            self.resolve_seg(seg, [])
        else:
            h = self.new_elem(seg.elem)
            t = self.seg(self.fresh('init', RSeq), seg.elem)
            self.resolve_seg(seg, [('s', t), ('e', h)])

    def split_mid(self, seg):
        P = self.seg(self.fresh('done', RSeq), seg.elem)
        n = self.new_elem(seg.elem)
        S = self.seg(self.fresh('todo', RSeq), seg.elem)
        self.resolve_seg(seg, [('s', P), ('e', n), ('s', S)])
        return P, n, S

    def resolve_seg(self, seg, pieces):
        seg.resolved = pieces
        self.solver.add(RLEN(seg.t) == self.len_of(pieces))
        for h in self.spec.homs:
            if h.applies and not h.applies(seg.elem):
                continue
            if (h.name, seg.key) in self.homdef:
                # two descriptions of the same image
                d = self.homdef.pop((h.name, seg.key))
                self.solver.add(self.hom(h, d) == self.hom(h, pieces))
                continue
            self.solver.add(h.fn(seg.t) == self.hom(h, pieces))
        for f in self.hooks:
            f(self, seg)

    def len_of(self, pieces):
        n = 0
        terms = []
        for k, v in self.flat(pieces):
            if k == 'e':
                n += 1
            else:
                terms.append(RLEN(v.t))
        if not terms:
            return z3.IntVal(n)
        return z3.Sum(terms + [z3.IntVal(n)]) if (n or len(terms) > 1) else terms[0]

    def hom_flat(self, h, pieces):
        out = []
        for k, v in self.flat(pieces):
            if k == 's' and (h.name, v.key) in self.homdef:
                out.extend(self.hom_flat(h, self.homdef[(h.name, v.key)]))
            elif k == 'x':
                # the image of a piece under another homomorphism into the same sequences
                g, piece = v
                for k2, v2 in self.hom_flat(g, [piece]):
                    if k2 == 'x':
                        out.append((k2, v2))
                    else:
                        out.append(('x', (g, (k2, v2))))
            else:
                out.append((k, v))
        return out

    def hom(self, h, pieces):
        """z3 term of the image of a sequence under h"""
        if isinstance(pieces, VSeq):
            pieces = pieces.pieces
        if h.kind == 'first':
            acc = h.default
            for k, v in reversed(self.flat(pieces)):
                if k == 'e':
                    c, x = h.elem(self, v)
                    acc = z3.If(c, x, acc)
                else:
                    acc = z3.If(h.any.fn(v.t), h.fn(v.t), acc)
            return acc
        if h.kind == 'horner':
            acc = None
            for k, v in self.hom_flat(h, pieces):
                if k == 'x':
                    raise Unsupported('image of an image')
                val, base = (h.fn(v.t), h.bases(v.t)) if k == 's' else h.elem(self, v)
                acc = val if acc is None else acc * base + val
            return z3.IntVal(0) if acc is None else acc
        items = []
        for k, v in self.hom_flat(h, pieces):
            g = h
            if k == 'x':
                g, (k, v) = v
            # flat: the image of one element is a sequence itself
            items.append(('s', g.elem(self, v)) if g.flat and k == 'e' else
                         (k, g.fn(v.t) if k == 's' else g.elem(self, v)))
        if h.kind == 'seq':
            if not items:
                return h.nil
            k, t = items[-1]
            acc = t if k == 's' else h.cons(t, h.nil)
            for k, t in reversed(items[:-1]):
                acc = h.app(t, acc) if k == 's' else h.cons(t, acc)
            # the last segment alone stands for itself (app(x, nil) = x)
            return acc
        ts = [t for k, t in items]
        if h.kind == 'sum':
            return z3.Sum(ts) if ts else z3.IntVal(0)
        if h.kind == 'max':
            acc = z3.IntVal(0)
            for t in ts:
                acc = z3.If(t > acc, t, acc)
            return acc
        if h.kind == 'all':
            return z3.And(ts) if ts else z3.BoolVal(True)
        if h.kind == 'any':
            return z3.Or(ts) if ts else z3.BoolVal(False)
        raise Unsupported(h.kind)

    def cross(self, g, pieces):
        """pieces whose image is taken under g"""
        return [(k, v) if k == 'x' else ('x', (g, (k, v))) for k, v in pieces]

    def define_hom(self, h, seg, pieces):
        self.homdef[(h.name, seg.key)] = list(pieces)
        self.solver.add(h.fn(seg.t) == self.hom(h, pieces))

    def assume_hom_eq(self, h, seq, pieces):
        """assume h(seq) == h(pieces); if seq is one fresh segment make it a rewriting"""
        if isinstance(pieces, VSeq):
            pieces = pieces.pieces
        fl = self.flat(seq.pieces)
        if len(fl) == 1 and fl[0][0] == 's' and (h.name, fl[0][1].key) not in self.homdef:
            self.define_hom(h, fl[0][1], pieces)
        else:
            self.solver.add(self.hom(h, seq) == self.hom(h, pieces))

    def elem_at(self, seq, i):
        """concrete index; None when out of range"""
        if i >= 0:
            while True:
                fl = self.flat(seq.pieces)
                cnt = 0
                again = False
                for k, v in fl:
                    if k == 's':
                        self.split_front(v)
                        again = True
                        break
                    if cnt == i:
                        return True, v
                    cnt += 1
                if not again:
                    return False, None
        j = -i - 1
        while True:
            fl = self.flat(seq.pieces)
            cnt = 0
            again = False
            for k, v in reversed(fl):
                if k == 's':
                    self.split_back(v)
                    again = True
                    break
                if cnt == j:
                    return True, v
                cnt += 1
            if not again:
                return False, None

    def concrete_items(self, seq):
        """list of values when the length is known, else None"""
        fl = self.flat(seq.pieces)
        if any(k == 's' for k, v in fl):
            return None
        return [v for k, v in fl]

    # -------------------------------------------------------------- typing for loop havoc
    def typeof(self, v):
        if isinstance(v, SUnion):
            key = ('union', v.sel.get_id())
            if key in self.store:
                return self.typeof(self.store[key][1])
            raise Unsupported('type of undecided union')
        if v is None:
            return NONE
        if isinstance(v, bool) or isinstance(v, SBool):
            return BOOL
        if isinstance(v, int) or isinstance(v, SInt):
            return INT
        if isinstance(v, str) or isinstance(v, SStr):
            return STR
        if isinstance(v, SOpq):
            return TSort(v.t.sort())
        if isinstance(v, SRef):
            cs = self.classes[v.key]
            real = [c for c in cs if c is not None]
            if not real:
                return NONE
            fam = self.spec.family(real[0])
            return TObj(fam, None in cs)
        if isinstance(v, VSeq):
            et = None
            allconc = True
            for k, x in self.flat(v.pieces):
                if k == 's':
                    allconc = False
                tx = x.elem if k == 's' else self.typeof(x)
                et = tx if et is None else join(et, tx)
            if v.kind == 'tuple' and allconc:
                return TTup(*[self.typeof(x) for k, x in self.flat(v.pieces)])
            return TSeq(et, v.kind)
        if hasattr(v, 'symtype'):
            return v.symtype()
        raise Unsupported('typeof %r' % (v,))


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a == b:
        return a
    for x, y in ((a, b), (b, a)):
        if hasattr(x, 'joined') and x.joined(y) is not None:
            return x.joined(y)
    if isinstance(a, TNone) and isinstance(b, TObj):
        return TObj(b.classes, True)
    if isinstance(b, TNone) and isinstance(a, TObj):
        return TObj(a.classes, True)
    if isinstance(a, TObj) and isinstance(b, TObj):
        cs = a.classes + tuple(c for c in b.classes if c not in a.classes)
        return TObj(cs, a.nullable or b.nullable)
    if isinstance(a, TSeq) and isinstance(b, TSeq) and a.kind == b.kind:
        return TSeq(join(a.elem, b.elem), a.kind)
    if isinstance(a, TTup) and isinstance(b, TTup) and len(a.elems) == len(b.elems) and a.kind == b.kind:
        return TTup(*[join(x, y) for x, y in zip(a.elems, b.elems)], kind=a.kind)
    if isinstance(a, TTup) and isinstance(b, TSeq):
        et = b.elem
        for x in a.elems:
            et = join(et, x)
        return TSeq(et, b.kind)
    if isinstance(b, TTup) and isinstance(a, TSeq):
        return join(b, a)
    if isinstance(a, TTup) and isinstance(b, TTup) and a.kind == b.kind:
        et = None
        for x in a.elems + b.elems:
            et = join(et, x)
        return TSeq(et, a.kind)
    alts = list(a.alts) if isinstance(a, TUnion) else [a]
    for x in (b.alts if isinstance(b, TUnion) else [b]):
        if x not in alts:
            alts.append(x)
    return TUnion(*alts) if len(alts) > 1 else alts[0]
