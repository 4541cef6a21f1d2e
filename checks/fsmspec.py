"""Contracts of pyverilog/controlflow/transition.py and utils/inference.py.

V is the value of the state register before the clock edge, MAX the largest value it can have.  VALI is the value of a
condition; a StateNode HOLDS when V is in one of its ranges (or it takes any) and its condition is true."""
import re
import z3
import pyverilog.controlflow.transition as TR
import pyverilog.utils.inference as INF
import pyverilog.utils.util as util
from pyvc.types import *
from pyvc.core import *
from pyvc import dfspec, pymodels
from pyvc.dfspec import Name

I = z3.IntSort()
V = z3.Int('V')
MAX = z3.Int('MAX')
TERM = z3.Const('TERM', Name)
COMPARE = {'LessThan': lambda x, y: x < y, 'GreaterThan': lambda x, y: x > y, 'LessEq': lambda x, y: x <= y,
           'GreaterEq': lambda x, y: x >= y, 'Eq': lambda x, y: x == y, 'NotEq': lambda x, y: x != y,
           'Eql': lambda x, y: x == y, 'NotEql': lambda x, y: x != y}
PAIR = TTup(INT, INT)


def pair(p, v):
    v = p.force(v)
    lo, hi = p.concrete_items(v)
    return p.iterm(p.force(lo)), p.iterm(p.force(hi))


def is_pair(t):
    return isinstance(t, TTup) and len(t.elems) == 2


def is_state(t):
    return isinstance(t, TObj) and set(t.classes) <= {TR.StateNode, TR.StateNodeList}


def spec():
    D = dfspec.classes()
    s = dfspec.base_spec('C05 transitions')
    N = s.N
    s.schema[D.DFOperator] = {'operator': STR, 'nextnodes': TSeq(N)}
    s.schema[D.DFEvalValue] = {'value': INT, 'width': TUnion(INT, NONE), 'isfloat': BOOL, 'isstring': BOOL}
    SN, SL, IV = TR.StateNode, TR.StateNodeList, INF.InferredValue
    s.families += [(SN, SL), (IV,)]
    s.schema[SN] = {'range_pairs': TSeq(PAIR), 'minvalue': INT, 'maxvalue': INT, 'transcond': s.NN, 'isany': BOOL}
    s.schema[SL] = {'nodelist': TSeq(TObj((SN,)))}
    s.schema[IV] = {'minval': TUnion(INT, NONE), 'maxval': TUnion(INT, NONE), 'inv': BOOL}
    s.immutable |= {SN, SL}
    T_, F_ = z3.BoolVal(True), z3.BoolVal(False)

    # ---- the value of a condition
    leaf = z3.Function('leaf', Ref, I)
    val = SpecFun('VALI', I, {}, null=lambda: z3.IntVal(0))
    vals = Hom('vals', 'seq', lambda p, v: val(p, v), I, dfspec.is_node_type)
    op = z3.Function('operation', z3.StringSort(), vals.seqsort, I)
    val.unfold = {
        D.DFTerminal: lambda p, r, f: z3.If(f('name').t == TERM, V, leaf(r.t)),
        D.DFEvalValue: lambda p, r, f: p.iterm(p.force(f('value'))),
        D.DFOperator: lambda p, r, f: op(p.sterm(f('operator')), p.hom(vals, f('nextnodes'))),
    }
    val.default = lambda p, r, f: leaf(r.t)
    UN, BI = {}, dict(COMPARE)
    for o in ('Ulnot', 'Unot'):
        UN[o] = lambda a: a == 0
    for o in ('Uor', 'Uplus'):
        UN[o] = lambda a: a != 0
    for o in ('And', 'Land'):
        BI[o] = lambda a, b: z3.And(a != 0, b != 0)
    for o in ('Or', 'Lor'):
        BI[o] = lambda a, b: z3.Or(a != 0, b != 0)

    def meaning(p, r, c):
        """when an operator's value is not zero, once its operands are there"""
        if c is not D.DFOperator:
            return [leaf(r.t) >= 0]
        o, xs = p.sterm(p.field(r, 'operator')), p.field(r, 'nextnodes')
        done = []

        def attempt(p, seg=None):
            a = []
            for k, v in p.flat(xs.pieces):
                if k == 's' or len(a) == 2:
                    break
                a.append(v)
            t = op(o, p.hom(vals, xs))
            for k, ops in ((1, UN), (2, BI)):
                if len(a) < k or k in done:
                    continue
                done.append(k)
                for n, f in ops.items():
                    g = z3.simplify(o == z3.StringVal(n))
                    if not z3.is_false(g):
                        p.solver.add(z3.Implies(z3.And(g, p.len_of(xs.pieces) == k), (t != 0) == f(*[val(p, v) for v in a[:k]])))
        p.hooks.append(attempt)
        attempt(p)
        return [leaf(r.t) >= 0]
    val.facts = meaning
    s.axioms = [V >= 0, V <= MAX]
    true = lambda p, n: val(p, n) != 0

    # every operator has its operands: one or two, and a negation one
    shaped = SpecFun('shaped', z3.BoolSort(), {}, null=lambda: z3.BoolVal(True), default=lambda p, r, f: z3.BoolVal(True))
    alls = Hom('all_shaped', 'all', lambda p, v: shaped(p, v), None, dfspec.is_node_type)
    isnot = lambda p, r, f: z3.Or([p.sterm(f('operator')) == z3.StringVal(n) for n in ('Ulnot', 'Unot')])
    shaped.unfold = {D.DFOperator: lambda p, r, f: z3.And(
        p.len_of(f('nextnodes').pieces) > 0, p.hom(alls, f('nextnodes')),
        z3.Implies(isnot(p, r, f), p.len_of(f('nextnodes').pieces) == 1))}

    # ---- ranges
    inr = lambda p, v: (lambda q: z3.And(q[0] <= V, V <= q[1]))(pair(p, v))
    IN = Hom('in_ranges', 'any', inr, None, is_pair)
    UPTO = Hom('up_to_end', 'any', lambda p, v: V <= pair(p, v)[1], None, is_pair)
    OKP = Hom('good_ranges', 'all', lambda p, v: (lambda q: z3.And(0 <= q[0], q[0] <= q[1], q[1] <= MAX))(pair(p, v)),
              None, is_pair)

    # ---- states
    holds = SpecFun('HOLDS', z3.BoolSort(), {}, null=lambda: F_)
    well = SpecFun('WELL', z3.BoolSort(), {}, null=lambda: T_)
    anyh = Hom('any_holds', 'any', lambda p, v: holds(p, v), None, is_state)
    allw = Hom('all_well', 'all', lambda p, v: well(p, v), None, is_state)
    truen = z3.Function('cond_true', Ref, z3.BoolSort())

    def cond(p, r, f):
        t = p.term(f('transcond'))
        return z3.Or(t == NULL, val.fn(t) != 0)
    holds.unfold = {
        SN: lambda p, r, f: z3.And(z3.Or(p.bterm(f('isany')), p.hom(IN, f('range_pairs'))), cond(p, r, f)),
        SL: lambda p, r, f: p.hom(anyh, f('nodelist')),
    }
    well.unfold = {
        SN: lambda p, r, f: z3.And(p.iterm(f('minvalue')) == 0, p.iterm(f('maxvalue')) == MAX,
                                   shaped.fn(p.term(f('transcond'))), z3.Implies(p.bterm(f('isany')), p.len_of(f('range_pairs').pieces) == 0),
                                   p.hom(OKP, f('range_pairs'))),
        SL: lambda p, r, f: z3.And(p.len_of(f('nodelist').pieces) > 0, p.hom(allw, f('nodelist'))),
    }
    alltrue = Hom('all_true', 'all', lambda p, v: true(p, v), None, dfspec.is_node_type)
    s.specfuns = [val, shaped, holds, well]
    s.homs = [vals, IN, UPTO, OKP, anyh, allw, alltrue, alls]

    # a value in one of the ranges is not beyond all of them
    def monotone(p, seg):
        # the ranges are not empty: elementwise, then by induction
        if is_pair(seg.elem):
            p.solver.add(z3.Implies(IN.fn(seg.t), UPTO.fn(seg.t)))
    s.new_seg = monotone

    # sorted by the lower ends: what is passed begins no later than the current range
    def sorted_seq(it, pieces, kwargs):
        p = it.p
        pieces = p.flat(pieces)
        if len(pieces) != 1 or kwargs.get('reverse') not in (None, False):
            raise Unsupported('sorted')
        src = pieces[0][1]
        if not is_pair(src.elem):
            raise Unsupported('sorted')
        key = p.force(kwargs.get('key'))
        if key is not None:
            v = p.make(src.elem, 'probe')
            k = p.force(it.call(key, [v], {}))
            if isinstance(k, VSeq):
                k = p.force(p.concrete_items(k)[0])
            if not (isinstance(k, SInt) and k.t.eq(pair(p, v)[0])):
                raise Unsupported('sorted by another key')
        seg = p.seg(p.fresh('sorted', RSeq), src.elem)
        for h in (IN, UPTO, OKP):
            p.solver.add(h.fn(seg.t) == h.fn(src.t))
        p.solver.add(RLEN(seg.t) == RLEN(src.t))
        below(p, seg)
        # the elements by position: a value in the ranges is in one of them
        p.extra.setdefault('indexed', set()).add(seg.key)
        w = witness(seg.t)
        p.solver.add(z3.Implies(IN.fn(seg.t), z3.And(0 <= w, w < RLEN(seg.t), lo(seg.t, w) <= V, V <= hi(seg.t, w))))
        return VSeq('list', [('s', seg)], next(p.births))

    def below(p, seg):
        def hook(p, g):
            if g is not seg or g.resolved is None or len(g.resolved) != 3:
                return
            (k, P), (_, n), (_, S) = g.resolved
            lo, hi = pair(p, n)
            # lemma by induction over P: every range passed begins at or before lo, so one that ends at V or later has V
            a, b, e, f = z3.Bool('IN!P'), z3.Bool('UPTO!P'), z3.Int('lo!e'), z3.Int('hi!e')
            step = z3.Implies(z3.And(e <= lo, z3.Implies(z3.And(b, lo <= V), a), z3.Or(b, V <= f), lo <= V),
                              z3.Or(a, z3.And(e <= V, V <= f)))
            p.oblige('lemma: a range that begins no later and ends no earlier has the value', step)
            p.solver.add(z3.Implies(z3.And(UPTO.fn(P.t), lo <= V), IN.fn(P.t)))
        p.hooks.append(hook)
    s.sorted_seq = sorted_seq
    lo, hi = z3.Function('lower', RSeq, I, I), z3.Function('upper', RSeq, I, I)
    witness = z3.Function('witness', RSeq, I)

    def by_index(p, v):
        """the segment of a sorted list"""
        if not isinstance(v, VSeq):
            return None
        fl = p.flat(v.pieces)
        if len(fl) == 1 and fl[0][0] == 's' and fl[0][1].key in p.extra.get('indexed', ()):
            return fl[0][1]
        return None

    def index_seq(it, o, k):
        p = it.p
        seg = by_index(p, o)
        if seg is None:
            return None
        k = p.iterm(k)
        if not p.decide(z3.And(0 <= k, k < RLEN(seg.t)), 'index in range'):
            if p.decide(z3.And(k < 0, k >= -RLEN(seg.t)), 'negative index'):
                raise Unsupported('index from the end')
            raise PyRaise(IndexError, (), 'index')
        at(p, seg, k)
        return VSeq('tuple', [('e', SInt(lo(seg.t, k))), ('e', SInt(hi(seg.t, k)))], next(p.births))

    def at(p, seg, k):
        """what is known of the element at a position, and how it lies to the one that has the value"""
        a, b, w = lo(seg.t, k), hi(seg.t, k), witness(seg.t)
        p.solver.add(z3.Implies(z3.And(0 <= k, k < RLEN(seg.t)), z3.And(
            z3.Implies(z3.And(a <= V, V <= b), IN.fn(seg.t)),
            z3.Implies(OKP.fn(seg.t), z3.And(0 <= a, a <= b, b <= MAX)),
            z3.Implies(z3.And(0 <= w, w < RLEN(seg.t)),
                       z3.And(z3.Implies(k <= w, a <= lo(seg.t, w)), z3.Implies(w <= k, lo(seg.t, w) <= a))))))
    s.index_seq = index_seq

    def set_of(it, pieces):
        p = it.p
        fl = p.flat(pieces)
        t = p.segs and [v.elem for k, v in fl if k == 's'][0]
        seg = p.seg(p.fresh('set', RSeq), t)
        for h in s.homs:
            if h.kind in ('any', 'all') and (not h.applies or h.applies(t)):
                p.solver.add(h.fn(seg.t) == p.hom(h, fl))
        p.solver.add((RLEN(seg.t) == 0) == (p.len_of(fl) == 0), RLEN(seg.t) <= p.len_of(fl))
        return VSeq('list', [('s', seg)], next(p.births))
    s.set_of = set_of

    def whiles(it, loc, frame, v0):
        """the ranges of two sorted lists merged by two indexes"""
        p = it.p
        out = []
        num = lambda d: [(n, p.iterm(v)) for n, v in sorted(d.items()) if isinstance(v, (SInt, int)) and not isinstance(v, bool)]
        ints = num(loc)
        segs = [(n, by_index(p, v)) for n, v in sorted(frame.items()) if by_index(p, v) is not None]
        for n, x in ints:
            for m, g in segs:
                at(p, g, x)
                out.append(((n, 'index of', m), z3.And(0 <= x, x < RLEN(g.t))))
            for n2, y in ints:
                if n != n2:
                    out.append(((n, n2, 'same or none'), z3.Or(x == y, x == -1)))
                    for m, g in segs:
                        out.append(((n, n2, m, 'lower'), y == lo(g.t, x)))
                        out.append(((n, n2, m, 'upper'), y == hi(g.t, x)))
        for n, L in sorted(loc.items()):
            if not isinstance(L, VSeq) or by_index(p, L) is not None:
                continue
            et = it._elem_type(L)
            if et is not None and not is_pair(et):
                continue
            inl = p.hom(IN, L)
            out.append(((n, 'good ranges'), p.hom(OKP, L)))
            for m, g in segs:
                out.append(((n, 'only what is in', m), z3.Implies(inl, IN.fn(g.t))))
            for i, (m, g) in enumerate(segs):
                for m2, g2 in segs[i + 1:]:
                    for n1, x in ints:
                        for n2, y in ints:
                            out.append(((n, 'has what is in', m, m2, 'before', n1, n2), z3.Implies(
                                z3.And(IN.fn(g.t), IN.fn(g2.t), z3.Or(witness(g.t) < x, witness(g2.t) < y)), inl)))
        return out
    s.while_candidates = whiles

    # ---- loop invariants
    def scalars(it, ln, v, v0, P, seg):
        p = it.p
        out = []
        isref = lambda u: u is None or isinstance(u, SRef) and p.classes_of(u) and \
            set(c for c in p.classes_of(u) if c is not None) <= {SN, SL}
        if isinstance(v, (SRef, type(None))) and isref(v) and isref(v0):
            h, h0, n = holds.fn(p.term(v)), holds.fn(p.term(v0)), p.len_of(P)
            out.append(('well', well.fn(p.term(v))))
            out.append(('missing while nothing passed', z3.Implies(n == 0, (p.term(v) == NULL) == (p.term(v0) == NULL))))
            out.append(('there once something passed', z3.Implies(n > 0, p.term(v) != NULL)))
            if is_state(seg.elem):
                a = p.hom(anyh, P)
                out.append(('and none of them', h == z3.And(h0, z3.Not(a))))
                out.append(('or any of them', h == z3.Or(h0, a)))
            if dfspec.is_node_type(seg.elem) and not is_state(seg.elem):
                a = p.hom(alltrue, P)
                out.append(('all of them', h == z3.And(h0, a)))
                out.append(('all of them, if any', z3.Implies(n > 0, h == a)))
        if isinstance(v, (SInt, int)) and isinstance(v0, (SInt, int)) and is_pair(seg.elem):
            out.append(('not less', p.iterm(v) >= p.iterm(v0)))
            out.append(('beyond all', (V < p.iterm(v)) == z3.Or(V < p.iterm(v0), p.hom(UPTO, P))))
            out.append(('in bounds', p.iterm(v) <= MAX + 1))
        return out
    s.scalar_candidates = [scalars]

    def relations(it, vals_, v0, P, seg):
        p = it.p
        out = []
        for ln, L in vals_.items():
            if not isinstance(L, VSeq):
                continue
            et = it._elem_type(L)
            if is_state(seg.elem) and (et is None or is_state(et)):
                for n, r in sorted(it.stack[-1].locals.items()):
                    if not isinstance(r, SRef) or ('local', n) in vals_:
                        continue
                    cs = [c for c in p.classes_of(r) if c is not None]
                    if not cs or not set(cs) <= {SN, SL}:
                        continue
                    out.append((('rel', n, ln, 'any with ' + n), p.hom(anyh, L) == z3.Or(
                        p.hom(anyh, v0[ln]), z3.And(p.hom(anyh, P), holds.fn(r.t)))))
            if is_pair(seg.elem) and (et is None or is_pair(et)):
                for l2, c in vals_.items():
                    if isinstance(c, (SInt, int)) and not isinstance(c, bool):
                        c0 = p.iterm(v0[l2])
                        out.append((('rel', l2, ln, 'gaps below ' + str(l2[-1])), p.hom(IN, L) == z3.Or(
                            p.hom(IN, v0[ln]), z3.And(c0 <= V, V < p.iterm(c), z3.Not(p.hom(IN, P))))))
        return out
    s.loop_relations = [relations]

    # ---- calls that need a model
    def one_of(it, t, names):
        for n in names:
            if it.p.decide(t == z3.StringVal(n), n):
                return n
        if not it.p.feasible():
            raise PathEnd()
        raise Unsupported('operator')

    def sub(it, args, kwargs):
        args = [it.p.force(a) for a in args]
        if isinstance(args[2], SStr):
            args[2] = one_of(it, args[2].t, sorted(COMPARE))
        if not all(isinstance(a, str) for a in args):
            raise Unsupported('re.sub')
        return re.sub(*args)
    s.opaque_calls[re.sub] = sub

    def dyn_getattr(it, args):
        t = it.p.sterm(it.p.force(args[1]))
        mod = args[0]
        for n in sorted(vars(mod)):
            if n.startswith('__'):
                continue
            if it.p.valid(t != z3.StringVal(n)) is True:
                continue
            if it.p.decide(t == z3.StringVal(n), n):
                return it.getattr(mod, n)
        if not it.p.feasible():
            raise PathEnd()
        if len(args) > 2:
            return args[2]
        raise Unsupported('getattr')
    s.dyn_getattr = dyn_getattr

    # ---- contracts
    M = 'pyverilog.controlflow.transition:'
    ST = TObj((SN, SL))
    STN = TObj((SN, SL), True)
    H = lambda p, v: holds.fn(p.term(p.force(v)))
    W = lambda p, v: well.fn(p.term(p.force(v)))

    def result(f):
        return lambda p, a, r, o: [('holds exactly when it should', H(p, r) == f(p, a)), ('well-formed', W(p, r))]
    Hn = lambda p, v: holds.fn(p.term(v))
    Wn = lambda p, v: well.fn(p.term(v))

    def post(f):
        return lambda p, a, r, o: [('holds exactly when it should', Hn(p, r) == f(p, a)), ('well-formed', Wn(p, r))]
    s.add(Contract('pyverilog.utils.util:maxValue', {'width': INT}, returns=INT, trusted=True,
                   ensures=lambda p, a, r, o: [('largest value', p.iterm(r) == MAX)]))
    name = {'termname': TSort(Name), 'termwidth': INT}
    isname = lambda p, a: [('the register', p.force(a['termname']).t == TERM),
                           ('conditions with their operands',
                            shaped(p, a['cond']) if 'cond' in a else p.hom(alls, a['condlist']))]
    s.add(Contract(M + 'walkCondlist', dict({'condlist': TSeq(N)}, **name), returns=STN, requires=isname,
                   ensures=post(lambda p, a: p.hom(alltrue, a['condlist']))))
    s.add(Contract(M + 'walkCond', dict({'cond': N}, **name), returns=STN, requires=isname,
                   ensures=post(lambda p, a: true(p, a['cond']))))

    def arity(n):
        return lambda p, a: isname(p, a) + [('operands', p.len_of(p.field(a['cond'], 'nextnodes').pieces) == n)]
    OP = TObj((D.DFOperator,))
    s.add(Contract(M + '_walkCond_DFOperator_unary', dict({'cond': OP}, **name), returns=STN, requires=arity(1),
                   ensures=post(lambda p, a: true(p, a['cond']))))
    s.add(Contract(M + '_walkCond_DFOperator_dual', dict({'cond': OP}, **name), returns=STN, requires=arity(2),
                   ensures=post(lambda p, a: true(p, a['cond']))))
    pre = lambda *ks: (lambda p, a: [('well-formed ' + k, Wn(p, a[k])) for k in ks])
    s.add(Contract(M + 'notStateNodeList', {'node': ST}, returns=STN, requires=pre('node'),
                   ensures=post(lambda p, a: z3.Not(Hn(p, a['node'])))))
    s.add(Contract(M + 'notStateNode', {'node': TObj((SN,))}, returns=STN, requires=pre('node'),
                   ensures=post(lambda p, a: z3.Not(Hn(p, a['node'])))))
    s.add(Contract(M + 'orStateNodeList', {'lnode': STN, 'rnode': STN}, returns=STN, requires=pre('lnode', 'rnode'),
                   ensures=post(lambda p, a: z3.Or(Hn(p, a['lnode']), Hn(p, a['rnode'])))))
    s.add(Contract(M + 'andStateNodeList', {'lnode': STN, 'rnode': STN}, returns=STN, requires=pre('lnode', 'rnode'),
                   ensures=post(lambda p, a: z3.And(Hn(p, a['lnode']), Hn(p, a['rnode'])))))
    s.add(Contract(M + 'andStateNode', {'sna': TObj((SN,), True), 'snb': TObj((SN,), True)}, returns=TObj((SN,), True),
                   requires=pre('sna', 'snb'),
                   ensures=post(lambda p, a: z3.And(Hn(p, a['sna']), Hn(p, a['snb'])))))
    INp = lambda p, a, k: p.hom(IN, p.field(a[k], 'range_pairs'))
    s.add(Contract(M + '_and_range_pairs', {'sna': TObj((SN,)), 'snb': TObj((SN,))}, returns=TSeq(PAIR, 'list'),
                   requires=lambda p, a: pre('sna', 'snb')(p, a) + [
                       ('ranges of ' + k, p.len_of(p.field(a[k], 'range_pairs').pieces) > 0) for k in ('sna', 'snb')],
                   ensures=lambda p, a, r, o: [('in both', p.hom(IN, r) == z3.And(INp(p, a, 'sna'), INp(p, a, 'snb'))),
                                               ('good ranges', p.hom(OKP, r))]))
    s.add(Contract(M + '_not_range_pairs', {'node': TObj((SN,))}, returns=TSeq(PAIR, 'list'), requires=pre('node'),
                   ensures=lambda p, a, r, o: [('in none of them', p.hom(IN, r) == z3.Not(INp(p, a, 'node'))),
                                               ('good ranges', p.hom(OKP, r))]))
    s.add(Contract(M + '_not_transcond', {'transcond': N}, returns=N,
                   requires=lambda p, a: [('with its operands', shaped(p, a['transcond']))],
                   ensures=lambda p, a, r, o: [('there', p.term(r) != NULL), ('with its operands', shaped(p, r)),
                                               ('the opposite', true(p, r) == z3.Not(true(p, a['transcond'])))]))

    def within(p, iv):
        lo, hi = p.force(p.field(iv, 'minval')), p.force(p.field(iv, 'maxval'))
        f = z3.And(T_ if lo is None else V >= p.iterm(lo), T_ if hi is None else V <= p.iterm(hi))
        return f != p.bterm(p.field(iv, 'inv'))
    s.add(Contract(M + 'createStateNode', {'infval': TObj((IV,)), 'width': INT}, returns=STN,
                   ensures=post(lambda p, a: within(p, a['infval']))))

    def compared(p, a):
        t = p.sterm(a['op'])
        f = F_
        v = val(p, a['node'])
        for o, g in COMPARE.items():
            f = z3.If(t == z3.StringVal(o), g(V, v), f)
        return f
    s.add(Contract('pyverilog.utils.inference:infer', {'op': STR, 'node': TObj((D.DFEvalValue,))}, returns=TObj((IV,)),
                   requires=lambda p, a: [('a comparison', z3.Or([p.sterm(a['op']) == z3.StringVal(o) for o in COMPARE]))],
                   ensures=lambda p, a, r, o: [('the values compared so', within(p, r) == compared(p, a))]))
    return s
