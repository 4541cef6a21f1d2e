"""C10: two dataflow expressions are equal exactly when they have the same structure; equal ones hash alike."""
import copy
import z3
import pyverilog.dataflow.dataflow as DF
from pyvc.types import *
from pyvc.core import *
from pyvc import dfspec
from pyvc.dfspec import Name
from checks import dfgen
from checks.dfgen import ser, deser

Code = z3.DeclareSort('Code')
Piece = z3.DeclareSort('Piece')
Hash = z3.DeclareSort('Hash')


def structure(s, D):
    """code: the structure of a tree as an abstract term, with its projections (so that it is injective)"""
    S, I = z3.StringSort(), z3.IntSort()
    nocode = z3.Const('no_code', Code)
    kind = z3.Function('kind', Code, I)
    code = SpecFun('code', Code, {}, null=lambda: nocode)
    codes = Hom('codes', 'seq', lambda p, v: code(p, v), Code, dfspec.is_node_type)
    inject = {Code: z3.Function('of_node', Code, Piece), codes.seqsort: z3.Function('of_nodes', codes.seqsort, Piece),
              S: z3.Function('of_text', S, Piece), I: z3.Function('of_int', I, Piece),
              Name: z3.Function('of_name', Name, Piece), z3.BoolSort(): z3.Function('of_bool', z3.BoolSort(), Piece),
              z3.DeclareSort('Float'): z3.Function('of_float', z3.DeclareSort('Float'), Piece)}
    proj = {so: z3.Function('proj_%s' % so, Piece, so) for so in inject}
    pkind = z3.Function('piece_kind', Piece, I)
    none = z3.Const('of_none', Piece)
    mk = {n: z3.Function('mk%d' % n, *([I] + [Piece] * n + [Code])) for n in range(1, 5)}
    get = [z3.Function('part%d' % i, Code, Piece) for i in range(4)]

    def piece(p, v):
        v = p.force(v)
        if v is None:
            t, k = none, 0
            facts = []
        else:
            if isinstance(v, VSeq):
                x = p.hom(codes, v)
            elif isinstance(v, SRef):
                x = code(p, v)
            elif isinstance(v, (bool, SBool)):
                x = p.bterm(v)
            elif isinstance(v, (str, SStr)):
                x = p.sterm(v)
            elif isinstance(v, (int, SInt)):
                x = p.iterm(v)
            else:
                x = v.t
            t = inject[x.sort()](x)
            k = 1 + sorted(str(q) for q in inject).index(str(x.sort()))
            facts = [proj[x.sort()](t) == x]
        for f in facts + [pkind(t) == k]:
            p.assume(f)
        return t

    def ids(cls):
        return [c for c in dfspec.node_types()].index(cls) + 1
    NODE = dfspec.node_types()

    def unfold(cls, fields):
        def f(p, r, get_):
            ps = [piece(p, get_(x)) for x in fields]
            return mk[len(ps)](z3.IntVal(ids(cls)), *ps)
        return f
    FIELDS = {
        D.DFTerminal: ('name',), D.DFIntConst: ('value',), D.DFFloatConst: ('value',), D.DFStringConst: ('value',),
        D.DFEvalValue: ('value', 'width', 'isfloat', 'isstring'), D.DFUndefined: ('width',), D.DFHighImpedance: ('width',),
        D.DFBranch: ('condnode', 'truenode', 'falsenode'), D.DFOperator: ('operator', 'nextnodes'),
        D.DFPartselect: ('var', 'msb', 'lsb'), D.DFPointer: ('var', 'ptr'), D.DFConcat: ('nextnodes',),
        D.DFDelay: ('nextnode',), D.DFSyscall: ('syscall', 'nextnodes')}
    code.unfold = {c: unfold(c, FIELDS[c]) for c in NODE}

    def facts(p, ref, cls):
        if cls not in FIELDS:
            return []
        c = code(p, ref)
        out = [kind(c) == ids(cls)]
        for i, f in enumerate(FIELDS[cls]):
            out.append(get[i](c) == piece(p, p.field(ref, f)))
        if cls is D.DFEvalValue:
            v = p.force(p.field(ref, 'value'))
            out.append(p.bterm(p.field(ref, 'isfloat')) == z3.BoolVal(isinstance(v, SOpq)))
            out.append(p.bterm(p.field(ref, 'isstring')) == z3.BoolVal(isinstance(v, (str, SStr))))
        return out
    code.facts = facts
    s.specfuns.append(code)
    s.homs.append(codes)
    s.axioms.append(kind(nocode) == 0)
    s.seq_eq = lambda it, a, b: SBool(it.p.hom(codes, a) == it.p.hom(codes, b))
    s.opq_num_eq = lambda it, a, b: SBool(it.p.fresh('float_equals', z3.BoolSort()))
    return code, codes, FIELDS, kind


def hashing(s, code, codes):
    hn = z3.Function('hash_node', Code, Hash)
    hs = {}

    def h(it, v):
        p = it.p
        v = p.force(v)
        fn = lambda so: hs.setdefault(str(so), z3.Function('hash_%s' % so, so, Hash))
        if v is None:
            return SOpq(z3.Const('hash_none', Hash))
        if isinstance(v, VSeq):
            fl = p.flat(v.pieces)
            if any(k == 's' for k, x in fl):
                if v.kind != 'tuple':
                    raise PyRaise(TypeError, (), 'unhashable')
                return SOpq(z3.Function('hash_nodes', codes.seqsort, Hash)(p.hom(codes, v)))
            if v.kind != 'tuple':
                raise PyRaise(TypeError, (), 'unhashable')
            hh = [h(it, x).t for k, x in fl]
            return SOpq(z3.Function('hash_tuple%d' % len(hh), *([Hash] * len(hh) + [Hash]))(*hh)) if hh else \
                SOpq(z3.Const('hash_empty', Hash))
        if isinstance(v, SRef):
            return SOpq(hn(code(p, v)))
        if isinstance(v, (bool, SBool)):
            return SOpq(fn(z3.BoolSort())(p.bterm(v)))
        if isinstance(v, (int, SInt)):
            return SOpq(fn(z3.IntSort())(p.iterm(v)))
        if isinstance(v, (str, SStr)):
            return SOpq(fn(z3.StringSort())(p.sterm(v)))
        if isinstance(v, SOpq):
            return SOpq(fn(v.t.sort())(v.t))
        raise Unsupported('hash of %r' % (v,))
    s.hash_model = h


def spec():
    D = dfspec.classes()
    s = dfspec.base_spec('C10')
    code, codes, FIELDS, kind = structure(s, D)
    hashing(s, code, codes)
    N, NN = s.N, s.NN
    s.virtuals[(D.DFNode, '__eq__')] = Contract(
        'pyverilog.dataflow.dataflow:DFNode.__eq__', {'self': N, 'other': NN}, returns=BOOL,
        ensures=lambda p, a, r, o: [('same structure', p.bterm(r) == (code(p, a['self']) == code(p, a['other'])))])
    M = 'pyverilog.dataflow.dataflow:'

    def dec(p, v):
        """the class of an object must be known for its structure to be spelled out"""
        v = p.force(v)
        if isinstance(v, SRef):
            p.the_class(v)
        return v

    def eq_post(neg):
        def f(p, a, r, o):
            same = code(p, dec(p, a['self'])) == code(p, dec(p, a['other']))
            r = p.bterm(r) if isinstance(p.force(r), (bool, SBool)) else z3.BoolVal(a['_it'].truth(r))
            return [('exactly when the structures %s' % ('differ' if neg else 'are the same'),
                     r == (z3.Not(same) if neg else same))]
        return f
    for c in FIELDS:
        s.add(Contract(M + c.__name__ + '.__eq__', {'self': TObj((c,)), 'other': NN}, returns=BOOL, ensures=eq_post(False)))

        def hash_post(p, a, r, o, c=c):
            it = a['_it']
            from pyvc import extract
            owner, fn = extract.find_owner(c, '__hash__')
            r2 = it.run_inline(fn, [a['_other']], owner)
            if not (isinstance(r, SOpq) and isinstance(r2, SOpq)):
                return [('not an identity', z3.BoolVal(False))]
            return [('equal expressions hash alike', r.t == r2.t)]
        s.add(Contract(M + c.__name__ + '.__hash__', {'self': TObj((c,)), '_other': TObj((c,))},
                       requires=lambda p, a: [('equal', code(p, dec(p, a['self'])) == code(p, dec(p, a['_other'])))],
                       ensures=hash_post))
    s.add(Contract(M + 'DFNode.__ne__', {'self': N, 'other': NN}, returns=BOOL, ensures=eq_post(True)))
    return s


def specs():
    return [spec]


# ------------------------------------------------------------------ bounded search on the real code
def mutate(rng, t):
    """a structurally different copy (one place changed)"""
    nodes = [x for x in dfgen.walk(t) if x is not None]
    t = copy.deepcopy(t)
    nodes = [x for x in dfgen.walk(t) if x is not None]
    n = rng.choice(nodes)
    k = rng.choice(sorted(n.__dict__))
    v = n.__dict__[k]
    if isinstance(v, DF.DFNode) or v is None and k in ('truenode', 'falsenode'):
        new = dfgen.term('zz') if v is not None and rng.random() < .7 else (None if v is not None else dfgen.term('q'))
        if k not in ('truenode', 'falsenode') and new is None:
            new = dfgen.term('zz')
    elif isinstance(v, tuple):
        v = list(v)
        x = rng.randrange(4)
        if x == 0 and len(v) > 1:
            v.pop()
        elif x == 1 and len(v) > 1:
            v = [v[-1]] + v[1:-1] + [v[0]]
        elif x == 2:
            v.append(dfgen.term('zz'))
        else:
            v[rng.randrange(len(v))] = dfgen.term('zz')
        new = tuple(v)
    elif isinstance(v, bool):
        return t
    elif isinstance(v, int):
        new = v + 1
    elif isinstance(v, str):
        new = rng.choice([x for x in ('Plus', 'Minus', '7', 'x') if x != v])
    else:
        new = dfgen.chain('other')
    n.__dict__[k] = new
    return t


def cases(rng, tier, shard, nshards):
    small = list(dfgen.enum_small([dfgen.term('a'), DF.DFIntConst('1'), dfgen.term('b')]))
    small += [DF.DFEvalValue(1, 4), DF.DFEvalValue(1, 8), DF.DFEvalValue(2, 4), DF.DFUndefined(1), DF.DFUndefined(2),
              DF.DFHighImpedance(1), DF.DFStringConst('1'), DF.DFFloatConst('1'), DF.DFSyscall('f', (dfgen.term('a'),)),
              DF.DFSyscall('g', (dfgen.term('a'),)), DF.DFSyscall('f', (dfgen.term('b'),)), DF.DFEvalValue('1', None, isstring=True)]
    for i, t in enumerate(small):
        if i % nshards == shard:
            yield {'a': ser(t), 'b': ser(copy.deepcopy(t))}
            yield {'a': ser(t), 'b': ser(None)}
    for i in range(200):
        yield {'a': ser(rng.choice(small[-60:])), 'b': ser(rng.choice(small[-60:]))}
    while True:
        t = dfgen.rnd(rng, rng.randrange(0, 4))
        yield {'a': ser(t), 'b': ser(mutate(rng, t) if rng.random() < .7 else dfgen.rnd(rng, rng.randrange(0, 2)))}
        yield {'a': ser(t), 'b': ser(t)}


def check_case(case):
    a, b = deser(case['a']), deser(case['b'])
    same = dfgen.show(a) == dfgen.show(b)
    for x, y in ((a, b), (b, a)):
        if x is None:
            continue
        try:
            e, n = x == y, x != y
        except Exception as ex:
            return ('exception', 'comparing %s with %s raised %s: %s' % (dfgen.show(x), dfgen.show(y), type(ex).__name__, ex))
        if bool(e) != same or bool(n) == same:
            return ('equality', '%s == %s is %s, != is %s' % (dfgen.show(x), dfgen.show(y), e, n))
    if same and a is not None:
        try:
            if hash(a) != hash(b):
                return ('hash', 'equal expressions %s have different hashes' % dfgen.show(a))
        except Exception as ex:
            return ('exception', 'hash of %s raised %s: %s' % (dfgen.show(a), type(ex).__name__, ex))
    return None


def case_from_cex(target, cex):
    if target.endswith('__eq__') or target.endswith('__ne__'):
        return {'a': cex['self'], 'b': cex['other']}
    if '_other' in cex:
        return {'a': cex['self'], 'b': cex['_other']}
    return None


def case_key(case):
    return dfgen.show(deser(case['a'])) + ' / ' + dfgen.show(deser(case['b']))


LEVEL = 'proof'
LEVEL_NOTE = ('__eq__ and __hash__ of all 14 node classes and __ne__ proved against structural equality (children by the same '
              'contract: structural induction); tuple equality and hash() of tuples, texts and numbers are the built-in ones')
QUICK_S = 8
THOROUGH_S = 120
ASSUMPTIONS = ['tuples compare element by element', 'a DFEvalValue holds a float exactly when marked isfloat and a text exactly '
               'when marked isstring', 'signal names compare by their scope labels (C09)']
RULE = 'pairs of small and random trees, copies and one-place mutations; distinct = different pairs of tree texts'
