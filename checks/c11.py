"""C11: two syntax trees are equal exactly when they have the same structure; equal ones hash alike."""
import copy
import z3
import pyverilog.vparser.ast as A
from pyvc.types import *
from pyvc.core import *
from pyvc.codec import ser, deser
from checks import astspec, astgen
from checks.astspec import Attr, T
from checks.c10 import Code, Hash



def structure(s):
    """code: the structure of a sub-node as an abstract value; same(): the structure of two nodes of one class agrees"""
    code = SpecFun('code', Code, {}, null=lambda: z3.Const('no_code', Code))
    codes = Hom('codes', 'seq', lambda p, v: code(p, v), Code, lambda t: isinstance(t, TObj))
    s.specfuns.append(code)
    s.homs.append(codes)
    s.seq_eq = lambda it, a, b: SBool(it.p.hom(codes, a) == it.p.hom(codes, b))

    def same(p, cls, a, b):
        if cls.__name__ not in T:
            raise Unsupported('no structure known for %s' % cls.__name__)
        fields, order = T[cls.__name__]
        kinds = dict(fields)
        out, seqs = [], []
        for f, k in fields:
            x, y = p.force(p.field(a, f)), p.force(p.field(b, f))
            if k == '=' and f not in astspec.COMPARED_NOT:
                out.append(x.t == y.t)
            elif k == '?':
                out.append((p.term(x) == NULL) == (p.term(y) == NULL))
            elif k == '*':
                out.append((p.len_of(x.pieces) == 0) == (p.len_of(y.pieces) == 0))
        for o in (a, b):
            seq = []
            for f in order:
                v = p.force(p.field(o, f))
                if kinds[f] == '*':
                    if p.decide(p.len_of(v.pieces) != 0, 'any %s' % f):
                        seq += p.flat(v.pieces)
                elif v is not None and not p.decide(p.term(v) == NULL, 'no %s' % f):
                    seq.append(('e', v))
            seqs.append(seq)
        x, y = seqs
        if any(k == 's' for k, v in x + y):
            out.append(p.hom(codes, x) == p.hom(codes, y))
        elif len(x) != len(y):
            out.append(z3.BoolVal(False))
        else:
            out += [code(p, v) == code(p, w) for (k, v), (k2, w) in zip(x, y)]
        return z3.And(out)
    return code, codes, same


def spec_for(c):
    def make():
        s = astspec.base_spec('C11 ' + c.__name__)
        code, codes, same = structure(s)
        from checks.c10 import hashing
        hashing(s, code, codes)
        other = TObj((c, A.Node), True)      # A.Node: any other class
        s.virtuals[(A.Node, '__eq__')] = eq_contract(s, code)

        def given(p, a):
            out = []
            for n in ('self', '_other'):
                v = p.force(a.get(n))
                if c is A.ModuleDef and isinstance(v, SRef) and p.classes[v.key] == (c,):
                    out.append(('default_nettype', p.sterm(p.field(v, 'default_nettype')) != ''))
            return out

        def ne_post(neg):
            def f(p, a, r, o):
                other = p.force(a['other'])
                if isinstance(other, SRef) and not p.decide(TAG(other.t) == p.engine.classid(c), 'same class'):
                    equal = z3.BoolVal(False)
                elif other is None:
                    equal = z3.BoolVal(False)
                else:
                    p.narrow(other, (c,), assume=True)
                    equal = same(p, c, a['self'], other)
                    if c is A.ModuleDef:
                        p.assume(p.sterm(p.field(other, 'default_nettype')) != '')
                r = p.bterm(r) if isinstance(p.force(r), (bool, SBool)) else z3.BoolVal(a['_it'].truth(r))
                return [('exactly when the structures %s' % ('differ' if neg else 'are the same'),
                         r == (z3.Not(equal) if neg else equal))]
            return f

        def hash_post(p, a, r, o):
            r2 = a['_it'].run_inline(getattr(c, '__hash__'), [a['_other']])
            if not (isinstance(r, SOpq) and isinstance(r2, SOpq)):
                return [('not an identity', z3.BoolVal(False))]
            return [('equal nodes hash alike', r.t == r2.t)]
        M = 'pyverilog.vparser.ast:%s.' % c.__name__
        s.add(Contract(M + '__eq__', {'self': TObj((c,)), 'other': other}, returns=BOOL, requires=given, ensures=ne_post(False)))
        s.add(Contract(M + '__hash__', {'self': TObj((c,)), '_other': TObj((c,))},
                       requires=lambda p, a: given(p, a) + [('equal', same(p, c, a['self'], a['_other']))],
                       ensures=hash_post))
        return s
    return make


def ne_spec():
    s = astspec.base_spec('C11 __ne__')
    code, codes, same = structure(s)
    s.virtuals[(A.Node, '__eq__')] = eq_contract(s, code)
    s.add(Contract('pyverilog.vparser.ast:Node.__ne__', {'self': s.N, 'other': s.NN}, returns=BOOL,
                   ensures=lambda p, a, r, o: [('the opposite of ==',
                                               p.bterm(r) != (code(p, a['self']) == code(p, a['other'])))]))
    return s


def eq_contract(s, code):
    return Contract('pyverilog.vparser.ast:Node.__eq__', {'self': s.N, 'other': s.NN}, returns=BOOL,
                    ensures=lambda p, a, r, o: [('same structure', p.bterm(r) == (code(p, a['self']) == code(p, a['other'])))])


def specs():
    return [ne_spec] + [spec_for(c) for c in astspec.node_classes()]


# ------------------------------------------------------------------ bounded search on the real code
def mutate(rng, n):
    n = copy.deepcopy(n)
    nodes = []

    def walk(x):
        nodes.append(x)
        for f, k in T[type(x).__name__][0]:
            v = x.__dict__.get(f)
            for y in (v or ()) if k == '*' else [v]:
                if isinstance(y, A.Node):
                    walk(y)
    walk(n)
    x = rng.choice(nodes)
    fields = [fk for fk in T[type(x).__name__][0] if fk[1] != '-' and fk[0] not in astspec.COMPARED_NOT]
    if not fields:
        return n
    f, k = rng.choice(fields)
    if k == '=':
        x.__dict__[f] = astgen.attr(rng)
    elif k == '?':
        one = [g for g, kk in fields if kk == '?' and g != f]
        if one and rng.random() < .5:
            g = rng.choice(one)
            x.__dict__[f], x.__dict__[g] = x.__dict__[g], x.__dict__[f]
        else:
            x.__dict__[f] = rng.choice([None, A.Identifier('zz'), A.IntConst('9')])
    else:
        v = list(x.__dict__[f] or ())
        r = rng.randrange(3)
        if r == 0:
            v.append(A.Identifier('zz'))
        elif r == 1 and v:
            v.pop()
        else:
            v.reverse()
        x.__dict__[f] = type(x.__dict__[f] or ())(v)
    return n


def cases(rng, tier, shard, nshards):
    for i, c in enumerate(astgen.CLASSES):
        if i % nshards == shard:
            for j in range(60):
                a = astgen.rnd(rng, 1, c)
                yield {'a': ser(a), 'b': ser(rng.choice([mutate(rng, a), astgen.rnd(rng, 1, c), copy.deepcopy(a)]))}
    while True:
        a = astgen.rnd(rng, rng.randrange(0, 4))
        yield {'a': ser(a), 'b': ser(mutate(rng, a) if rng.random() < .7 else astgen.rnd(rng, rng.randrange(0, 2)))}
        b = copy.deepcopy(a)
        b.lineno += 1
        yield {'a': ser(a), 'b': ser(b)}


def check_case(case):
    a, b = deser(case['a']), deser(case['b'])
    same = astgen.key(a) == astgen.key(b)
    for x, y in ((a, b), (b, a)):
        if x is None:
            continue
        try:
            e, n = x == y, x != y
        except Exception as ex:
            return ('exception', 'comparing %s with %s raised %s: %s' % (astgen.show(x), astgen.show(y), type(ex).__name__, ex))
        if bool(e) != same or bool(n) == same:
            return ('equality', '%s == %s is %s, != is %s' % (astgen.show(x), astgen.show(y), e, n))
    if same and a is not None:
        try:
            if hash(a) != hash(b):
                return ('hash', 'equal nodes %s have different hashes' % astgen.show(a))
        except Exception as ex:
            return ('exception', 'hash of %s raised %s: %s' % (astgen.show(a), type(ex).__name__, ex))
    return None


def case_from_cex(target, cex):
    memo = {}
    cex = dict((k, ser(astspec.closed_nodes(deser(v), memo))) for k, v in cex.items())
    return {'a': cex['self'], 'b': cex.get('other', cex.get('_other'))}


def case_key(case):
    return astgen.show(deser(case['a'])) + ' / ' + astgen.show(deser(case['b']))


LEVEL = 'proof'
LEVEL_NOTE = ('__eq__ and __hash__ proved once for every one of the 115 node classes with the class own children(), and __ne__; '
              'sub-nodes by the same contract (structural induction); tuple equality and hash() are the built-in ones')
QUICK_S = 8
THOROUGH_S = 120
ASSUMPTIONS = ['attributes of a node are values whose == is an equivalence and whose hash agrees with it (texts, flags, numbers)',
               'the sequence of sub-nodes, not the split of two neighbouring sequences, is compared (e.g. parameter list + instances)',
               'the default net type of a module is a non-empty text and is not compared']
RULE = 'pairs of random syntax-tree nodes of every class, copies and one-place mutations; distinct = different pairs of trees'
