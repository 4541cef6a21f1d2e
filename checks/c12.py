"""C12: a syntax-tree node keeps its parts under their names and reports exactly its sub-nodes, in order, as children;
collecting identifiers therefore finds every one."""
import random
import z3
import pyverilog.vparser.ast as A
from pyvc.types import *
from pyvc.core import *
from pyvc.codec import ser, deser
from checks import astspec, astgen
from checks.astspec import Attr, T

IDSEQ = z3.DeclareSort('Idents')


def children_spec():
    s = astspec.base_spec('C12 children')

    def built(c):
        fields, order = T[c.__name__]

        def self_(p, it, args):
            vals = []
            for f, k in fields:
                if k == '-':
                    continue
                t = TUnion(s.schema[c][f], NONE) if k == '*' else s.schema[c][f]
                args['_' + f] = p.make(t, f)
                vals.append(args['_' + f])
            args['_lineno'] = p.make(INT, 'lineno')
            kw = {'lineno': args['_lineno']}
            return it.construct(c, vals, kw)
        return self_

    def post(c):
        fields, order = T[c.__name__]
        kinds = dict(fields)

        def f(p, a, r, o):
            it = a['_it']
            out = []
            me = a['self']
            for f_, k in fields + [('lineno', '=')]:
                if k == '-':
                    continue
                ok, v = p.get_field(me, f_)
                out.append(('keeps %s' % f_, ok and same_value(it, p.force(v), p.force(a['_' + f_]))))
            want = []
            for f_ in order:
                v = p.force(a['_' + f_])
                if kinds[f_] == '*':
                    if v is not None:
                        want += list(p.flat(v.pieces))
                elif v is not None and not p.decide(p.term(v) == NULL, 'no ' + f_):
                    want.append(('e', v))
            r = p.force(r)
            if not isinstance(r, VSeq):
                raise Unsupported('children() returns %r' % (r,))
            got = [x for x in p.flat(r.pieces) if not gone(p, x)]
            want = [x for x in want if not gone(p, x)]
            ok = len(got) == len(want) and all(k == k2 and v.t.eq(w.t) for (k, v), (k2, w) in zip(got, want))
            out.append(('exactly the sub-nodes, in order', ok))
            return out
        return f
    for c in astspec.node_classes():
        if c.__name__ in T:
            s.add(Contract('pyverilog.vparser.ast:%s.children' % c.__name__, {'self': built(c)}, ensures=post(c)))
        else:
            s.add(Contract('pyverilog.vparser.ast:%s.children' % c.__name__, {'self': TObj((c,))},
                           ensures=lambda p, a, r, o, c=c: unknown(c)))
    return s


def unknown(c):
    raise Unsupported('no structure known for %s' % c.__name__)


def gone(p, x):
    k, v = x
    return k == 's' and p.valid(RLEN(v.t) == 0)


def same_value(it, a, b):
    if a is b or a is None or b is None:
        return a is b or (a is None) == (b is None) and a is None
    if isinstance(a, SRef) and isinstance(b, SRef) or isinstance(a, SOpq) and isinstance(b, SOpq):
        return a.t.eq(b.t)
    if isinstance(a, VSeq) and isinstance(b, VSeq):
        fa, fb = it.p.flat(a.pieces), it.p.flat(b.pieces)
        return len(fa) == len(fb) and all(k == k2 and v.t.eq(w.t) for (k, v), (k2, w) in zip(fa, fb))
    r = it.eq(a, b)
    return r if isinstance(r, bool) else r.t


def ident_spec():
    """collecting identifiers: visit(node) appends exactly the names below node, left to right"""
    import pyverilog.utils.identifiervisitor as IV
    s = astspec.base_spec('C12 identifiers')
    cs = astspec.node_classes()
    s.N, s.NN = TObj(cs), TObj(cs, True)
    s.schema[A.Identifier] = dict(s.schema[A.Identifier], name=STR)
    s.schema[IV.IdentifierVisitor] = {'identifiers': TSeq(STR, 'list')}
    names = Hom('names', 'seq', lambda p, v: p.sterm(v), z3.StringSort(), lambda t: isinstance(t, type(STR)))
    below = SpecFun('below', names.seqsort, {}, null=lambda: names.nil)
    belows = Hom('belows', 'seq', lambda p, v: below(p, v), names.seqsort, lambda t: isinstance(t, TObj))
    s.homs += [names, belows]
    s.specfuns.append(below)
    flat = z3.Function('joined', belows.seqsort, names.seqsort)
    return s


def specs():
    return [children_spec]


# ------------------------------------------------------------------ bounded search on the real code
def cases(rng, tier, shard, nshards):
    for i, c in enumerate(astgen.CLASSES):
        if i % nshards == shard:
            for j in range(40):
                yield {'seed': rng.randrange(10 ** 9), 'cls': c.__name__, 'depth': 1}
    while True:
        yield {'seed': rng.randrange(10 ** 9), 'cls': rng.choice(astgen.CLASSES).__name__, 'depth': rng.randrange(1, 4)}


def idents(n, out):
    if isinstance(n, A.Identifier):
        out.append(n.name)
        return
    for c in astgen.expected_children(n):
        idents(c, out)


def count(n):
    return 1 + sum(count(c) for c in astgen.expected_children(n))


class Buf(object):
    def __init__(self):
        self.s = []

    def write(self, x):
        self.s.append(x)


def check_case(case):
    rng = random.Random(case['seed'])
    cls = getattr(A, case['cls'])
    fields, order = T[case['cls']]
    args = []
    for f, k in fields:
        if k == '=':
            args.append('wire' if f == 'default_nettype' else rng.choice(['a', 'b', 'clk']))
        elif k == '?':
            args.append(None if rng.random() < .3 else astgen.rnd(rng, case['depth'] - 1))
        elif k == '*':
            args.append(None if rng.random() < .1 else
                        rng.choice([tuple, list])(astgen.rnd(rng, case['depth'] - 1) for _ in range(rng.randrange(4))))
    try:
        n = cls(*args, lineno=7)
    except Exception as ex:
        return ('constructor', '%s%r raised %s: %s' % (case['cls'], tuple(args), type(ex).__name__, ex))
    for (f, k), v in list(zip([x for x in fields if x[1] != '-'], args)) + [(('lineno', '='), 7)]:
        if n.__dict__.get(f, NotImplemented) is not v and n.__dict__.get(f, NotImplemented) != v:
            return ('attribute', '%s(...).%s is %r instead of %r' % (case['cls'], f, n.__dict__.get(f), v))
    want = astgen.expected_children(n)
    try:
        got = list(n.children())
    except Exception as ex:
        return ('exception', 'children of %s raised %s: %s' % (astgen.show(n), type(ex).__name__, ex))
    if len(got) != len(want) or any(x is not y for x, y in zip(got, want)):
        return ('children', 'children of %s are %s' % (astgen.show(n), [astgen.show(x) for x in got]))
    try:
        from pyverilog.utils.identifiervisitor import getIdentifiers
        ids = list(getIdentifiers(n))
    except Exception as ex:
        return ('exception', 'identifiers of %s raised %s: %s' % (astgen.show(n), type(ex).__name__, ex))
    exp = []
    idents(n, exp)
    if ids != exp:
        return ('identifiers', 'identifiers of %s are %s' % (astgen.show(n), ids))
    b = Buf()
    try:
        n.show(buf=b)
    except Exception as ex:
        return ('exception', 'show of %s raised %s: %s' % (astgen.show(n), type(ex).__name__, ex))
    lines = ''.join(b.s).split('\n')
    if len(lines) != count(n) + 1:
        return ('show', '%s is shown with %d lines instead of %d' % (astgen.show(n), len(lines) - 1, count(n)))
    return None


def case_key(case):
    return '%s/%s/%s' % (case['cls'], case['depth'], case['seed'])


LEVEL = 'proof'
LEVEL_NOTE = ('constructor and children() of every one of the 115 node classes proved against the table of parts in '
              'checks/astspec.py; identifier collection and show() are covered by the bounded search only')
QUICK_S = 8
THOROUGH_S = 120
ASSUMPTIONS = ['sub-nodes have no truth value of their own (checked: no class defines __bool__ or __len__)']
RULE = 'random constructor arguments of every node class; distinct = class, depth, seed'
