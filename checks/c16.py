"""C16: the dataflow tree built from an expression of the source has the value of that expression."""
import z3
import pyverilog.dataflow.dataflow as DF
import pyverilog.vparser.ast as A
from pyvc.types import *
from pyvc.core import *
from pyvc import dfspec
from pyvc.dfspec import Val, Name
from checks import denspec, dfgen, vtool

S = z3.StringSort()
Hier = z3.DeclareSort('HierScope')
OPS = [c for c in A.__dict__.values() if isinstance(c, type) and issubclass(c, A.Operator)
       and c not in (A.Operator, A.UnaryOperator, A.Cond)]
CONST = (A.IntConst, A.FloatConst, A.StringConst)


def expr_types():
    return tuple([A.Identifier] + list(CONST) + OPS + [A.Cond, A.Partselect, A.Pointer, A.Concat, A.LConcat, A.Repeat,
                                                       A.SystemCall, A.FunctionCall])


def build(whole):
    # the kinds of node an expression of the source can become
    s, ns = denspec.base('C16', ('DFUndefined', 'DFHighImpedance', 'DFDelay', 'DFSyscall'))
    denspec.reorder_contracts(s, ns)
    D, den, hasbr, full, wf = ns.D, ns.den, ns.hasbr, ns.full, ns.wf
    import pyverilog.dataflow.bindvisitor as BV
    B = z3.BoolSort()
    EX = TObj(expr_types())
    s.families.append(expr_types())
    NAME, SCOPE = TSort(Name), TSort(Name)
    for c in expr_types():
        if c is A.Identifier:
            s.schema[c] = {'name': STR, 'scope': TUnion(NONE, TSort(Hier))}
        elif c in CONST:
            s.schema[c] = {'value': STR}
        elif issubclass(c, A.UnaryOperator):
            s.schema[c] = {'right': EX}
        elif c is A.Cond:
            s.schema[c] = {'cond': EX, 'true_value': EX, 'false_value': EX}
        elif issubclass(c, A.Operator):
            s.schema[c] = {'left': EX, 'right': EX}
        elif c is A.Partselect:
            s.schema[c] = {'var': EX, 'msb': EX, 'lsb': EX}
        elif c is A.Pointer:
            s.schema[c] = {'var': EX, 'ptr': EX}
        elif issubclass(c, A.Concat):
            s.schema[c] = {'list': TSeq(EX)}
        elif c is A.Repeat:
            s.schema[c] = {'value': EX, 'times': EX}
        elif c is A.SystemCall:
            s.schema[c] = {'syscall': STR, 'args': TSeq(EX)}
        else:
            s.schema[c] = {'name': EX, 'args': TSeq(EX)}
    s.schema[A.Rvalue] = {'var': EX}
    s.schema[BV.BindVisitor] = {'noreorder': BOOL}
    SELF = TObj((BV.BindVisitor,))
    SC = z3.Const('the_scope', Name)

    # what a name stands for in the scope, and whether it does
    res = z3.Function('resolved', S, Name, Name)
    known = z3.Function('is_declared', S, Name, B)
    hres = z3.Function('resolved_in', Hier, S, Name, Name)
    hknown = z3.Function('is_declared_in', Hier, S, Name, B)
    isarr = z3.Function('is_array', Name, B)
    termval = z3.Function('signal_value', Name, Val)
    intval, fltval, strval = [z3.Function(n, S, Val) for n in ('integer', 'real', 'text')]
    den.unfold.update({
        D.DFTerminal: lambda p, r, f: termval(f('name').t),
        D.DFIntConst: lambda p, r, f: intval(p.sterm(f('value'))),
        D.DFFloatConst: lambda p, r, f: fltval(p.sterm(f('value'))),
        D.DFStringConst: lambda p, r, f: strval(p.sterm(f('value'))),
    })
    arrterm = SpecFun('is_array_terminal', B, {D.DFTerminal: lambda p, r, f: isarr(f('name').t)},
                      null=lambda: z3.BoolVal(False), default=lambda p, r, f: z3.BoolVal(False))

    def ident(p, f, plain, hier):
        sc = p.force(f('scope'))
        if sc is None:
            return plain(p.sterm(f('name')), SC)
        return hier(sc.t, p.sterm(f('name')), SC)

    val = SpecFun('value', Val, {})
    vals = Hom('values', 'seq', lambda p, v: val(p, v), Val, lambda t: isinstance(t, TObj) and A.Identifier in t.classes)
    vals.seqsort, vals.nil, vals.cons, vals.app = ns.dens.seqsort, ns.dens.nil, ns.dens.cons, ns.dens.app
    vals.fn = z3.Function('values', RSeq, ns.dens.seqsort)
    arr = SpecFun('names_array', B, {}, default=lambda p, r, f: z3.BoolVal(False))
    ok = SpecFun('analysable', B, {}, default=lambda p, r, f: z3.BoolVal(False))
    allok = Hom('all_analysable', 'all', lambda p, v: ok(p, v), None,
                lambda t: isinstance(t, TObj) and A.Identifier in t.classes)
    isid = lambda t: isinstance(t, TObj) and A.Identifier in t.classes
    T = z3.BoolVal(True)
    name_of = lambda c: z3.StringVal(c.__name__)
    catsem, opsem = ns.catsem, ns.opsem

    def signed(p, f):
        a = p.flat(p.force(f('args')).pieces)
        return a[0][1] if a and a[0][0] == 'e' else None

    def first(p, f):
        args = p.force(f('args'))
        fl = p.flat(args.pieces)
        if fl and fl[0][0] == 's':
            p.split_front(fl[0][1])
            fl = p.flat(args.pieces)
        return fl[0][1] if fl else None
    cast = lambda p, f: z3.Or(p.sterm(f('syscall')) == z3.StringVal('signed'),
                              p.sterm(f('syscall')) == z3.StringVal('unsigned'))

    def syscall(g, other):
        def u(p, r, f):
            a = first(p, f)
            return z3.If(cast(p, f), g(p, a), other) if a is not None else other
        return u
    val.unfold = {
        A.Identifier: lambda p, r, f: termval(ident(p, f, res, hres)),
        A.IntConst: lambda p, r, f: intval(p.sterm(f('value'))),
        A.FloatConst: lambda p, r, f: fltval(p.sterm(f('value'))),
        A.StringConst: lambda p, r, f: strval(p.sterm(f('value'))),
        A.Cond: lambda p, r, f: z3.If(ns.ite_truth(val(p, f('cond'))), val(p, f('true_value')), val(p, f('false_value'))),
        A.Partselect: lambda p, r, f: ns.partsem(val(p, f('var')), val(p, f('msb')), val(p, f('lsb'))),
        A.Pointer: lambda p, r, f: z3.If(arr(p, f('var')), ns.ptrsem(val(p, f('var')), val(p, f('ptr'))),
                                         ns.partsem(val(p, f('var')), val(p, f('ptr')), val(p, f('ptr')))),
        A.SystemCall: syscall(val, intval(z3.StringVal('0'))),
    }
    arr.unfold = {A.Identifier: lambda p, r, f: isarr(ident(p, f, res, hres)),
                  A.SystemCall: syscall(arr, z3.BoolVal(False))}
    ok.unfold = {
        A.Identifier: lambda p, r, f: ident(p, f, known, hknown),
        A.Cond: lambda p, r, f: z3.And([ok(p, f(x)) for x in ('cond', 'true_value', 'false_value')]),
        A.Partselect: lambda p, r, f: z3.And([ok(p, f(x)) for x in ('var', 'msb', 'lsb')]),
        A.Pointer: lambda p, r, f: z3.And([ok(p, f(x)) for x in ('var', 'ptr')]),
        A.SystemCall: lambda p, r, f: (lambda a: z3.Implies(cast(p, f), ok(p, a) if a is not None else z3.BoolVal(False)))(first(p, f)),
    }
    for c in CONST:
        ok.unfold[c] = lambda p, r, f: T
    def shared(f):
        f.shared = True
        return f
    one = shared(lambda p, r, f: ok(p, f('right')))
    two = shared(lambda p, r, f: z3.And(ok(p, f('left')), ok(p, f('right'))))
    val.unfold[A.Concat] = shared(lambda p, r, f: catsem(p.hom(vals, f('list'))))
    ok.unfold[A.Concat] = shared(lambda p, r, f: p.hom(allok, f('list')))
    for c in OPS:
        fs = ('right',) if issubclass(c, A.UnaryOperator) else ('left', 'right')
        val.unfold[c] = (lambda c, fs: lambda p, r, f: opsem(name_of(c), p.hom(vals, [('e', f(x)) for x in fs])))(c, fs)
        ok.unfold[c] = one if len(fs) == 1 else two
    s.specfuns += [val, arr, ok, arrterm]
    s.homs += [vals, allok]
    s.cross = [(ns.dens, vals), (ns.allfull, allok), (ns.allwf, allok)]
    for h in (ns.dens, ns.anybr, ns.allfull, ns.allwf):
        h.applies = lambda t: isinstance(t, TNone) or isinstance(t, TObj) and D.DFTerminal in t.classes

    M = 'pyverilog.dataflow.bindvisitor:BindVisitor.'
    scope = lambda p, it, a: SOpq(SC)
    here = lambda p, a: [('the scope', p.force(a['scope']).t == SC)]
    found = lambda is_known, the: (lambda p, a: SOpq(the(p, a)) if p.decide(is_known(p, a), 'declared') else None)
    s.add(Contract(M + 'searchTerminal', {'self': SELF, 'name': STR, 'scope': SCOPE}, trusted=True,
                   returns=found(lambda p, a: known(p.sterm(a['name']), p.force(a['scope']).t),
                                 lambda p, a: res(p.sterm(a['name']), p.force(a['scope']).t))))
    s.add(Contract(M + 'searchScopeTerminal', {'self': SELF, 'blocklabel': TSort(Hier), 'name': STR, 'current': SCOPE},
                   trusted=True,
                   returns=found(lambda p, a: hknown(p.force(a['blocklabel']).t, p.sterm(a['name']), p.force(a['current']).t),
                                 lambda p, a: hres(p.force(a['blocklabel']).t, p.sterm(a['name']), p.force(a['current']).t))))
    s.add(Contract(M + 'getTermDims', {'self': SELF, 'name': NAME}, trusted=True,
                   returns=lambda p, a: SOpq(z3.Const('dims', z3.DeclareSort('Dims'))) if p.decide(
                       isarr(p.force(a['name']).t), 'array') else None))
    same = lambda p, a, r, o: [('same value', den(p, r) == val(p, a['node'])),
                               ('complete', full(p, r)), ('reorderable', wf(p, r)),
                               ('an array stays recognisable', z3.And(ns.isterm(p, r), arrterm(p, r)) == arr(p, a['node']))]
    s.add(Contract(M + 'makeDFTree', {'self': SELF, 'node': EX, 'scope': scope}, returns=s.N,
                   requires=lambda p, a: here(p, a) + [('analysable', ok(p, a['node']))], ensures=same, budget=200))

    # ---- signals assigned earlier in the same block
    import pyverilog.dataflow.visit as V
    import pyverilog.utils.signaltype as ST
    NN, N = s.NN, s.N
    genvar = z3.Function('is_genvar', Name, B)
    genval = z3.Function('genvar_value', Name, Val)
    hasblk = z3.Function('assigned_before', Name, Name, B)
    blkval = z3.Function('assigned_value', Name, Name, Val)
    now = SpecFun('current_value', Val, {}, null=lambda: ns.vmiss, default=lambda p, r, f: den(p, r))
    nows = Hom('current_values', 'seq', lambda p, v: now(p, v), Val, ns.dens.applies)
    nows.seqsort, nows.nil, nows.cons, nows.app = ns.dens.seqsort, ns.dens.nil, ns.dens.cons, ns.dens.app
    nows.fn = z3.Function('current_values', RSeq, ns.dens.seqsort)

    def terminal_now(p, r, f):
        n = f('name').t
        return z3.If(genvar(n), genval(n), z3.If(hasblk(n, SC), blkval(n, SC), termval(n)))
    now.unfold = {
        D.DFTerminal: terminal_now,
        D.DFBranch: lambda p, r, f: z3.If(ns.ite_truth(now(p, f('condnode'))), now(p, f('truenode')), now(p, f('falsenode'))),
        D.DFOperator: lambda p, r, f: opsem(p.sterm(f('operator')), p.hom(nows, f('nextnodes'))),
        D.DFConcat: lambda p, r, f: catsem(p.hom(nows, f('nextnodes'))),
        D.DFPartselect: lambda p, r, f: ns.partsem(now(p, f('var')), now(p, f('msb')), now(p, f('lsb'))),
        D.DFPointer: lambda p, r, f: ns.ptrsem(now(p, f('var')), now(p, f('ptr'))),
    }
    s.specfuns += [now]
    s.homs += [nows]
    s.cross += [(ns.dens, nows)]
    BIND = TObj((D.Bind,))
    s.schema[D.Bind] = {'tree': N, 'ptr': NN}
    s.schema[BV.BindVisitor].update({'frames': TObj((V.FrameTable,))})
    s.schema[V.FrameTable] = {}
    TYPES = z3.DeclareSort('SignalTypes')
    types_of = z3.Function('types_of', Name, TYPES)
    is_gv = z3.Function('has_genvar', TYPES, B)
    x = z3.Const('n', Name)
    s.axioms.append(z3.ForAll([x], is_gv(types_of(x)) == genvar(x)))
    # elements of an array assigned earlier in the same block are outside (the tool warns that it does not support them)
    s.axioms.append(z3.ForAll([x], z3.Implies(isarr(x), z3.Not(z3.Or(hasblk(x, SC), genvar(x))))))
    s.add(Contract(M + 'getTermtype', {'self': SELF, 'name': NAME}, returns=lambda p, a: SOpq(types_of(p.force(a['name']).t)),
                   trusted=True))
    s.add(Contract('pyverilog.utils.signaltype:isGenvar', {'termtype': TSort(TYPES)}, trusted=True,
                   returns=lambda p, a: SBool(is_gv(p.force(a['termtype']).t))))
    s.add(Contract(M + 'getConstant', {'self': SELF, 'name': NAME}, returns=TObj((D.DFEvalValue,)), trusted=True,
                   ensures=lambda p, a, r, o: [('value of the loop variable', den(p, r) == genval(p.force(a['name']).t))]))
    s.add(Contract('pyverilog.dataflow.visit:FrameTable.getBlockingAssign',
                   {'self': TObj((V.FrameTable,)), 'dst': NAME, 'scope': SCOPE}, returns=TSeq(BIND), trusted=True,
                   ensures=lambda p, a, r, o: [('some when assigned', (p.len_of(r.pieces) > 0) ==
                                                hasblk(p.force(a['dst']).t, p.force(a['scope']).t))]))
    s.add(Contract(M + 'removeOverwrappedCondition', {'self': SELF, 'tree': TObj((D.DFTerminal,)), 'current_bindlist': TSeq(BIND),
                                                      'scope': SCOPE}, returns=N, trusted=True,
                   ensures=lambda p, a, r, o: [
                       ('what was assigned', den(p, r) == blkval(p.field(p.force(a['tree']), 'name').t, p.force(a['scope']).t)),
                       ('complete', z3.And(full(p, r), wf(p, r)))]))
    good = lambda p, t: [('complete', z3.And(full(p, t), wf(p, t)))]
    s.add(Contract(M + 'resolveBlockingAssign', {'self': SELF, 'tree': NN, 'scope': scope}, returns=NN, budget=120,
                   requires=lambda p, a: here(p, a) + good(p, a['tree']),
                   ensures=lambda p, a, r, o: [('every signal at its current value', den(p, r) == now(p, a['tree'])),
                                               ('complete', z3.And(full(p, r), wf(p, r)))]))

    # ---- the whole way from the source expression; the parts are proved in the first specification
    if not whole:
        return s
    for c in s.contracts.values():
        c.trusted = True
    def expr(p, a):
        n = p.force(a['node'])
        return p.field(n, 'var') if p.decide_class(n, (A.Rvalue,), 'is Rvalue') else n

    def made(p, a):
        t = p.make(s.N, 'tree_of_expression')
        p.extra['made'] = t
        return t
    s.contracts[('pyverilog.dataflow.bindvisitor', 'BindVisitor.makeDFTree')].returns = made
    ANY = TObj(expr_types() + (A.Rvalue,))
    s.families.append(ANY.classes)
    s.add(Contract(M + 'getTree', {'self': SELF, 'node': ANY, 'scope': scope}, returns=s.N,
                   requires=lambda p, a: here(p, a) + [('analysable', ok(p, expr(p, a)))],
                   ensures=lambda p, a, r, o: [
                       ('value of the expression with every signal at its current value',
                        z3.And(den(p, r) == now(p, p.extra['made']), den(p, p.extra['made']) == val(p, expr(p, a))))]))
    return s


def spec():
    return build(False)


def spec_whole():
    return build(True)


def specs():
    return [spec, spec_whole]


# ------------------------------------------------------------------ bounded search on the real code
ser, deser = dfgen.ser, dfgen.deser
UN = [c for c in OPS if issubclass(c, A.UnaryOperator)]
BI = [c for c in OPS if not issubclass(c, A.UnaryOperator)]
INS = ['a', 'b', 'c', 'd']
PARAMS = ['P']


def rnd(rng, depth, names, budget):
    """random expression; budget bounds the number of conditions"""
    if depth <= 0 or rng.random() < .1:
        k = rng.randrange(10)
        if k < 7:
            return A.Identifier(rng.choice(names))
        if k < 9:
            return A.IntConst(rng.choice(['0', '1', "4'd3", "2'b10", "8'hff"]))
        return rng.choice([A.FloatConst('1.5'), A.StringConst('x'), A.IntConst('7')])
    r = lambda: rnd(rng, depth - 1, names, budget)
    k = rng.randrange(12)
    if k < 2 and budget[0] > 0:
        budget[0] -= 1
        return A.Cond(r(), r(), r())
    if k < 4:
        return rng.choice(UN)(r())
    if k < 7:
        return rng.choice(BI)(r(), r())
    if k == 7:
        return A.Partselect(rng.choice([r(), A.Identifier(rng.choice(names))]), A.IntConst('3'), A.IntConst('1'))
    if k == 8:
        return A.Pointer(rng.choice([r, lambda: A.Identifier('m'), lambda: A.Identifier(rng.choice(names))])(), r())
    if k == 9:
        return A.Concat([r() for _ in range(rng.randrange(1, 4))])
    if k == 10:
        return rng.choice([lambda: A.Repeat(A.Concat([r()]), A.IntConst(str(rng.randrange(1, 4)))),
                           lambda: A.SystemCall(rng.choice(['signed', 'unsigned', 'signed', 'random']), [r()])])()
    return A.Cond(A.Identifier(rng.choice(names)), r(), r()) if budget[0] > 0 else r()


CTX = ('assign', 'if', 'port', 'gen', 'blk')


def cases(rng, tier, shard, nshards):
    ids = [A.Identifier(x) for x in 'abc']
    k = 0
    for c in UN:
        for e in [ids[0], A.Cond(*ids), A.Cond(A.Cond(*ids), ids[0], ids[1])]:
            k += 1
            if k % nshards == shard:
                yield {'ctx': 'assign', 'e': ser(c(e))}
    for c in BI:
        for e in [(ids[0], ids[1]), (A.Cond(*ids), ids[1]), (ids[0], A.Cond(*ids)), (A.Cond(*ids), A.Cond(ids[2], ids[1], ids[0]))]:
            k += 1
            if k % nshards == shard:
                yield {'ctx': 'assign', 'e': ser(c(*e))}
    while True:
        ctx = rng.choice(CTX)
        names = INS + PARAMS + (['i', 'i'] if ctx == 'gen' else ['t', 't'] if ctx == 'blk' else [])
        b = [rng.randrange(0, 4)]
        e = rnd(rng, rng.randrange(1, 5), names, b)
        case = {'ctx': ctx, 'e': ser(e)}
        if ctx == 'blk':
            case['t'] = ser(rnd(rng, rng.randrange(1, 3), INS + PARAMS, b))
            # the tool folds what is stored: no reals or texts (no bits), no unary plus (the parser drops it)
            if any(x in repr(case) for x in ('FloatConst', 'StringConst', 'Uplus')):
                continue
        yield case


TEXT = {
    'assign': 'wire [7:0] y; assign y = HOLE;',
    'if': 'reg [7:0] y; always @* if (HOLE) y = 1; else y = 2;',
    'port': 'sub s1 (.p(HOLE));',
    'gen': 'genvar i; generate for (i = 3; i < 4; i = i + 1) begin : g wire [7:0] y; assign y = HOLE; end endgenerate',
    'blk': 'reg [7:0] t, y; always @* begin t = HOLET; y = HOLE; end',
}
WHERE = {'port': 'top.s1.p', 'gen': '.g.y'}
_asts = {}


def fill(n, new):
    if isinstance(n, (list, tuple)):
        return type(n)(fill(x, new) for x in n)
    if isinstance(n, A.Identifier) and n.name in new:
        return new[n.name]
    if isinstance(n, A.Node):
        for k, v in list(n.__dict__.items()):
            if isinstance(v, (A.Node, list, tuple)):
                n.__dict__[k] = fill(v, new)
    return n


def tree_of(case):
    import copy
    ctx = case['ctx']
    if ctx not in _asts:
        _asts[ctx] = vtool.parse('module top(input [7:0] a, input [7:0] b, input [7:0] c, input [7:0] d);'
                                 'parameter P = 3; reg [7:0] m [0:15]; %s endmodule '
                                 'module sub(input [7:0] p); endmodule' % TEXT[ctx])
    new = {'HOLE': deser(case['e'])}
    if 't' in case:
        new['HOLET'] = deser(case['t'])
    ast = fill(copy.deepcopy(_asts[ctx]), new)
    an = vtool.analyzer(ast)
    want = WHERE.get(ctx, 'top.y')
    binds = dict((str(n), bl) for n, bl in an.getBinddict().items())
    return next((bl for n, bl in binds.items() if n.endswith(want)), None), binds


def aval(n, env, truth):
    """value of the expression in the free algebra (independent of the tool)"""
    v = lambda x: aval(x, env, truth)
    if isinstance(n, A.Identifier):
        return env[n.name] if n.name in env else ('term', 'top.' + n.name)
    for a, d in ((A.IntConst, DF.DFIntConst), (A.FloatConst, DF.DFFloatConst), (A.StringConst, DF.DFStringConst)):
        if isinstance(n, a):
            return (d.__name__, ('value', repr(n.value)))
    if isinstance(n, A.Cond):
        return v(n.true_value) if truth(v(n.cond)) else v(n.false_value)
    if isinstance(n, A.UnaryOperator):
        return ('op', type(n).__name__, v(n.right))
    if isinstance(n, A.Operator):
        return ('op', type(n).__name__, v(n.left), v(n.right))
    if isinstance(n, A.Partselect):
        return ('part', v(n.var), v(n.msb), v(n.lsb))
    if isinstance(n, A.Pointer):
        if isinstance(n.var, A.Identifier) and n.var.name == 'm':
            return ('ptr', v(n.var), v(n.ptr))
        if isinstance(n.var, A.SystemCall) and n.var.syscall in ('signed', 'unsigned') and v(n.var) == ('term', 'top.m'):
            return ('ptr', v(n.var), v(n.ptr))
        return ('part', v(n.var), v(n.ptr), v(n.ptr))
    if isinstance(n, A.Concat):
        return ('cat',) + tuple(v(x) for x in n.list)
    if isinstance(n, A.Repeat):
        return ('cat',) + tuple([v(n.value)] * int(n.times.value))
    if isinstance(n, A.SystemCall):
        return v(n.args[0]) if n.syscall in ('signed', 'unsigned') else ('DFIntConst', ('value', repr('0')))
    raise KeyError(type(n))


def check_case(case):
    e = deser(case['e'])
    from checks import astgen
    what = '%s in %s' % (astgen.show(e), TEXT[case['ctx']])
    if 't' in case:
        what = 't = %s; %s' % (astgen.show(deser(case['t'])), what)
    try:
        bl, binds = tree_of(case)
    except (RecursionError, MemoryError):      # e.g. a constant shifted by an enormous amount
        return None
    except Exception as x:
        return ('exception', '%s: %s: %s' % (what, type(x).__name__, x))
    if not bl or len(bl) != 1:
        return ('bind', '%s: %s assignments found' % (what, bl and len(bl)))
    for salt in range(8):
        truth = dfgen.truth_fn(salt)
        env = {}
        if case['ctx'] == 'gen':
            env['i'] = dfgen.den(DF.DFEvalValue(3), truth)
        if 't' in case:
            env['t'] = aval(deser(case['t']), {}, truth)
        want = aval(e, env, truth)
        if case['ctx'] == 'if':
            want = ('DFIntConst', ('value', repr('1' if truth(want) else '2')))
        got = dfgen.den(bl[0].tree, truth, signal=lambda n: binds[n][0].tree if '._rn' in n else None)
        if want != got:
            return ('value', '%s becomes %s: value %r instead of %r' % (what, dfgen.show(bl[0].tree), got, want))
    return None


def case_from_cex(target, cex):
    return None


def case_key(case):
    return repr(case)


LEVEL = 'proof'
LEVEL_NOTE = ('makeDFTree, resolveBlockingAssign, getTree and the reorder functions they use proved for every expression '
              '(structural induction by contracts); replication and calls of functions and tasks are only exercised by the '
              'bounded search; name resolution, the stored value of a signal and termination are assumed')
QUICK_S = 40
THOROUGH_S = 400
CASE_S = 5
ASSUMPTIONS = ['operators, concatenations and selections are uninterpreted functions of the values of their operands',
               'searchTerminal / searchScopeTerminal resolve names by the scope rules; getTermDims tells arrays apart; '
               'getBlockingAssign and removeOverwrappedCondition give the value assigned earlier in the block (exercised by C08)',
               'arrays have one dimension, and no element of an array is assigned earlier in the same block',
               'an unknown system function counts as 0', 'equal expressions have equal values (C10)']
RULE = ('random expressions (depth<=4, up to 5 conditions) put into an assign, an if condition, an instance port, a generate '
        'loop and a block after an assignment of one of their signals, analysed by the real tool and compared in the free '
        'term algebra under 8 outcomes of the conditions; distinct = different expressions and places')
