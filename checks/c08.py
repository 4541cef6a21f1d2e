"""C08: what a procedural assignment stores: the new value where its conditions hold, the old one elsewhere."""
import z3
from pyvc.types import *
from pyvc.core import *
from pyvc import dfspec
from pyvc.dfspec import Val, Name
from checks import denspec, dfgen, progsem
from checks.progsem import cases, check_case, case_key      # bounded search: whole procedural blocks

Code = z3.DeclareSort('Code')


class Lockstep(object):
    """specification functions that walk two sequences (or a tree and a sequence) together"""

    def __init__(self, ns):
        self.ns = ns
        B = z3.BoolSort()
        self.holds_fn = z3.Function('conditions_hold', RSeq, RSeq, B)
        self.on_fn = z3.Function('takes_arms', Ref, RSeq, B)
        self.spine_fn = z3.Function('has_arms', Ref, RSeq, B)

    def watch(self, p):
        if 'lockstep' not in p.extra:
            p.extra['lockstep'] = []
            p.hooks.append(lambda p, seg: self.link(p))

    def empty(self, p, seg):
        """a stretch already known to be empty"""
        if seg.resolved is None and p.valid(RLEN(seg.t) == 0) is True:
            p.resolve_seg(seg, [])
            return True
        return False

    def link(self, p):
        """atoms about stretches that have been looked into since"""
        self.watch(p)
        todo = p.extra['lockstep']
        for rec in list(todo):
            if rec not in todo:
                continue
            fn, a, seg, atom = rec
            if seg.resolved is not None or (isinstance(a, Seg) and a.resolved is not None):
                todo.remove(rec)
                if fn == 'holds':
                    p.assume(atom == self._holds(p, [('s', a)], [('s', seg)]))
                elif fn == 'on':
                    p.assume(atom == self._on(p, a, [('s', seg)]))
                else:
                    p.assume(atom == self._spine(p, a, [('s', seg)]))

    def _atom(self, p, fn, a, seg, atom):
        self.watch(p)
        l = p.extra['lockstep']
        if not any(x[0] == fn and x[2] is seg and (x[1] is a or isinstance(a, SRef) and isinstance(x[1], SRef)
                                                    and x[1].key == a.key) for x in l):
            l.append((fn, a, seg, atom))
        return atom

    # every (condition, flow) pair agrees: the path condition of an assignment
    def holds(self, p, C, F):
        r = self._holds(p, C.pieces, F.pieces)
        self.link(p)
        return r

    def _holds(self, p, C, F):
        out = []
        while True:
            c, f = p.flat(C), p.flat(F)
            if not c and not f:
                return z3.And(out) if out else z3.BoolVal(True)
            if c and f and c[0][0] == f[0][0] == 'e':
                out.append(self.ns.ite_truth(self.ns.den(p, c[0][1])) == p.bterm(f[0][1]))
                C, F = c[1:], f[1:]
                continue
            if c and f and c[0][0] == f[0][0] == 's' and len(c) == len(f) == 1:
                a, b = c[0][1], f[0][1]
                if self.empty(p, a) or self.empty(p, b):
                    continue
                return z3.And(out + [self._atom(p, 'holds', a, b, self.holds_fn(a.t, b.t))])
            for x in (c, f):
                if x and x[0][0] == 's':
                    other = f if x is c else c
                    if not other or other[0][0] == 'e':
                        p.split_front(x[0][1])
                        break
            else:
                if (c and c[0][0] == 's') or (f and f[0][0] == 's'):
                    raise Unsupported('conditions and flow flags not aligned')
                return z3.BoolVal(False)

    # evaluating tree goes along these arms
    def on(self, p, t, F):
        r = self._on(p, t, F)
        self.link(p)
        return r

    def arms(self, p, t, f):
        if t is None or not isinstance(t, SRef) or not p.decide_class(t, (self.ns.D.DFBranch,), 'is Branch'):
            return None
        b = p.force(f)
        if isinstance(b, SBool):
            b = p.decide(b.t, 'flow')
        return self.ns.ite_truth(self.ns.den(p, p.field(t, 'condnode'))) == z3.BoolVal(b), \
            p.field(t, 'truenode' if b else 'falsenode')

    def _on(self, p, t, F):
        F = p.flat(F.pieces if isinstance(F, VSeq) else F)
        t = p.force(t)
        if not F:
            return z3.BoolVal(True)
        if F[0][0] == 's':
            if len(F) > 1:
                raise Unsupported('arms not aligned')
            if self.empty(p, F[0][1]):
                return z3.BoolVal(True)
            return self._atom(p, 'on', t, F[0][1], self.on_fn(p.term(t), F[0][1].t))
        a = self.arms(p, t, F[0][1])
        if a is None:
            return z3.BoolVal(False)
        return z3.And(a[0], self._on(p, a[1], F[1:]))

    # tree is a branch at every one of these positions
    def spine(self, p, t, F):
        r = self._spine(p, t, F)
        self.link(p)
        return r

    def _spine(self, p, t, F):
        F = p.flat(F.pieces if isinstance(F, VSeq) else F)
        t = p.force(t)
        if not F:
            return z3.BoolVal(True)
        if F[0][0] == 's':
            if len(F) > 1:
                raise Unsupported('arms not aligned')
            if self.empty(p, F[0][1]):
                return z3.BoolVal(True)
            return self._atom(p, 'spine', t, F[0][1], self.spine_fn(p.term(t), F[0][1].t))
        a = self.arms(p, t, F[0][1])
        if a is None:
            return z3.BoolVal(False)
        return self._spine(p, a[1], F[1:])


def spec():
    s, ns = denspec.base('C08')
    denspec.reorder_contracts(s, ns)
    D, den, wf, allwf = ns.D, ns.den, ns.wf, ns.allwf
    import pyverilog.dataflow.bindvisitor as BV
    import pyverilog.dataflow.visit as V
    L = Lockstep(ns)
    N, NN = s.N, s.NN
    B = z3.BoolSort()
    vmiss = z3.Const('missing', Val)

    code = SpecFun('text', Code, {}, null=lambda: z3.Const('no_text', Code))
    s.specfuns.append(code)
    s.virtuals[(D.DFNode, '__eq__')] = Contract(
        'pyverilog.dataflow.dataflow:DFNode.__eq__', {}, returns=BOOL,
        ensures=lambda p, a, r, o: [
            ('equal text', p.bterm(r) == (code(p, a['self']) == code(p, a['other']))),
            ('some text', code(p, a['self']) != z3.Const('no_text', Code)),
            ('equal text, equal value', z3.Implies(p.bterm(r), den(p, a['self']) == den(p, a['other'])))])

    BIND = TObj((D.Bind,))
    NAME = TSort(Name)
    INFO = TSort(z3.DeclareSort('Info'))
    s.schema[D.Bind] = {'tree': NN, 'dest': NAME, 'msb': NN, 'lsb': NN, 'ptr': NN, 'alwaysinfo': INFO,
                        'parameterinfo': INFO}
    s.schema[D.DataFlow] = {'binddict': TDict(NAME, TSeq(BIND, 'list'))}
    s.schema[V.Frame] = {'blockingassign': TDict(NAME, TSeq(BIND)), 'nonblockingassign': TDict(NAME, TSeq(BIND))}
    s.schema[BV.BindVisitor] = {'dataflow': TObj((D.DataFlow,)), 'noreorder': BOOL}
    SELF = TObj((BV.BindVisitor,))

    # the value a signal's slice (kmsb, klsb, kptr) has according to a list of binds
    K = [z3.Const(n, Code) for n in ('k_msb', 'k_lsb', 'k_ptr')]

    def slot(p, b):
        b = p.force(b)
        return z3.And([code(p, p.field(b, f)) == k for f, k in zip(('msb', 'lsb', 'ptr'), K)])

    is_bind = lambda t: isinstance(t, TObj) and t.classes == (D.Bind,)
    stored = Hom('stored_value', 'first', lambda p, b: (slot(p, b), den(p, p.field(p.force(b), 'tree'))), Val,
                 is_bind, default=vmiss)
    treeok = Hom('stored_reorderable', 'all', lambda p, b: wf(p, p.field(p.force(b), 'tree')), None, is_bind)
    s.homs += [stored, stored.any, treeok]

    def not_yet(p, P):
        b = p.extra['args'].get('bind')
        return z3.Implies(slot(p, b), z3.Not(p.hom(stored.any, P))) if b is not None else None
    s.pure = [('this slice not among', is_bind, not_yet)]

    lists = lambda: {'condlist': TSeq(N), 'flowlist': TSeq(BOOL)}
    samelen = lambda p, a: ('as many conditions as flows', p.len_of(a['condlist'].pieces) == p.len_of(a['flowlist'].pieces))

    def seqs(p, a):
        for k in ('condlist', 'flowlist'):
            if not isinstance(p.force(a[k]), VSeq):
                raise Unsupported(k)

    M = 'pyverilog.dataflow.bindvisitor:BindVisitor.'

    def diff_result(p, a):
        return VSeq('tuple', [('e', p.make(NN, 'rest_tree')), ('e', p.make(TSeq(N), 'rest_conds')),
                              ('e', p.make(TSeq(BOOL), 'rest_flows')),
                              ('e', VSeq('tuple', list(a['matchflowlist'].pieces) +
                                         [('s', p.seg(p.fresh('matched', RSeq), BOOL))]))])

    def diff_post(p, a, r, o):
        items = p.concrete_items(p.force(r))
        if items is None or len(items) != 4:
            raise Unsupported('shape of the result')
        t, c, f, m = [p.force(x) for x in items]
        pre = p.flat(a['matchflowlist'].pieces)
        fl = p.flat(m.pieces)
        for x, y in zip(pre, fl):
            if x[0] != y[0] or x[1] is not y[1]:
                raise Unsupported('shape of the match list')
        if len(fl) < len(pre):
            raise Unsupported('shape of the match list')
        m = fl[len(pre):]
        tree = a['tree']
        on = L.on(p, tree, m)
        return [('the matched arms exist', L.spine(p, tree, m)),
                ('conditions = matched ones and remaining ones',
                 L.holds(p, a['condlist'], a['flowlist']) == z3.And(on, L.holds(p, c, f))),
                ('remaining tree is what the matched arms lead to', z3.Implies(on, den(p, t) == den(p, tree))),
                ('remaining lists have the same length', p.len_of(c.pieces) == p.len_of(f.pieces)),
                ('wf tree', z3.Implies(wf(p, tree), wf(p, t))),
                ('wf conditions', z3.Implies(p.hom(allwf, a['condlist']), p.hom(allwf, c))),
                ('full conditions', z3.Implies(p.hom(ns.allfull, a['condlist']), p.hom(ns.allfull, c)))]

    s.add(Contract(M + 'diffBranchTree', dict([('self', SELF), ('tree', NN)] + list(lists().items()) +
                                              [('matchflowlist', TSeq(BOOL))]),
                   returns=diff_result, requires=lambda p, a: [samelen(p, a)], ensures=diff_post))

    def rest(p, a):
        return den(p, a['rest']) if 'rest' in a else vmiss

    s.add(Contract(M + 'makeBranchTree', dict([('self', SELF)] + list(lists().items()) + [('node', NN), ('rest', NN)]),
                   returns=NN, requires=lambda p, a: [samelen(p, a)],
                   ensures=lambda p, a, r, o: [
                       ('new value exactly where the conditions hold, the rest elsewhere',
                        den(p, r) == z3.If(L.holds(p, a['condlist'], a['flowlist']), den(p, a['node']), rest(p, a))),
                       ('wf', z3.Implies(z3.And([p.hom(allwf, a['condlist']), wf(p, a['node'])] +
                                                ([wf(p, a['rest'])] if 'rest' in a else [])), wf(p, r)))]))

    def logic(p, ref, cls):
        """a condition built with Land / Ulnot is true exactly when its operands say so"""
        if cls is not D.DFOperator:
            return []
        op, items = p.sterm(p.field(ref, 'operator')), p.flat(p.force(p.field(ref, 'nextnodes')).pieces)
        if any(k == 's' for k, v in items):
            return []
        t = [ns.ite_truth(den(p, v)) for k, v in items]
        r = ns.ite_truth(den(p, ref))
        if len(t) == 1:
            return [z3.Implies(op == z3.StringVal('Ulnot'), r == z3.Not(t[0]))]
        return [z3.Implies(op == z3.StringVal('Land'), r == z3.And(t))] if len(t) == 2 else []
    den.facts = logic
    s.add(Contract(M + 'joinConditions', dict([('self', SELF)] + list(lists().items())), returns=N,
                   requires=lambda p, a: [samelen(p, a), ('some condition', p.len_of(a['condlist'].pieces) > 0)],
                   ensures=lambda p, a, r, o: [
                       ('true exactly where all the conditions hold',
                        ns.ite_truth(den(p, r)) == L.holds(p, a['condlist'], a['flowlist'])),
                       ('wf', z3.Implies(z3.And(p.hom(allwf, a['condlist']), p.hom(ns.allfull, a['condlist'])),
                                         z3.And(wf(p, r), ns.full(p, r))))]))

    s.add(Contract(M + 'appendBranchTree', {'self': SELF, 'base': NN, 'pos': TSeq(BOOL), 'tree': NN},
                   returns=NN, requires=lambda p, a: [('the arms exist', L.spine(p, a['base'], a['pos']))],
                   ensures=lambda p, a, r, o: [
                       ('replaces what these arms lead to and nothing else',
                        den(p, r) == z3.If(L.on(p, a['base'], a['pos']), den(p, a['tree']), den(p, a['base']))),
                       ('wf', z3.Implies(z3.And(wf(p, a['base']), wf(p, a['tree'])), wf(p, r)))]))

    s.add(Contract(M + 'getBindlist', {'self': SELF, 'name': NAME}, returns=TSeq(BIND),
                   ensures=lambda p, a, r, o: [], note='inlined DataFlow.getBindlist'))
    del s.contracts[('pyverilog.dataflow.bindvisitor', 'BindVisitor.getBindlist')]

    # ghost: the list of binds the dataflow holds for the name when makeBind starts
    def current(p, it, a):
        ns_ = p.field(p.field(a['self'], 'dataflow'), 'binddict')
        l = p.make(TSeq(BIND, 'list'), 'current_binds')
        if p.decide(p.fresh('name_is_bound', B), 'bound'):
            ns_.cache = [(a['name'], True, l, 'r')]
            return l
        ns_.cache = [(a['name'], False, None, 'r')]
        return VSeq('list', [])

    def newval(p, a):
        v = den(p, a['raw_tree'])
        n = p.iterm(a['num_dst'])
        return z3.If(n > 1, ns.partsem(v, den(p, a['part_msb']), den(p, a['part_lsb'])), v)

    def mb_requires(p, a):
        return [samelen(p, a), ('conditions reorderable', p.hom(allwf, a['condlist'])),
                ('conditions complete', p.hom(ns.allfull, a['condlist'])),
                ('value reorderable', wf(p, a['raw_tree'])),
                ('stored reorderable', p.hom(treeok, a['_binds'])),
                ('slice', z3.And([code(p, a[f]) == k for f, k in zip(('msb', 'lsb', 'ptr'), K)])),
                ('constant cut', z3.And([z3.And(wf(p, a[k]), z3.Not(ns.hasbr(p, a[k]))) for k in ('part_msb', 'part_lsb')]))]

    params = dict([('self', SELF), ('name', NAME), ('msb', NN), ('lsb', NN), ('ptr', NN), ('part_msb', NN),
                   ('part_lsb', NN), ('raw_tree', N)] + list(lists().items()) +
                  [('num_dst', INT), ('alwaysinfo', INFO), ('bindtype', INFO), ('_binds', current)])

    def mb_post(p, a, r, o):
        b = p.force(r)
        g = lambda f: p.field(b, f)
        return [('new value where the conditions hold, the stored one elsewhere',
                 den(p, g('tree')) == z3.If(L.holds(p, a['condlist'], a['flowlist']), newval(p, a),
                                            p.hom(stored, a['_binds']))),
                ('destination', z3.And(p.force(g('dest')).t == p.force(a['name']).t,
                                       *[code(p, g(f)) == code(p, a[f]) for f in ('msb', 'lsb', 'ptr')])),
                ('stays reorderable', wf(p, g('tree')))]
    s.add(Contract(M + 'makeBind', params, returns=BIND, requires=mb_requires, ensures=mb_post, budget=200))

    # ---- DataFlow: the bind list of a name
    DF_ = 'pyverilog.dataflow.dataflow:DataFlow.'

    def binds_of(p, it, a):
        d = p.field(a['self'], 'binddict')
        if p.decide(p.fresh('name_is_bound', B), 'bound'):
            l = p.make(TSeq(BIND, 'list'), 'current_binds')
            d.cache = [(a['name'], True, l, 'r')]
            return l
        d.cache = [(a['name'], False, None, 'r')]
        return VSeq('list', [])

    def the_binds(p, field):
        def f(p2, it, a):
            d = p2.field(a['self'], field)
            nm = a.get('name', a.get('dst'))
            if p2.decide(p2.fresh('name_is_bound', B), 'bound'):
                l = p2.make(TSeq(BIND), 'current_binds')
                d.cache = [(nm, True, l, 'r')]
                return l
            d.cache = [(nm, False, None, 'r')]
            return VSeq('tuple', [])
        return f

    def last_entry(p, d, name):
        """what the mapping now holds for name, and whether it was written for that name only"""
        ws = [e for e in d.cache if e[3] == 'w']
        only = all(e[0] is name for e in ws)
        cur = [e for e in d.cache if e[0] is name]
        return (cur[-1][2] if cur[-1][1] else VSeq('tuple', [])), only

    def store_post(field, key, own_copy=False):
        def f(p, a, r, o):
            b = a['bind']
            d = p.field(a['self'], field)
            l, only = last_entry(p, d, a[key])
            fresh = [e for e in p.flat(l.pieces) if e[0] == 'e' and p.force(e[1]).key == p.force(b).key]
            own = [('stores its own copy of the assignment', z3.BoolVal(not fresh))] if own_copy else []
            return own + [('other signals untouched', z3.BoolVal(only)),
                    ('the slice has the new value, other slices the old one',
                     p.hom(stored, l) == z3.If(slot(p, b), den(p, p.field(b, 'tree')), o))]
        return f

    def newest_first_request(p, a):
        return p.hom(stored, a['_binds'])

    for nm, field, key in (('addBind', 'binddict', 'name'),):
        s.add(Contract(DF_ + nm, dict([('self', TObj((D.DataFlow,))), ('name', NAME), ('bind', BIND), ('_binds', binds_of)]),
                       old=newest_first_request, frame=False, ensures=store_post(field, key)))
    FR = 'pyverilog.dataflow.visit:Frame.'
    for nm, field in (('setBlockingAssign', 'blockingassign'), ('addNonblockingAssign', 'nonblockingassign')):
        s.add(Contract(FR + nm, dict([('self', TObj((V.Frame,))), ('dst', NAME), ('bind', BIND),
                                      ('_binds', the_binds(None, field))]),
                       old=newest_first_request, frame=False, ensures=store_post(field, 'dst', True)))
    return s


def specs():
    return [spec]


LEVEL = 'proof'
LEVEL_NOTE = ('makeBind and the functions it is built from (diffBranchTree, makeBranchTree, appendBranchTree, joinConditions, '
              'DataFlow.addBind, Frame.setBlockingAssign, Frame.addNonblockingAssign, reorder) proved for every list of '
              'conditions, every stored expression and every list of stored slices; that the visitor calls them in program '
              'order is only exercised by the bounded search over whole procedural blocks (never counted as proved)')
QUICK_S = 60
THOROUGH_S = 600
CASE_S = 5
ASSUMPTIONS = ['operators, concatenations and selections are uninterpreted functions of the values of their operands, except '
               'that && and ! of conditions mean what they say', 'conditions have no missing part (getTree fills them in)',
               'the value stored so far for a name is the first stored assignment with the same msb, lsb and index text',
               'DFNode equality implies equal value (proved separately as structural equality in C10)',
               'slices assigned to one signal are disjoint or identical (the tool keeps one expression per slice)']
RULE = ('random procedural blocks (if/else/case nesting, blocking and nonblocking assignments, slices, concatenated targets) '
        'parsed and analysed by the real tool; the extracted expressions are evaluated on all (up to 160) valuations and '
        'compared with a reference execution of the block; distinct = different source texts')
