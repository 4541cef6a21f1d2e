"""Contracts of the parser's actions: each rule of checks/grammar.py, for all values of its symbols."""
import ast
import re
import z3
import ply.yacc as yacc
import pyverilog.vparser.ast as A
import pyverilog.vparser.parser as VP
from pyvc.types import *
from pyvc.core import *
from checks import astspec, grammar
from checks.astspec import Attr, T

S = z3.StringSort()
MOD = 'pyverilog.vparser.parser'
DECLS = ['input', 'output', 'inout', 'wire', 'reg', 'tri', 'supply0', 'supply1']
CLS = {'input': 'Input', 'output': 'Output', 'inout': 'Inout', 'wire': 'Wire', 'reg': 'Reg', 'tri': 'Tri'}
STATEMENTS = set('''if_statement case_statement casex_statement casez_statement unique_case_statement for_statement
while_statement event_statement wait_statement forever_statement block namedblock parallelblock blocking_substitution
nonblocking_substitution single_statement null_statement'''.split())


def productions():
    """(production text, function name) of the current grammar, alternatives apart"""
    out = []
    for n in dir(VP.VerilogParser):
        if n.startswith('p_') and n != 'p_error':
            d = ' '.join((getattr(VP.VerilogParser, n).__doc__ or '').split())
            if ':' not in d:
                continue
            lhs, alts = d.split(':', 1)
            for a in alts.split('|'):
                out.append(((lhs.strip() + ' : ' + ' '.join(a.split())).strip(), n))
    return out


def rules():
    out = {}
    for l in grammar.RULES.strip().split('\n'):
        prod, rec = l.split(' => ')
        out[(' '.join(prod.split()) + (' ' if prod.endswith(':') else '')).strip()] = ast.parse(re.sub(r'\$(\d)', r'_\1', rec), mode='eval').body
    return out


class World(object):
    pass


def base(name):
    s = astspec.base_spec(name)
    w = World()
    Shape = z3.DeclareSort('Shape')
    w.strattr = z3.Function('strattr', S, Attr)
    w.refattr = z3.Function('refattr', Shape, Attr)
    nothing = z3.Const('absent', Shape)
    mk = {}
    shape = w.shape = SpecFun('shape', Shape, {}, null=lambda: nothing)
    shapes = w.shapes = Hom('shapes', 'seq', lambda p, v: shape(p, v), Shape, lambda t: isinstance(t, TObj))
    q = shapes.seqsort

    def aenc(p, v):
        v = p.force(v)
        if isinstance(v, (SStr, str)):
            return w.strattr(p.sterm(v))
        if isinstance(v, SOpq):
            return v.t
        if isinstance(v, SRef):
            return w.refattr(shape(p, v))
        if v is None or isinstance(v, bool):
            return z3.Const('attr_%r' % v, Attr)
        raise Unsupported('attribute %r' % (v,))
    w.aenc = aenc

    def enc(p, k, v):
        if k == '=':
            return aenc(p, v)
        v = p.force(v)
        if k == '?':
            return shape(p, v)
        if v is None:
            v = ()
        return p.hom(shapes, v if isinstance(v, VSeq) else VSeq('tuple', []))
    w.enc = enc

    def con(cname):
        if cname not in mk:
            f = [(n, k) for n, k in T[cname][0] if k != '-' and n != 'default_nettype'] + \
                [(n, k) for n, k in T[cname][0] if n == 'default_nettype']
            mk[cname] = z3.Function('mk_' + cname, *([{'=': Attr, '?': Shape, '*': q}[k] for n, k in f] + [Shape]))
        return mk[cname], [(n, k) for n, k in T[cname][0] if k != '-']

    def make(p, cname, vals):
        """vals: z3 terms in the order of the fields"""
        f, fs = con(cname)
        order = [n for n, k in fs if n != 'default_nettype'] + [n for n, k in fs if n == 'default_nettype']
        d = dict(zip([n for n, k in fs], vals))
        return f(*[d[n] for n in order])
    w.make = make

    def unfold(c):
        fs = con(c.__name__)[1]
        return lambda p, r, f: make(p, c.__name__, [enc(p, k, f(n)) for n, k in fs])
    shape.unfold = {c: unfold(c) for c in astspec.node_classes() if c.__name__ in T}
    s.specfuns.append(shape)
    s.homs.append(shapes)
    # what the sub-nodes of parsed nodes are, where an action looks inside
    N, NN = s.N, s.NN
    s.schema[A.Node] = {'end_lineno': INT}
    for c in astspec.node_classes():
        s.schema[c]['end_lineno'] = INT
    s.schema[A.Identifier]['scope'] = TObj((A.IdentifierScope,), True)
    s.schema[A.Pointer]['var'] = TObj((A.Identifier,))
    s.schema[A.Dimensions]['lengths'] = TSeq(N, 'list')
    decl = tuple(getattr(A, n) for n in ('Input Output Inout Wire Reg Tri Supply Integer Real Parameter Localparam Genvar '
                                         'Assign').split())
    s.schema[A.Decl]['list'] = TSeq(TObj(decl))
    s.schema[A.Ioport]['first'] = TObj((A.Input, A.Output, A.Inout))
    s.schema[A.Ioport]['second'] = TObj((A.Wire, A.Reg, A.Tri), True)
    s.families.append(decl)
    import pyverilog.vparser.lexer as LX
    s.schema[VP.VerilogParser] = {'lexer': TObj((LX.VerilogLexer,)), 'module_nettype': STR}
    s.schema[LX.VerilogLexer] = {'default_nettype': STR}
    s.external.add('ply.yacc')
    s.immutable = set()
    # membership in a list of signal types
    w.has = {}

    def has(rs, x):
        f = w.has.setdefault(x, z3.Function('has_' + x, RSeq, z3.BoolSort()))
        return f(rs)

    def contains(it, c, x):
        fl = it.p.flat(c.pieces)
        if len(fl) == 1 and fl[0][0] == 's' and isinstance(x, str):
            return SBool(has(fl[0][1].t, x))
        raise Unsupported('membership %r in %r' % (x, fl))
    s.contains_seg = contains

    def sigseg(p, v):
        fl = p.flat(p.force(v).pieces)
        if len(fl) == 1 and fl[0][0] == 's':
            return fl[0][1].t
        raise Unsupported('signal types %r' % (v,))
    w.sigseg = sigseg
    w.decls_fn = z3.Function('decls', RSeq, Attr, Shape, Shape, q)
    w.ioport_fn = z3.Function('ioport', RSeq, Attr, Shape, Shape, Shape)

    def variable(p, x, name, width, dims, signed):
        if x in CLS:
            return make(p, CLS[x], [name, width, signed, dims, nothing])
        return make(p, 'Supply', [name, make(p, 'IntConst', [w.strattr(z3.StringVal(x[-1]))]), width, signed])

    def args(p, a):
        return sigseg(p, a['sigtypes']), aenc(p, a['name']), shape(p, p.force(a['width'])), shape(p, p.force(a['dimensions']))

    def decls_post(p, a, r, o):
        sg, n, wd, dm = args(p, a)
        r = p.force(r)
        got = p.hom(shapes, r)
        if '_it' not in a:
            return [('declarations by type', got == w.decls_fn(sg, n, wd, dm))]
        signed = aenc(p, p.decide(has(sg, 'signed'), 'signed'))
        want = shapes.nil
        for x in reversed(DECLS):
            if p.decide(has(sg, x), x):
                want = shapes.cons(variable(p, x, n, wd, dm, signed), want)
        return [('one declaration per type, in order', got == want)]

    def ioport_post(p, a, r, o):
        sg, n, wd, dm = args(p, a)
        got = shape(p, r)
        if '_it' not in a:
            return [('port by type', got == w.ioport_fn(sg, n, wd, dm))]
        signed = aenc(p, p.decide(has(sg, 'signed'), 'signed'))
        first = [variable(p, x, n, wd, dm, signed) for x in ('input', 'output', 'inout') if p.decide(has(sg, x), x)]
        second = [variable(p, x, n, wd, dm, signed) for x in ('wire', 'reg', 'tri') if p.decide(has(sg, x), x)]
        # two kinds of net for one port are not Verilog
        return [('direction and kind', z3.BoolVal(True) if len(second) > 1 else
                 got == make(p, 'Ioport', [first[0], second[0] if second else nothing]))]
    def assign_post(p, a, r, o):
        sg, n, wd = sigseg(p, a['sigtypes']), aenc(p, a['name']), shape(p, p.force(a['width']))
        got = p.hom(shapes, p.force(r))
        asg = shape(p, p.force(a['assign']))
        if '_it' not in a:
            return [('declarations, then the assignment', got == shapes.app(w.adecls_fn(sg, n, wd), shapes.cons(asg, shapes.nil)))]
        signed = aenc(p, p.decide(has(sg, 'signed'), 'signed'))
        want = shapes.cons(asg, shapes.nil)
        for x in reversed(['input', 'output', 'inout', 'wire', 'reg']):
            if p.decide(has(sg, x), x):
                want = shapes.cons(variable(p, x, n, wd, nothing, signed), want)
        return [('one declaration per type, in order, then the assignment', got == want)]
    w.adecls_fn = z3.Function('adecls', RSeq, Attr, Shape, q)

    def legal(sg, kind):
        """the combinations of types that are accepted: at most one direction, at most one kind of net, registers only as
        outputs, tri-state nets only as bidirectional ports"""
        h = lambda x: has(sg, x)
        one = lambda xs: z3.And([z3.Not(z3.And(h(x), h(y))) for i, x in enumerate(xs) for y in xs[:i]])
        dirs, nets = ['input', 'output', 'inout'], ['wire', 'reg', 'tri', 'supply0', 'supply1']
        port = z3.Or([h(x) for x in dirs])
        f = [one(dirs), one(nets), z3.Implies(h('reg'), z3.Not(z3.Or(h('input'), h('inout')))),
             z3.Implies(h('tri'), z3.Not(z3.Or(h('input'), h('output')))),
             z3.Implies(z3.Or(h('supply0'), h('supply1')), z3.Not(z3.Or(port, h('signed'))))]
        if kind == 'port':
            f.append(port)
        elif kind == 'assign':
            f.append(z3.Or(h('wire'), h('reg')))
        else:
            f.append(z3.Or(port, z3.Or([h(x) for x in nets])))
        return z3.And(f)

    def rejects(kind):
        def f(p, a):
            ok = legal(sigseg(p, a['sigtypes']), kind)
            if a.get('dimensions') is not None:
                sg = sigseg(p, a['sigtypes'])
                ok = z3.And(ok, z3.Not(z3.And(z3.Or(has(sg, 'supply0'), has(sg, 'supply1')), p.term(p.force(a['dimensions'])) != NULL)))
            return z3.Not(ok)
        return {VP.ParseError: f}

    def members(p, a):
        """two different types are two elements"""
        sg = sigseg(p, a['sigtypes'])
        n = p.len_of(p.force(a['sigtypes']).pieces)
        n = n if not isinstance(n, SInt) else n.t
        return [('types', z3.And([z3.Implies(z3.And(has(sg, 'signed'), has(sg, x)), n >= 2) for x in DECLS]))]
    err = {VP.ParseError: lambda p, a: z3.BoolVal(True)}
    sig = {'self': TObj((VP.VerilogParser,)), 'sigtypes': TSeq(STR), 'name': STR, 'width': NN, 'dimensions': NN, 'lineno': INT}
    asig = {k: v for k, v in sig.items() if k != 'dimensions'}
    asig['assign'] = TObj((A.Assign,))
    s.add(Contract(MOD + ':VerilogParser.create_decl', dict(sig), requires=members, returns=TSeq(N, 'list'), ensures=decls_post, raises=rejects('decl')))
    s.add(Contract(MOD + ':VerilogParser.create_ioport', dict(sig), requires=members, returns=TObj((A.Ioport,)), ensures=ioport_post, raises=rejects('port')))
    s.add(Contract(MOD + ':VerilogParser.create_declassign', asig, requires=members, returns=TSeq(N, 'list'), ensures=assign_post, raises=rejects('assign')))
    w.members = members
    w.err = err
    return s, w


# ------------------------------------------------------------------ what the symbols of the grammar stand for
def symbol_types(s):
    N, NN = s.N, s.NN
    out = {}

    def put(names, t):
        for n in names.split():
            out[n] = t
    put('modulename portname sigtype floatnumber intnumber stringliteral realname', STR)
    put('delays forpre forcond forpost waitcontent_statement', NN)
    put('empty', NONE)
    put('''definitions params params_begin ports items lconcatlist concatlist edgesigs levelsigs block_statements
           namedblock_statements casecontent_statements casecontent_condition instance_ports instance_ports_list
           instance_ports_arg param_args param_args_noname parameterlist genvarlist generate_items sysargs
           function_statement funcvardecls func_args task_statement taskvardecls''', TSeq(N))
    put('sigtypes realnamelist', TSeq(STR))
    put('declname integername', TTup(STR, NN))
    put('param_substitution', TTup(STR, N))
    put('declassign_element', TTup(STR, TObj((A.Assign,))))
    put('instance_body instance_body_noname', TTup(STR, TSeq(N), NN))
    put('declnamelist integernamelist', TSeq(TTup(STR, NN)))
    put('param_substitution_list', TSeq(TTup(STR, N)))
    put('instance_bodylist instance_bodylist_noname', TSeq(TTup(STR, TSeq(N), NN)))
    put('decl integerdecl realdecl parameterdecl localparamdecl', TObj((A.Decl,)))
    put('identifier', TObj((A.Identifier,)))
    put('pointer', TObj((A.Pointer,)))
    put('dimensions', TObj((A.Dimensions,)))
    put('ioports', TSeq(TObj((A.Ioport,))))
    put('ioport ioport_head', TObj((A.Ioport,)))
    put('levelsig edgesig', TObj((A.Sens,)))
    return out


def symbol_type(types, s, sym):
    if sym in types:
        return types[sym]
    return STR if sym.isupper() or sym.replace('0', '').replace('1', '').isupper() else s.N


class Recipe(object):
    """evaluates the right side of a rule against the symbolic values of the symbols"""

    def __init__(self, w, p, vals, me):
        self.w, self.p, self.vals, self.me = w, p, vals, me
        self.local = {}

    def value(self, e):
        """the symbolic value a plain reference denotes"""
        p = self.p
        if isinstance(e, ast.Name):
            if e.id in self.local:
                return self.local[e.id]
            return p.force(self.vals[int(e.id[1:])])
        if isinstance(e, ast.Attribute):
            o = self.value(e.value)
            ok, v = p.get_field(o, e.attr)
            return p.force(v)
        if isinstance(e, ast.Subscript):
            ok, v = p.elem_at(self.value(e.value), e.slice.value)
            return p.force(v)
        if isinstance(e, ast.Constant):
            return e.value
        raise Unsupported('recipe ' + ast.unparse(e))

    def shape(self, e):
        w, p = self.w, self.p
        if isinstance(e, ast.Call) and e.func.id in T:
            fs = [(n, k) for n, k in T[e.func.id][0] if k != '-']
            given = dict(zip([n for n, k in fs], e.args))
            given.update({k.arg: k.value for k in e.keywords})
            return w.make(p, e.func.id, [self.field(e.func.id, n, k, given.get(n)) for n, k in fs])
        if isinstance(e, ast.Call) and e.func.id == 'ioport':
            g = dict(zip(['s', 'name', 'width', 'dimensions'], e.args))
            g.update({k.arg: k.value for k in e.keywords})
            sh = lambda n: w.shape(p, self.value(g[n])) if n in g else w.shape(p, None)
            return w.ioport_fn(w.sigseg(p, self.value(g['s'])), w.aenc(p, self.value(g['name'])), sh('width'), sh('dimensions'))
        return w.shape(p, self.value(e))

    DEFAULT = {'signed': False, 'type': None, 'scope': None, 'loop': None, 'name': None}

    def field(self, cname, n, k, e):
        w, p = self.w, self.p
        if k == '=':
            if e is None:
                return w.aenc(p, self.DEFAULT[n])
            if isinstance(e, ast.Name) and e.id == 'nettype':
                ok, t = p.get_field(self.me, 'module_nettype')
                if not ok:
                    raise Unsupported('where the net type at the module keyword is kept')
                return w.aenc(p, t)
            if isinstance(e, ast.Call) and e.func.id == 'unquote':
                t = p.sterm(self.value(e.args[0]))
                return w.strattr(z3.SubString(t, 1, z3.Length(t) - 2))
            return w.aenc(p, self.value(e))
        if k == '?':
            return self.shape(e) if e is not None else w.shape(p, None)
        return self.shapeseq(e) if e is not None else w.shapes.nil

    def shapeseq(self, e):
        w, p = self.w, self.p
        items = self.seqitems(e)
        acc = None
        for k, t in reversed(items):
            if acc is None:
                acc = t if k == 's' else w.shapes.cons(t, w.shapes.nil)
            else:
                acc = w.shapes.app(t, acc) if k == 's' else w.shapes.cons(t, acc)
        return w.shapes.nil if acc is None else acc

    def seqitems(self, e):
        """('e', shape) / ('s', shapes) in order"""
        w, p = self.w, self.p
        out = []
        if isinstance(e, ast.Tuple):
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    out += self.seqitems(x.value)
                else:
                    out.append(('e', self.shape(x)))
            return out
        if isinstance(e, ast.Call) and e.func.id == 'labels':
            sc = self.value(e.args[0])
            if sc is None or p.decide(p.term(sc) == NULL, 'no scope'):
                return []
            ok, v = p.get_field(sc, 'labellist')
            return self.pieces(p.force(v))
        if isinstance(e, ast.Call) and e.func.id == 'decls':
            a = e.args
            return [('s', w.decls_fn(w.sigseg(p, self.value(a[0])), w.aenc(p, self.value(a[1])),
                                     w.shape(p, self.value(a[2])), w.shape(p, self.value(a[3]))))]
        if isinstance(e, ast.Call) and e.func.id == 'adecls':
            a = e.args
            return [('s', w.adecls_fn(w.sigseg(p, self.value(a[0])), w.aenc(p, self.value(a[1])), w.shape(p, self.value(a[2]))))]
        if isinstance(e, ast.Call) and e.func.id == 'each':
            v = self.value(e.args[0])
            h = w.each
            return self.pieces(v, h)
        return self.pieces(self.value(e))

    def pieces(self, v, h=None):
        p, h = self.p, h or self.w.shapes
        if v == () or v is None:
            return []
        out = []
        for k, x in p.hom_flat(h, p.flat(v.pieces)):
            if k == 'x':
                h2, (k, x) = x
            else:
                h2 = h
            if k == 's':
                out.append(('s', h2.fn(x.t)))
            else:
                out.append(('s' if h2.flat else 'e', h2.elem(p, x)))
        return out


def find_each(e):
    for n in ast.walk(e):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'each':
            return n
    return None


def add_rule(s, w, types, prod, fname, recipe, variant=0):
    lhs, rhs = prod.split(' :', 1)
    syms = rhs.split()
    if '%prec' in syms:
        syms = syms[:syms.index('%prec')]

    def params_p(p, it, args):
        it_vals = [None]
        sl = [None]
        for i, sym in enumerate([lhs] + syms):
            o = p.new_object(yacc.YaccSymbol)
            if i:
                t = symbol_type(types, s, sym)
                if prod == 'ioports : ioports COMMA ioport' and i == 3:
                    t = [STR, types['ioport']][variant]
                v = p.make(t, 's%d' % i)
                it_vals.append(v)
                p.store[(o.key, 'value')] = v
            p.store[(o.key, 'lineno')] = p.make(INT, 'line%d' % i)
            p.store[(o.key, 'type')] = sym
            sl[i:] = [o]
        me = p.new_object(yacc.YaccProduction)
        p.store[(me.key, 'slice')] = VSeq('list', [('e', x) for x in sl], next(p.births))
        p.store[(me.key, 'stack')] = None
        args['_vals'] = it_vals
        args['_sym0'] = sl[0]
        return me

    def requires(p, a):
        out = []
        if prod.startswith('ioports : ioports'):
            out.append(('ports before', p.len_of(p.force(a['_vals'][1]).pieces) >= 1))
        for i, x in enumerate(syms):
            if x == 'sigtypes':
                out += w.members(p, {'sigtypes': a['_vals'][i + 1]})
        if lhs == 'stringliteral':
            out.append(('quoted', z3.Length(p.sterm(a['_vals'][1])) >= 2))
        return out

    def ensures(p, a, r, o):
        if recipe is None:
            raise Unsupported('no rule known for ' + prod)
        it = a['_it']
        ok, res = p.get_field(a['_sym0'], 'value')
        if not ok:
            return [('gives a value', isinstance(recipe, ast.Constant) and recipe.value is None and lhs == 'empty')]
        res = p.force(res)
        R = Recipe(w, p, a['_vals'], p.force(a['self']))
        out = [('builds what the rule means', same(it, w, R, res, recipe, prod, variant))]
        if lhs == 'modulename':
            ok, t = p.get_field(p.force(a['self']), 'module_nettype')
            if ok:
                lx = p.force(p.get_field(p.force(a['self']), 'lexer')[1])
                out.append(('keeps the default net type in force', p.sterm(p.force(t)) == p.sterm(p.force(p.get_field(lx, 'default_nettype')[1]))))
        if lhs in STATEMENTS and isinstance(recipe, ast.Call):
            okl, l = p.get_field(res, 'end_lineno')
            out.append(('knows where it ends', okl and (isinstance(p.force(l), (int, SInt)))))
        return out
    each = find_each(recipe) if recipe is not None else None
    setup = None
    if each is not None:
        names = [x.arg for x in each.args[1].args.args]
        body = each.args[1].body

        def elem(p, v):
            R = Recipe(w, p, p.extra['args']['_vals'], None)
            v = p.force(v)
            if len(names) == 1:
                R.local = {names[0]: v}
            else:
                R.local = {n: p.force(p.elem_at(v, i)[1]) for i, n in enumerate(names)}
            return R.seqitems(body)[0][1] if h.flat else R.shape(body)
        elem_t = symbol_type(types, s, syms[int(each.args[0].id[1:]) - 1]).elem
        h = Hom('each_%s' % fname, 'seq', elem, like=w.shapes, applies=lambda t: t == elem_t)
        h.flat = isinstance(body, ast.Call) and body.func.id == 'decls'

        def setup(p, it):
            pass
        c_each = h
    c = Contract('%s:VerilogParser.%s' % (MOD, fname), {'self': TObj((VP.VerilogParser,)), 'p': params_p},
                 requires=requires, ensures=ensures, frame=False,
                 raises=w.err if 'sigtypes' in syms or lhs in ('namedblock_statement', 'funcvardecl', 'taskvardecl') else {})
    c.each = each and c_each
    return c


def same(it, w, R, res, e, prod, variant):
    p = R.p
    if prod == 'ioports : ioports COMMA ioport':
        first = p.flat(p.force(R.vals[1]).pieces)
        if variant == 1:
            return tuple_same(it, w, R, res, ast.parse('(*_1, _3)', mode='eval').body)
        got = p.flat(res.pieces)
        if not all(x[1] is y[1] for x, y in zip(got[:-1], first)) or len(got) != len(first) + 1:
            return False
        # a bare name is declared like the port before it
        ok, last = p.elem_at(p.force(R.vals[1]), -1)
        last = p.force(last)
        f1, f2 = p.force(p.get_field(last, 'first')[1]), p.force(p.get_field(last, 'second')[1])

        def like(v):
            g = lambda n: p.force(p.get_field(v, n)[1])
            cl = p.classes[v.key]
            for c in cl:
                if len(cl) == 1 or it.isinstance_(v, c):
                    return w.make(p, c.__name__, [w.aenc(p, R.vals[3]), w.shape(p, g('width')), w.aenc(p, g('signed')),
                                                  w.shape(p, None), w.shape(p, None)])
        none2 = f2 is None or p.decide(p.term(f2) == NULL, 'no net kind')
        return w.shape(p, got[-1][1]) == w.make(p, 'Ioport', [like(f1), w.shape(p, None) if none2 else like(f2)])
    if isinstance(e, ast.Constant):
        return res is None if e.value is None else False
    if isinstance(e, ast.Tuple):
        return tuple_same(it, w, R, res, e)
    if isinstance(e, ast.Call) and e.func.id == 'unquote':
        t = p.sterm(R.value(e.args[0]))
        return p.sterm(res) == z3.SubString(t, 1, z3.Length(t) - 2)
    if isinstance(e, ast.Call):
        return isinstance(res, SRef) and w.shape(p, res) == R.shape(e)
    v = R.value(e)
    if isinstance(v, SRef) and isinstance(res, SRef):
        return res.t == v.t
    if isinstance(v, VSeq) and isinstance(res, VSeq):
        a, b = p.flat(v.pieces), p.flat(res.pieces)
        return len(a) == len(b) and all(one(p, x, y) for x, y in zip(a, b))
    if isinstance(v, (SStr, str)) and isinstance(res, (SStr, str)):
        return p.sterm(v) == p.sterm(res)
    if v is None or res is None:
        return v is res
    raise Unsupported('compare %r with %r' % (res, v))


def one(p, x, y):
    if x[0] != y[0]:
        return False
    a, b = x[1], y[1]
    if a is b:
        return True
    if x[0] == 's':
        return a.t.eq(b.t)
    a, b = p.force(a), p.force(b)
    if isinstance(a, VSeq) and isinstance(b, VSeq):
        fa, fb = p.flat(a.pieces), p.flat(b.pieces)
        return len(fa) == len(fb) and all(one(p, c, d) for c, d in zip(fa, fb))
    if isinstance(a, SVal) and isinstance(b, SVal) and hasattr(a, 't') and hasattr(b, 't'):
        return a.t.eq(b.t)
    return type(a) is type(b) and not isinstance(a, SVal) and a == b


def tuple_same(it, w, R, res, e):
    p = R.p
    if not isinstance(res, VSeq):
        return False
    got = p.flat(res.pieces)
    want = []
    for x in e.elts:
        if isinstance(x, ast.Starred):
            want += [('v', y) for y in p.flat(R.value(x.value).pieces)]
        else:
            want.append(('r', x))
    if len(got) != len(want):
        return False
    fs = []
    for g, (k, x) in zip(got, want):
        if k == 'v':
            if not one(p, g, x):
                return False
        else:
            if g[0] != 'e':
                return False
            f = same(it, w, R, p.force(g[1]), x, '', 0) if not isinstance(x, ast.Constant) else \
                (p.force(g[1]) is None if x.value is None else isinstance(p.force(g[1]), (str, SStr)) and
                 p.sterm(p.force(g[1])) == z3.StringVal(x.value))
            fs.append(f if not isinstance(f, bool) else z3.BoolVal(f))
    return z3.And(fs) if fs else True
