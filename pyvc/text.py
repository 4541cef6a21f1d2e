"""Texts as sequences of tokens: what the templates of a code generator write.

A text is known by the sequence of its tokens (white space apart), the kinds of its first and last character, whether it is
the empty string, and whether its outer parentheses may be missing.  Templates are executed from jinja2's own syntax tree of
the template file.  Two pieces that touch without white space and whose characters would run together give the token
sequence glued(a, b), which equals nothing else."""
import ast
import re
import z3
import jinja2.nodes as J
from .types import *
from .core import Hom
from . import pymodels

Tok = z3.DeclareSort('Tok')
SEQ = z3.SeqSort(Tok)
EMPTY = z3.Empty(SEQ)
LEX = z3.Function('lexeme', z3.StringSort(), SEQ)
STRLIT = z3.Function('string_literal', z3.StringSort(), Tok)
GLUED = z3.Function('glued', SEQ, SEQ, SEQ)
TOKENS = re.compile(r'''(\s+)|(always_ff|[A-Za-z_0-9]+|===|!==|<<<|>>>|<<|>>|<=|>=|==|!=|&&|\|\||\*\*|~&|~\||~\^|.)''')


def kind(ch):
    """the kind of a character: ' ' white space, 'w' word, '(' an opening parenthesis, 'o' operator, 'p' other; a name that
    may be an escaped one and has no space behind it has the kind '\\\\' at both ends"""
    if ch.isspace():
        return ' '
    if ch.isalnum() or ch in "_'":
        return 'w'
    if ch in '(\\':
        return ch
    if ch in '+-*/%&|^~<>=!?':
        return 'o'
    return 'p'


def hazard(last, first):
    """may two adjacent characters of these kinds run together?"""
    for k in last:
        if k == 'w' and ('w' in first or '\\' in first) or k == 'o' and 'o' in first or \
                k == '\\' and any(f != ' ' for f in first):
            return True
    return False


def tok(s):
    return z3.Const('`%s`' % s, Tok)


def cat(ts):
    ts = [t for t in ts if not t.eq(EMPTY)]
    return EMPTY if not ts else ts[0] if len(ts) == 1 else z3.Concat(*ts)


def words(s):
    """the tokens of literal text"""
    return [m.group(2) for m in TOKENS.finditer(s) if m.group(2)]


def literal(s):
    return cat([z3.Unit(tok(w)) for w in words(s)])


class SText(SVal):
    """t: tokens; first/last: kinds of the outer characters; ne: formula, the string is not empty;
    bare: None, or the nodes (SRef) whose outer parentheses may be missing at the edges ('?' for unknown ones);
    src: the node this is the text of"""
    __slots__ = ('t', 'first', 'last', 'ne', 'bare', 'firsttok', 'lasttok', 'src')

    def __init__(self, t, first='wpo( ', last='wpo ', ne=True, bare=None, firsttok=None, lasttok=None, src=None):
        self.t, self.first, self.last, self.ne, self.bare = t, frozenset(first), frozenset(last), ne, bare
        self.firsttok, self.lasttok, self.src = firsttok, lasttok, src

    def __repr__(self):
        return 'SText(%s)' % self.t

    def but(self, **kw):
        d = dict((k, getattr(self, k)) for k in self.__slots__)
        d.update(kw)
        return SText(**d)

    def nonempty(self):
        return z3.BoolVal(self.ne) if isinstance(self.ne, bool) else self.ne

    def symtype(self):
        return TText(self.first, self.last, bool(self.bare), self.ne is True)

    def sym_truth(self, it):
        return self.ne if isinstance(self.ne, bool) else it.p.decide(self.ne, 'text')

    def sym_eq(self, it, other):
        if isinstance(other, str) and other == '':
            return not self.ne if isinstance(self.ne, bool) else SBool(z3.Not(self.ne))
        if other is None:
            return False
        raise Unsupported('comparison of a text')

    def sym_same(self, it, y):
        y = value(it, y)
        return isinstance(y, SText) and it.p.valid(self.t == y.t) is True and \
            (self.first, self.last, self.bare) == (y.first, y.last, y.bare)

    def sym_add(self, it, other, right):
        return TextCat(it, [other, self] if right else [self, other])


class TextCat(SVal):
    """texts and strings one after the other"""
    __slots__ = ('it', 'parts', 'done')

    def __init__(self, it, parts):
        self.it, self.parts, self.done = it, [], None
        for x in parts:
            self.parts += x.parts if isinstance(x, TextCat) else [x]

    def value(self):
        if self.done is None:
            self.done = compose(self.it, self.parts)
        return self.done

    def symtype(self):
        return self.value().symtype()

    def sym_truth(self, it):
        return self.value().sym_truth(it)

    def sym_eq(self, it, other):
        return self.value().sym_eq(it, other)

    def sym_same(self, it, y):
        return self.value().sym_same(it, y)

    def sym_add(self, it, other, right):
        return TextCat(it, [other, self] if right else [self, other])


class TText(T):
    def __init__(self, first='wpo( ', last='wpo ', bare=False, ne=True):
        self.first, self.last, self.bare, self.ne = tuple(sorted(first)), tuple(sorted(last)), bare, ne

    def make(self, p, fac):
        t = fac(SEQ, '')
        return SText(t, self.first, self.last, True if self.ne else t != EMPTY, ('?',) if self.bare else None)

    def joined(self, o):
        if isinstance(o, TStr):
            return TText('wpo(\\ ', 'wpo\\ ', self.bare, False)
        if isinstance(o, TText):
            return TText(set(self.first) | set(o.first), set(self.last) | set(o.last), self.bare or o.bare, self.ne and o.ne)
        return None


def value(it, v):
    """a text or string value in one piece"""
    v = it.p.force(v)
    return v.value() if isinstance(v, TextCat) else v


def text_of(p, v):
    """the token sequence of a text or string value"""
    v = p.force(v)
    if isinstance(v, TextCat):
        v = v.value()
    if isinstance(v, SText):
        return v.t
    if isinstance(v, str):
        return literal(v)
    if isinstance(v, SStr):
        return LEX(v.t)
    raise Unsupported('text of %r' % (v,))


texts = Hom('texts', 'seq', text_of, SEQ, lambda t: isinstance(t, (TText, TStr)))
_joins = {}


def join_fn(key):
    """the tokens of a list of texts; key: (tokens before each, after each but the last, after the last, glued)"""
    if key not in _joins:
        _joins[key] = z3.Function('join%s' % (key,), texts.seqsort, SEQ)
    return _joins[key]


def joined(p, key, image):
    f = join_fn(key)
    p.assume(f(texts.nil) == EMPTY)
    return f(image)


class Joined(object):
    """a template loop over a list (or ''.join of one)"""

    def __init__(self, pre, post, postlast, seq, p):
        self.seq = seq
        self.fixed = [v for k, v in p.flat(seq.pieces) if k == 'e']
        self.empty = not p.flat(seq.pieces)
        self.elems = elem_facts(p, seq)
        f, l = self.elems.first, self.elems.last
        s = post + pre
        glue = hazard(l, f) if not s else hazard(l, kind(s[0])) or hazard(kind(s[-1]), f)
        if pre:
            glue = glue or hazard(kind(pre[-1]), f)
        if postlast:
            glue = glue or hazard(l, kind(postlast[0]))
        self.key = (tuple(words(pre)), tuple(words(post)), tuple(words(postlast)), bool(glue))
        self.first = frozenset(kind(pre[0])) if pre else frozenset(f)
        self.last = frozenset(kind(postlast[-1])) if postlast else frozenset(l)
        sep = words(post) + words(pre)
        self.inner = (sep[-1] if sep else None, sep[0] if sep else None)
        self.outer = (words(pre)[-1] if words(pre) else None, words(postlast)[0] if words(postlast) else None)
        self.sure = bool(self.fixed) and (self.elems.ne or bool(pre) or bool(postlast))


def elem_facts(p, seq):
    t = None
    for k, v in p.flat(seq.pieces):
        if k == 's':
            e = v.elem
        else:
            v = p.force(v)
            e = v.symtype() if hasattr(v, 'symtype') else TText(kind(v[:1] or ' '), kind(v[-1:] or ' '), False, v != '') \
                if isinstance(v, str) else TStr()
        if isinstance(e, TStr):
            e = TText('w\\', 'w\\', False, False)
        if not isinstance(e, TText):
            raise Unsupported('list of %r in a text' % (e,))
        t = e if t is None else t.joined(e)
    return t or TText('p', 'p')


# where an expression may stand without parentheses around it
LEFT = {'(', '[', '{', ',', ':', '?', ';'}
RIGHT = {')', ']', '}', ',', ':', ';', '?', '{'}


def compose(it, pieces):
    """the text of adjacent pieces (str, SStr, SText, TextCat, Joined)"""
    p = it.p
    flat = []
    for x in pieces:
        if not isinstance(x, Joined):
            x = p.force(x)
        flat += x.parts if isinstance(x, TextCat) else [x]
    # literals that touch are one
    seq = []
    for x in flat:
        if not isinstance(x, Joined):
            x = p.force(x)
        if x is None or isinstance(x, (bool, int)):
            x = str(x)
        if isinstance(x, str):
            if not x:
                continue
            if seq and isinstance(seq[-1], str):
                seq[-1] += x
                continue
        elif not isinstance(x, (SStr, SText, Joined)):
            raise Unsupported('%r in a text' % (x,))
        seq.append(x)
    # string literals
    i = 0
    while i + 2 < len(seq):
        a, b, c = seq[i:i + 3]
        if isinstance(a, str) and isinstance(c, str) and a.endswith('"') and c.startswith('"') and isinstance(b, SStr):
            seq[i:i + 3] = [a[:-1], SText(z3.Unit(STRLIT(b.t)), 'p', 'p', firsttok='"', lasttok='"'), c[1:]]
            seq = [x for x in seq if not (isinstance(x, str) and x == '')]
            i = 0
        else:
            i += 1
    acc = EMPTY
    last = frozenset()        # kinds of the character before
    first = frozenset()
    firstopen = True
    ne = False
    lasttok = '^'             # the token before: '^' nothing yet, None unknown
    firsttok = None           # None: nothing yet, '?' unknown
    pend = []                 # bare nodes waiting for the token after them: (nodes, token before)
    for x in seq:
        b = None
        if isinstance(x, str):
            t, f, l, e = literal(x), frozenset(kind(x[0])), frozenset(kind(x[-1])), True
            ws = words(x)
            ft, lt = (ws[0], ws[-1]) if ws else ('', '')
        elif isinstance(x, SStr):
            k = frozenset('w\\')
            if p.valid(z3.Not(z3.PrefixOf(z3.StringVal('\\'), x.t))) is True:
                k = frozenset('w')
            t, f, l, e, ft, lt = LEX(x.t), k, k, x.t != z3.StringVal(''), None, None
        elif isinstance(x, SText):
            t, f, l, e, b, ft, lt = x.t, x.first, x.last, x.ne, x.bare, x.firsttok, x.lasttok
        else:
            if x.empty:
                continue
            img = p.hom(texts, x.seq)
            if x.sure:
                e = True
            elif x.elems.ne or x.key[0] or x.key[2]:
                e = img != texts.nil
            else:
                e = p.fresh('text', z3.BoolSort())
                p.assume(z3.Implies(e, img != texts.nil))
            t, f, l = joined(p, x.key, img), x.first, x.last
            ft = lt = None
            if x.elems.bare:
                if not (x.inner[0] in LEFT and x.inner[1] in RIGHT):
                    p.oblige('parentheses are kept inside the list', False)
                if x.outer == (None, None):
                    b = ('?',)
                elif not (x.outer[0] in LEFT and x.outer[1] in RIGHT):
                    p.oblige('parentheses are kept in the list', False)
        if isinstance(e, bool):
            if not e:
                continue
        else:
            e = z3.simplify(e)
            if z3.is_false(e) or p.valid(z3.Not(e)) is True:
                continue
            if z3.is_true(e) or p.valid(e) is True:
                e = True
        maybe = e is not True
        if pend and ft != '':
            for nodes, before in pend:
                check_bare(p, nodes, before, ft)
                if maybe:
                    p.oblige('parentheses are kept before a text that may be empty', False)
            pend = []
        if b:
            pend.append((b, lasttok))
        if hazard(last, f):
            acc = GLUED(acc, t)
        else:
            acc = cat([acc, t])
        if firstopen:
            first = first | f
            firstopen = maybe
        if ft != '' and firsttok is None:
            firsttok = ft if ft is not None and not maybe else '?'
        last = last | l if maybe else l
        if lt != '':
            lasttok = lt if not maybe or lt == lasttok else None
        ne = True if not maybe or ne is True else (e if ne is False else z3.Or(ne, e))
    out = SText(acc, first or ' ', last or ' ', ne, None, firsttok if firsttok not in ('?', None) else None,
                lasttok if lasttok != '^' else None, seq[0].src if len(seq) == 1 and isinstance(seq[0], SText) else None)
    for nodes, before in pend:
        out.bare = (out.bare or ()) + nodes
        if before != '^':
            check_bare(p, nodes, before, '$')
    return out


def check_bare(p, nodes, before, after):
    """the nodes written without their parentheses between these tokens group as they did with them"""
    f = p.spec.__dict__.get('bare_ok')
    ok = f(p, nodes, before, after) if f else before in LEFT and after in RIGHT
    p.oblige('parentheses only left out between %s and %s where the grouping stays' % (before, after), ok)


# ------------------------------------------------------------------ templates
class Callable(object):
    """a modelled function: fn(it, args, kwargs)"""

    def __init__(self, fn):
        self.fn = fn

    def sym_call(self, it, args, kwargs):
        return self.fn(it, args, kwargs)


class TValue(T):
    """exactly this modelled object"""

    def __init__(self, v):
        self.v = v

    def make(self, p, fac):
        return self.v


class TemplateVal(object):
    """the template of a file of this name; render(dict) runs it"""

    def __init__(self, env, name):
        self.env, self.name = env, name

    def sym_getattr(self, it, name, default):
        if name != 'render':
            raise Unsupported('template.%s' % name)

        def render(it, args, kwargs):
            d = {}
            for a in args:
                a = it.p.force(a)
                if not isinstance(a, VDict) or not all(isinstance(k, str) for k, v in a.items):
                    raise Unsupported('arguments of render')
                d.update(a.items)
            d.update(kwargs)
            old = it.p.extra.get('rendering')
            it.p.extra['rendering'] = self.name.split('.')[0]
            try:
                return Renderer(it, self.env, d).run(self.name)
            finally:
                it.p.extra['rendering'] = old
        return Callable(render)

    def symtype(self):
        raise Unsupported('type of a template')


class EnvVal(object):
    """the jinja environment of a generator"""

    def __init__(self, env):
        self.env = env

    def sym_getattr(self, it, name, default):
        if name != 'get_template':
            raise Unsupported('env.%s' % name)

        def get(it, args, kwargs):
            n = it.p.force(args[0])
            if not isinstance(n, str) or len(args) != 1 or kwargs:
                raise Unsupported('template name %r' % (n,))
            syntax(self.env, n)
            return TemplateVal(self.env, n)
        return Callable(get)


class CacheVal(object):
    """a mapping of file names to their templates (invariant: every entry is the template of its name)"""

    def __init__(self, env):
        self.env = env

    def sym_contains(self, it, k):
        if not isinstance(k, str):
            raise Unsupported('key %r' % (k,))
        return SBool(it.p.extra.setdefault('cached', {}).setdefault(k, z3.Bool('cached %s' % k)))

    def sym_getitem(self, it, k):
        has = self.sym_contains(it, k)
        if not it.p.decide(has.t, 'cached'):
            raise PyRaise(KeyError, (), k)
        syntax(self.env, k)
        return TemplateVal(self.env, k)

    def sym_setitem(self, it, k, v):
        v = it.p.force(v)
        it.p.oblige('the template kept for %s is that of %s' % (k, k), isinstance(v, TemplateVal) and v.name == k)
        it.p.extra.setdefault('cached', {})[k] = z3.BoolVal(True)

    def sym_getattr(self, it, name, default):
        if name == 'get':
            def get(it, args, kwargs):
                k = it.p.force(args[0])
                if it.p.decide(self.sym_contains(it, k).t, 'cached'):
                    return self.sym_getitem(it, k)
                return args[1] if len(args) > 1 else None
            return Callable(get)
        raise Unsupported('dict.%s' % name)


_env = {}


def syntax(env, name):
    if name not in _env:
        try:
            src = env.loader.get_source(env, name)[0]
            _env[name] = env.parse(src)
        except Exception as e:
            raise PyRaise(type(e), (), name)
        if env.autoescape or env.finalize:
            raise Unsupported('environment with escaping')
    return _env[name]


def last_index(e):
    return isinstance(e, J.Const) and e.value == -1 or \
        isinstance(e, J.Neg) and isinstance(e.node, J.Const) and e.node.value == 1


class Missing(object):
    pass


class Renderer(object):
    def __init__(self, it, env, scope):
        self.it, self.p, self.env, self.scope = it, it.p, env, dict(scope)
        self.known, self.kept = {}, []     # what looking at a text's last character has shown

    def run(self, name):
        return compose(self.it, [self.known.get(id(x), x) for x in self.body(syntax(self.env, name).body)])

    def body(self, nodes):
        out = []
        for n in nodes:
            out += self.node(n)
        return out

    def node(self, n):
        if isinstance(n, J.Output):
            return [self.value(x) for x in n.nodes]
        if isinstance(n, J.If):
            if self.cond(n.test):
                return self.body(n.body)
            for e in n.elif_:
                if self.cond(e.test):
                    return self.body(e.body)
            return self.body(n.else_)
        if isinstance(n, J.For):
            return self.loop(n)
        raise Unsupported('template node %s' % type(n).__name__)

    def value(self, e):
        it = self.it
        if isinstance(e, J.TemplateData):
            return e.data
        if isinstance(e, J.Const):
            return e.value
        if isinstance(e, J.Name):
            v = self.scope.get(e.name, '')
            return value(it, v) if isinstance(v, SVal) else v
        if isinstance(e, J.Concat):
            return TextCat(it, [self.value(x) for x in e.nodes]).value()
        raise Unsupported('template expression %s' % type(e).__name__)

    def cond(self, e):
        it, p = self.it, self.p
        if isinstance(e, J.And):
            return self.cond(e.left) and self.cond(e.right)
        if isinstance(e, J.Or):
            return self.cond(e.left) or self.cond(e.right)
        if isinstance(e, J.Not):
            return not self.cond(e.node)
        if isinstance(e, J.Compare) and len(e.ops) == 1:
            a, b, op = e.expr, e.ops[0].expr, e.ops[0].op
            if isinstance(a, J.Getitem) and isinstance(a.node, J.Name) and last_index(a.arg) \
                    and isinstance(b, J.Const) and isinstance(b.value, str) and len(b.value) == 1 and b.value.isspace() \
                    and op in ('eq', 'ne'):
                # looks at the last character
                v = p.force(self.value(a.node))
                if isinstance(v, str):
                    same = v[-1:] == b.value
                elif isinstance(v, SText) and not v.sym_truth(it):
                    same = False
                elif isinstance(v, SText):
                    same = ' ' in v.last and p.choose(2, 'white space at the end') == 1
                    if same:
                        self.known[id(v)] = self.scope[a.node.name] = v.but(last=' ')
                        self.kept.append(v)
                else:
                    raise Unsupported('last character of %r' % (v,))
                return same if op == 'eq' else not same
            if isinstance(a, J.Call) and isinstance(a.node, J.Getattr) and a.node.attr == 'count' and \
                    isinstance(a.args[0], J.Const) and str(a.args[0].value).isspace():
                # counts white space: any outcome
                return p.choose(2, 'count of white space') == 1
            if any(isinstance(x, (J.Getitem, J.Call)) for x in (a, b)):
                raise Unsupported('template condition')
            if isinstance(a, J.Getattr) and isinstance(a.node, J.Name) and a.node.name == 'loop':
                if a.attr == 'index' and op == 'lt':
                    n = self.value(b)
                    if p.valid(p.iterm(n) == p.len_of(self.loopseq.pieces)) is not True:
                        raise Unsupported('loop.index compared with another number')
                    return not self.lastone
                raise Unsupported('template loop variable')
            x, y = p.force(self.value(a)), p.force(self.value(b))
            r = {'eq': lambda: it.eq(x, y), 'ne': lambda: it.ne(x, y)}.get(op)
            if r is None:
                k = {'gt': ast.Gt(), 'lt': ast.Lt(), 'gteq': ast.GtE(), 'lteq': ast.LtE()}[op]
                return it.truth(it.compare(k, x, y))
            return it.truth(r())
        if isinstance(e, J.Getattr) and isinstance(e.node, J.Name) and e.node.name == 'loop' and e.attr == 'last':
            return self.lastone
        return it.truth(p.force(self.value(e)))

    def loop(self, n):
        p = self.p
        seq = p.force(self.value(n.iter))
        if seq == '' and isinstance(seq, str):
            return []
        if not isinstance(seq, VSeq) or not isinstance(n.target, J.Name) or n.else_ or n.test:
            raise Unsupported('template loop')
        if getattr(self, 'loopseq', None) is not None:
            raise Unsupported('nested template loop')
        shapes = []
        for last in (False, True):
            self.loopseq, self.lastone = seq, last
            old = self.scope.get(n.target.name, Missing)
            item = SText(z3.Const('item', SEQ))
            self.scope[n.target.name] = item
            out = self.body(n.body)
            self.loopseq = None
            if old is Missing:
                del self.scope[n.target.name]
            else:
                self.scope[n.target.name] = old
            i = [j for j, x in enumerate(out) if x is item]
            if len(i) != 1 or not all(isinstance(x, str) for x in out[:i[0]] + out[i[0] + 1:]):
                raise Unsupported('template loop body')
            shapes.append((''.join(out[:i[0]]), ''.join(out[i[0] + 1:])))
        if shapes[0][0] != shapes[1][0]:
            raise Unsupported('template loop body')
        return [Joined(shapes[0][0], shapes[0][1], shapes[1][1], seq, p)]


class ClassName(SVal):
    """the name of the class of an object that is not decided yet"""
    __slots__ = ('ref',)

    def __init__(self, ref):
        self.ref = ref

    def name(self, it):
        c = it.p.the_class(self.ref)
        return 'NoneType' if c is None else c.__name__

    def among(self, it, names):
        """fork on whether the name is one of these"""
        cs = tuple(c for c in it.p.classes[self.ref.key] if c is not None and c.__name__ in names)
        return it.p.decide_class(self.ref, cs, 'class name in table')

    def symtype(self):
        return STR

    def sym_in(self, it, c):
        keys = [k for k, v in c.items] if isinstance(c, VDict) else list(c.items) if isinstance(c, VSet) else \
            it.p.concrete_items(c) if isinstance(c, VSeq) else None
        if keys is None or not all(isinstance(k, str) for k in keys):
            raise Unsupported('class name in %r' % (c,))
        return self.among(it, set(keys))

    def sym_index(self, it, d):
        if not isinstance(d, VDict):
            raise Unsupported('class name as index')
        groups = {}
        for k, v in d.items:
            if not isinstance(k, str):
                raise Unsupported('table of class names')
            groups.setdefault(v if v is None or isinstance(v, (int, str)) else k, (v, set()))[1].add(k)
        for v, names in groups.values():
            if self.among(it, names):
                return v
        raise PyRaise(KeyError, (), 'class name')

    def sym_eq(self, it, other):
        other = it.p.force(other)
        if isinstance(other, ClassName):
            return self.name(it) == other.name(it)
        return isinstance(other, str) and self.among(it, {other})

    def sym_truth(self, it):
        return True

    def sym_add(self, it, other, right):
        return pymodels.binary(it, ast.Add(), *((other, self.name(it)) if right else (self.name(it), other)))

    def sym_getattr(self, it, name, default):
        return it.getattr(self.name(it), name, default)
