"""Texts made of pieces: fixed text and stretches of one or more characters of a known alphabet.

Operations answer only where every text of that shape gives the same answer; everything else is Unsupported.  Regular
expressions are matched symbolically (leftmost, in the priority order of Python's matcher)."""
import re
import re._parser as sre
import re._constants as K
import z3
from .types import *
from . import pymodels

ALL = [chr(i) for i in range(9, 127)]


class Var(object):
    """one or more characters of an alphabet; `clean` after underscores were removed"""

    def __init__(self, name, alphabet, underscores=False):
        self.name, self.alphabet, self.underscores = name, frozenset(alphabet), underscores

    @property
    def chars(self):
        return self.alphabet | {'_'} if self.underscores else self.alphabet

    def __eq__(self, o):
        return isinstance(o, Var) and (self.name, self.alphabet, self.underscores) == (o.name, o.alphabet, o.underscores)

    def __hash__(self):
        return hash((self.name, self.underscores))

    def __repr__(self):
        return '<%s>' % self.name


def norm(items):
    out = []
    for x in items:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != '':
            out.append(x)
    return out


class Fn(object):
    def __init__(self, fn):
        self.fn = fn

    def sym_call(self, it, args, kwargs):
        if kwargs:
            raise Unsupported('keyword arguments')
        return self.fn(it, *[it.p.force(a) for a in args])


class Pieces(SVal):
    def __init__(self, items):
        self.items = norm(items)

    def __repr__(self):
        return 'Pieces(%r)' % (self.items,)

    def value(self):
        """the plain string when nothing is unknown"""
        return self if any(isinstance(x, Var) for x in self.items) else ''.join(self.items)

    def symtype(self):
        return STR

    def sym_truth(self, it):
        return bool(self.items)

    def sym_eq(self, it, o):
        o = it.p.force(o)
        if isinstance(o, Pieces):
            if o.items == self.items:
                return True
            raise Unsupported('equality of texts')
        if not isinstance(o, str):
            return False
        if not all(any(c in chars for c in o) if isinstance(chars, frozenset) else chars in o
                   for chars in (x.chars if isinstance(x, Var) else x for x in self.items)):
            return False
        raise Unsupported('equality of texts')

    def sym_add(self, it, o, right):
        o = it.p.force(o)
        t = o.items if isinstance(o, Pieces) else [o] if isinstance(o, str) else None
        if t is None:
            raise Unsupported('text + %r' % (o,))
        return Pieces(t + self.items if right else self.items + t)

    def sym_contains(self, it, x):
        x = it.p.force(x)
        if not isinstance(x, str):
            raise Unsupported('membership of %r' % (x,))
        return self.find(it, x) is not None

    def sym_in(self, it, c):
        if isinstance(c, str) and len(self.items) == 1 and not set(self.items[0].chars) & set(c):
            return False
        raise Unsupported('text in %r' % (c,))

    def find(self, it, x):
        """(item, offset) of the first occurrence; None if there is none"""
        if len(x) == 0:
            raise Unsupported('empty needle')
        m = search(sre.parse(re.escape(x)), self.items, 0)
        return None if m is None else m[0][0]

    def slice(self, a, b):
        """text between two positions"""
        out = []
        for i in range(a[0], min(b[0] + 1, len(self.items))):
            x = self.items[i]
            if isinstance(x, str):
                out.append(x[a[1] if i == a[0] else 0:b[1] if i == b[0] else None])
            elif i != b[0] or b[1]:
                out.append(x)
        return Pieces(out).value()

    def end(self):
        return (len(self.items), 0)

    def index(self, n, allow_end=False):
        """position of the n-th character"""
        if not isinstance(n, int):
            raise Unsupported('index of a text')
        if n >= 0:
            for i, x in enumerate(self.items):
                if isinstance(x, Var):
                    if n == 0:
                        return (i, 0)
                    raise Unsupported('index in a text')
                if n < len(x):
                    return (i, n)
                n -= len(x)
            return self.end()
        n = -n
        for i in range(len(self.items) - 1, -1, -1):
            x = self.items[i]
            if isinstance(x, Var):
                raise Unsupported('index in a text')
            if n <= len(x):
                return (i, len(x) - n)
            n -= len(x)
        return (0, 0)

    def sym_getitem(self, it, k):
        a = self.index(it.p.force(k))
        if a == self.end():
            raise pymodels.PyRaise(IndexError, (), 'string index out of range')
        x = self.items[a[0]]
        if isinstance(x, Var):
            return Pieces([Var('%s[%d]' % (x.name, k), x.alphabet)])
        return self.items[a[0]][a[1]]

    def sym_slice(self, it, lo, hi, st):
        if st not in (None, 1):
            raise Unsupported('slice step')
        a = self.index(lo or 0) if not isinstance(lo, Pos) else lo.at
        b = self.end() if hi is None else hi.at if isinstance(hi, Pos) else self.index(hi)
        return '' if a > b else self.slice(a, b)

    def sym_getattr(self, it, name, default):
        f = getattr(self, 'm_' + name, None)
        if f is None:
            raise Unsupported('method %s of a text' % name)
        return Fn(f)

    def sym_re(self, it, name, args):
        return re_model(it, name, args)

    def sym_int(self, it, args):
        return int_model(it, args)

    # ---- methods
    def m_replace(self, it, old, new):
        if old == '_' and new == '':
            return Pieces([x.replace('_', '') if isinstance(x, str) else Var(x.name, x.alphabet) for x in self.items]).value()
        if not isinstance(old, str) or len(old) != 1 or not isinstance(new, str):
            raise Unsupported('replace')
        if any(isinstance(x, Var) and old in x.chars for x in self.items):
            raise Unsupported('replace')
        return Pieces([x.replace(old, new) if isinstance(x, str) else x for x in self.items]).value()

    def cased(self, f):
        for x in self.items:
            if isinstance(x, Var) and x.name != 'digits' and any(f(c) != c for c in x.alphabet):
                raise Unsupported('case of a text')
        return Pieces([f(x) if isinstance(x, str) else Var(x.name, map(f, x.alphabet), x.underscores)
                       for x in self.items]).value()

    def m_lower(self, it):
        return self.cased(str.lower)

    def m_upper(self, it):
        return self.cased(str.upper)

    def m_strip(self, it, *a):
        for i in (0, -1):
            x = self.items[i]
            if any(isinstance(x, str) and (x[i] in a[0] if a else x[i].isspace()) or
                   isinstance(x, Var) and any(c in x.chars for c in (a[0] if a else ' \t\n')) for x in [x]):
                raise Unsupported('strip')
        return self.value()

    def m_lstrip(self, it, s):
        x = self.items[0]
        if isinstance(x, str):
            y = x.lstrip(s)
            if y:
                return Pieces([y] + self.items[1:]).value()
            if len(self.items) > 1 and not any(c in self.items[1].chars for c in s):
                return Pieces(self.items[1:]).value()
        elif not any(c in x.chars for c in s):
            return self
        raise Unsupported('lstrip')

    def m_startswith(self, it, s):
        ss = it.p.concrete_items(s) if isinstance(s, VSeq) else [s]
        res = False
        for s in ss:
            r = match_at(sre.parse(re.escape(s)), self.items, (0, 0))
            res = res or r is not None
        return res

    def m_isdigit(self, it):
        if all(set(x.chars if isinstance(x, Var) else x) <= set('0123456789') for x in self.items):
            return True
        if any(not set(x.chars if isinstance(x, Var) else x) & set('0123456789') for x in self.items):
            return False
        raise Unsupported('isdigit')

    def m_count(self, it, s):
        if len(s) != 1 or any(isinstance(x, Var) and s in x.chars for x in self.items):
            raise Unsupported('count')
        return sum(x.count(s) for x in self.items if isinstance(x, str))

    def m_find(self, it, s):
        a = self.find(it, s)
        return -1 if a is None else self.number(it, a)

    def m_index(self, it, s):
        a = self.find(it, s)
        if a is None:
            raise pymodels.PyRaise(ValueError, (), 'substring not found')
        return self.number(it, a)

    def number(self, it, a):
        n = 0
        for x in self.items[:a[0]]:
            if isinstance(x, Var):
                return Pos(it, self, a)
            n += len(x)
        return n + a[1]

    def m_split(self, it, s, n=-1):
        if not isinstance(s, str) or len(s) != 1 or n not in (-1, 1):
            raise Unsupported('split')
        out, rest = [], self
        while True:
            a = rest.find(it, s) if isinstance(rest, Pieces) else None
            if a is None or n == 1 and out:
                if isinstance(rest, str) and n == -1:
                    out += rest.split(s)
                elif isinstance(rest, str) and not out:
                    out += rest.split(s, 1)
                else:
                    out.append(rest)
                break
            out.append(rest.slice((0, 0), a))
            rest = rest.slice((a[0], a[1] + 1), rest.end())
        return VSeq('list', [('e', x) for x in out], next(it.p.births))

    def m_partition(self, it, s):
        if len(s) != 1:
            raise Unsupported('partition')
        a = self.find(it, s)
        out = [self, '', ''] if a is None else \
            [self.slice((0, 0), a), s, self.slice((a[0], a[1] + 1), self.end())]
        return VSeq('tuple', [('e', x) for x in out], next(it.p.births))


class Pos(SInt):
    """an index into a text behind a stretch of unknown length (a number of at least 1)"""

    def __init__(self, it, text, at):
        SInt.__init__(self, z3.Int('index %d+%d of %r' % (at + (text.items,))))
        it.p.assume(self.t >= sum(len(x) if isinstance(x, str) else 1 for x in text.items[:at[0]]) + at[1])
        self.text, self.at = text, at

    def sym_add(self, it, o, right):
        o = it.p.force(o)
        i, j = self.at
        if isinstance(o, int) and not isinstance(o, bool) and o >= 0 and isinstance(self.text.items[i], str) and \
                j + o <= len(self.text.items[i]):
            return Pos(it, self.text, rest(self.text.items, (i, j + o)))
        return SInt(self.t + it.p.iterm(o))


# ---------------------------------------------------------------- regular expressions
class Match(SVal):
    def __init__(self, text, span, groups, ngroups):
        self.text, self.span, self.groups, self.n = text, span, groups, ngroups

    def group(self, i):
        if not isinstance(i, int) or not 0 <= i < self.n:
            raise Unsupported('group %r' % (i,))
        s = self.span if i == 0 else self.groups.get(i)
        return None if s is None else self.text.slice(*s)

    def sym_truth(self, it):
        return True

    def sym_getitem(self, it, k):
        return self.group(it.p.force(k))

    def sym_getattr(self, it, name, default):
        if name == 'group':
            def group(it, *a):
                if len(a) > 1:
                    return VSeq('tuple', [('e', self.group(i)) for i in a], next(it.p.births))
                return self.group(a[0] if a else 0)
            return Fn(group)
        if name == 'groups':
            return Fn(lambda it: VSeq('tuple', [('e', self.group(i)) for i in range(1, self.n)], next(it.p.births)))
        raise Unsupported('match.%s' % name)


def charset(op, av, flags):
    """the characters one item stands for"""
    fold = (lambda c: {c.lower(), c.upper()}) if flags & re.I else (lambda c: {c})

    def one(op, av):
        if op is K.LITERAL:
            return lambda c: av in map(ord, fold(c))
        if op is K.NOT_LITERAL:
            return lambda c: av not in map(ord, fold(c))
        if op is K.RANGE:
            return lambda c: any(av[0] <= ord(x) <= av[1] for x in fold(c))
        if op is K.CATEGORY:
            tests = {K.CATEGORY_DIGIT: str.isdigit, K.CATEGORY_SPACE: str.isspace,
                     K.CATEGORY_WORD: lambda c: c.isalnum() or c == '_'}
            if av in tests:
                return tests[av]
        raise Unsupported('pattern %s' % op)
    if op is K.ANY:
        return lambda c: c != '\n' or bool(flags & re.S)
    if op is K.IN:
        neg = bool(av) and av[0][0] is K.NEGATE
        fs = [one(*x) for x in (av[1:] if neg else av)]
        return lambda c: any(f(c) for f in fs) != neg
    if op in (K.LITERAL, K.NOT_LITERAL):
        return one(op, av)
    return None


def matches(pat, i, items, pos, groups, k):
    """every way pat[i:] matches from pos, in order; k(pos, groups) continues.  A position is (item, offset) or
    (item, None): somewhere inside that stretch"""
    flags = pat.state.flags
    if i == len(pat):
        yield from k(pos, groups)
        return
    op, av = pat[i]
    go = lambda pos, groups: matches(pat, i + 1, items, pos, groups, k)
    f = charset(op, av, flags)
    if f is not None:
        for q in step(items, pos, f):
            yield from go(q, groups)
        return
    if op in (K.MAX_REPEAT, K.MIN_REPEAT):
        lo, hi, sub = av
        g = charset(*sub[0], flags) if len(sub) == 1 else None
        if hi == 1 and lo == 0:
            ways = [lambda: matches(sub, 0, items, pos, groups, go), lambda: go(pos, groups)]
            for w in ways if op is K.MAX_REPEAT else reversed(ways):
                yield from w()
            return
        if g is None or lo > 1 or hi is not K.MAXREPEAT:
            raise Unsupported('pattern repeat')
        stops = run(items, pos, g)
        if lo == 1:
            stops = stops[1:]
        for q in (reversed(stops) if op is K.MAX_REPEAT else stops):
            yield from go(q, groups)
        return
    if op is K.SUBPATTERN:
        n, add, rem, sub = av
        if add or rem:
            raise Unsupported('pattern flags')
        yield from matches(sub, 0, items, pos, groups, lambda q, gr: go(q, dict(gr, **{}) if n is None else {**gr, n: (pos, q)}))
        return
    if op is K.BRANCH:
        for sub in av[1]:
            yield from matches(sub, 0, items, pos, groups, go)
        return
    if op is K.AT:
        if av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
            if pos == (0, 0):
                yield from go(pos, groups)
            return
        if av in (K.AT_END, K.AT_END_STRING):
            if pos[0] >= len(items):
                yield from go(pos, groups)
            return
    raise Unsupported('pattern %s' % op)


def rest(items, pos):
    """normal form: no offset at the end of an item"""
    i, o = pos
    if i < len(items) and isinstance(items[i], str) and o == len(items[i]):
        return (i + 1, 0)
    return pos


def step(items, pos, f):
    """positions after one character of f"""
    i, o = pos
    if i >= len(items):
        return []
    x = items[i]
    if isinstance(x, str):
        return [rest(items, (i, o + 1))] if f(x[o]) else []
    if not any(f(c) for c in x.chars):
        return []
    # one character of the stretch: it ends there, or more follow
    if not all(f(c) for c in x.chars):
        raise Unsupported('pattern depends on the characters')
    raise Unsupported('pattern ends inside a stretch')


def run(items, pos, f):
    """the stops of a repetition of f, shortest first; stops[0] is the empty one"""
    stops = [pos]
    while True:
        i, o = pos
        if i >= len(items):
            return stops
        x = items[i]
        if isinstance(x, str):
            if not f(x[o]):
                return stops
            pos = rest(items, (i, o + 1))
        else:
            if not any(f(c) for c in x.chars):
                return stops
            if not all(f(c) for c in x.chars):
                raise Unsupported('pattern depends on the characters')
            if o is not None:
                stops.append((i, None))
            pos = (i + 1, 0)
        stops.append(pos)


def first(gen):
    for pos, groups in gen:
        if pos[1] is None or any(None in (a[1], b[1]) for a, b in groups.values()):
            raise Unsupported('match ends inside a stretch')
        return pos, groups
    return None


def match_at(pat, items, pos, full=False):
    m = first(matches(pat, 0, items, pos, {}, lambda q, g: [(q, g)] if not full or q[0] >= len(items) else []))
    return m


def search(pat, items, start):
    """((start, end), groups) of the leftmost match"""
    for i, x in enumerate(items):
        for o in (range(len(x)) if isinstance(x, str) else (0, None)):
            m = match_at(pat, items, (i, o))
            if m is not None:
                if o is None:
                    raise Unsupported('match starts inside a stretch')
                return ((i, o), m[0]), m[1]
    m = match_at(pat, items, (len(items), 0))
    return None if m is None else (((len(items), 0), m[0]), m[1])


def re_model(it, name, args):
    flags = 0
    pat, text = args[0], args[1]
    if isinstance(pat, re.Pattern):
        flags, pat = pat.flags, pat.pattern
    if not isinstance(text, Pieces) or not isinstance(pat, str):
        raise Unsupported('re.%s' % name)
    if len(args) > 2:
        if not isinstance(args[2], int) or name == 'sub':
            raise Unsupported('re.%s' % name)
        flags = int(args[2])
    if name == 'sub':
        raise Unsupported('re.sub')
    tree = sre.parse(pat, flags)
    if name == 'search':
        m = search(tree, text.items, 0)
    else:
        m = match_at(tree, text.items, (0, 0), name == 'fullmatch')
        m = m and (((0, 0), m[0]), m[1])
    return None if m is None else Match(text, m[0], m[1], tree.state.groups)


def int_model(it, args):
    """int(text, base) of one stretch of digits"""
    text, base = args[0], it.p.force(args[1]) if len(args) > 1 else 10
    if not isinstance(base, int):
        raise Unsupported('int with base %r' % (base,))
    items = list(text.items)
    neg = items[0] == '-'
    if neg:
        items = items[1:]
    if len(items) != 1 or not isinstance(items[0], Var) or items[0].underscores:
        raise Unsupported('int(%r)' % (text,))
    ok = set('0123456789abcdefghijklmnopqrstuvwxyz'[:base])
    if not all(c.lower() in ok for c in items[0].alphabet):
        raise Unsupported('int(%r, %d)' % (text, base))
    t = number(items[0].name, base)
    it.p.assume(t >= 0)
    return SInt(-t if neg else t)


def number(name, base):
    return z3.Int('%s in base %d' % (name, base))
