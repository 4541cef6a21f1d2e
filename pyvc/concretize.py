"""Turn the solver's counter-model of a failed obligation into concrete Python arguments."""
import z3
from .types import *


class Concretizer(object):
    def __init__(self, path, model, initial=None, limit=400):
        self.p = path
        self.m = model
        self.memo = {}
        self.names = {}
        self.left = limit
        self.initial = initial or {}

    def ev(self, t):
        return self.m.eval(t, model_completion=True)

    def value(self, v, depth=0):
        self.left -= 1
        if self.left < 0 or depth > 40:
            raise ValueError('counter-model too large')
        p = self.p
        if isinstance(v, SUnion):
            key = ('union', v.sel.get_id())
            if key in p.store:
                return self.value(p.store[key][1], depth)
            i = self.ev(v.sel).as_long()
            return self.value(v.thunks[i](), depth + 1)
        if isinstance(v, SInt):
            return self.ev(v.t).as_long()
        if isinstance(v, SBool):
            return bool(z3.is_true(self.ev(v.t)))
        if isinstance(v, SStr):
            return self.ev(v.t).as_string()
        if isinstance(v, SOpq):
            h = p.spec.__dict__.get('opaque_value')
            k = (str(v.t.sort()), str(self.ev(v.t)))
            n = self.names.setdefault(k, len(self.names))
            return h(str(v.t.sort()), n) if h else 'v%d' % n
        if isinstance(v, SRef):
            return self.obj(v, depth)
        if isinstance(v, VSeq):
            out = []
            for k, x in p.flat(v.pieces):
                if k == 'e':
                    out.append(self.value(x, depth + 1))
                else:
                    try:
                        n = self.ev(RLEN(x.t)).as_long()
                    except AttributeError:
                        n = 0
                    for _ in range(min(n, 3)):
                        out.append(self.value(p.new_elem(x.elem), depth + 2))
            return tuple(out) if v.kind == 'tuple' else out
        if isinstance(v, VDict):
            return dict((self.value(a, depth + 1), self.value(b, depth + 1)) for a, b in v.items)
        if isinstance(v, VSet):
            return set(self.value(x, depth + 1) for x in v.items)
        if isinstance(v, SDict):
            out = {}
            for e in v.cache:
                if self.value(e[1]) is True or e[1] is True:
                    out[self.value(e[0])] = self.value(e[2])
            return out
        return v

    def obj(self, r, depth):
        p = self.p
        if r.key in self.memo:
            return self.memo[r.key]
        cs = p.classes[r.key]
        cls = cs[0]
        if len(cs) > 1:
            t = self.ev(TAG(r.t))
            try:
                tag = t.as_long()
            except AttributeError:
                tag = -1
            by = dict((p.engine.classid(c), c) for c in cs)
            cls = by.get(tag, cs[0])
            leaf = p.spec.__dict__.get('leaf_class')
            if cls is not None and not p.spec.fields(cls) and leaf:
                cls = leaf
            if depth > 6 and leaf in cs:
                cls = leaf
        if cls is None:
            return None
        o = cls.__new__(cls)
        self.memo[r.key] = o
        fields = dict(p.spec.fields(cls))
        for (k, f), x in list(p.store.items()):
            if k == r.key:
                fields[f] = None
        for f in fields:
            k = (r.key, f)
            if k in self.initial:
                x = self.initial[k]
            elif k in p.store:
                x = p.store[k]
            elif r.key in p.closed:
                continue
            else:
                t = fields[f]

                def fac(sort, suffix, f=f):
                    return z3.Function('%s%s' % (f, suffix), Ref, sort)(r.t)
                x = p.make(t, f, fac)
                p.store[k] = x
            o.__dict__[f] = self.value(x, depth + 1)
        return o
