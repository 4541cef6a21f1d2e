"""Verify contracts: explore all paths of the real function, discharge every obligation."""
import importlib
import time
import traceback
import z3
from .types import *
from .core import *
from .interp import Interp
from . import extract, pymodels


class Result(object):
    def __init__(self, target):
        self.target = target
        self.obls = []
        self.paths = 0
        self.returns = 0
        self.raises = 0
        self.status = 'proved'      # proved | refuted | undecided | missing
        self.unsupported = []
        self.stats = {}
        self.vacuous = False
        self.time = 0.0
        self.inlined = []
        self.used = []
        self.iterations = 0

    def summary(self):
        return {'function': self.target, 'status': self.status, 'paths': self.paths,
                'obligations': len(self.obls), 'discharged': sum(1 for o in self.obls if o.status == 'proved'),
                'solver_s': round(self.stats.get('solver_s', 0), 3), 'wall_s': round(self.time, 2),
                'unsupported': self.unsupported[:5]}


def resolve(target):
    mod, qn = target.split(':')
    m = importlib.import_module(mod)
    o = m
    owner = None
    for part in qn.split('.'):
        if isinstance(o, type):
            k, v = extract.find_owner(o, part)
            if k is None:
                raise AttributeError(qn)
            owner = o
            o = v
        else:
            o = getattr(o, part)
    if isinstance(o, (staticmethod, classmethod)):
        o = o.__func__
    if isinstance(o, property):
        o = o.fget
    return m, owner, o


def verify(spec, contract, opts=None):
    """returns Result"""
    opts = opts or {}
    res = Result(contract.target)
    t0 = time.time()
    try:
        mod, owner, fn = resolve(contract.target)
    except (ImportError, AttributeError) as e:
        res.status = 'missing'
        res.unsupported.append('no such function: %s' % e)
        return res
    eng = Engine(spec, opts)
    budget = contract.budget or opts.get('budget', 300)
    eng.deadline = t0 + budget
    restarts = 0
    while True:
        try:
            explore(eng, spec, contract, fn, owner, res)
            break
        except Restart:
            restarts += 1
            if restarts > 400:
                res.unsupported.append('loop invariants did not stabilise')
                break
    res.iterations = restarts
    res.stats = dict(eng.stats)
    res.time = time.time() - t0
    res.inlined = sorted('%s:%s' % x for x in eng.inlined)
    res.used = sorted(eng.used_contracts)
    bad = [o for o in res.obls if o.status == 'refuted']
    unk = [o for o in res.obls if o.status == 'unknown']
    if res.returns + res.raises == 0 and not res.unsupported:
        res.vacuous = True
    if not res.obls and not res.unsupported:
        res.vacuous = True
    if bad:
        res.status = 'refuted'
    elif res.unsupported or unk or res.vacuous:
        res.status = 'undecided'
    return res


def explore(eng, spec, contract, fn, owner, res):
    res.obls = []
    res.paths = res.returns = res.raises = 0
    res.unsupported = []
    work = [[]]
    while work:
        prefix = work.pop()
        if res.paths >= eng.max_paths:
            res.unsupported.append('path limit')
            return
        p = Path(eng, prefix)
        try:
            run_path(eng, spec, contract, fn, owner, p, res)
        finally:
            work.extend(p.alts)


def run_path(eng, spec, contract, fn, owner, p, res):
    it = Interp(p)
    res.paths += 1
    eng.stats['paths'] += 1
    p.extra['mode'] = 'prove'
    try:
        if contract.setup:
            contract.setup(p, it)
        args = p.extra['args'] = {}
        for name, t in contract.params.items():
            if isinstance(t, T):
                args[name] = p.make(t, name)
            elif callable(t):
                args[name] = t(p, it, args)
            else:
                args[name] = t
        for name, f in contract.requires(p, args):
            p.assume(f if not isinstance(f, bool) else z3.BoolVal(f))
        old = contract.old(p, args)
        p.entry_birth = next(p.births)
        mark = len(p.mutlog)
        if contract.inline:
            p.extra['inline'] = contract.inline
        node = extract.fn_ast(fn)
        names = [a.arg for a in node.args.args]
        pos, kw = [], {}
        for n in names:
            if n in args and not kw:
                pos.append(args[n])
            elif n in args:
                kw[n] = args[n]
            else:
                kw['__skip__'] = True
        kw = {n: args[n] for n in args if n in names and n not in names[:len(pos)]}
        missing = [n for n in args if n not in names and not n.startswith('_')]
        if missing:
            res.unsupported.append('parameters renamed: %s' % missing)
            return
        try:
            r = it.inline(fn, pos, kw, owner)
        except ReturnEx as e:
            r = e.value
        except PyRaise as e:
            if not p.feasible():
                raise PathEnd()
            res.raises += 1
            handle_raise(contract, p, args, e)
            res.obls.extend(p.obls)
            return
        if not p.feasible():
            raise PathEnd()
        res.returns += 1
        if contract.frame:
            check_frame(contract, p, args, mark)
        a2 = dict(args)
        a2['_it'] = it
        for name, f in contract.ensures(p, a2, r, old):
            p.oblige('ensures %s' % name, f)
        res.obls.extend(p.obls)
    except PathEnd:
        res.obls.extend(p.obls)
    except Unsupported as e:
        if p.feasible():
            res.unsupported.append(str(e))
        res.obls.extend(p.obls)
    except PyRaise as e:
        res.unsupported.append('exception escaped in specification: %s' % e)
    except z3.Z3Exception as e:
        res.unsupported.append('solver error: %s' % e)
    except RecursionError:
        res.unsupported.append('recursion depth')


def handle_raise(contract, p, args, e):
    ok = False
    for cls, cond in contract.raises.items():
        if issubclass(e.cls, cls):
            f = cond(p, args)
            p.oblige('raises %s only when allowed' % e.cls.__name__, f)
            ok = True
            break
    if not ok:
        p.oblige('no exception %s %s' % (e.cls.__name__, e.note), False)


def check_frame(contract, p, args, mark):
    """nothing reachable from the arguments is changed unless the contract says so"""
    for m in p.mutlog[mark:]:
        if m[0] == 'obj' and getattr(m[1], 'birth', 0) < p.entry_birth:
            p.oblige('frame: argument containers unchanged', False)
        elif m[0] == 'field':
            ref = m[1]
            b = p.closed.get(ref.key, 0)
            if b < p.entry_birth:
                p.oblige('frame: argument objects unchanged (.%s)' % m[2], False)
