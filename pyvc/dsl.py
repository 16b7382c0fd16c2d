"""Contract language: input types, contracts, registry.

This module is imported by the prover (python3-vt, with z3) and by the
runtime oracle (the repository's interpreter, without z3), so everything that
needs z3 is imported inside methods.
"""
import ast
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STRS = ['a', 'b', 'c', 'd', '']


class T:
    def sym(self, eng, name):
        raise NotImplementedError

    def gen(self, rng):
        raise NotImplementedError

    def ety(self):
        raise TypeError(f'{self} cannot be an element')

    def wf(self, eng, e):
        """well-formedness of an element term"""
        return True

    def conc(self, md, v):
        return md.value(v)


class Int(T):
    def __init__(self, lo=None, hi=None, glo=-3, ghi=4):
        self.lo, self.hi = lo, hi
        self.glo = glo if lo is None else lo
        self.ghi = max(self.glo, ghi) if hi is None else hi

    def sym(self, eng, name):
        v = eng.freshv(name, 'int')
        eng.assume(self._c(v.e))
        return v

    def _c(self, e):
        import z3
        c = []
        if self.lo is not None:
            c.append(e >= self.lo)
        if self.hi is not None:
            c.append(e <= self.hi)
        return z3.And(*c) if c else True

    def ety(self):
        return 'int'

    def wf(self, eng, e):
        return self._c(e)

    def gen(self, rng):
        return rng.randint(self.glo, min(self.ghi, self.glo + 8))


class Bool(T):
    def sym(self, eng, name):
        return eng.freshv(name, 'bool')

    def ety(self):
        return 'bool'

    def gen(self, rng):
        return rng.random() < .5


class Str(T):
    def __init__(self, pool=None):
        self.pool = pool or STRS[:4]

    def sym(self, eng, name):
        return eng.freshv(name, 'str')

    def ety(self):
        return 'str'

    def gen(self, rng):
        return rng.choice(self.pool)


class Real(T):
    def sym(self, eng, name):
        return eng.freshv(name, 'real')

    def ety(self):
        return 'real'

    def gen(self, rng):
        return rng.choice([0.0, 1.0, -1.0, 0.5, 2.25, -3.5, 4.0, 7.75])


KINDS = {'none': [None], 'int': [0, 1, 2, -1, 3], 'str': STRS[:4],
         'real': [0.0, 1.5, -2.5, 2.0], 'bool': [True, False],
         'nan': [float('nan')], 'inf': [float('inf'), float('-inf')]}


class Val(T):
    """a scalar of one of several kinds"""

    def __init__(self, *kinds):
        self.kinds = kinds or ('none', 'int', 'str', 'real', 'nan')

    def wf(self, eng, e):
        import z3
        from .values import Val as V
        t = {'none': V.is_VNone, 'int': V.is_VInt, 'str': V.is_VStr,
             'real': V.is_VReal, 'bool': V.is_VBool, 'nan': V.is_VNaN,
             'opq': V.is_VOpq}
        out = []
        for k in self.kinds:
            if k == 'inf':
                out += [V.is_VPInf(e), V.is_VNInf(e)]
            else:
                out.append(t[k](e))
        return z3.Or(*out)

    def sym(self, eng, name):
        v = eng.freshv(name, 'val')
        eng.assume(self.wf(eng, v.e))
        return v

    def ety(self):
        return 'val'

    def gen(self, rng):
        k = rng.choice([k for k in self.kinds if k != 'opq'])
        return rng.choice(KINDS[k])


class Opq(T):
    """an arbitrary object with equality (and optionally ordering)"""

    def sym(self, eng, name):
        return eng.freshv(name, 'opq')

    def ety(self):
        return 'opq'

    def gen(self, rng):
        return rng.choice(['p', 'q', 'r', 's'])


class Const(T):
    def __init__(self, v):
        self.v = v

    def sym(self, eng, name):
        return self.lift(eng, self.v)

    def lift(self, eng, v):
        from .values import HList, HDict
        if isinstance(v, list):
            return eng.new(HList(items=[self.lift(eng, x) for x in v]))
        if isinstance(v, dict):
            return eng.new(HDict(items={k: self.lift(eng, x)
                                        for k, x in v.items()}))
        return v

    def gen(self, rng):
        import copy
        return copy.copy(self.v)

    def conc(self, md, v):
        return self.v


class Fork(T):
    def __init__(self, *alts):
        self.alts = alts

    def sym(self, eng, name):
        for a in self.alts[:-1]:
            import z3
            if eng.decide(eng.fresh('alt_' + name, z3.BoolSort())):
                return a.sym(eng, name)
        return self.alts[-1].sym(eng, name)

    def gen(self, rng):
        return rng.choice(self.alts).gen(rng)


def Opt(t):
    return Fork(Const(None), t)


class List(T):
    """a list of unbounded length"""

    def __init__(self, el, lo=0, n=None, maxgen=4, tup=False):
        self.el, self.lo, self.n, self.maxgen = el, lo, n, maxgen
        self.tup = tup

    def sym(self, eng, name):
        import z3
        from .values import HList, zsort
        n = eng.fresh(name + '_n', z3.IntSort())
        eng.assume(n >= self.lo)
        t = self.el.ety()
        arr = eng.fresh(name, z3.ArraySort(z3.IntSort(), zsort(t)))
        l = eng.new(HList(n=n, arr=arr, ety=t))
        l.istuple = self.tup
        i = z3.Int('i!wf')
        w = self.el.wf(eng, z3.Select(arr, i))
        if w is not True and not z3.is_true(w):
            eng.assume(z3.ForAll([i], z3.Implies(
                z3.And(0 <= i, i < n), w), patterns=[z3.Select(arr, i)]))
        return l

    def ety(self):
        return ('list', self.el.ety())

    def wf(self, eng, e):
        import z3
        from .values import zsort
        s = zsort(self.ety())
        i = z3.Int('i!wf%d' % eng.bump())
        w = self.el.wf(eng, z3.Select(s.el(e), i))
        c = s.ln(e) >= self.lo
        if w is True:
            return c
        return z3.And(c, z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < s.ln(e)), w)))

    def gen(self, rng):
        n = rng.randint(self.lo, max(self.lo, self.maxgen))
        r = [self.el.gen(rng) for _ in range(n)]
        return tuple(r) if self.tup else r


class Tup(T):
    def __init__(self, *els):
        self.els = els

    def sym(self, eng, name):
        return tuple(e.sym(eng, f'{name}_{i}')
                     for i, e in enumerate(self.els))

    def ety(self):
        return ('tuple', tuple(e.ety() for e in self.els))

    def wf(self, eng, e):
        import z3
        from .values import zsort
        s = zsort(self.ety())
        out = [el.wf(eng, s.accessor(0, i)(e))
               for i, el in enumerate(self.els)]
        out = [x for x in out if x is not True]
        return z3.And(*out) if out else True

    def gen(self, rng):
        return tuple(e.gen(rng) for e in self.els)

    def conc(self, md, v):
        return tuple(e.conc(md, x) for e, x in zip(self.els, v))


class Slc(T):
    """a slice object"""

    def __init__(self, lo, hi, step):
        self.parts = (lo, hi, step)

    def sym(self, eng, name):
        from .values import Slice
        return Slice(*[t.sym(eng, f'{name}_{i}')
                       for i, t in enumerate(self.parts)])

    def gen(self, rng):
        return slice(*[t.gen(rng) for t in self.parts])

    def conc(self, md, v):
        return slice(*[t.conc(md, x) for t, x in
                       zip(self.parts, (v.lo, v.hi, v.step))])


class Rng(T):
    """a range object with step one"""

    def __init__(self, lo, hi):
        self.parts = (lo, hi)

    def sym(self, eng, name):
        from .values import RangeV
        return RangeV(*[t.sym(eng, f'{name}_{i}')
                        for i, t in enumerate(self.parts)], 1)

    def gen(self, rng):
        return range(*[t.gen(rng) for t in self.parts])

    def conc(self, md, v):
        return range(*[t.conc(md, x) for t, x in
                       zip(self.parts, (v.lo, v.hi))])


class Items(T):
    """a list of a fixed number of typed items"""

    def __init__(self, *els):
        self.els = els

    def sym(self, eng, name):
        from .values import HList
        return eng.new(HList(items=[e.sym(eng, f'{name}_{i}')
                                    for i, e in enumerate(self.els)]))

    def gen(self, rng):
        return [e.gen(rng) for e in self.els]

    def conc(self, md, v):
        return [e.conc(md, x) for e, x in zip(self.els, v.items)]


class Dict(T):
    def __init__(self, k, v, maxgen=4):
        self.k, self.v, self.maxgen = k, v, maxgen

    def sym(self, eng, name):
        import z3
        from .values import HDict, zsort
        kt, vt = self.k.ety(), self.v.ety()
        n = eng.fresh(name + '_n', z3.IntSort())
        eng.assume(n >= 0)
        d = eng.new(HDict(None, kt, vt,
                          eng.fresh(name + '_dom', z3.ArraySort(
                              zsort(kt), z3.BoolSort())),
                          eng.fresh(name + '_val', z3.ArraySort(
                              zsort(kt), zsort(vt))), n))
        x = z3.Const('x!wf', zsort(kt))
        w = self.v.wf(eng, z3.Select(d.val, x))
        w2 = self.k.wf(eng, x)
        ws = [q for q in (w, w2) if q is not True]
        if ws:
            eng.assume(z3.ForAll([x], z3.Implies(z3.Select(d.dom, x),
                                                 z3.And(*ws)),
                                 patterns=[z3.Select(d.dom, x)]))
        eng.denum(d)
        return d

    def gen(self, rng):
        return {self.k.gen(rng): self.v.gen(rng)
                for _ in range(rng.randint(0, self.maxgen))}


class Set(T):
    def __init__(self, k, maxgen=4):
        self.k, self.maxgen = k, maxgen

    def sym(self, eng, name):
        import z3
        from .values import HSet, zsort
        kt = self.k.ety()
        n = eng.fresh(name + '_n', z3.IntSort())
        eng.assume(n >= 0)
        s = eng.new(HSet(None, kt, eng.fresh(name + '_dom', z3.ArraySort(
            zsort(kt), z3.BoolSort())), n))
        eng.denum(s)
        return s

    def gen(self, rng):
        return {self.k.gen(rng) for _ in range(rng.randint(0, self.maxgen))}


class Fun(T):
    """a pure total caller-supplied function of typed arguments"""

    def __init__(self, args, ret, impls):
        self.args, self.ret, self.impls = args, ret, impls

    def sym(self, eng, name):
        import z3
        from .values import UFunc, zsort
        ats = [a.ety() for a in self.args]
        rt = self.ret.ety()
        f = eng.freshfun(name, *[zsort(a) for a in ats], zsort(rt))
        xs = [z3.Const(f'x{i}!uf', zsort(a)) for i, a in enumerate(ats)]
        w = self.ret.wf(eng, f(*xs))
        if w is not True:
            eng.assume(z3.ForAll(xs, w, patterns=[f(*xs)]))
        return UFunc(f, ats, rt)

    def gen(self, rng):
        return rng.choice(self.impls)


class Obj(T):
    """an instance with the given fields; cls is 'module:Class' or a bare
    name for an external class"""

    def __init__(self, cls, closed=False, **fields):
        self.cls, self.fields, self.closed = cls, fields, closed

    def sym(self, eng, name):
        from .values import HObj
        c = self.cls
        if ':' in c:
            mod, nm = c.split(':')
            c = eng.loader.module(mod).defs[nm]
        o = eng.new(HObj(c))
        for f, t in self.fields.items():
            eng.curpos = ('in', name, f)
            o.fields[f] = t.sym(eng, f'{name}_{f}')
        if self.closed:
            o.fields['#closed'] = True
        return o

    def gen(self, rng):
        return self.native({f: t.gen(rng) for f, t in self.fields.items()})

    def native(self, vals):
        import importlib
        if ':' not in self.cls:
            return Stub(**vals)
        mod, nm = self.cls.split(':')
        cls = getattr(importlib.import_module(mod), nm)
        names = {f: None for f in self.fields if f in dir(cls)}
        names['__verif_stub__'] = True
        sub = type(nm, (cls,), dict(names))
        sub.__abstractmethods__ = frozenset()
        sub.__deepcopy__ = deepcopy_obj
        o = object.__new__(sub)
        for f, v in vals.items():
            object.__setattr__(o, f, v)
        return o

    def conc(self, md, v):
        return self.native({f: t.conc(md, v.fields['@' + f]
                                      if '@' + f in v.fields
                                      else v.fields[f])
                            for f, t in self.fields.items()})


RTYPES = ('List', 'Matrix', 'DataFrame')


def nimdata(rows, rt='List', **kw):
    import nimble
    return nimble.data(rows, returnType=rt, useLog=False,
                       convertToType=None, **kw)


class Vec(T):
    """a data object with one point or one feature (pyvc/table.py)"""

    def __init__(self, el, lo=1, maxgen=5, pt=None, rts=RTYPES):
        self.l = List(el, lo=lo, maxgen=maxgen)
        self.pt, self.rts = pt, rts

    def sym(self, eng, name):
        import z3
        from . import table
        pt = self.pt
        if pt is None:
            pt = eng.decide(eng.fresh('ispt_' + name, z3.BoolSort()))
        return table.mkvec(eng, self.l.sym(eng, name), pt)

    def gen(self, rng):
        c = self.l.gen(rng)
        return self.native(c, rng.random() < .5 if self.pt is None
                           else self.pt, rng.choice(self.rts))

    def native(self, cells, pt, rt='List'):
        return nimdata([list(cells)] if pt else [[c] for c in cells], rt)

    def conc(self, md, v):
        return self.native(md.value(v.fields['cells']), v.fields['isPt'])


class Grid(T):
    """a data object with at least lo points and features"""

    def __init__(self, el, lo=2, maxgen=4, rts=RTYPES):
        self.el, self.lo, self.maxgen, self.rts = el, lo, maxgen, rts

    def sym(self, eng, name):
        from . import table
        return table.grid_sym(eng, self.el, name, self.lo)

    def gen(self, rng):
        m = rng.randint(self.lo, self.maxgen)
        return nimdata([[self.el.gen(rng) for _ in range(m)] for _ in
                        range(rng.randint(self.lo, self.maxgen))],
                       rng.choice(self.rts))

    def conc(self, md, v):
        return nimdata(md.value(v.fields['rows']))


class Tab(T):
    """a data object of which only the points matter (pyvc/table.py); at run
    time a single feature holding the values of the points"""

    def __init__(self, lo=1, maxgen=6, rts=RTYPES):
        self.l = List(Opq(), lo=lo, maxgen=maxgen)
        self.rts = rts

    def sym(self, eng, name):
        from . import table
        return table.mktab(eng, self.l.sym(eng, name))

    def gen(self, rng):
        return nimdata([[c] for c in self.l.gen(rng)], rng.choice(self.rts))

    def conc(self, md, v):
        return nimdata([[c] for c in md.value(v.fields['rows'])])


class Stub:
    __verif_stub__ = True

    def __init__(self, **kw):
        self.__dict__.update(kw)


def deepcopy_obj(self, memo):
    import copy
    from types import SimpleNamespace
    if id(self) in memo:
        return memo[id(self)]
    o = SimpleNamespace()
    memo[id(self)] = o
    for k, v in self.__dict__.items():
        try:
            setattr(o, k, copy.deepcopy(v, memo))
        except Exception:
            setattr(o, k, v)
    return o


def item_views(eng, ctx, vars_, nz):
    """the same iteration written in other ways: with and without the
    position (enumerate), over the positions of a list"""
    from .values import HList
    it = ctx['it']
    out = [('', it.get)]
    raw = [('', it)]
    if getattr(it, 'inner', None) is not None:
        raw = [('#inner', it.inner)]
        out.append(('#inner', it.inner.get))
    elif getattr(it, 'positions', False):
        for x, v in vars_.items():
            if isinstance(v, HList):
                n = eng.iterable(v)
                a, b = eng.mkz(n.n), eng.mkz(nz)
                if a.eq(b) or not eng.feasible(a != b):
                    raw.append(('#at ' + x, n))
                    out.append(('#at ' + x, n.get))
    for t, i in raw:
        if t != '#inner':
            out.append((t + '#with', lambda j, i=i: (
                eng.mkint(j) if not isinstance(j, int) else j, i.get(j))))
    return out


class PoolItem:
    """a candidate invariant: an expression over roles filled by locals.

    roles: {name: type}; 'k' is the iteration index, 'n' the number of
    iterations, and names of the contract's inputs are available as such.
    Role types: 'int', 'list', 'dict', 'set', 'obj:<Class>', or a local
    variable written @name when it exists.
    """

    def __init__(self, expr, **roles):
        self.expr, self.roles = expr, roles

    def instances(self, eng, ctx, k, nz):
        import itertools
        import z3
        from .spec import Spec, SpecError, ItemFn
        from .values import (Poison, Undef, Unsupported)
        from .engine import PathEnd, PyExc
        fr = ctx['fr']
        env0 = dict(eng.specenv)
        env0['k'] = eng.mkint(k)
        if nz is not None:
            env0['n'] = eng.mkint(nz)
        elif self.uses('n'):
            return
        views = [('', None)]
        if self.uses('item'):
            if ctx.get('it') is None:
                return
            views = [('', ctx['it'].get)]
            eng.itemseen = True
        vars_ = {}
        f = fr
        while f is not None:
            for x, v in f.vars.items():
                if x.startswith('#') or x == '__self__':
                    continue
                vars_.setdefault(x, v)
            f = f.parent
        if views[0][1] is not None and eng.altviews:
            views = item_views(eng, ctx, vars_, nz)
        cands = []
        mod = set(ctx['entry'])
        wr = {id(o) for o in ctx['objs']}
        for r, t in self.roles.items():
            if t[0] == '@':
                # a local preferred by its name
                t = 'val'
                c = [(x, v) for x, v in vars_.items()
                     if x == self.roles[r][1:]]
                if c:
                    cands.append(c)
                    continue
            c = [(x, v) for x, v in vars_.items()
                 if self.fits(v, t.rstrip('!')) and (
                     t[-1] != '!' or x in mod or id(v) in wr)]
            cands.append(c)
        sp = Spec(eng, eng.specmacros, eng.specfuncs)
        names = list(eng.specnames)
        for combo, (tag, get) in itertools.product(
                itertools.product(*cands), views):
            if len({x for x, _ in combo}) < len(combo):
                continue
            if combo and not any(x in mod or id(v) in wr
                                 for x, v in combo) and not wr:
                continue
            env = dict(env0)
            if get is not None:
                env['item'] = ItemFn(get)
            nm = self.expr + '|' + ','.join(x for x, _ in combo) + tag
            for (r, _), (x, v) in zip(self.roles.items(), combo):
                env[r] = v
                if x in ctx['entry'] and not isinstance(
                        ctx['entry'][x], (Poison, Undef)):
                    v0 = ctx['entry'][x]
                    env['old_' + r] = ctx['old'].get(id(v0), v0)
                else:
                    env['old_' + r] = ctx['old'].get(id(v), v)
            eng.entry_old = ctx['old']
            try:
                f = sp.formula(self.expr, env, names + list(self.roles))
            except (SpecError, Unsupported, KeyError, IndexError,
                    AttributeError, TypeError, PathEnd, PyExc,
                    z3.Z3Exception) as ex:
                if os.environ.get('PYVC_DEBUG') == '2':
                    print('no candidate', nm, repr(ex)[:200])
                continue
            yield nm, f

    def uses(self, name):
        return any(isinstance(x, ast.Name) and x.id == name
                   for x in ast.walk(ast.parse(self.expr)))

    def fits(self, v, t):
        from .values import (SInt, SReal, SVal, SStr, SBool, SOpq, HList,
                             HDict, HSet, HArr2, HObj)
        if t == 'int':
            return isinstance(v, (int, SInt)) and not isinstance(v, bool)
        if t == 'num':
            return (isinstance(v, (int, SInt, SReal, float))
                    and not isinstance(v, bool))
        if t == 'val':
            return isinstance(v, (SVal, SStr, SInt, SReal, int, str, float,
                                  type(None), SBool, bool, SOpq))
        if t == 'bool':
            return isinstance(v, (bool, SBool))
        if t == 'list':
            return isinstance(v, HList)
        if t == 'dict':
            return isinstance(v, HDict)
        if t == 'set':
            return isinstance(v, HSet)
        if t == 'arr2':
            return isinstance(v, HArr2)
        if t.startswith('obj'):
            return isinstance(v, HObj)
        return False


CONTRACTS = {}


class Contract:
    def __init__(self, id, prop, target, params, requires=(), ensures=(),
                 raises=None, exc_ensures=(), pool=(), uses=(), models=None,
                 returns=None, modifies=(), gen=None, native=None, run=None,
                 funcs=None, budget=150, selfp=None, samples=300, note='',
                 feas_ms=400, cand_ms=1500, nfuncs=None, static=False,
                 overrides=None, goal_ms=8000, total=True, assumes=(),
                 trusted=False, optional=False, globs=None, thorough=False,
                 prove=True, tactic=None, apply=0):
        self.__dict__.update(locals())
        del self.__dict__['self']
        self.props = [prop] if isinstance(prop, str) else list(prop)
        # {exception: condition} exact; None or ('only', condition): the
        # exception is allowed (when the condition holds)
        self.raises, self.mayraise = {}, {}
        for x, cond in (raises or {}).items():
            if isinstance(cond, tuple):
                self.mayraise[x] = cond[1]
                cond = None
            self.raises[x] = cond
        self.ensures = [e if isinstance(e, tuple) else (f'ensures {i}', e)
                        for i, e in enumerate(ensures)]
        self.exc_ensures = [
            e if isinstance(e, tuple) else (f'on exception {i}', e)
            for i, e in enumerate(exc_ensures)]

    @property
    def allparams(self):
        d = {}
        if self.selfp is not None:
            d['self'] = self.selfp
        d.update(self.params)
        return d


def contract(id, prop, target, params, **kw):
    c = Contract(id, prop, target, params, **kw)
    if id in CONTRACTS:
        raise ValueError(f'duplicate contract {id}')
    CONTRACTS[id] = c
    return c


def load_all():
    import importlib
    import sys
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    d = os.path.join(HERE, 'contracts')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_') and f != 'specfns.py':
            importlib.import_module('contracts.' + f[:-3])
    return CONTRACTS
