"""Symbolic execution engine: path enumeration, facts, obligations, heap."""
import subprocess
import tempfile
import time
import os
import z3
from .values import *
from . import values as V


class PathEnd(Exception):
    """this path is finished (infeasible, or closed by a loop invariant)"""


class Restart(Exception):
    """loop information changed: run the whole task again"""


class Carried(Exception):
    """a loop cannot be summarised: loop-carried dependency"""
    def __init__(self, why=''):
        super().__init__(why)


class Nested(Carried):
    """a loop that could be summarised, but not inside the summary of the
    enclosing loop"""


class Frame:
    def __init__(self, module, cls=None, parent=None, name='?'):
        self.vars = {}
        self.module, self.cls, self.parent, self.name = (module, cls, parent,
                                                         name)
        self.globals = set()
        self.nonlocals = set()
        self.yields = None


class Tracker:
    def __init__(self, start):
        self.start = start
        self.reads = {}
        self.lreads = {}
        self.effects = []


class Ctx:
    def __init__(self, prefix, work):
        self.prefix, self.work, self.pos = prefix, work, 0
        self.taken = []


def has_quant(e):
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        todo.extend(x.children())
    return False


class Engine:
    MAXPATHS = 4000
    inspec = False

    def __init__(self, loader, feas_ms=400, deadline=None):
        self.loader = loader
        self.loopinfo = {}
        self.obligations = []
        self.assumptions = set()
        self.summaries = {}
        self.models = {}
        self.deadline = deadline
        self.feas_ms = feas_ms
        self.inlined = set()
        self.external_used = set()
        self.pool = []
        self.reset()

    def reset(self):
        self.facts = []
        self.trail = []
        self.ctxs = []
        self.trackers = []
        self.freshlog = []
        self.freshno = 0
        self.allocno = 0
        self.light = z3.Solver()
        self.light.set('timeout', self.feas_ms)
        self.nlits = 0
        self.obligations = []
        self.sitestack = []
        self.curpos = None
        self.npaths = 0
        self.depth = 0
        self.ghost = {}

    # -------------------------------------------------------------- fresh
    def fresh(self, name, sort):
        self.freshno += 1
        c = z3.Const(f'{name}!{self.freshno}', sort)
        self.freshlog.append(c)
        return c

    def freshv(self, name, ty):
        return self.wrap(self.fresh(name, zsort(ty)), ty, wf=True)

    def freshfun(self, name, *sorts):
        self.freshno += 1
        return z3.Function(f'{name}!{self.freshno}', *sorts)

    # -------------------------------------------------------------- facts
    def assume(self, f):
        if f is True:
            return
        if f is False:
            f = z3.BoolVal(False)
        if isinstance(f, SBool):
            f = f.e
        if z3.is_true(f):
            return
        self.facts.append(f)
        if not has_quant(f):
            self.light.add(f)
        elif z3.is_and(f):
            todo = list(f.children())
            while todo:
                g = todo.pop()
                if z3.is_and(g):
                    todo.extend(g.children())
                elif not has_quant(g):
                    self.light.add(g)

    def mark(self):
        self.light.push()
        return (len(self.trail), len(self.facts), len(self.freshlog),
                self.allocno)

    def undo(self, m):
        self.light.pop()
        while len(self.trail) > m[0]:
            kind, o, k, old = self.trail.pop()
            if kind == 'a':
                setattr(o, k, old)
            elif old is UNDEF:
                o.pop(k, None)
            else:
                o[k] = old
        del self.facts[m[1]:]

    def mut(self, obj, attr, val):
        self.trail.append(('a', obj, attr, getattr(obj, attr)))
        setattr(obj, attr, val)

    def mutd(self, d, key, val):
        self.trail.append(('d', d, key, d.get(key, UNDEF)))
        d[key] = val

    def mutdel(self, d, key):
        self.trail.append(('d', d, key, d.get(key, UNDEF)))
        d.pop(key, None)

    # -------------------------------------------------------------- paths
    def enumerate(self, thunk, on_path):
        work = [[]]
        while work:
            prefix = work.pop()
            self.npaths += 1
            if self.npaths > self.MAXPATHS:
                raise Unsupported('too many paths')
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time budget of the task exhausted')
            ctx = Ctx(prefix, work)
            self.ctxs.append(ctx)
            m = self.mark()
            st = list(self.sitestack)
            dp = self.depth
            try:
                try:
                    out = ('ok', thunk())
                except PathEnd:
                    out = ('end', None)
                except PyExc as e:
                    out = ('raise', e)
                except BreakEx:
                    out = ('break', None)
                except ContinueEx:
                    out = ('ok', None)
                except ReturnEx as e:
                    out = ('return', e.v)
                self.sitestack = st
                self.depth = dp
                if out[0] != 'end':
                    on_path(ctx, out, m)
            finally:
                self.sitestack = st
                self.depth = dp
                self.undo(m)
                self.ctxs.pop()

    def feasible(self, cond):
        while self.nlits < len(V.str_axioms):
            # literals are global facts; adding them inside a push is fine
            # because they are re-added after a pop when needed
            break
        r = self.light.check(cond, *V.str_axioms)
        return r != z3.unsat

    def decide(self, cond):
        """fork on a boolean (python bool or z3)"""
        if isinstance(cond, SBool):
            cond = cond.e
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        ctx = self.ctxs[-1]
        if ctx.pos < len(ctx.prefix):
            choice = ctx.prefix[ctx.pos]
            if choice is None:
                choice = True
        else:
            ft = self.feasible(cond)
            if not ft:
                # entailed: no branching, remember so that replays agree
                ctx.prefix = ctx.prefix + ['F']
                choice = 'F'
            else:
                ff = self.feasible(z3.Not(cond))
                if ff:
                    ctx.work.append(ctx.prefix + [False])
                    ctx.prefix = ctx.prefix + [True]
                    choice = True
                else:
                    ctx.prefix = ctx.prefix + ['T']
                    choice = 'T'
        ctx.pos += 1
        if choice == 'T':
            return True
        if choice == 'F':
            return False
        fact = cond if choice else z3.Not(cond)
        ctx.taken.append(fact)
        self.assume(fact)
        return choice

    def infeasible(self):
        raise PathEnd()

    # -------------------------------------------------------- obligations
    def oblige(self, name, goal, kind='post'):
        if isinstance(goal, SBool):
            goal = goal.e
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        self.obligations.append(dict(
            name=name, goal=goal, facts=list(self.facts), kind=kind))

    def quick_prove(self, goal, ms=1500):
        if isinstance(goal, bool):
            return goal
        s = z3.Solver()
        s.set('timeout', ms)
        for a in V.str_axioms + V.q_axioms:
            s.add(a)
        for f in self.facts:
            s.add(f)
        s.add(z3.Not(goal))
        return s.check() == z3.unsat

    # -------------------------------------------------------------- types
    def ty(self, v):
        if v is None:
            return 'none'
        if isinstance(v, bool):
            return 'bool'
        if isinstance(v, int):
            return 'int'
        if isinstance(v, float):
            return 'val' if v != v or v in (INF, -INF) else 'real'
        if isinstance(v, str):
            return 'str'
        if isinstance(v, SInt):
            return 'int'
        if isinstance(v, SBool):
            return 'bool'
        if isinstance(v, SReal):
            return 'real'
        if isinstance(v, SStr):
            return 'str'
        if isinstance(v, SVal):
            return 'val'
        if isinstance(v, SOpq):
            return 'opq'
        if isinstance(v, tuple):
            return ('tuple', tuple(self.ty(x) for x in v))
        if isinstance(v, HList):
            if v.items is not None and v.parent is None:
                t = None
                for x in v.items:
                    t = join(t, self.ty(x))
                return ('list', t if t is not None else v.ety)
            return ('list', self.lety(v))
        raise Unsupported(f'value {v!r} has no first-order type')

    def lety(self, v):
        return v.ety

    def z(self, v, ty):
        """value -> z3 term of sort zsort(ty)"""
        if isinstance(ty, tuple) and ty[0] == 'list':
            if not isinstance(v, HList):
                raise Unsupported(f'{v!r} is not a list')
            n, arr = self.larr(v, ty[1])
            if not self.inspec and v.parent is None and not v.frozen:
                # stored by value: later mutation through an alias would be
                # missed, so it is refused
                self.mut(v, 'frozen', True)
            return zsort(ty).mk(n, arr)
        if isinstance(ty, tuple):
            if not isinstance(v, tuple) or len(v) != len(ty[1]):
                raise Unsupported(f'{v!r} is not a tuple of type {ty}')
            return zsort(ty).mk(*[self.z(x, t) for x, t in zip(v, ty[1])])
        vt = self.ty(v)
        if isinstance(vt, tuple):
            raise Unsupported(f'container {v!r} where a scalar is expected')
        if ty in ('val', 'none'):
            if vt == 'val':
                if isinstance(v, float):
                    return Val.VNaN if v != v else (
                        Val.VPInf if v > 0 else Val.VNInf)
                return v.e
            if vt == 'none':
                return Val.VNone
            e = self.z(v, vt)
            return {'int': Val.VInt, 'bool': Val.VBool, 'real': Val.VReal,
                    'str': Val.VStr, 'opq': Val.VOpq}[vt](e)
        if ty != vt:
            if ty == 'real' and vt == 'int':
                return z3.ToReal(self.z(v, 'int'))
            raise Unsupported(f'type {vt} where {ty} is expected')
        if isinstance(v, SVBase):
            return v.e
        if vt == 'bool':
            return z3.BoolVal(v)
        if vt == 'int':
            return z3.IntVal(v)
        if vt == 'real':
            return z3.RealVal(repr(v))
        if vt == 'str':
            return V.strlit(v)
        raise Unsupported(f'{v!r}')

    def wrap(self, e, ty, parent=None, wf=False):
        if ty == 'int':
            return e.as_long() if z3.is_int_value(e) else SInt(e)
        if ty == 'bool':
            if z3.is_true(e):
                return True
            if z3.is_false(e):
                return False
            return SBool(e)
        if ty == 'real':
            return SReal(e)
        if ty == 'str':
            return SStr(e)
        if ty == 'opq':
            return SOpq(e)
        if ty == 'none':
            return None
        if ty == 'val':
            if z3.is_app(e):
                d = e.decl().name()
                if d == 'VNone':
                    return None
                if d in ('VInt', 'VBool', 'VReal', 'VStr', 'VOpq') and \
                        e.num_args() == 1:
                    return self.wrap(e.arg(0), {
                        'VInt': 'int', 'VBool': 'bool', 'VReal': 'real',
                        'VStr': 'str', 'VOpq': 'opq'}[d])
            return SVal(e)
        if ty[0] == 'list':
            s = zsort(ty)
            l = self.new(HList(n=z3.simplify(s.ln(e)), arr=s.el(e),
                               ety=ty[1]))
            if wf:
                self.assume(l.n >= 0)
            return l
        if ty[0] == 'tuple':
            s = zsort(ty)
            return tuple(self.wrap(s.accessor(0, i)(e), t, wf=wf)
                         for i, t in enumerate(ty[1]))
        raise Unsupported(f'wrap {ty}')

    # --------------------------------------------------------------- heap
    def new(self, obj):
        self.allocno += 1
        obj.alloc = self.allocno
        obj.label = tuple(self.sitestack) + (self.curpos,)
        return obj

    def rd(self, obj):
        for t in self.trackers:
            if obj.alloc <= t.start:
                t.reads[id(obj)] = obj

    def wr(self, obj, effect=None):
        """True: perform the write; False: it was recorded as an effect"""
        if not self.trackers:
            return True
        pre = [t for t in self.trackers if obj.alloc <= t.start]
        if not pre:
            return True
        if any(getattr(t, 'inv', False) is False for t in pre):
            t = self.trackers[-1]
            if effect is None or obj.alloc > t.start or \
                    getattr(t, 'inv', False):
                raise Carried('write to outer object')
            for u in self.trackers[:-1]:
                if obj.alloc <= u.start and not getattr(u, 'inv', False):
                    raise Nested('nested write')
            if getattr(self, 'applying', None):
                raise Nested('nested summary')
            root = self.lroot(obj) if isinstance(obj, HList) else obj
            for u in pre:
                u.written[id(root)] = root
            t.effects.append((obj,) + effect)
            return False
        for t in pre:
            t.written[id(obj)] = obj
        return True

    # lists ------------------------------------------------------------
    def lroot(self, l):
        while getattr(l, 'parent', None) is not None:
            l = l.parent[0]
        return l

    def lsync(self, l):
        """refresh a place (element of a list of lists) from its parent"""
        if l.parent is not None:
            p, ix, ver = l.parent
            if isinstance(p, HDict):
                if p.ver != ver or p.items is not None:
                    raise Unsupported('stale value of a dict')
                s = zsort(p.vty)
                e = z3.Select(p.val, ix)
                return s.ln(e), s.el(e)
            if p.items is not None:
                raise Unsupported('place in concrete list')
            if p.ver != ver:
                if p.inner != l.inner0:
                    raise Unsupported('stale element of a restructured list')
                return l.n, l.arr
            s = zsort(('list', p.ety[1]))
            e = z3.Select(p.arr, ix)
            return s.ln(e), s.el(e)
        return l.n, l.arr

    def llen(self, l):
        root = self.lroot(l)
        if root is l:
            for t in self.trackers:
                if l.alloc <= t.start:
                    t.lreads[id(l)] = l
        else:
            for t in self.trackers:
                if root.alloc <= t.start:
                    t.lreads[id(root)] = root
        if l.items is not None:
            return len(l.items)
        n, _ = self.lsync(l)
        n = z3.simplify(n) if not isinstance(n, int) else n
        if z3.is_expr(n) and z3.is_int_value(n):
            return n.as_long()
        return n

    def larr(self, l, ety=None):
        """(n, arr) z3 view with element type ety"""
        self.rd(self.lroot(l))
        if l.items is not None:
            t = ety
            if t is None:
                t = self.ty(l)[1]
            if t is None:
                t = 'val'
            arr = z3.K(z3.IntSort(), self.default(t))
            if len(l.items) == 0:
                arr = self.fresh('emp', z3.ArraySort(z3.IntSort(), zsort(t)))
            for i, x in enumerate(l.items):
                arr = z3.Store(arr, i, self.z(x, t))
            return z3.IntVal(len(l.items)), arr
        n, arr = self.lsync(l)
        if ety is not None and ety != l.ety:
            arr = self.convarr(n, arr, l.ety, ety)
        if isinstance(n, int):
            n = z3.IntVal(n)
        return n, arr

    def convarr(self, n, arr, frm, to):
        if frm is None:
            return self.fresh('emp', z3.ArraySort(z3.IntSort(), zsort(to)))
        new = self.fresh('cv', z3.ArraySort(z3.IntSort(), zsort(to)))
        i = z3.Int('i!cv')
        v = self.z(self.wrapq(z3.Select(arr, i), frm), to)
        self.assume(z3.ForAll([i], z3.Select(new, i) == v))
        return new

    def wrapq(self, e, ty):
        """wrap without allocation facts (under a quantifier)"""
        return self.wrap(e, ty)

    def default(self, t):
        s = zsort(t)
        if s == z3.IntSort():
            return z3.IntVal(0)
        if s == z3.BoolSort():
            return z3.BoolVal(False)
        if s == z3.RealSort():
            return z3.RealVal(0)
        if s == Val:
            return Val.VNone
        return z3.Const('dflt_' + tyname(t), s)

    def lsym(self, l, ety=None):
        """make l symbolic in place"""
        if l.items is not None:
            t = self.ty(l)[1]
            t = join(t, ety) if ety is not None else t
            if t is None:
                return
            n, arr = self.larr(l, t)
            self.mut(l, 'n', n)
            self.mut(l, 'arr', arr)
            self.mut(l, 'ety', t)
            self.mut(l, 'items', None)
        elif ety is not None and l.ety != ety:
            t = join(l.ety, ety)
            if t != l.ety:
                if l.parent is not None:
                    raise Unsupported('widening an inner list')
                n, arr = self.larr(l, t)
                self.mut(l, 'arr', arr)
                self.mut(l, 'ety', t)

    def lput(self, l, n, arr):
        """store a new value into the list l (following places)"""
        if l.parent is not None:
            p, ix, ver = l.parent
            if p.ver != ver:
                raise Unsupported('use of an element of a list that was '
                                  'restructured meanwhile')
            if isinstance(p, HDict):
                self.mut(p, 'val', z3.Store(p.val, ix, zsort(p.vty).mk(
                    n, arr)))
                self.mut(p, 'inner', p.inner + 1)
                return
            if p.shared:
                raise Unsupported('mutation of a row that may be shared')
            s = zsort(('list', p.ety[1]))
            pn, parr = self.lsync(p)
            self.lput(p, pn, z3.Store(parr, ix, s.mk(n, arr)))
            self.mut(p, 'inner', p.inner + 1)
            return
        self.mut(l, 'n', n)
        self.mut(l, 'arr', arr)

    def lget(self, l, ix, check=None):
        """element at z3/py index, no bounds check"""
        self.rd(self.lroot(l))
        if l.items is not None:
            if isinstance(ix, int) and 0 <= ix < len(l.items):
                return l.items[ix]
            if len(l.items) == 0:
                raise PathEnd()
            try:
                t = self.ty(l)[1]
                n, arr = self.larr(l, t)
            except Unsupported:
                # heterogeneous: fork over the position
                for i, x in enumerate(l.items[:-1]):
                    if self.decide(ix == i):
                        return x
                return l.items[-1]
            return self.wrap(z3.simplify(z3.Select(arr, ix)), t)
        n, arr = self.lsync(l)
        e = z3.Select(arr, ix)
        if isinstance(l.ety, tuple) and l.ety[0] == 'list':
            s = zsort(l.ety)
            o = self.new(HList(ety=l.ety[1], n=s.ln(e), arr=s.el(e)))
            o.parent = (l, ix, l.ver)
            o.created = o.alloc
            o.inner0 = l.inner
            o.alloc = self.lroot(l).alloc if self.trackers else o.alloc
            return o
        return self.wrap(z3.simplify(e), l.ety, wf=True)

    def mklist(self, n, arr, ety):
        return self.new(HList(n=n, arr=arr, ety=ety))

    def snapshot(self, v, memo=None):
        """deep copy usable as the old value"""
        memo = {} if memo is None else memo
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, HList):
            r = HList(items=None if v.items is None else [],
                      n=v.n, arr=v.arr, ety=v.ety)
            r.parent = None
            r.istuple = v.istuple
            r.shared = v.shared
            if v.parent is not None:
                r.n, r.arr = self.lsync(v)
            self.new(r)
            memo[id(v)] = r
            if v.items is not None:
                r.items = [self.snapshot(x, memo) for x in v.items]
            return r
        if isinstance(v, HDict):
            r = HDict(None, v.kty, v.vty, v.dom, v.val, v.n)
            r.enum = v.enum
            self.new(r)
            memo[id(v)] = r
            if v.items is not None:
                r.items = {k: self.snapshot(x, memo)
                           for k, x in v.items.items()}
            return r
        if isinstance(v, HSet):
            r = HSet(None if v.items is None else list(v.items), v.kty,
                     v.dom, v.n)
            r.enum = v.enum
            memo[id(v)] = self.new(r)
            return r
        if isinstance(v, HObj):
            r = HObj(v.cls)
            self.new(r)
            memo[id(v)] = r
            r.fields = {k: self.snapshot(x, memo)
                        for k, x in v.fields.items()}
            return r
        if isinstance(v, HArr2):
            r = HArr2(v.nr, v.nc, v.arr, v.ety)
            memo[id(v)] = self.new(r)
            return r
        if isinstance(v, tuple):
            return tuple(self.snapshot(x, memo) for x in v)
        return v


HList.ver = 0
HList.inner = 0
HList.inner0 = 0


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


# ------------------------------------------------------------ discharging
def solve(facts, goal, timeout_ms, want_model=False, seed=0):
    s = z3.Solver()
    s.set('timeout', timeout_ms)
    if seed:
        s.set('random_seed', seed)
        s.set('smt.random_seed', seed) if False else None
    for a in V.str_axioms + V.q_axioms:
        s.add(a)
    for f in facts:
        s.add(f)
    s.add(z3.Not(goal))
    t = time.time()
    r = s.check()
    dt = time.time() - t
    model = None
    if r == z3.sat and want_model:
        model = s.model()
    return str(r), dt, model, s


def cvc5_solve(facts, goal, timeout_s):
    s = z3.Solver()
    for a in V.str_axioms + V.q_axioms:
        s.add(a)
    for f in facts:
        s.add(f)
    s.add(z3.Not(goal))
    txt = '(set-logic ALL)\n' + s.to_smt2()
    fd, path = tempfile.mkstemp(suffix='.smt2')
    with os.fdopen(fd, 'w') as f:
        f.write(txt)
    t = time.time()
    try:
        p = subprocess.run(['cvc5', '--full-saturate-quant',
                            f'--tlimit={int(timeout_s * 1000)}', path],
                           capture_output=True, text=True,
                           timeout=timeout_s + 5)
        out = p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'
    except subprocess.TimeoutExpired:
        out = 'unknown'
    finally:
        os.unlink(path)
    return out, time.time() - t
