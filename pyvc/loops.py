"""Loop rules.

1. Loops over a container of known small length are unrolled.
2. Otherwise a loop whose iterations do not depend on each other is replaced
   by its exact summary (derived from one symbolic iteration): appends,
   dictionary/set/list stores and early exits become quantified facts.
3. Otherwise the loop is cut by an inductive invariant: the conjunction of the
   candidates (built in, and from the contract's pool) that survive a Houdini
   fixpoint; every surviving candidate is proved on entry and preserved.
"""
import ast
import itertools
import os
import z3
from .values import *
from . import values as V
from .engine import (Tracker, PathEnd, Restart, Carried, Nested, BreakEx, ContinueEx,
                     ReturnEx, Frame, solve)
from .ops import z3and, z3or, z3not, toz

UNROLL = 8
DEBUG = bool(os.environ.get('PYVC_DEBUG'))


class Info:
    def __init__(self):
        self.mode = 'summary'
        self.why = ''
        self.types = {}
        self.objs = {}
        self.fields = {}
        self.dropped = set()
        self.kept = set()


def assigned(nodes):
    """names bound in the current function scope by these statements"""
    out = set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                tgt(x)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef,)):
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp,
                          ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For,
                            ast.NamedExpr)):
            tgt(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            walk(c)
    for n in nodes:
        walk(n)
    return out


class LoopsMixin:
    # --------------------------------------------------------- iterables
    def range_iter(self, v):
        lo, hi, st = v.lo, v.hi, v.step
        a, b = self.zi(lo), self.zi(hi)
        if isinstance(a, int) and isinstance(b, int):
            r = range(a, b, st)
            return IterV(len(r), lambda k: r[k] if isinstance(k, int)
                         else self.mkint(a + k * st), None)
        if st == 1:
            n = z3.simplify(z3.If(b > a, b - a, 0)
                            if z3.is_expr(b > a) else b - a)
        elif st == -1:
            n = z3.simplify(z3.If(a > b, a - b, 0))
        elif st > 0:
            n = z3.simplify(z3.If(b > a, (b - a + st - 1) / st, 0))
        else:
            n = z3.simplify(z3.If(a > b, (a - b - st - 1) / (-st), 0))
        if z3.is_int_value(n):
            n = n.as_long()
        else:
            # name the length when the condition is decided by the facts
            if st == 1 and not self.feasible(b < a):
                n = z3.simplify(b - a)
            elif st == -1 and not self.feasible(a < b):
                n = z3.simplify(a - b)
        return IterV(n, lambda k: self.mkint(a + k * st), None)

    def iterable(self, v):
        if isinstance(v, IterV):
            if getattr(v, 'once', False):
                if v.used:
                    raise Unsupported('an iterator is consumed twice')
                if any(v.alloc <= t.start for t in self.trackers):
                    raise Unsupported('an iterator is consumed in a loop '
                                      'it was created outside of')
                self.mut(v, 'used', True)
            return v
        if isinstance(v, SVal):
            v = self.force(v)
        if isinstance(v, tuple):
            return IterV(len(v), lambda k: self.tupget(v, k), None)
        if isinstance(v, HList):
            n = self.llen(v)
            if v.items is None and self.mutable_in_loop(v):
                # iterate over the value at this moment; a write to the list
                # in the body is rejected by the tracker
                return IterV(n, lambda k: self.lget(v, k), v)
            return IterV(n, lambda k: self.lget(v, k), v)
        if isinstance(v, RangeV):
            r = self.range_iter(v)
            r.positions = isinstance(v.lo, int) and v.lo == 0 and v.step == 1
            return r
        if isinstance(v, HDict):
            if v.items is not None:
                ks = list(v.items)
                self.rd(v)
                return IterV(len(ks), lambda k: self.tupget(ks, k), v)
            self.rd(v)
            n, keys = self.denum(v)
            return IterV(self.mkn(n), lambda k: self.wrap(
                z3.Select(keys, k), v.kty), v)
        if isinstance(v, HSet):
            self.rd(v)
            if v.items is not None:
                ks = list(v.items)
                return IterV(len(ks), lambda k: self.tupget(ks, k), v)
            n, keys = self.denum(v)
            return IterV(self.mkn(n), lambda k: self.wrap(
                z3.Select(keys, k), v.kty), v)
        if isinstance(v, HObj):
            it = self.findmethod(v.cls, '__iter__')
            m = self.models.get((self.clsname(v), '__iter__'))
            if m is not None:
                return self.iterable(m(self, v, [], {}))
            if it is not None:
                return self.iterable(self.callfunc(it, [v], {}))
        if isinstance(v, str):
            return IterV(len(v), lambda k: v[k], None)
        if v is None or self.num(v) is not None:
            raise self.exc('TypeError')
        raise Unsupported(f'iteration over {v!r}')

    def mutable_in_loop(self, v):
        return True

    def mkn(self, n):
        if isinstance(n, int):
            return n
        n = z3.simplify(n)
        return n.as_long() if z3.is_int_value(n) else n

    def tupget(self, v, k):
        if isinstance(k, int):
            return v[k]
        l = HList(items=list(v))
        self.new(l)
        l.alloc = 0 if self.trackers else l.alloc
        return self.lget(l, k)

    # -------------------------------------------------------------- for
    def loopsite(self, node, kind):
        return (kind, getattr(node, 'lineno', 0),
                getattr(node, 'col_offset', 0)) + tuple(self.sitestack)

    def forloop(self, st, it, fr, after=None):
        if isinstance(it.n, int) and it.n <= UNROLL:
            for k in range(it.n):
                self.assign(st.target, it.get(k), fr)
                try:
                    self.block(st.body, fr)
                except ContinueEx:
                    pass
                except BreakEx:
                    return
            self.block(st.orelse, fr)
            return
        site = self.loopsite(st, 'for')
        names = assigned(st.body) | assigned([ast.Assign(
            targets=[st.target], value=None)] if False else [])
        tn = set()
        for x in ast.walk(st.target):
            if isinstance(x, ast.Name):
                tn.add(x.id)
        names |= tn
        start = it.pos

        def body(k):
            self.assign(st.target, it.get(k), fr)
            try:
                self.block(st.body, fr)
            except ContinueEx:
                pass
            if after is not None:
                after(False)

        if self.loop(site, it.n, body, fr, names, None, it) == 'done':
            if after is not None:
                after(True)
            self.block(st.orelse, fr)

    def counted(self, st, fr):
        """while i < E with one i += 1 in each iteration and an E that does
        not change is a loop over the positions; -> whether it was run"""
        t = st.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return False
        if isinstance(t.ops[0], ast.Lt):
            i, e = t.left, t.comparators[0]
        elif isinstance(t.ops[0], ast.Gt):
            e, i = t.left, t.comparators[0]
        else:
            return False
        if not isinstance(i, ast.Name):
            return False
        stores = [x for b in st.body for x in ast.walk(b)
                  if isinstance(x, ast.Name) and x.id == i.id
                  and not isinstance(x.ctx, ast.Load)]
        if len(stores) != 1:
            return False
        inc = [b for b in st.body
               if isinstance(b, ast.AugAssign) and b.target is stores[0]
               and isinstance(b.op, ast.Add)
               and isinstance(b.value, ast.Constant) and b.value.value == 1
               and type(b.value.value) is int]
        if not inc:
            return False
        for b in st.body[:st.body.index(inc[0])]:
            if any(isinstance(x, ast.Continue) for x in ast.walk(b)):
                return False
        if any(not isinstance(x, (ast.Name, ast.Constant, ast.Call,
                                  ast.Load, ast.BinOp, ast.Sub, ast.Add))
               or isinstance(x, ast.Call) and not (
                   isinstance(x.func, ast.Name) and x.func.id == 'len')
               for x in ast.walk(e)):
            return False
        used = {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}
        if used & (assigned(st.body) | {i.id}):
            return False
        for b in st.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Call) and isinstance(
                        x.func, ast.Attribute) and isinstance(
                        x.func.value, ast.Name) and x.func.value.id in used:
                    return False
                if isinstance(x, (ast.Delete, ast.FunctionDef, ast.Lambda,
                                  ast.Nonlocal, ast.Global)):
                    return False
        i0 = fr.vars.get(i.id, UNDEF)
        if not isinstance(i0, (int, SInt)) or isinstance(i0, bool):
            return False
        end = self.expr(e, fr)
        if not isinstance(end, (int, SInt)) or isinstance(end, bool):
            return False
        it = self.iterable(RangeV(i0, end, 1))
        if isinstance(it.n, int) and it.n <= UNROLL:
            return False
        za, zb = self.mkz(self.zi(i0)), self.mkz(self.zi(end))

        def after(done):
            if done:
                self.mutd(fr.vars, i.id, self.mkint(z3.simplify(
                    z3.If(zb > za, zb, za))))
                return
            now = self.mkz(self.zi(self.expr(e, fr)))
            if not now.eq(zb) and self.feasible(now != zb):
                raise Unsupported('the bound of a loop changes in it')
        node = getattr(st, '_counted', None)
        if node is None:
            node = st._counted = ast.copy_location(ast.For(
                ast.copy_location(ast.Name(i.id, ast.Store()), i), e,
                st.body, st.orelse), st)
        self.forloop(node, it, fr, after)
        return True

    def whileloop(self, st, fr):
        if self.counted(st, fr):
            return
        # a few concrete iterations when the condition is concrete
        for _ in range(UNROLL + 1):
            try:
                pos = self.ctxs[-1].pos
                v = self.expr(st.test, fr) if self.pure_test(st.test) else \
                    None
            except Carried:
                raise
            if v is None or not isinstance(v, bool):
                break
            if not v:
                self.block(st.orelse, fr)
                return
            if isinstance(st.test, ast.Constant):
                break
            try:
                self.block(st.body, fr)
            except ContinueEx:
                pass
            except BreakEx:
                return
        site = self.loopsite(st, 'while')
        names = assigned(st.body)

        def body(k):
            try:
                self.block(st.body, fr)
            except ContinueEx:
                pass

        def test():
            return self.cond(st.test, fr)

        if self.loop(site, None, body, fr, names, test, None) == 'done':
            self.block(st.orelse, fr)

    def pure_test(self, node):
        return not any(isinstance(x, (ast.Call, ast.BoolOp, ast.NamedExpr,
                                      ast.Subscript))
                       for x in ast.walk(node)) or all(
            not isinstance(x, (ast.BoolOp, ast.Subscript, ast.NamedExpr))
            and (not isinstance(x, ast.Call)
                 or isinstance(x.func, ast.Name) and x.func.id == 'len')
            for x in ast.walk(node))

    def loop(self, site, n, body, fr, names, test, it):
        info = self.loopinfo.get(site)
        if info is None:
            info = self.loopinfo[site] = Info()
            h = self.hints.get(self.sitekey(site))
            if h is not None:
                info.mode = h['mode']
                info.dropped = set(h['dropped'])
                info.kept = set(h['kept'])
        if test is not None:
            info.mode = 'inv'
        if info.mode == 'summary':
            m = self.mark()
            depth = len(self.ctxs)
            st, dp = list(self.sitestack), self.depth
            ctx = self.ctxs[-1]
            try:
                r = self.summarize(site, n, body,
                                   [(fr, x) for x in names])
                self.light_commit()
                return r
            except Carried as e:
                if isinstance(e, Nested) and any(
                        not getattr(t, 'inv', False) for t in self.trackers):
                    raise  # the enclosing loop needs an invariant
                info.mode = 'inv'
                info.why = str(e)
                if DEBUG:
                    print('carried', self.sitekey(site), e)
                raise Restart()
        return self.invloop(site, info, n, body, fr, names, test, it)

    hints = {}
    altviews = False
    itemseen = False

    def sitekey(self, site):
        """position of a loop relative to the functions it is in"""
        st = [x for x in site[3:] if isinstance(x, tuple) and len(x) == 4]
        start = st[-1][3] if st else 0
        if isinstance(site[1], int) and site[1]:
            out = f'{site[0]}:{site[1] - start}:{site[2]}'
        else:
            out = f'{site[0]}:0:0'
        prev = None
        for nm, line, col, beg in st:
            rel = line - prev if prev is not None and line else 0
            out += f'|{nm}@{rel}:{col if rel else 0}'
            prev = beg
        return out

    def light_commit(self):
        pass

    def committed_carried(self, site):
        # a Carried raised for an enclosing summary must reach it
        return False

    def anyall(self, kind, gen, fr):
        """any(...)/all(...) over a generator expression"""
        res = {}

        def body_el(f2):
            b = self.cond(gen.elt, f2)
            if b == (kind == 'any'):
                raise BreakEx()
        r = self.comploop(gen, fr, body_el, 'anyall')
        return (r == 'broke') if kind == 'any' else (r != 'broke')

    def comp(self, node, fr, kind):
        if kind == 'list':
            res = self.new(HList(items=[]))
        elif kind == 'set':
            res = self.new(HSet(items=[]))
        else:
            res = self.new(HDict(items={}))

        def body_el(f2):
            if kind == 'list':
                self.list_append(res, self.expr(node.elt, f2))
            elif kind == 'set':
                self.sadd(res, self.expr(node.elt, f2))
            else:
                k = self.expr(node.key, f2)
                self.dset(res, k, self.expr(node.value, f2))
        self.comploop(node, fr, body_el, kind)
        return res

    def comploop(self, node, fr, body_el, kind):
        f2 = Frame(fr.module, fr.cls, fr, '<comp>')
        if len(node.generators) == 2 and self.independent(*node.generators):
            r = self.product(node, fr, f2, body_el, kind)
            if r is not None:
                return r

        def level(i):
            g = node.generators[i]
            it = self.iterable(self.expr(g.iter, fr if i == 0 else f2))

            def body(k):
                self.assign(g.target, it.get(k), f2)
                for c in g.ifs:
                    if not self.cond(c, f2):
                        return
                if i + 1 < len(node.generators):
                    if level(i + 1) == 'broke':
                        raise BreakEx()
                else:
                    body_el(f2)
            names = {x.id for x in ast.walk(g.target)
                     if isinstance(x, ast.Name)}
            if isinstance(it.n, int) and it.n <= UNROLL:
                try:
                    for k in range(it.n):
                        body(k)
                except BreakEx:
                    return 'broke'
                return 'done'
            site = self.loopsite(node, f'comp{i}{kind}')
            return self.loop(site, it.n, body, f2, names, None, it)
        return level(0)

    def independent(self, a, b):
        """the inner iterable cannot depend on the outer iteration"""
        names = {x.id for x in ast.walk(a.target) if isinstance(x, ast.Name)}
        for x in ast.walk(b.iter):
            if isinstance(x, ast.Name) and x.id in names:
                return False
            if isinstance(x, ast.Call) and not (
                    isinstance(x.func, ast.Name)
                    and x.func.id in ('range', 'len')):
                return False
            if not isinstance(x, (ast.Name, ast.Attribute, ast.Call,
                                  ast.Constant, ast.Load, ast.BinOp,
                                  ast.operator)):
                return False
        return not a.ifs

    def product(self, node, fr, f2, body_el, kind):
        """two independent nested loops as one over the pairs"""
        g0, g1 = node.generators
        i0 = self.iterable(self.expr(g0.iter, fr))
        if isinstance(i0.n, int) and i0.n <= UNROLL:
            if getattr(i0, 'once', False):
                i0.used = False
            return None
        i1 = self.iterable(self.expr(g1.iter, fr))
        n0, n1 = self.mkz(i0.n), self.mkz(i1.n)
        nn = self.fresh('pairs', z3.IntSort())
        self.assume(nn == z3.If(z3.And(n0 > 0, n1 > 0), n0 * n1, 0))
        self.assume(nn >= 0)

        def body(k):
            k = self.mkz(k)
            a, b = k / n1, k % n1
            # arithmetic of a position in a product
            self.assume(z3.And(a >= 0, a < n0, b >= 0, b < n1))
            self.assign(g0.target, i0.get(a), f2)
            self.assign(g1.target, i1.get(b), f2)
            for c in g1.ifs:
                if not self.cond(c, f2):
                    return
            body_el(f2)
        names = {x.id for g in (g0, g1) for x in ast.walk(g.target)
                 if isinstance(x, ast.Name)}
        site = self.loopsite(node, f'comp*{kind}')
        return self.loop(site, nn, body, f2, names, None, None)

    # ---------------------------------------------------------- summary
    def summarize(self, site, n, body, poison):
        for fr, name in poison:
            self.mutd(fr.vars, name, Poison(site))
        self.freshno += 1
        K = z3.Int(f'k!{self.freshno}')
        nz = z3.IntVal(n) if isinstance(n, int) else n
        tr = Tracker(self.allocno)
        tr.site, tr.inv, tr.written, tr.fields = site, False, {}, set()
        self.trackers.append(tr)
        paths = []

        def thunk():
            tr.effects = []
            self.assume(z3.And(0 <= K, K < nz))
            body(K)

        def on_path(ctx, out, m):
            fs = self.facts[m[1] + 1:]
            effs = []
            tr.rows = getattr(tr, 'rows', set())
            for e in tr.effects:
                if e[1] == 'append' and not self.newrow(e[2], tr):
                    tr.rows.add(id(e[0]))
            for e in tr.effects:
                obj, kind, *vals = e
                tvs = [(self.ty(v), v) for v in vals]
                zs = []
                for t, v in tvs:
                    if isinstance(t, tuple) and t[0] == 'list' and \
                            t[1] is None:
                        t = ('list', 'val')
                    zs.append((t, self.z(v, t)))
                effs.append((obj, kind, zs))
            fs = self.facts[m[1] + 1:]
            fresh = list(self.freshlog[m[2]:])
            paths.append([out[0], list(ctx.taken), fs, effs, fresh])

        try:
            self.enumerate(thunk, on_path)
        finally:
            self.trackers.pop()
        for i in tr.written:
            if i in tr.reads:
                raise Carried('reads what it writes')
            if i in tr.lreads and any(
                    e[1] != 'setitem' for p in paths for e in p[3]
                    if id(e[0]) == i or isinstance(e[0], HList)
                    and id(self.lroot(e[0])) == i):
                raise Carried('reads the length of what it grows')
        normal = [p for p in paths if p[0] == 'ok']
        exits = [p for p in paths if p[0] != 'ok']
        # skolemise constants created inside one iteration
        for p in normal:
            sub = []
            for c in p[4]:
                f = z3.Function(str(c) + '!f', z3.IntSort(), c.sort())
                sub.append((c, f(K)))
            p.append(sub)
            p[1] = z3.And(*[z3.substitute(x, *sub) for x in p[1]]) \
                if p[1] else z3.BoolVal(True)
            p[2] = z3.And(*[z3.substitute(x, *sub) for x in p[2]]) \
                if p[2] else z3.BoolVal(True)
            p[3] = [(o, kd, [(t, z3.substitute(z, *sub)) for t, z in vs])
                    for o, kd, vs in p[3]]
        N = nz
        broke = False
        if exits:
            if not normal:
                # every iteration leaves: either empty or exits at 0
                if self.decide(nz <= 0):
                    N = z3.IntVal(0)
                else:
                    broke, N = True, z3.IntVal(0)
            else:
                b = self.fresh('noexit', z3.BoolSort())
                if self.decide(b):
                    pass
                else:
                    broke = True
                    N = self.fresh('kexit', z3.IntSort())
                    self.assume(z3.And(0 <= N, N < nz))
        if not normal and not exits:
            # no feasible iteration at all
            self.assume(nz <= 0)
        inr = z3.And(0 <= K, K < N)
        if normal and (len(normal) > 1 or exits or
                       not z3.is_true(z3.simplify(normal[0][2]))):
            f = z3.Or(*[p[2] for p in normal]) if len(normal) > 1 \
                else normal[0][2]
            self.assume(z3.ForAll([K], z3.Implies(inr, f)))
        # effects
        objs = []
        for p in normal:
            for o, kd, vs in p[3]:
                if not any(o is x for x in objs):
                    objs.append(o)
        for o in objs:
            self.newrows = id(o) not in getattr(tr, 'rows', ()) and (
                not isinstance(o, HList) or o.items == [] or
                o.items is None and not o.shared)
            self.apply_effects(o, K, N, normal)
            self.newrows = False
        if broke:
            try:
                body(N)
            except BreakEx:
                return 'broke'
            raise PathEnd()
        return 'done'

    newrows = False

    def newrow(self, v, tr):
        """a list made in this iteration and stored only once"""
        if not isinstance(v, HList) or v.alloc <= tr.start or \
                v.parent is not None or v.frozen:
            return False
        if v.items is None:
            if isinstance(v.ety, tuple):
                return False
        elif not all(isinstance(x, SVBase) or self.isconc(x)
                     for x in v.items):
            return False

        def times(x):
            if x is v:
                return 1
            if isinstance(x, HList) and x.items is not None:
                return sum(times(y) for y in x.items)
            if isinstance(x, tuple):
                return sum(times(y) for y in x)
            if isinstance(x, HDict) and x.items is not None:
                return sum(times(y) for y in x.items.values())
            return 0
        return sum(times(x) for e in tr.effects for x in e[2:]) == 1

    def apply_effects(self, o, K, N, normal):
        kinds = {kd for p in normal for x, kd, vs in p[3] if x is o}
        if len(kinds) != 1:
            raise Carried('mixed effects on one object')
        kind = kinds.pop()
        per = []
        for p in normal:
            per.append((p[1], [vs for x, kd, vs in p[3] if x is o]))
        if kind == 'append':
            self.apply_appends(o, K, N, per)
        elif kind in ('store', 'setitem', 'add'):
            self.apply_stores(o, kind, K, N, per)
        elif kind == 'appendn':
            self.apply_extends(o, K, N, per)
        else:
            raise Carried(kind)

    def merged(self, per, j, t, pos):
        """value at position pos of effect j, selected by path condition"""
        e = None
        for c, effs in reversed([x for x in per if len(x[1]) > j]):
            ty, z = effs[j][pos]
            v = self.z(self.wrap(z, ty), t) if ty != t else z
            e = v if e is None else z3.If(c, v, e)
        return e

    def effty(self, per, pos):
        t = None
        for c, effs in per:
            for vs in effs:
                t = join(t, vs[pos][0])
        return t

    def apply_appends(self, L, K, N, per):
        t = self.effty(per, 0)
        counts = {len(e) for c, e in per}
        if isinstance(t, tuple) and t[0] == 'list' and not self.newrows:
            self.mut(L, 'shared', True)
        wrote = self.wr(L)
        if not wrote:
            raise Nested('nested')
        if L.items is not None and not L.items:
            len0, arr0 = z3.IntVal(0), None
        else:
            self.lsym(L, t)
            t = join(t, L.ety)
            len0, arr0 = self.larr(L, t)
        srt = z3.ArraySort(z3.IntSort(), zsort(t))
        arr = self.fresh('app', srt)
        i = z3.Int(f'i!{self.bump()}')
        if arr0 is not None:
            self.assume(z3.ForAll([i], z3.Implies(
                z3.And(0 <= i, i < len0),
                z3.Select(arr, i) == z3.Select(arr0, i)),
                patterns=[z3.Select(arr, i)]))
        if len(counts) == 1:
            m = counts.pop()
            newlen = z3.simplify(len0 + m * N)
            idx = i - len0
            kk = z3.simplify(idx) if m == 1 else idx / m
            val = None
            for j in reversed(range(m)):
                v = self.merged(per, j, t, 0)
                v = z3.substitute(v, (K, kk))
                val = v if val is None else z3.If(idx % m == j, v, val)
            self.assume(z3.ForAll([i], z3.Implies(
                z3.And(len0 <= i, i < newlen), z3.Select(arr, i) == val),
                patterns=[z3.Select(arr, i)]))
        elif counts <= {0, 1}:
            app = z3.Or(*[c for c, e in per if e])
            v = self.merged(per, 0, t, 0)
            M = self.fresh('cnt', z3.IntSort())
            src = self.freshfun('src', z3.IntSort(), z3.IntSort())
            pos = self.freshfun('pos', z3.IntSort(), z3.IntSort())
            j, j2 = z3.Int(f'j!{self.bump()}'), z3.Int(f'j!{self.bump()}')
            newlen = z3.simplify(len0 + M)

            def at(e, k):
                return z3.substitute(e, (K, k))
            jj = z3.simplify(i - len0)
            self.assume(z3.And(0 <= M, M <= z3.If(N > 0, N, 0)))
            self.assume(z3.ForAll([i], z3.Implies(
                z3.And(len0 <= i, i < newlen),
                z3.And(0 <= src(jj), src(jj) < N, at(app, src(jj)),
                       pos(src(jj)) == jj,
                       z3.Select(arr, i) == at(v, src(jj)))),
                patterns=[z3.Select(arr, i)]))
            self.assume(z3.ForAll([j], z3.Implies(
                z3.And(0 <= j, j < M),
                z3.And(0 <= src(j), src(j) < N, at(app, src(j)),
                       pos(src(j)) == j,
                       z3.Select(arr, len0 + j) == at(v, src(j)))),
                patterns=[src(j)]))
            self.assume(z3.ForAll([K], z3.Implies(
                z3.And(0 <= K, K < N, app),
                z3.And(0 <= pos(K), pos(K) < M, src(pos(K)) == K,
                       z3.Select(arr, len0 + pos(K)) == v))))
            self.assume(z3.ForAll([j, j2], z3.Implies(
                z3.And(0 <= j, j < j2, j2 < M), src(j) < src(j2)),
                patterns=[z3.MultiPattern(src(j), src(j2))]))
            self.assume(z3.Implies(
                z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < N), app)),
                z3.And(M == z3.If(N > 0, N, 0),
                       z3.ForAll([j], z3.Implies(
                           z3.And(0 <= j, j < M), src(j) == j),
                           patterns=[src(j)]))))
            self.ghost.setdefault('filters', []).append(
                (arr, len0, src, pos, M))
        else:
            raise Carried('varying number of appends')
        self.mut(L, 'items', None)
        self.mut(L, 'ety', t)
        if L.parent is not None:
            self.lput(L, newlen, arr)
        else:
            self.mut(L, 'n', self.mkn(newlen))
            self.mut(L, 'arr', arr)
        self.mut(L, 'ver', L.ver + 1)

    def apply_extends(self, L, K, N, per):
        """every iteration appends the same number of copies of one value"""
        if any(len(e) != 1 for c, e in per):
            raise Carried('varying number of extensions')
        t = self.effty(per, 0)
        cnt = z3.simplify(self.merged(per, 0, 'int', 1))
        if self.mentions(cnt, K) or isinstance(t, tuple):
            raise Carried('varying number of copies')
        v = self.merged(per, 0, t, 0)
        if not self.wr(L):
            raise Nested('nested')
        fresh = L.items is not None and not L.items
        if fresh:
            len0, arr0 = z3.IntVal(0), None
        else:
            self.lsym(L, t)
            t = join(t, L.ety)
            v = self.z(self.wrap(v, self.effty(per, 0)), t)
            len0, arr0 = self.larr(L, t)
        arr = self.fresh('ext', z3.ArraySort(z3.IntSort(), zsort(t)))
        i = z3.Int(f'i!{self.bump()}')
        c = z3.If(cnt > 0, cnt, 0)
        tot = self.fresh('extn', z3.IntSort())
        self.assume(tot == z3.If(N > 0, N * c, 0))
        self.assume(tot >= 0)
        kk = (i - len0) / cnt
        if arr0 is not None:
            self.assume(z3.ForAll([i], z3.Implies(
                z3.And(0 <= i, i < len0),
                z3.Select(arr, i) == z3.Select(arr0, i)),
                patterns=[z3.Select(arr, i)]))
        self.assume(z3.ForAll([i], z3.Implies(
            z3.And(len0 <= i, i < len0 + tot), z3.And(
                kk >= 0, kk < N,
                z3.Select(arr, i) == z3.substitute(v, (K, kk)))),
            patterns=[z3.Select(arr, i)]))
        self.mut(L, 'items', None)
        self.mut(L, 'ety', t)
        newlen = z3.simplify(len0 + tot)
        self.mut(L, 'n', self.mkn(newlen))
        self.mut(L, 'arr', arr)
        self.mut(L, 'ver', L.ver + 1)

    def apply_stores(self, o, kind, K, N, per):
        if any(len(e) > 1 for c, e in per):
            raise Carried('several stores per iteration')
        if not self.wr(self.lroot(o) if isinstance(o, HList) else o):
            raise Nested('nested')
        kt = self.effty(per, 0)
        stored = z3.Or(*[c for c, e in per if e])
        if kind == 'setitem':
            vt = self.effty(per, 1)
            self.lsym(o, vt)
            vt = join(vt, o.ety)
            if vt != o.ety:
                self.lsym(o, vt)
            n0, arr0 = self.larr(o, vt)
            kt = 'int'
        elif kind == 'store':
            vt = self.effty(per, 1)
            self.dsym(o, kt, vt)
            kt, vt = o.kty, o.vty
            dom0, arr0 = o.dom, o.val
        else:
            vt = None
            self.ssym(o, kt)
            kt = o.kty
            dom0 = o.dom
        key = self.merged(per, 0, kt, 0)
        val = self.merged(per, 0, vt, 1) if vt is not None else None
        ks = zsort(kt)
        x = z3.Const(f'x!{self.bump()}', ks)
        inr = z3.And(0 <= K, K < N)

        def at(e, k):
            return z3.substitute(e, (K, k))
        off = z3.simplify(key - K) if kt == 'int' else None
        direct = off is not None and not self.mentions(off, K)
        if direct:
            kx = z3.simplify(x - off)
            w = z3.And(0 <= kx, kx < N, at(stored, kx))
            last = kx
            wfun = None
        else:
            wfun = self.freshfun('w', ks, z3.BoolSort())
            lastf = self.freshfun('last', ks, z3.IntSort())
            w, last = wfun(x), lastf(x)
            self.assume(z3.ForAll([K], z3.Implies(
                z3.And(inr, stored),
                z3.And(wfun(key), lastf(key) >= K))))
            self.assume(z3.ForAll([x], z3.Implies(
                w, z3.And(0 <= last, last < N, at(stored, last),
                          at(key, last) == x)), patterns=[w]))
        if kind in ('store', 'add'):
            dom = self.fresh('dom', dom0.sort())
            self.assume(z3.ForAll([x], z3.Select(dom, x) == z3.Or(
                z3.Select(dom0, x), w), patterns=[z3.Select(dom, x)]
                + ([wfun(x)] if wfun is not None else [])))
            n = self.fresh('dn', z3.IntSort())
            self.assume(z3.And(n >= o.n, n <= o.n + z3.If(N > 0, N, 0)))
            K2 = z3.Int(f'k!{self.bump()}')
            inj = z3.And(
                z3.ForAll([K], z3.Implies(inr, z3.And(
                    stored, z3.Not(z3.Select(dom0, key))))),
                z3.ForAll([K, K2], z3.Implies(
                    z3.And(0 <= K, K < K2, K2 < N), key != at(key, K2))))
            self.assume(z3.Implies(inj, n == o.n + z3.If(N > 0, N, 0)))
            sure = z3.ForAll([K], z3.Implies(inr, stored))
            self.assume(z3.Implies(z3.And(N > 0, sure), n > 0))
            # n == n0 + N only if all keys are new and distinct
            self.assume(z3.Implies(n == o.n + z3.If(N > 0, N, 0), inj))
            self.mut(o, 'dom', dom)
            self.mut(o, 'n', n)
            self.mut(o, 'enum', None)
        if val is not None:
            arr = self.fresh('st', arr0.sort())
            self.assume(z3.ForAll([x], z3.Select(arr, x) == z3.If(
                w, at(val, last), z3.Select(arr0, x)),
                patterns=[z3.Select(arr, x)]))
            if kind == 'store':
                self.mut(o, 'val', arr)
            else:
                self.lput(o, n0, arr)

    def mentions(self, e, c):
        todo = [e]
        while todo:
            x = todo.pop()
            if x.eq(c):
                return True
            todo.extend(x.children())
        return False

    # -------------------------------------------------------- invariants
    def invloop(self, site, info, n, body, fr, names, test, it):
        tr = Tracker(self.allocno)
        tr.site, tr.inv, tr.written, tr.fields = site, True, {}, set()
        entry = {x: fr.vars.get(x, UNDEF) for x in names}
        # heap objects the body writes, found by earlier passes
        labels = info.objs
        objs = [o for o in self.reachable(fr) if o.label in labels
                and o.alloc <= tr.start]
        old = {id(o): self.snapshot(o) for o in objs}
        oldf = {}
        for o in objs:
            if isinstance(o, HObj):
                for (lab, f) in info.fields:
                    if lab == o.label and f in o.fields:
                        oldf[(id(o), f)] = o.fields[f]
        cur = {}
        ctx = dict(entry=entry, old=old, objs=objs, oldf=oldf, n=n, fr=fr,
                   info=info, it=it)
        k0 = z3.IntVal(0)
        cands = self.candidates(ctx, k0)
        self.houdini(info, cands, f'loop line {site[1]}: invariant on entry')
        # only what was established on entry may be assumed, and all that
        # is assumed has to be preserved
        entered, assumed = {nm for nm, f in cands}, set()
        # havoc
        for x in names:
            v0 = entry[x]
            t = info.types.get(x)
            if v0 is UNDEF or isinstance(v0, Poison):
                self.mutd(fr.vars, x, Poison(site))
                continue
            if isinstance(v0, Heap) and isinstance(v0, HList) and \
                    t is not None:
                # rebinding of a list variable: fresh list value
                nl = self.havoc_list(('list', self.ety_of(v0)), t)
                if v0.parent is not None or info.types.get(
                        ('row', x)) or any(
                        y != x and w is v0 for y, w in fr.vars.items()):
                    # it may be an alias: no change in place
                    nl.frozen = True
                self.mutd(fr.vars, x, nl)
                continue
            if x in info.types:
                try:
                    t0 = self.ty(v0)
                except Unsupported:
                    if t is None or t == 'same':
                        continue
                    raise
                t = join(t, t0)
                if t == 'none':
                    self.mutd(fr.vars, x, None)
                else:
                    self.mutd(fr.vars, x, self.freshv(x, t))
        for o in objs:
            self.havoc_obj(o, info)
        k = self.fresh('it', z3.IntSort())
        self.assume(k >= 0)
        if n is not None:
            nz = z3.IntVal(n) if isinstance(n, int) else n
            self.assume(z3.Or(k <= nz, k == 0))
        for nm, f in self.candidates(ctx, k):
            if nm not in info.dropped and nm in entered:
                self.assume(f)
                assumed.add(nm)
        go = self.decide(k < nz) if n is not None else test()
        if not go:
            if n is not None:
                self.assume(k == z3.If(nz > 0, nz, 0))
            return 'done'
        self.trackers.append(tr)
        depth = len(self.trackers)
        start = {x: fr.vars.get(x, UNDEF) for x in names}
        try:
            try:
                body(k)
            finally:
                del self.trackers[depth - 1:]
        except BreakEx:
            return 'broke'
        changed = False
        for o in tr.written.values():
            root = self.lroot(o) if isinstance(o, HList) else o
            if root.label not in info.objs:
                info.objs[root.label] = True
                changed = True
        for lf in tr.fields:
            if lf not in info.fields:
                info.fields[lf] = None
                changed = True
        for x in names:
            v = fr.vars.get(x, UNDEF)
            if v is UNDEF or isinstance(v, Poison):
                continue
            if isinstance(v, HList) and v is start[x] and \
                    x not in info.types:
                # changed in place if at all
                continue
            if isinstance(v, HList) and v.parent is not None and \
                    not info.types.get(('row', x)):
                info.types[('row', x)] = 'same'
                changed = True
            try:
                t = self.ty(v)
            except Unsupported:
                if v is entry[x]:
                    t = 'same'
                elif entry[x] is UNDEF or isinstance(entry[x], Poison):
                    continue
                else:
                    raise
            if t == 'same':
                continue
            o = info.types.get(x)
            if isinstance(t, tuple) and t == ('list', None):
                t = o if o is not None else ('list', 'val')
            j = join(o, t)
            e0 = entry[x]
            if e0 is not UNDEF and not isinstance(e0, Poison):
                try:
                    t0 = self.ty(e0)
                    if not (isinstance(t0, tuple) and t0[-1] is None):
                        j = join(j, t0)
                except Unsupported:
                    pass
            if j != o:
                info.types[x] = j
                changed = True
        for o in objs:
            # widened element types of written containers
            if isinstance(o, HList) and o.parent is None and (
                    o.items is None or o.items):
                key = ('ety', o.label)
                try:
                    j = join(info.types.get(key), o.ety if o.items is None
                             else self.ty(o)[1])
                except Unsupported:
                    if o.items is None:
                        raise
                    j = 'val'
                if j != info.types.get(key):
                    info.types[key] = j
                    changed = True
            if isinstance(o, (HDict, HSet)) and o.items is None and \
                    o.kty is not None:
                key = ('kv', o.label)
                a, b = info.types.get(key, (None, None))
                j = (join(a, o.kty), join(b, o.vty)
                     if isinstance(o, HDict) else None)
                if j != info.types.get(key):
                    info.types[key] = j
                    changed = True
            if isinstance(o, HObj):
                for (lab, f) in list(info.fields):
                    if lab == o.label and f in o.fields:
                        try:
                            j = join(info.fields[(lab, f)],
                                     self.ty(o.fields[f]))
                        except Unsupported:
                            continue
                        if j != info.fields[(lab, f)]:
                            info.fields[(lab, f)] = j
                            changed = True
        if changed:
            raise Restart()
        cands = [(nm, f) for nm, f in self.candidates(ctx, k + 1)
                 if nm in assumed]
        lost = assumed - {nm for nm, f in cands}
        if lost:
            if DEBUG:
                print('lost', lost)
            info.dropped |= lost
            raise Restart()
        self.houdini(info, cands, f'loop line {site[1]}: invariant preserved')
        raise PathEnd()

    def ety_of(self, l):
        t = self.ty(l)[1]
        return t

    def havoc_list(self, t0, t):
        j = join(t0, t) if t0[1] is not None else t
        n = self.fresh('hn', z3.IntSort())
        self.assume(n >= 0)
        arr = self.fresh('ha', z3.ArraySort(z3.IntSort(), zsort(j[1])))
        return self.mklist(n, arr, j[1])

    def havoc_obj(self, o, info):
        if isinstance(o, HList):
            if o.parent is not None:
                return
            t = info.types.get(('ety', o.label))
            t0 = self.ty(o)[1]
            j = join(t0, t)
            if j is None and o.items is not None and not o.items:
                return  # not stored to on any path that continues
            if j is None:
                j = 'val'
            n = self.fresh('hn', z3.IntSort())
            self.assume(n >= 0)
            self.mut(o, 'items', None)
            self.mut(o, 'ety', j)
            self.mut(o, 'n', n)
            self.mut(o, 'arr', self.fresh('ha', z3.ArraySort(
                z3.IntSort(), zsort(j))))
            self.mut(o, 'ver', o.ver + 1)
        elif isinstance(o, HDict):
            kt, vt = info.types.get(('kv', o.label), (None, None))
            if kt is None and o.items is not None and not o.items:
                return  # not stored to on any path that continues
            self.dsym(o, kt, vt)
            self.mut(o, 'dom', self.fresh('hd', o.dom.sort()))
            self.mut(o, 'val', self.fresh('hv', o.val.sort()))
            n = self.fresh('hn', z3.IntSort())
            self.assume(n >= 0)
            self.mut(o, 'n', n)
            self.mut(o, 'enum', None)
        elif isinstance(o, HSet):
            kt, _ = info.types.get(('kv', o.label), (None, None))
            if kt is None and o.items is not None and not o.items:
                return
            self.ssym(o, kt)
            self.mut(o, 'dom', self.fresh('hd', o.dom.sort()))
            n = self.fresh('hn', z3.IntSort())
            self.assume(n >= 0)
            self.mut(o, 'n', n)
            self.mut(o, 'enum', None)
        elif isinstance(o, HArr2):
            self.mut(o, 'arr', self.fresh('ha2', o.arr.sort()))
        elif isinstance(o, HObj):
            for (lab, f), t in info.fields.items():
                if lab == o.label and f in o.fields and t is not None:
                    v = o.fields[f]
                    try:
                        t = join(t, self.ty(v))
                    except Unsupported:
                        continue
                    self.mutd(o.fields, f, None if t == 'none'
                              else self.freshv(f, t))

    def reachable(self, fr):
        out, seen = [], set()

        def visit(v):
            if isinstance(v, tuple):
                for x in v:
                    visit(x)
                return
            if not isinstance(v, Heap) or id(v) in seen:
                return
            seen.add(id(v))
            out.append(v)
            if isinstance(v, HObj):
                for x in v.fields.values():
                    visit(x)
            elif isinstance(v, HList) and v.items is not None:
                for x in v.items:
                    visit(x)
            elif isinstance(v, HList) and v.parent is not None:
                visit(v.parent[0])
            elif isinstance(v, HDict) and v.items is not None:
                for x in v.items.values():
                    visit(x)
        f = fr
        while f is not None:
            for v in f.vars.values():
                visit(v)
            f = f.parent
        for f in self.framestack:
            for v in f.vars.values():
                visit(v)
        return out

    framestack = []

    # candidates -------------------------------------------------------
    def candidates(self, ctx, k):
        fr, info, n = ctx['fr'], ctx['info'], ctx['n']
        out = []
        nz = None if n is None else (z3.IntVal(n) if isinstance(n, int)
                                     else n)

        def add(nm, f):
            if nm in info.dropped:
                return
            f = toz(f)
            out.append((nm, f))

        ints, lists = {}, {}
        mod_i, mod_l = {}, {}
        for x, v0 in ctx['entry'].items():
            v = fr.vars.get(x, UNDEF)
            if v is UNDEF or isinstance(v, Poison) or v0 is UNDEF or \
                    isinstance(v0, Poison):
                continue
            if isinstance(v, (int, SInt)) and not isinstance(v, bool) and \
                    isinstance(v0, (int, SInt)) and \
                    not isinstance(v0, bool):
                mod_i[x] = (self.mkz(self.zi(v)), self.mkz(self.zi(v0)))
            if not isinstance(v, (SVal, Heap)) and info.types.get(x):
                try:
                    if join(info.types[x], self.ty(v)) == 'val':
                        v = SVal(self.z(v, 'val'))
                except Unsupported:
                    pass
            if isinstance(v, SVal):
                num = z3.Or(Val.is_VInt(v.e), Val.is_VReal(v.e))
                add(f'{x} is a number', num)
                add(f'{x} is text or None', z3.Or(
                    Val.is_VStr(v.e), Val.is_VNone(v.e)))
                add(f'{x} is a number or None', z3.Or(
                    num, Val.is_VNone(v.e)))
            if isinstance(v, HList) and isinstance(v0, HList):
                mod_l[x] = (v, self.old_of(ctx, v0))
        for o in ctx['objs']:
            if isinstance(o, HList):
                mod_l['#' + self.objname(fr, o, ctx)] = (
                    o, ctx['old'][id(o)])
            if isinstance(o, HObj):
                for (lab, f) in info.fields:
                    if (id(o), f) in ctx['oldf']:
                        v, v0 = o.fields[f], ctx['oldf'][(id(o), f)]
                        if isinstance(v, (int, SInt)) and isinstance(
                                v0, (int, SInt)) and \
                                not isinstance(v, bool) and \
                                not isinstance(v0, bool):
                            mod_i['.' + f] = (self.mkz(self.zi(v)),
                                              self.mkz(self.zi(v0)))
        for x, (v, v0) in mod_i.items():
            add(f'{x}==x0+k', v == v0 + k)
            add(f'{x}==x0-k', v == v0 - k)
            add(f'{x}>=x0', v >= v0)
            add(f'{x}<=x0', v <= v0)
            add(f'{x}>=0', v >= 0)
            if nz is not None:
                add(f'{x}<=n', z3.Or(v <= nz, k == 0))
            add(f'{x}<=x0+k', v <= v0 + k)
        for x, (l, l0) in mod_l.items():
            try:
                ln, ln0 = self.mkz(self.llen(l)), self.mkz(self.llen(l0))
            except Unsupported:
                continue
            add(f'len {x}==len0+k', ln == ln0 + k)
            add(f'len {x}==len0', ln == ln0)
            add(f'len {x}>=len0', ln >= ln0)
            add(f'len {x}<=len0+k', ln <= ln0 + k)
            for y, (v, v0) in mod_i.items():
                add(f'{y}==len {x}', v == ln)
                add(f'{y}<=len {x}', v <= ln)
            try:
                t, t0 = self.ty(l)[1], self.ty(l0)[1]
                if t is None or t0 is None:
                    continue
                j = join(t, t0)
                if j != t or t == ('list', None):
                    continue
                _, a = self.larr(l, t)
                _, a0 = self.larr(l0, j)
            except Unsupported:
                continue
            i = z3.Int('i!cand')
            same = z3.Select(a, i) == z3.Select(a0, i)
            add(f'{x} prefix kept', z3.ForAll([i], z3.Implies(
                z3.And(0 <= i, i < ln0), same)))
            add(f'{x} suffix kept', z3.ForAll([i], z3.Implies(
                z3.And(k <= i, i < ln0), same)))
        # contract pool
        for p in self.pool:
            for nm, f in p.instances(self, ctx, k, nz):
                add(nm, f)
        return out

    def objname(self, fr, o, ctx):
        f = fr
        while f is not None:
            for x, v in f.vars.items():
                if v is o:
                    return x
                if isinstance(v, HObj):
                    for y, w in v.fields.items():
                        if w is o:
                            return f'{x}.{y}'
            f = f.parent
        return str([id(x) for x in ctx['objs']].index(id(o)))

    def old_of(self, ctx, v0):
        return ctx['old'].get(id(v0), v0)

    def houdini(self, info, cands, what):
        goals = [f for nm, f in cands]
        if not goals:
            return
        sure = all(nm in info.kept for nm, f in cands)
        if self.quick_prove(z3.And(*goals), 3000 if sure else 2000):
            self.oblige(what, z3.And(*goals), 'invariant')
            self.obligations[-1]['proved'] = True
            info.kept.update(nm for nm, f in cands)
            return
        bad = 0
        for nm, f in cands:
            if not self.quick_prove(f, 15000 if nm in info.kept and sure
                                    else self.cand_ms):
                info.dropped.add(nm)
                if DEBUG:
                    r, dt, _, sv = solve(self.facts, f, 4000)
                    print('dropped', what, nm, r, round(dt, 1), flush=True)
                    if os.environ['PYVC_DEBUG'] in nm:
                        fn = f'/tmp/drop{self.bump()}.smt2'
                        open(fn, 'w').write(sv.to_smt2())
                        print('   ', fn)
                bad += 1
            else:
                info.kept.add(nm)
        if bad:
            raise Restart()
        self.oblige(what, z3.And(*goals), 'invariant')
        self.obligations[-1]['proved'] = True

    cand_ms = 1500
