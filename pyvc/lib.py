"""Builtins and the methods of the built-in containers."""
import ast
import z3
from .values import *
from . import values as V
from .engine import Carried, PathEnd, BreakEx, Frame
from .ops import z3and, z3or, z3not, z3imp, toz
from .source import ClassInfo

COPYMODULES = ('copy',)


class LibMixin:
    # ------------------------------------------------------------ helpers
    def lchk(self, l):
        if l.frozen:
            raise Unsupported('mutation of a list stored by value')
        if l.istuple:
            raise self.exc('AttributeError')

    def freeze(self, v):
        if isinstance(v, HList) and not v.frozen:
            self.mut(v, 'frozen', True)
        return v

    def bi(self, name, fn):
        return Builtin(name, fn)

    def natural(self, n):
        """z3 length -> python value"""
        return n if isinstance(n, int) else self.mkint(n)

    def q(self, name='i'):
        return z3.Int(f'{name}!{self.bump()}')

    def newarr(self, name, ety):
        return self.fresh(name, z3.ArraySort(z3.IntSort(), zsort(ety)))

    # -------------------------------------------------------------- len
    def b_len(self, a, kw):
        v = self.force(a[0])
        if isinstance(v, HList):
            return self.natural(self.llen(v))
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, HDict):
            return self.natural(self.dlen(v))
        if isinstance(v, HSet):
            return self.natural(self.slen(v))
        if isinstance(v, SStr):
            self.assume(V.strlen(v.e) >= 0)
            self.assume((V.strlen(v.e) == 0) == (v.e == V.strlit('')))
            return self.mkint(V.strlen(v.e))
        if isinstance(v, RangeV):
            return self.natural(self.iterable(v).n)
        if isinstance(v, HObj):
            if '#len' in v.fields:
                return v.fields['#len']
            f = self.findmethod(v.cls, '__len__')
            if f is not None:
                return self.callfunc(f, [v], {})
            m = self.models.get((self.clsname(v), '__len__'))
            if m is not None:
                return m(self, v, [], {})
        if isinstance(v, HArr2):
            return self.natural(v.nr)
        if isinstance(v, (HObj, IterV, UFunc, SOpq)):
            raise Unsupported(f'len of {v!r}')
        raise self.exc('TypeError')

    def b_range(self, a, kw):
        a = [self.force(x) for x in a]
        for x in a:
            k = self.num(x)
            if k is None or k[0] != 'int':
                raise self.exc('TypeError')
        if len(a) == 1:
            return RangeV(0, a[0], 1)
        st = a[2] if len(a) > 2 else 1
        if not isinstance(st, int):
            raise Unsupported('symbolic range step')
        return RangeV(a[0], a[1], st)

    def b_enumerate(self, a, kw):
        it = self.iterable(a[0])
        st = a[1] if len(a) > 1 else kw.get('start', 0)

        def get(k):
            ki = self.mkint(k) if not isinstance(k, int) else k
            return (self.arith('Add', ki, st), it.get(k))
        r = self.once(IterV(it.n, get, it.src))
        r.inner = it
        return r

    def once(self, it):
        it.once = True
        it.used = False
        self.allocno += 1
        it.alloc = self.allocno
        return it

    def b_zip(self, a, kw):
        its = [self.iterable(x) for x in a]
        if not its:
            return IterV(0, lambda k: (), None)
        n = its[0].n
        for x in its[1:]:
            if isinstance(n, int) and isinstance(x.n, int):
                n = min(n, x.n)
            elif n is x.n or (not isinstance(n, int) and
                              not isinstance(x.n, int) and n.eq(x.n)):
                pass
            else:
                na, nb = self.mkz(n), self.mkz(x.n)
                if not self.feasible(na != nb):
                    n = n if isinstance(n, int) else (
                        x.n if isinstance(x.n, int) else n)
                else:
                    n = z3.simplify(z3.If(na <= nb, na, nb))
        return self.once(IterV(n, lambda k: tuple(x.get(k) for x in its)))

    def b_reversed(self, a, kw):
        it = self.iterable(a[0])
        n = it.n
        return self.once(IterV(n, lambda k: it.get(
            n - 1 - k if isinstance(n, int) and isinstance(k, int)
            else z3.simplify(self.mkz(n) - 1 - k))))

    def b_map(self, a, kw):
        its = [self.iterable(x) for x in a[1:]]
        n = its[0].n
        if len(its) > 1:
            raise Unsupported('map with several iterables')
        it = IterV(n, lambda k: self.call(a[0], [its[0].get(k)], {}))
        # effects and exceptions happen at consumption
        return self.once(it)

    def b_filter(self, a, kw):
        it = self.iterable(a[1])
        res = self.new(HList(items=[]))

        def body(k):
            x = it.get(k)
            t = self.call(a[0], [x], {}) if a[0] is not None else x
            if self.branch(t):
                self.list_append(res, x)
        self.runiter('filter', it, body)
        return res

    def runiter(self, kind, it, body):
        if isinstance(it.n, int) and it.n <= 8:
            for k in range(it.n):
                body(k)
            return
        site = (kind,) + (self.curpos or (0, 0)) + tuple(self.sitestack)
        self.loop(site, it.n, body, Frame(None), set(), None, it)

    def b_iter(self, a, kw):
        it = self.iterable(a[0])
        if isinstance(a[0], IterV):
            return a[0]
        return self.new(HObj('iterator', {'it': it, 'pos': 0}))

    def b_next(self, a, kw):
        o = a[0]
        if isinstance(o, IterV):
            if not isinstance(o.pos, int):
                raise Unsupported('next')
            ok = o.pos < o.n if isinstance(o.n, int) else self.decide(
                o.pos < o.n)
            if not ok:
                if len(a) > 1:
                    return a[1]
                raise self.exc('StopIteration')
            v = o.get(o.pos)
            self.mut(o, 'pos', o.pos + 1)
            return v
        if isinstance(o, HObj) and o.cls == 'iterator':
            it, pos = o.fields['it'], o.fields['pos']
            self.rd(o)
            c = self.cmp('<', pos, self.natural(it.n))
            if not self.decide(toz(c)):
                if len(a) > 1:
                    return a[1]
                raise self.exc('StopIteration')
            v = it.get(self.zi(pos))
            self.setattr(o, 'pos', self.arith('Add', pos, 1))
            return v
        if isinstance(o, HObj):
            f = self.findmethod(o.cls, '__next__')
            if f is not None:
                return self.callfunc(f, [o], {})
        raise Unsupported('next')

    # ------------------------------------------------------- containers
    def b_list(self, a, kw):
        res = self.new(HList(items=[]))
        if not a:
            return res
        v = self.force(a[0])
        if isinstance(v, HList):
            self.rd(self.lroot(v))
            if v.items is not None:
                res.items = list(v.items)
            else:
                res.items = None
                res.n, res.arr = self.larr(v)
                res.n = self.mkn(res.n)
                res.ety = v.ety
                if isinstance(v.ety, tuple):
                    res.shared = True
            return res
        it = self.iterable(v)
        return self.fill_from(res, it)

    def fill_from(self, res, it):
        if isinstance(it.n, int) and it.n <= 64:
            for k in range(it.n):
                self.list_append(res, it.get(k))
            return res
        self.runiter('listof', it,
                     lambda k: self.list_append(res, it.get(k)))
        return res

    def b_tuple(self, a, kw):
        if not a:
            return ()
        v = self.force(a[0])
        if isinstance(v, tuple):
            return v
        l = self.b_list([v], {})
        if l.items is not None:
            return tuple(l.items)
        l.istuple = True
        return l

    def b_dict(self, a, kw):
        d = self.new(HDict(items={}))
        if a:
            v = self.force(a[0])
            if isinstance(v, HDict):
                self.rd(v)
                if v.items is not None:
                    d.items = dict(v.items)
                else:
                    d.items = None
                    d.kty, d.vty, d.dom, d.val, d.n, d.enum = (
                        v.kty, v.vty, v.dom, v.val, v.n, v.enum)
            else:
                it = self.iterable(v)

                def body(k):
                    x, y = self.unpack(it.get(k), 2)
                    self.dset(d, x, y)
                self.runiter('dictof', it, body)
        for k, v in kw.items():
            self.dset(d, k, v)
        return d

    def b_set(self, a, kw):
        s = self.new(HSet(items=[]))
        if a:
            v = self.force(a[0])
            if isinstance(v, HSet):
                self.rd(v)
                s.items = None if v.items is None else list(v.items)
                s.kty, s.dom, s.n, s.enum = v.kty, v.dom, v.n, v.enum
                return s
            it = self.iterable(v)
            self.runiter('setof', it, lambda k: self.sadd(s, it.get(k)))
        return s

    b_frozenset = b_set

    # ---------------------------------------------------------- numbers
    def b_abs(self, a, kw):
        v = self.force(a[0])
        if isinstance(v, (int, float)):
            return abs(v)
        n = self.num(v)
        if n is None:
            raise self.exc('TypeError')
        k, e = n
        r = z3.If(e >= 0, e, -e)
        return SInt(r) if k == 'int' else SReal(r)

    def minmax(self, op, a, kw):
        if len(a) > 1:
            if 'key' in kw:
                raise Unsupported('min/max key')
            best = self.force(a[0])
            for x in a[1:]:
                x = self.force(x)
                c = self.cmp(op, x, best)
                if c is None:
                    raise self.exc('TypeError')
                c = toz(c)
                nx, nb = self.num(x), self.num(best)
                fin = all(not isinstance(y, float) or
                          (y == y and abs(y) != INF) for y in (x, best))
                if nx and nb and nx[0] == nb[0] == 'int':
                    best = self.mkint(z3.If(c, self.mkz(nx[1]),
                                            self.mkz(nb[1])))
                elif nx and nb and fin:
                    best = SReal(z3.If(c, self.zr(*nx), self.zr(*nb)))
                elif self.decide(c):
                    best = x
            return best
        v = self.force(a[0])
        it = self.iterable(v)
        if 'key' in kw:
            # the first element whose key is extreme
            keys = self.new(HList(items=[]))
            self.runiter('keys', it, lambda k: self.list_append(
                keys, self.call(kw['key'], [it.get(k)], {})))
            kit, n = self.iterable(keys), self.mkz(it.n)
            if not self.decide(n > 0):
                if 'default' in kw:
                    return kw['default']
                raise self.exc('ValueError')
            k = self.q('k')
            w = self.fresh('mmw', z3.IntSort())
            ne = self.num(kit.get(k))
            if ne is None:
                raise Unsupported('min/max of non-numbers')
            best = z3.substitute(ne[1], (k, w))
            self.assume(z3.And(0 <= w, w < n))
            self.assume(z3.ForAll([k], z3.Implies(
                z3.And(0 <= k, k < n),
                best <= ne[1] if op == '<' else best >= ne[1])))
            self.assume(z3.ForAll([k], z3.Implies(
                z3.And(0 <= k, k < w),
                best < ne[1] if op == '<' else best > ne[1])))
            return it.get(w)
        if isinstance(it.n, int) and it.n <= 8:
            if it.n == 0:
                if 'default' in kw:
                    return kw['default']
                raise self.exc('ValueError')
            if it.n == 1:
                return it.get(0)
            return self.minmax(op, [it.get(k) for k in range(it.n)], {})
        n = self.mkz(it.n)
        if not self.decide(n > 0):
            if 'default' in kw:
                return kw['default']
            raise self.exc('ValueError')
        k = self.q('k')
        e = it.get(k)
        ne = self.num(e)
        if ne is None:
            raise Unsupported('min/max of non-numbers')
        m = self.fresh('mm', z3.IntSort() if ne[0] == 'int'
                       else z3.RealSort())
        w = self.fresh('mmw', z3.IntSort())
        self.assume(z3.ForAll([k], z3.Implies(
            z3.And(0 <= k, k < n),
            m <= ne[1] if op == '<' else m >= ne[1])))
        self.assume(z3.And(0 <= w, w < n,
                           m == z3.substitute(ne[1], (k, w))))
        return SInt(m) if ne[0] == 'int' else SReal(m)

    def b_min(self, a, kw):
        return self.minmax('<', a, kw)

    def b_max(self, a, kw):
        return self.minmax('>', a, kw)

    def sumfun(self, ety):
        return self.ufun('sumto', z3.ArraySort(z3.IntSort(), zsort(ety)),
                         z3.IntSort(), zsort(ety))

    def counttrue(self, arr, n):
        """number of true elements among the first n (its elementary
        properties are built-in lemmas)"""
        n = self.mkz(n)
        f = self.ufun('countto', z3.ArraySort(z3.IntSort(), z3.BoolSort()),
                      z3.IntSort(), z3.IntSort())
        e = f(arr, n)
        i = self.q('i')
        ins = z3.And(0 <= i, i < n)
        self.assume(z3.And(
            e >= 0, z3.Implies(n >= 0, e <= n),
            (e == 0) == z3.ForAll([i], z3.Implies(
                ins, z3.Not(z3.Select(arr, i)))),
            z3.Implies(n >= 0, (e == n) == z3.ForAll([i], z3.Implies(
                ins, z3.Select(arr, i))))))
        return self.mkint(e)

    def countof(self, l, x, k):
        """number of the first k elements equal to x (its recursive
        definition, unfolded once at k, is a built-in lemma)"""
        n, arr = self.larr(l)
        ety = l.ety if l.items is None else self.ty(l)[1]
        srt = zsort(ety)
        f = self.ufun('countof', z3.ArraySort(z3.IntSort(), srt), srt,
                      z3.IntSort(), z3.IntSort())
        k = self.mkz(k)
        y = z3.Const('y!co%d' % self.bump(), srt)
        self.assume(z3.ForAll([y], z3.And(
            f(arr, y, 0) == 0, f(arr, y, k) >= 0,
            z3.Implies(k >= 0, f(arr, y, k) <= k),
            z3.Implies(k >= 1, f(arr, y, k) == f(arr, y, k - 1)
                       + z3.If(toz(self.eq(self.wrap(z3.Select(arr, k - 1),
                                                     ety),
                                           self.wrap(y, ety))), 1, 0))),
            patterns=[f(arr, y, k)]))
        return self.mkint(f(arr, self.z(x, ety), k))

    def countin(self, s, k):
        """number of the integers 0..k-1 in a set (its recursive definition
        and the cardinality of a set inside [0, k) are built-in lemmas)"""
        t, n, dom = self.setdom(s)
        f = self.ufun('countto', z3.ArraySort(z3.IntSort(), z3.BoolSort()),
                      z3.IntSort(), z3.IntSort())
        k = self.mkz(k)
        i = self.q('i')
        e = f(dom, k)
        self.assume(z3.And(
            f(dom, 0) == 0, e >= 0, z3.Implies(k >= 0, e <= k),
            z3.ForAll([i], z3.Implies(i >= 0, f(dom, i + 1) == f(dom, i)
                      + z3.If(z3.Select(dom, i), 1, 0)),
                      patterns=[f(dom, i + 1), z3.Select(dom, i)]),
            z3.Implies(k >= 0, f(dom, k + 1) == e
                       + z3.If(z3.Select(dom, k), 1, 0)),
            z3.Implies(z3.And(k >= 0, z3.ForAll([i], z3.Implies(
                z3.Select(dom, i), z3.And(0 <= i, i < k)))), e == n)))
        return self.mkint(e)

    def setdom(self, s):
        if s.items is not None:
            s = self.symset('int', lambda x: z3.Or(*[x == v for v in s.items])
                            if s.items else z3.BoolVal(False))
        return s.kty, self.mkz(s.n), s.dom

    def sqrtof(self, v):
        """the square root as a mathematical function"""
        x = self.z(v, 'real')
        f = self.ufun('sqrt', z3.RealSort(), z3.RealSort())
        self.assume(z3.Implies(x >= 0, z3.And(f(x) >= 0, f(x) * f(x) == x)))
        return SReal(f(x))

    def b_sum(self, a, kw):
        v = self.force(a[0])
        start = a[1] if len(a) > 1 else 0
        it = v if isinstance(v, HList) else self.iterable(v)
        if not isinstance(it, HList) and isinstance(it.n, int) and \
                it.n <= 16:
            r = start
            for k in range(it.n):
                r = self.binop('Add', r, it.get(k))
            return r
        if not isinstance(it, HList) and getattr(it, 'once', False):
            # iterable() above has consumed it
            it.once = False
        l = self.b_list([it], {})
        n, arr = self.larr(l)
        if l.ety == 'bool':
            r = self.counttrue(arr, n)
            self.knownsum(('bool', arr, self.mkz(n), r.e))
            return self.binop('Add', start, r)
        if l.ety not in ('int', 'real'):
            raise Unsupported('sum of non-numbers')
        f = self.sumfun(l.ety)
        e = f(arr, n)
        self.assume(z3.Implies(n == 0, e == 0))
        self.knownsum((l.ety, arr, self.mkz(n), e))
        return self.binop('Add', start, SInt(e) if l.ety == 'int'
                          else SReal(e))

    def knownsum(self, x):
        if not hasattr(self, 'sums'):
            self.sums, self.specsums = {}, {}
        self.sums[(x[1].get_id(), x[2].get_id(), x[0])] = x

    def sumspec(self, body, ty, k):
        """sum of body(i) for i < k: a function with its recursive
        definition, tied to the sums the code computes (equal terms, equal
        sums)"""
        if not hasattr(self, 'sums'):
            self.sums, self.specsums = {}, {}
        i = z3.Int('i!sumspec')
        b = z3.simplify(body(i))
        # variables bound by an enclosing quantifier become parameters
        qs = boundvars(b)
        cs = [z3.Const(f'sq!{x}', q.sort()) for x, q in enumerate(qs)]
        bq = z3.substitute(b, *zip(qs, cs)) if qs else b
        key = bq.sexpr()
        if key not in self.specsums:
            self.specsums[key] = z3.Function(
                f'specsum!{len(self.specsums)}', *[c.sort() for c in cs],
                z3.IntSort(),
                z3.IntSort() if ty == 'int' else z3.RealSort())
        F = self.specsums[key]
        at = lambda j: z3.substitute(bq, (i, j))
        Fc = lambda j: F(*cs, j)
        res = F(*qs, self.mkz(k))
        k = self.mkz(k)
        if boundvars(k):
            raise Unsupported('bound of a sum under a quantifier')
        fs = [Fc(z3.IntVal(0)) == 0,
              z3.Implies(k >= 0, Fc(k + 1) == Fc(k) + at(k)),
              z3.Implies(k >= 1, Fc(k) == Fc(k - 1) + at(k - 1))]
        j = self.q('j')
        ins = z3.And(0 <= j, j < k)
        fs.append(z3.Implies(z3.ForAll([j], z3.Implies(ins, at(j) >= 0)),
                             z3.Implies(k >= 0, Fc(k) >= 0)))
        for sty, arr, n, e in self.sums.values():
            if (sty == 'real') != (ty == 'real') and sty != 'bool':
                el = lambda x: z3.ToReal(z3.Select(arr, x)) if \
                    ty == 'real' else None
                ev = z3.ToReal(e) if ty == 'real' else None
                if ev is None:
                    continue
            elif sty == 'bool':
                el = lambda x: z3.If(z3.Select(arr, x), 1, 0)
                ev = e
                if ty == 'real':
                    ev = z3.ToReal(e)
            else:
                el, ev = (lambda x: z3.Select(arr, x)), e
            fs.append(z3.Implies(z3.And(k == n, z3.ForAll(
                [j], z3.Implies(ins, at(j) == el(j)))), Fc(k) == ev))
        if cs:
            # instances for the values of the parameters that occur
            for f, term in zip(fs[:3], (None, Fc(k + 1), Fc(k))):
                self.assume(z3.ForAll(cs, f, patterns=[
                    Fc(z3.IntVal(0)) if term is None else term]))
            self.assume(z3.ForAll(cs, fs[3], patterns=[Fc(k)]))
            for f in fs[4:]:
                self.assume(z3.ForAll(cs, f, patterns=[Fc(k)]))
        else:
            self.assume(z3.And(*fs))
        return SInt(res) if ty == 'int' else SReal(res)

    def b_any(self, a, kw):
        return self.anyit(a[0], True)

    def b_all(self, a, kw):
        return self.anyit(a[0], False)

    def anyit(self, v, want):
        it = self.iterable(self.force(v))

        def body(k):
            if self.branch(it.get(k)) == want:
                raise BreakEx()
        if isinstance(it.n, int) and it.n <= 8:
            try:
                for k in range(it.n):
                    body(k)
            except BreakEx:
                return want
            return not want
        site = ('anyit',) + (self.curpos or (0, 0)) + tuple(
            self.sitestack)
        r = self.loop(site, it.n, body, Frame(None), set(), None, it)
        return (r == 'broke') == want

    def b_int(self, a, kw):
        if not a:
            return 0
        v = self.force(a[0])
        if isinstance(v, float):
            if v != v:
                raise self.exc('ValueError')
            if abs(v) == INF:
                raise self.exc('OverflowError')
            return int(v)
        if isinstance(v, (bool, int)):
            return int(v)
        if isinstance(v, SInt):
            return v
        if isinstance(v, SBool):
            return self.mkint(z3.If(v.e, 1, 0))
        if isinstance(v, SReal):
            return self.mkint(z3.If(v.e >= 0, z3.ToInt(v.e),
                                    -z3.ToInt(-v.e)))
        if isinstance(v, (str, SStr)):
            if isinstance(v, str):
                try:
                    return int(v)
                except ValueError:
                    raise self.exc('ValueError')
            ok = self.ufun('intable', PStr, z3.BoolSort())(v.e)
            if not self.decide(ok):
                raise self.exc('ValueError')
            return self.mkint(self.ufun('intof', PStr, z3.IntSort())(v.e))
        if v is None or isinstance(v, (HList, tuple, HDict)):
            raise self.exc('TypeError')
        raise Unsupported(f'int({v!r})')

    def b_float(self, a, kw):
        if not a:
            return 0.0
        v = self.force(a[0])
        n = self.num(v)
        if n is not None:
            if isinstance(v, (bool, int, float)):
                return float(v)
            return SReal(self.zr(*n))
        if isinstance(v, (str, SStr)):
            if isinstance(v, str):
                try:
                    return float(v)
                except ValueError:
                    raise self.exc('ValueError')
            ok = self.ufun('floatable', PStr, z3.BoolSort())(v.e)
            if not self.decide(ok):
                raise self.exc('ValueError')
            e = self.ufun('floatof', PStr, Val)(v.e)
            self.assume(z3.Or(Val.is_VReal(e), Val.is_VNaN(e),
                              Val.is_VPInf(e), Val.is_VNInf(e)))
            return self.force(SVal(e))
        if v is None or isinstance(v, (HList, tuple, HDict)):
            raise self.exc('TypeError')
        raise Unsupported(f'float({v!r})')

    def b_bool(self, a, kw):
        if not a:
            return False
        v = a[0]
        t = self.truth(v)
        if t is None:
            return self.branch(v)
        return self.mkbool(toz(t))

    def b_str(self, a, kw):
        return self.tostr(a[0]) if a else ''

    def b_repr(self, a, kw):
        return self.freshv('repr', 'str')

    def b_round(self, a, kw):
        if len(a) != 1 or kw:
            raise Unsupported('round with digits')
        v = a[0]
        if self.isconc(v) or isinstance(v, SInt):
            return round(v) if self.isconc(v) else v
        if not isinstance(v, SReal):
            raise Unsupported('round')
        r = self.fresh('round', z3.IntSort())
        d = 2 * (z3.ToReal(r) - v.e)
        self.assume(z3.And(d <= 1, -1 <= d, z3.Implies(
            z3.Or(d == 1, d == -1), r % 2 == 0)))
        return SInt(r)

    def b_print(self, a, kw):
        return None

    def b_id(self, a, kw):
        o = a[0]
        if isinstance(o, Heap):
            return ('#id', id(o))
        raise Unsupported('id')

    def b_hash(self, a, kw):
        raise Unsupported('hash')

    def b_divmod(self, a, kw):
        return (self.binop('FloorDiv', *a), self.binop('Mod', *a))

    def tostr(self, v):
        if isinstance(v, (str, SStr)):
            return v
        if self.isconc(v):
            return str(v)
        try:
            e = self.z(v, 'val')
        except Unsupported:
            return self.freshv('str', 'str')
        return SStr(V.strof(e))

    def strcat(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if isinstance(a, str) and a == '':
            return b
        if isinstance(b, str) and b == '':
            return a
        return SStr(V.strcat(self.z(a, 'str'), self.z(b, 'str')))

    # ------------------------------------------------------------- types
    def typetest(self, v, t):
        """isinstance(v, t) -> python/z3 bool, t a single type value"""
        if isinstance(t, (tuple,)) and t and t[0] != '#type':
            return z3or(*[self.typetest(v, x) for x in t])
        if isinstance(t, HList):
            return z3or(*[self.typetest(v, x) for x in t.items])
        nm = None
        if isinstance(t, Builtin):
            nm = t.name
        if isinstance(t, tuple) and t[0] == '#type':
            nm = t[1]
        if nm is not None:
            if nm == 'object':
                return True
            if isinstance(v, SVal):
                e = v.e
                m = {'int': z3.Or(Val.is_VInt(e), Val.is_VBool(e)),
                     'bool': Val.is_VBool(e),
                     'float': z3.Or(Val.is_VReal(e), Val.is_VNaN(e),
                                    Val.is_VPInf(e), Val.is_VNInf(e)),
                     'str': Val.is_VStr(e),
                     'NoneType': Val.is_VNone(e)}
                if nm in m:
                    return m[nm]
                if nm in ('list', 'dict', 'tuple', 'set', 'slice', 'type',
                          'complex', 'bytes', 'range', 'frozenset'):
                    return z3and(Val.is_VOpq(e), False)
                raise Unsupported(f'isinstance(.., {nm})')
            if nm == 'int':
                return isinstance(v, (int, SInt, SBool))
            if nm == 'bool':
                return isinstance(v, (bool, SBool))
            if nm == 'float':
                return isinstance(v, (float, SReal))
            if nm == 'str':
                return isinstance(v, (str, SStr))
            if nm == 'list':
                return isinstance(v, HList) and not v.istuple
            if nm == 'tuple':
                return isinstance(v, tuple) or (isinstance(v, HList)
                                                and v.istuple)
            if nm == 'dict':
                return isinstance(v, HDict)
            if nm in ('set',):
                return isinstance(v, HSet)
            if nm == 'slice':
                return isinstance(v, Slice)
            if nm == 'range':
                return isinstance(v, RangeV)
            if nm == 'type':
                return isinstance(v, (ClassInfo, type)) or (
                    isinstance(v, Builtin) and v.name in TYPES)
            if nm in ('complex', 'bytes', 'frozenset', 'property'):
                return False
            if nm == 'NoneType':
                return v is None
            import builtins
            ex = getattr(builtins, nm, None)
            if isinstance(ex, type) and issubclass(ex, BaseException):
                t = ex
            else:
                raise Unsupported(f'isinstance(.., {nm})')
        if isinstance(t, type) and issubclass(t, BaseException):
            if isinstance(v, HObj) and '#exc' in v.fields:
                return t in self.excbases(v.fields['#exc'].cls)
            return False
        if isinstance(t, ClassInfo):
            if isinstance(v, HObj) and isinstance(v.cls, ClassInfo):
                return any(c is t for c in v.cls.mro(self.loader))
            if isinstance(v, HObj) and isinstance(v.cls, str):
                if v.cls in ('NimVec', 'NimTab'):
                    return t.name == 'Base'
                return v.cls == t.name
            if isinstance(v, SOpq):
                m = self.models.get(('isinstance', t.name))
                if m is not None:
                    return m(self, v)
                raise Unsupported(f'isinstance(opaque, {t.name})')
            return False
        if isinstance(t, ExtRef):
            m = self.models.get(('isinstance', t.name))
            if m is not None:
                return m(self, v)
            if isinstance(v, SOpq):
                raise Unsupported(f'isinstance(opaque, {t.name})')
            if t.name in ('numbers.Number', 'numbers.Real'):
                if isinstance(v, SVal):
                    return z3not(z3or(Val.is_VNone(v.e), Val.is_VStr(v.e),
                                      Val.is_VOpq(v.e)))
                return self.num(v) is not None
            if t.name in ('numbers.Integral',):
                return self.typetest(v, Builtin('int', None))
            if t.name.endswith('abc.Iterable'):
                return isinstance(v, (HList, HDict, HSet, tuple, str, SStr,
                                      IterV, RangeV))
            if t.name.endswith('abc.Sequence'):
                return isinstance(v, (HList, tuple, str, SStr, RangeV))
            if t.name.split('.')[0] in ('numpy', 'np', 'pandas', 'pd',
                                        'scipy', 'datetime', 'nimble',
                                        'numbers', 'collections'):
                if isinstance(v, HObj) and v.cls == t.name:
                    return True
                return False
            raise Unsupported(f'isinstance(.., {t.name})')
        if isinstance(t, HObj) and '#typetest' in t.fields:
            return t.fields['#typetest'](self, v)
        raise Unsupported(f'isinstance(.., {t!r})')

    def b_isinstance(self, a, kw):
        v, t = a
        if isinstance(v, SVal) and not isinstance(t, (Builtin,)):
            ts = t if isinstance(t, tuple) else (t,)
            if any(not isinstance(x, (Builtin, ExtRef)) for x in ts):
                v = self.force(v)
        return self.mkbool(toz(self.typetest(v, t)))

    def b_issubclass(self, a, kw):
        c, t = a
        ts = t if isinstance(t, tuple) else (t,)
        if isinstance(c, ClassInfo):
            return any(x is y for x in c.mro(self.loader) for y in ts)
        if isinstance(c, type):
            return any(isinstance(x, type) and issubclass(c, x) for x in ts)
        raise Unsupported('issubclass')

    def b_type(self, a, kw):
        v = self.force(a[0])
        if isinstance(v, HObj):
            if isinstance(v.cls, ClassInfo):
                return v.cls
            return ('#type', str(v.cls))
        nm = None
        for cls, n in ((bool, 'bool'), (SBool, 'bool'), (int, 'int'),
                       (SInt, 'int'), (float, 'float'), (SReal, 'float'),
                       (str, 'str'), (SStr, 'str'), (HDict, 'dict'),
                       (HSet, 'set'), (tuple, 'tuple'), (HList, 'list')):
            if isinstance(v, cls):
                nm = n
                break
        if v is None:
            nm = 'NoneType'
        if isinstance(v, HList) and v.istuple:
            nm = 'tuple'
        if nm is None:
            raise Unsupported(f'type({v!r})')
        return Builtin(nm, getattr(self, 'b_' + nm, None))

    def b_callable(self, a, kw):
        v = a[0]
        if isinstance(v, SVal):
            v = self.force(v)
        if isinstance(v, SOpq):
            raise Unsupported('callable(opaque)')
        return isinstance(v, (FuncVal, BoundMethod, Builtin, UFunc,
                              ClassInfo, type)) or (
            isinstance(v, HObj) and ('#call' in v.fields or
                                     self.findmethod(v.cls, '__call__')
                                     is not None))

    def b_hasattr(self, a, kw):
        o, n = self.force(a[0]), a[1]
        if not isinstance(n, str):
            raise Unsupported('hasattr')
        if isinstance(o, HObj):
            if n in o.fields:
                return True
            if isinstance(o.cls, ClassInfo):
                if self.findmethod(o.cls, n) is not None or \
                        self.findattr(o.cls, n) is not None:
                    return True
                if any(not isinstance(c, ClassInfo)
                       and c != ('builtin', 'object')
                       for c in o.cls.mro(self.loader)) and \
                        not o.fields.get('#closed'):
                    raise Unsupported('hasattr on a class with an external '
                                      'base')
                return False
            if o.fields.get('#closed'):
                return False
            raise Unsupported('hasattr')
        if isinstance(o, SOpq):
            raise Unsupported('hasattr(opaque)')
        py = {HList: list, tuple: tuple, HDict: dict, HSet: set, str: str,
              SStr: str, int: int, SInt: int, float: float, SReal: float,
              bool: bool, SBool: bool, type(None): type(None)}
        for c, p in py.items():
            if isinstance(o, c):
                return hasattr(p, n)
        if isinstance(o, (FuncVal, BoundMethod)):
            return n in ('__name__', '__call__')
        raise Unsupported('hasattr')

    def b_getattr(self, a, kw):
        if not isinstance(a[1], str):
            raise Unsupported('getattr with a symbolic name')
        if len(a) == 2:
            return self.getattr(a[0], a[1])
        if self.b_hasattr(a[:2], {}):
            return self.getattr(a[0], a[1])
        return a[2]

    def b_setattr(self, a, kw):
        if not isinstance(a[1], str):
            raise Unsupported('setattr with a symbolic name')
        self.setattr(a[0], a[1], a[2])

    def b_slice(self, a, kw):
        if len(a) == 1:
            return Slice(None, a[0], None)
        return Slice(*(list(a) + [None])[:3])

    def b_object(self, a, kw):
        return self.new(HObj('object'))

    # ------------------------------------------------------ list methods
    def list_append(self, l, v):
        self.lchk(l)
        if not self.wr(self.lroot(l) if l.parent is None else l,
                       ('append', v) if l.parent is None else None):
            return
        if l.items is not None:
            self.mut(l, 'items', l.items + [v])
            return
        t = self.ty(v)
        if isinstance(t, tuple) and t == ('list', None):
            t = l.ety
        self.lsym(l, t)
        n, arr = self.larr(l)
        self.noteput(v)
        self.lput(l, self.mkn(n + 1), z3.Store(arr, n, self.z(v, l.ety)))

    def noteput(self, v):
        """a mutable value is now stored by value"""
        if isinstance(v, HList):
            self.freeze(v)
        elif isinstance(v, tuple):
            for x in v:
                self.noteput(x)

    def list_extend(self, l, v):
        self.lchk(l)
        v = self.force(v)
        if isinstance(v, HList) and v.items is not None or \
                isinstance(v, tuple):
            for x in (v if isinstance(v, tuple) else list(v.items)):
                self.list_append(l, x)
            return
        it = self.iterable(v)
        if isinstance(it.n, int) and it.n <= 8:
            for k in range(it.n):
                self.list_append(l, it.get(k))
            return
        if getattr(it, 'once', False):
            # iterable() above has consumed it
            it.once = False
        o = v if isinstance(v, HList) else self.b_list([it], {})
        rep = getattr(o, 'rep', None)
        if rep is not None and l.parent is None and o.items is None and \
                o.arr is rep[2] and o.n is rep[3]:
            if not self.wr(l, ('appendn', rep[0], self.mkint(rep[1]))):
                return
        elif not self.wr(l):
            raise Carried('extend')
        r = self.list_concat(l, o)
        self.mut(l, 'items', None)
        self.mut(l, 'ety', r.ety)
        self.lput(l, r.n, r.arr)

    def list_concat(self, a, b):
        if a.items is not None and b.items is not None:
            return self.new(HList(items=a.items + b.items))
        for x, y in ((a, b), (b, a)):
            if x.items is not None and not x.items:
                return self.b_list([y], {})
        ta, tb = self.ty(a)[1], self.ty(b)[1]
        t = join(ta, tb)
        na, aa = self.larr(a, t)
        nb, ab = self.larr(b, t)
        arr = self.newarr('cat', t)
        i, j = self.q(), self.q('j')
        self.assume(z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < na + nb),
            z3.Select(arr, i) == z3.If(i < na, z3.Select(aa, i),
                                       z3.Select(ab, i - na))),
            patterns=[z3.Select(arr, i)]))
        r = self.mklist(self.mkn(na + nb), arr, t)
        r.shared = isinstance(t, tuple)
        return r

    def list_repeat(self, l, k):
        n = self.llen(l)
        if l.items is not None and isinstance(k, int) and \
                (len(l.items) * k <= 64 or not l.items):
            return self.new(HList(items=l.items * k))
        if not (isinstance(n, int) and n == 1):
            if l.items is not None and not l.items:
                return self.new(HList(items=[]))
            t = self.ty(l)[1]
            nz, arr0 = self.larr(l, t)
            kz = self.mkz(self.zi(k))
            arr = self.newarr('rep', t)
            i = self.q()
            tot = self.fresh('repn', z3.IntSort())
            self.assume(tot == z3.If(kz > 0, nz * kz, 0))
            self.assume(tot >= 0)
            self.assume(z3.ForAll([i], z3.Implies(
                z3.And(0 <= i, i < tot),
                z3.Select(arr, i) == z3.Select(arr0, i % nz)),
                patterns=[z3.Select(arr, i)]))
            r = self.mklist(tot, arr, t)
            r.shared = isinstance(t, tuple)
            return r
        v = self.lget(l, 0)
        t = self.ty(v)
        kz = self.mkz(self.zi(k))
        arr = z3.K(z3.IntSort(), self.z(v, t))
        if self.feasible(kz < 0):
            kz = z3.If(kz > 0, kz, 0)
        r = self.mklist(self.mkn(kz), arr, t)
        r.shared = isinstance(t, tuple)
        r.rep = (v, kz, r.arr, r.n)
        return r

    def normindex(self, l, n, ix, exc='IndexError'):
        """python index -> in-range z3/py index; raises on the bad branch"""
        ix = self.force(ix)
        k = self.num(ix)
        if k is None or k[0] != 'int':
            if isinstance(ix, HObj):
                f = self.findmethod(ix.cls, '__index__')
                if f is not None:
                    return self.normindex(l, n, self.callfunc(f, [ix], {}),
                                          exc)
            raise self.exc('TypeError')
        e = k[1]
        if isinstance(e, int) and isinstance(n, int):
            if e < -n or e >= n:
                raise self.exc(exc)
            return e if e >= 0 else e + n
        nz, ez = self.mkz(n), self.mkz(e)
        if not self.decide(z3.And(ez >= -nz, ez < nz)):
            raise self.exc(exc)
        if self.decide(ez >= 0):
            return e
        r = z3.simplify(ez + nz)
        return r.as_long() if z3.is_int_value(r) else r

    def getitem(self, o, ix):
        o = self.force(o)
        if isinstance(o, HList):
            if isinstance(ix, Slice):
                return self.lslice(o, ix)
            if isinstance(ix, (tuple, HList)):
                raise self.exc('TypeError')
            n = self.llen(o)
            i = self.normindex(o, n, ix)
            return self.lget(o, i)
        if isinstance(o, tuple):
            if isinstance(ix, Slice):
                if all(x is None or isinstance(x, int) for x in
                       (ix.lo, ix.hi, ix.step)):
                    return o[slice(ix.lo, ix.hi, ix.step)]
                raise Unsupported('symbolic slice of a tuple')
            i = self.normindex(o, len(o), ix)
            return self.tupget(o, i)
        if isinstance(o, HDict):
            ix = ix if not isinstance(ix, HList) else ix
            h = self.dhas(o, ix)
            if not self.decide(toz(h)):
                if o.default is not None:
                    v = self.call(o.default, [], {})
                    self.dset(o, ix, v)
                    return v
                raise self.exc('KeyError')
            return self.dplace(o, ix)
        if isinstance(o, str):
            if isinstance(ix, Slice) and all(
                    x is None or isinstance(x, int)
                    for x in (ix.lo, ix.hi, ix.step)):
                return o[slice(ix.lo, ix.hi, ix.step)]
            if isinstance(ix, int):
                if -len(o) <= ix < len(o):
                    return o[ix]
                raise self.exc('IndexError')
            raise Unsupported('symbolic index of a string')
        if isinstance(o, SStr):
            if isinstance(ix, Slice):
                return self.strslice(o, ix)
            n = self.b_len([o], {})
            i = self.normindex(o, n.e if isinstance(n, SInt) else n, ix)
            r = SStr(self.ufun('strat', PStr, z3.IntSort(), PStr)(
                o.e, self.mkz(i)))
            self.assume(V.strlen(r.e) == 1)
            return r
        if isinstance(o, RangeV):
            it = self.iterable(o)
            return it.get(self.normindex(o, it.n, ix))
        if isinstance(o, HObj):
            m = self.models.get((self.clsname(o), '__getitem__'))
            if m is not None:
                return m(self, o, [ix], {})
            f = self.findmethod(o.cls, '__getitem__')
            if f is not None:
                return self.callfunc(f, [o, ix], {})
        if isinstance(o, HArr2):
            return self.arr2get(o, ix)
        if o is None or self.num(o) is not None:
            raise self.exc('TypeError')
        raise Unsupported(f'subscript of {o!r}')

    def dplace(self, o, ix):
        """d[ix]; a list kept by value in a dict is a place of the dict"""
        v = self.dval(o, ix)
        if not isinstance(v, HList) or o.items is not None or v.istuple:
            return self.freeze(v) if o.items is None else v
        if isinstance(v.ety, tuple):
            return self.freeze(v)
        v.parent = (o, self.keyz(o, ix), o.ver)
        v.created = v.alloc
        v.inner0 = o.inner
        v.alloc = o.alloc if self.trackers else v.alloc
        return v

    def strslice(self, o, ix):
        def nm(x):
            return 'N' if x is None else x
        if all(x is None or isinstance(x, int)
               for x in (ix.lo, ix.hi, ix.step)):
            f = self.ufun(f'slice_{nm(ix.lo)}_{nm(ix.hi)}_{nm(ix.step)}',
                          PStr, PStr)
            return SStr(f(o.e))
        return self.freshv('sub', 'str')

    def arr2get(self, o, ix):
        if isinstance(ix, tuple) and len(ix) == 2 and not any(
                isinstance(x, Slice) for x in ix):
            i = self.normindex(o, o.nr, ix[0])
            j = self.normindex(o, o.nc, ix[1])
            return self.wrap(z3.simplify(z3.Select(
                z3.Select(o.arr, self.mkz(i)), self.mkz(j))), o.ety)
        raise Unsupported('array subscript')

    def arr2set(self, o, ix, v):
        if isinstance(ix, tuple) and len(ix) == 2 and not any(
                isinstance(x, Slice) for x in ix):
            i = self.mkz(self.normindex(o, o.nr, ix[0]))
            j = self.mkz(self.normindex(o, o.nc, ix[1]))
            if not self.wr(o):
                raise Carried('array store')
            row = z3.Store(z3.Select(o.arr, i), j, self.z(v, o.ety))
            self.mut(o, 'arr', z3.Store(o.arr, i, row))
            return
        raise Unsupported('array subscript store')

    def bounds(self, n, sl):
        """clamped lo, hi for step 1"""
        def clamp(x, dflt):
            if x is None:
                return dflt
            x = self.force(x)
            k = self.num(x)
            if k is None or k[0] != 'int':
                raise self.exc('TypeError')
            e = k[1]
            if isinstance(e, int) and isinstance(n, int):
                return slice(e, None).indices(n)[0]
            ez, nz = self.mkz(e), self.mkz(n)
            if not self.feasible(z3.Not(z3.And(0 <= ez, ez <= nz))):
                return e
            return z3.simplify(z3.If(
                ez < 0, z3.If(ez + nz < 0, 0, ez + nz),
                z3.If(ez > nz, nz, ez)))
        lo, hi = clamp(sl.lo, 0), clamp(sl.hi, n)
        if isinstance(lo, int) and isinstance(hi, int):
            return lo, max(lo, hi)
        lz, hz = self.mkz(lo), self.mkz(hi)
        if self.feasible(hz < lz):
            hz = z3.simplify(z3.If(hz < lz, lz, hz))
        return lo, hz

    def lslice(self, l, sl):
        st = self.force(sl.step)
        n = self.llen(l)
        if l.items is not None and all(
                x is None or isinstance(x, int)
                for x in (sl.lo, sl.hi, st)):
            return self.new(HList(items=l.items[slice(sl.lo, sl.hi, st)]))
        if st is None or st == 1:
            lo, hi = self.bounds(n, sl)
            t = self.ty(l)[1]
            if t is None:
                return self.new(HList(items=[]))
            if isinstance(lo, int) and isinstance(hi, int):
                return self.new(HList(items=[self.lget(l, i)
                                             for i in range(lo, hi)]))
            _, arr0 = self.larr(l, t)
            lz, hz = self.mkz(lo), self.mkz(hi)
            if isinstance(lo, int) and lo == 0:
                r = self.mklist(self.mkn(hz), arr0, t)
            else:
                arr = self.newarr('slice', t)
                i = self.q()
                self.assume(z3.ForAll([i], z3.Select(arr, i) ==
                                      z3.Select(arr0, i + lz),
                                      patterns=[z3.Select(arr, i)]))
                r = self.mklist(self.mkn(hz - lz), arr, t)
            r.shared = isinstance(t, tuple)
            return r
        if isinstance(st, int) and st == -1 and sl.lo is None and \
                sl.hi is None:
            t = self.ty(l)[1]
            nz, arr0 = self.larr(l, t)
            arr = self.newarr('rev', t)
            i = self.q()
            self.assume(z3.ForAll([i], z3.Select(arr, i) ==
                                  z3.Select(arr0, nz - 1 - i),
                                  patterns=[z3.Select(arr, i)]))
            r = self.mklist(self.mkn(nz), arr, t)
            r.shared = isinstance(t, tuple)
            return r
        raise Unsupported('extended slice')

    def setitem(self, o, ix, v):
        o = self.force(o)
        if isinstance(o, HList):
            self.lchk(o)
            if isinstance(ix, Slice):
                if ix.lo is None and ix.hi is None and ix.step is None:
                    src = self.b_list([v], {})
                    if not self.wr(self.lroot(o)):
                        raise Carried()
                    self.setlist(o, src)
                    return
                if self.force(ix.step) not in (None, 1):
                    raise Unsupported('extended slice assignment')
                src = self.b_list([v], {})
                n = self.llen(o)
                lo, hi = self.bounds(n, ix)
                head = self.lslice(o, Slice(None, self.mkint(lo), None))
                tail = self.lslice(o, Slice(self.mkint(hi), None, None))
                new = self.list_concat(self.list_concat(head, src), tail)
                if not self.wr(self.lroot(o)):
                    raise Carried()
                self.setlist(o, new)
                return
            n = self.llen(o)
            i = self.normindex(o, n, ix)
            if o.items is not None and isinstance(i, int):
                if not self.wr(o, ('setitem', i, v)):
                    return
                items = list(o.items)
                items[i] = v
                self.mut(o, 'items', items)
                return
            if o.parent is None:
                if not self.wr(o, ('setitem', self.natural(i), v)):
                    return
            elif not isinstance(o.ety, tuple) and (
                    not self.trackers
                    or o.created <= self.trackers[-1].start):
                # a row obtained before the loop
                if not self.wr(o, ('setitem', self.natural(i), v)):
                    return
            elif not self.wr(self.lroot(o)):
                raise Carried('row store')
            t = self.ty(v)
            if t == ('list', None):
                t = o.ety
            self.lsym(o, t)
            n, arr = self.larr(o)
            self.noteput(v)
            self.lput(o, self.mkn(n), z3.Store(arr, i, self.z(v, o.ety)))
            if isinstance(o.ety, tuple):
                self.mut(o, 'ver', o.ver + 1)
            return
        if isinstance(o, HDict):
            if o.items is None:
                self.noteput(v)
            self.dset(o, ix, v)
            return
        if isinstance(o, HArr2):
            self.arr2set(o, ix, v)
            return
        if isinstance(o, HObj):
            m = self.models.get((self.clsname(o), '__setitem__'))
            if m is not None:
                m(self, o, [ix, v], {})
                return
            f = self.findmethod(o.cls, '__setitem__')
            if f is not None:
                self.callfunc(f, [o, ix, v], {})
                return
        if o is None or isinstance(o, (tuple, str, SStr)) or \
                self.num(o) is not None:
            raise self.exc('TypeError')
        raise Unsupported(f'item assignment on {o!r}')

    def setlist(self, o, src):
        """o becomes a copy of src (same object identity)"""
        if o.parent is not None:
            n, arr = self.larr(src, o.ety)
            self.lput(o, n, arr)
            return
        self.mut(o, 'items', None if src.items is None else list(src.items))
        self.mut(o, 'n', src.n)
        self.mut(o, 'arr', src.arr)
        self.mut(o, 'ety', src.ety)
        self.mut(o, 'ver', o.ver + 1)

    def delitem(self, o, ix):
        o = self.force(o)
        if isinstance(o, HDict):
            if not self.decide(toz(self.dhas(o, ix))):
                raise self.exc('KeyError')
            self.ddel(o, ix)
            return
        if isinstance(o, HList):
            self.lchk(o)
            if isinstance(ix, Slice):
                raise Unsupported('slice deletion')
            self.lpop(o, ix)
            return
        if isinstance(o, HObj):
            m = self.models.get((self.clsname(o), '__delitem__'))
            if m is not None:
                m(self, o, [ix], {})
                return
            f = self.findmethod(o.cls, '__delitem__')
            if f is not None:
                self.callfunc(f, [o, ix], {})
                return
        raise Unsupported('delitem')

    def lpop(self, l, ix):
        self.lchk(l)
        n = self.llen(l)
        i = self.normindex(l, n, ix)
        if not self.wr(self.lroot(l)):
            raise Carried()
        v = self.lget(l, i)
        if isinstance(v, HList):
            if v.parent is not None:
                n_, a_ = self.larr(v)
                v = self.mklist(self.mkn(n_), a_, v.ety)
        if l.items is not None and isinstance(i, int):
            self.mut(l, 'items', l.items[:i] + l.items[i + 1:])
            return v
        self.lsym(l)
        nz, arr0 = self.larr(l)
        iz = self.mkz(i)
        if z3.is_true(z3.simplify(iz == nz - 1)):
            arr = arr0
        else:
            arr = self.newarr('pop', l.ety)
            j = self.q('j')
            self.assume(z3.ForAll([j], z3.Select(arr, j) == z3.If(
                j < iz, z3.Select(arr0, j), z3.Select(arr0, j + 1)),
                patterns=[z3.Select(arr, j)]))
        self.lput(l, self.mkn(nz - 1), arr)
        self.mut(l, 'ver', l.ver + 1)
        return v

    def linsert(self, l, ix, v):
        self.lchk(l)
        n = self.llen(l)
        lo, _ = self.bounds(n, Slice(ix, None, None))
        if not self.wr(self.lroot(l)):
            raise Carried()
        if l.items is not None and isinstance(lo, int):
            self.mut(l, 'items', l.items[:lo] + [v] + l.items[lo:])
            return
        self.lsym(l, self.ty(v))
        nz, arr0 = self.larr(l)
        lz = self.mkz(lo)
        self.noteput(v)
        arr = self.newarr('ins', l.ety)
        j = self.q('j')
        self.assume(z3.ForAll([j], z3.Select(arr, j) == z3.If(
            j < lz, z3.Select(arr0, j), z3.If(
                j == lz, self.z(v, l.ety), z3.Select(arr0, j - 1))),
            patterns=[z3.Select(arr, j)]))
        self.lput(l, self.mkn(nz + 1), arr)
        self.mut(l, 'ver', l.ver + 1)

    def lindex(self, l, x):
        n = self.llen(l)
        if l.items is not None:
            for i, y in enumerate(l.items):
                if self.decide(toz(self.eq(y, x))):
                    return i
            raise self.exc('ValueError')
        nz, arr = self.larr(l)
        j = self.q('j')

        def at(i):
            return toz(self.eq(self.wrap(z3.Select(arr, i), l.ety), x))
        if not self.decide(z3.Exists([j], z3.And(0 <= j, j < nz, at(j)))):
            raise self.exc('ValueError')
        r = self.fresh('idx', z3.IntSort())
        self.assume(z3.And(0 <= r, r < nz, at(r)))
        self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < r),
                                              z3.Not(at(j)))))
        return self.mkint(r)

    def lcount(self, l, x):
        n = self.llen(l)
        if isinstance(n, int) and n <= 12:
            r = 0
            for i in range(n):
                e = toz(self.eq(self.lget(l, i), x))
                r = r + z3.If(e, z3.IntVal(1), z3.IntVal(0))
            return self.mkint(r) if z3.is_expr(r) else r
        nz, arr = self.larr(l)
        c = self.fresh('count', z3.IntSort())
        j = self.q('j')

        def at(i):
            return toz(self.eq(self.wrap(z3.Select(arr, i), l.ety), x))
        self.assume(z3.And(0 <= c, c <= nz))
        self.assume((c > 0) == z3.Exists([j], z3.And(0 <= j, j < nz,
                                                     at(j))))
        return self.mkint(c)

    def sortedlist(self, v, kw):
        """-> (n, arr, ety) of the sorted list"""
        src = self.b_list([v], {})
        rev = kw.get('reverse', False)
        key = kw.get('key')
        n = self.llen(src)
        if not isinstance(rev, bool):
            rev = self.branch(rev)
        if isinstance(n, int) and n <= 1:
            return src
        if src.items is not None and all(self.isconc(x)
                                         for x in src.items) and \
                key is None:
            try:
                return self.new(HList(items=sorted(src.items, reverse=rev)))
            except TypeError:
                raise self.exc('TypeError')
        t = self.ty(src)[1]
        nz, arr0 = self.larr(src, t)
        arr = self.newarr('sorted', t)
        p = self.freshfun('perm', z3.IntSort(), z3.IntSort())
        pi = self.freshfun('pinv', z3.IntSort(), z3.IntSort())
        i, j = self.q(), self.q('j')

        kown = getattr(key, 'owner', None)
        node = getattr(key, 'node', None)
        kbypos = None
        if node is not None and any(isinstance(x, ast.IfExp)
                                    for x in ast.walk(node)):
            # a key that branches: the keys are built as a list
            keys = self.new(HList(items=[]))
            it = self.iterable(src)
            self.runiter('sortkeys', it, lambda k: self.list_append(
                keys, self.call(key, [it.get(k)], {})))
            kt = self.ty(keys)[1]
            kbypos = self.larr(keys, kt)[1]
        if kown is not None:
            # key=list.__getitem__: an element that is no index fails
            kt = self.ty(kown)[1]
            kn, karr = self.larr(kown, kt)
            e0 = z3.Select(arr0, i)
            if t != 'int' or not self.decide(z3.ForAll([i], z3.Implies(
                    z3.And(0 <= i, i < nz), z3.And(0 <= e0, e0 < kn)))):
                raise self.exc('IndexError')

        def kof(ix):
            e = self.wrap(z3.Select(arr0, ix), t)
            if key is None:
                return e
            if kown is not None:
                return self.wrap(z3.Select(karr, e.e), kt)
            if kbypos is not None:
                return self.wrap(z3.Select(kbypos, ix), kt)
            m = len(self.ctxs[-1].taken)
            r = self.call(key, [e], {})
            if len(self.ctxs[-1].taken) != m:
                raise Unsupported('sort key with branches')
            return r

        def le(a, b):
            if isinstance(a, tuple):
                r = True
                for x, y in reversed(list(zip(a, b))):
                    r = z3or(self.lt_any(x, y), z3and(
                        self.eq(x, y), r))
                return toz(r)
            return toz(z3not(self.lt_any(b, a)))

        self.assume(z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < nz),
            z3.And(0 <= p(i), p(i) < nz, pi(p(i)) == i,
                   z3.Select(arr, i) == z3.Select(arr0, p(i)))),
            patterns=[z3.Select(arr, i)]))
        self.assume(z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < nz),
            z3.And(0 <= p(i), p(i) < nz, pi(p(i)) == i)),
            patterns=[p(i)]))
        self.assume(z3.ForAll([j], z3.Implies(
            z3.And(0 <= j, j < nz),
            z3.And(0 <= pi(j), pi(j) < nz, p(pi(j)) == j,
                   z3.Select(arr, pi(j)) == z3.Select(arr0, j))),
            patterns=[pi(j)] + ([z3.Select(arr0, j)]
                                if z3.is_const(arr0) else [])))
        m = len(self.freshlog)
        ki, kj = kof(p(i)), kof(p(j))
        if len(self.freshlog) != m:
            raise Unsupported('sort key allocates')
        le_ij = le(ki, kj) if not rev else le(kj, ki)
        # with a NaN among the keys the order is anything
        nans = [x.e for x in (ki if isinstance(ki, tuple) else (ki,))
                if isinstance(x, SVal)]
        proper = True
        if nans:
            proper = self.mkz(z3.ForAll([i], z3.Implies(
                z3.And(0 <= i, i < nz), z3.And(*[
                    z3.Not(Val.is_VNaN(x)) for x in nans]))))
            b = self.fresh('proper', z3.BoolSort())
            self.assume(b == proper)
            proper = b
        self.assume(z3.ForAll([i, j], z3.Implies(
            z3.And(0 <= i, i < j, j < nz, proper),
            z3.And(le_ij, z3.Implies(toz(self.eq(ki, kj)), p(i) < p(j)))),
            patterns=[z3.MultiPattern(p(i), p(j))]))
        self.ghost.setdefault('sorts', []).append((arr, p, pi))
        return self.mklist(self.mkn(nz), arr, t)

    def lt_any(self, a, b):
        r = self.cmp('<', a, b)
        if r is None:
            if isinstance(a, SVal) or isinstance(b, SVal):
                f = self.ufun('vallt', Val, Val, z3.BoolSort())
                self.assumptions.add('ordering of mixed-type values in a '
                                     'sort is uninterpreted')
                a, b = self.z(a, 'val'), self.z(b, 'val')
                num = [z3.Or(Val.is_VInt(x), Val.is_VReal(x),
                             Val.is_VBool(x)) for x in (a, b)]
                return z3.If(z3.And(*num), V.numof(a) < V.numof(b), f(a, b))
            if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
                f = self.ufun('strlt', PStr, PStr, z3.BoolSort())
                return f(self.z(a, 'str'), self.z(b, 'str'))
            raise Unsupported('ordering in a sort')
        return r

    def b_sorted(self, a, kw):
        return self.sortedlist(a[0], kw)

    # -------------------------------------------------------- attributes
    def libattr(self, o, name):
        def m(fn):
            return Builtin(name, fn)
        if isinstance(o, HList):
            if o.istuple and name not in ('index', 'count'):
                raise self.exc('AttributeError')
            if name == 'append':
                return m(lambda a, k: self.list_append(o, a[0]))
            if name == 'extend':
                return m(lambda a, k: self.list_extend(o, a[0]))
            if name == 'insert':
                return m(lambda a, k: self.linsert(o, a[0], a[1]))
            if name == 'pop':
                return m(lambda a, k: self.lpop(o, a[0] if a else -1))
            if name == 'index':
                return m(lambda a, k: self.lindex(o, a[0]))
            if name == 'count':
                return m(lambda a, k: self.lcount(o, a[0]))
            if name == '__getitem__':
                r = m(lambda a, k: self.getitem(o, a[0]))
                r.owner = o
                return r
            if name == '__len__':
                return m(lambda a, k: self.b_len([o], {}))
            if name == 'copy':
                return m(lambda a, k: self.b_list([o], {}))
            if name == 'remove':
                return m(lambda a, k: self.lpop(o, self.lindex(o, a[0]))
                         and None)
            if name == 'clear':
                return m(lambda a, k: self.lclear(o))
            if name == 'reverse':
                def rev(a, k):
                    self.lchk(o)
                    if not self.wr(self.lroot(o)):
                        raise Carried()
                    self.setlist(o, self.lslice(o, Slice(None, None, -1)))
                return m(rev)
            if name == 'sort':
                def sort(a, k):
                    self.lchk(o)
                    if not self.wr(self.lroot(o)):
                        raise Carried()
                    self.setlist(o, self.sortedlist(o, k))
                return m(sort)
        if isinstance(o, tuple):
            l = self.new(HList(items=list(o)))
            if name in ('index', 'count'):
                return self.libattr(l, name)
        if isinstance(o, HDict):
            if name == 'get':
                def get(a, k):
                    if self.decide(toz(self.dhas(o, a[0]))):
                        return self.dplace(o, a[0])
                    return a[1] if len(a) > 1 else None
                return m(get)
            if name == 'setdefault':
                def setdefault(a, k):
                    if not self.decide(toz(self.dhas(o, a[0]))):
                        self.setitem(o, a[0], a[1] if len(a) > 1 else None)
                    return self.dplace(o, a[0])
                return m(setdefault)
            if name == 'keys':
                return m(lambda a, k: o)
            if name == 'values':
                def values(a, k):
                    it = self.iterable(o)
                    return IterV(it.n, lambda i: self.freeze(
                        self.dval(o, it.get(i))), o)
                return m(values)
            if name == 'items':
                def items(a, k):
                    it = self.iterable(o)

                    def get(i):
                        key = it.get(i)
                        return (key, self.dval(o, key))
                    return IterV(it.n, get, o)
                return m(items)
            if name == 'copy':
                return m(lambda a, k: self.b_dict([o], {}))
            if name == 'update':
                def update(a, k):
                    if a:
                        src = self.force(a[0])
                        it = self.iterable(src)

                        def body(i):
                            if isinstance(src, HDict):
                                key = it.get(i)
                                self.dset(o, key, self.dval(src, key))
                            else:
                                x, y = self.unpack(it.get(i), 2)
                                self.dset(o, x, y)
                        self.runiter('update', it, body)
                    for kk, v in k.items():
                        self.dset(o, kk, v)
                return m(update)
            if name == 'pop':
                def pop(a, k):
                    if not self.decide(toz(self.dhas(o, a[0]))):
                        if len(a) > 1:
                            return a[1]
                        raise self.exc('KeyError')
                    v = self.dval(o, a[0])
                    self.ddel(o, a[0])
                    return v
                return m(pop)
            if name == 'clear':
                def clear(a, k):
                    if not self.wr(o):
                        raise Carried()
                    self.mut(o, 'items', {})
                return m(clear)
        if isinstance(o, HSet):
            if name == 'add':
                return m(lambda a, k: self.sadd(o, a[0]))
            if name == 'discard':
                return m(lambda a, k: self.sdiscard(o, a[0]))
            if name == 'remove':
                def remove(a, k):
                    if not self.decide(toz(self.shas(o, a[0]))):
                        raise self.exc('KeyError')
                    self.sdel(o, a[0])
                return m(remove)
            if name == 'copy':
                return m(lambda a, k: self.b_set([o], {}))
            if name in ('union', 'intersection', 'difference',
                        'symmetric_difference'):
                def op(a, k):
                    b = self.force(a[0]) if a else self.b_set([], {})
                    if not isinstance(b, HSet):
                        b = self.b_set([b], {})
                    return self.setop(name, o, b)
                return m(op)
            if name == 'issubset':
                def sub(a, k):
                    b = a[0] if isinstance(a[0], HSet) else self.b_set(
                        [a[0]], {})
                    d = self.setop('difference', o, b)
                    return self.mkbool(toz(self.mkz(self.slen(d)) == 0))
                return m(sub)
            if name == 'update':
                def upd(a, k):
                    it = self.iterable(a[0])
                    self.runiter('supd', it,
                                 lambda i: self.sadd(o, it.get(i)))
                return m(upd)
        if isinstance(o, (str, SStr)):
            return m(lambda a, k: self.strmethod(o, name, a, k))
        if isinstance(o, (Slice, RangeV)):
            if name == 'start':
                return o.lo
            if name == 'stop':
                return o.hi
            if name == 'step':
                return o.step
        if isinstance(o, HArr2) and name == 'shape':
            return (self.natural(o.nr), self.natural(o.nc))
        if isinstance(o, (FuncVal, Builtin)) and name == '__name__':
            return o.name
        if isinstance(o, BoundMethod) and name == '__name__':
            return o.func.name
        if isinstance(o, SReal) or isinstance(o, float):
            if name == 'is_integer':
                def isint(a, k):
                    if isinstance(o, float):
                        return o.is_integer()
                    return self.mkbool(z3.ToReal(z3.ToInt(o.e)) == o.e)
                return m(isint)
        if isinstance(o, Builtin) and o.name == 'str':
            return m(lambda a, k: self.strmethod(a[0], name, a[1:], k))
        if isinstance(o, Builtin) and o.name == 'dict' and \
                name == 'fromkeys':
            def fromkeys(a, k):
                d = self.new(HDict(items={}))
                it = self.iterable(a[0])
                self.runiter('fromkeys', it, lambda i: self.dset(
                    d, it.get(i), a[1] if len(a) > 1 else None))
                return d
            return m(fromkeys)
        py = {HList: list, tuple: tuple, HDict: dict, HSet: set, SInt: int,
              int: int, SReal: float, float: float, SBool: bool,
              type(None): type(None)}
        for c, p in py.items():
            if isinstance(o, c):
                if not hasattr(p, name):
                    raise self.exc('AttributeError')
        raise Unsupported(f'attribute {name} of {o!r}')

    def sdiscard(self, o, x):
        if self.decide(toz(self.shas(o, x))):
            self.sdel(o, x)

    def lclear(self, o):
        self.lchk(o)
        if not self.wr(self.lroot(o)):
            raise Carried()
        if o.parent is not None:
            n, arr = self.larr(o)
            self.lput(o, z3.IntVal(0), arr)
        else:
            self.mut(o, 'items', [])
            self.mut(o, 'ver', o.ver + 1)

    def setop(self, name, a, b):
        if a.items is not None and b.items is not None and all(
                self.hconc(x) for x in a.items + b.items):
            if name == 'union':
                r = a.items + [x for x in b.items if x not in a.items]
            elif name == 'intersection':
                r = [x for x in a.items if x in b.items]
            elif name == 'difference':
                r = [x for x in a.items if x not in b.items]
            else:
                r = [x for x in a.items if x not in b.items] + \
                    [x for x in b.items if x not in a.items]
            return self.new(HSet(items=r))
        self.ssym(a)
        self.ssym(b)
        if a.kty is None:
            return self.b_set([b if name in ('union', 'symmetric_difference')
                               else a], {})
        if b.kty is None:
            return self.b_set([b if name == 'intersection' else a], {})
        kt = join(a.kty, b.kty)

        def mem(s):
            def f(x):
                if s.kty == kt:
                    return z3.Select(s.dom, x)
                return toz(self.dhas_like(s, self.wrap(x, kt)))
            return f
        ma, mb = mem(a), mem(b)
        fs = {'union': lambda x: z3.Or(ma(x), mb(x)),
              'intersection': lambda x: z3.And(ma(x), mb(x)),
              'difference': lambda x: z3.And(ma(x), z3.Not(mb(x))),
              'symmetric_difference': lambda x: z3.Xor(ma(x), mb(x))}
        return self.symset(kt, fs[name])

    def strmethod(self, o, name, a, k):
        if isinstance(o, SVal):
            o = self.force(o)
        if isinstance(o, str) and all(isinstance(x, str) or
                                      isinstance(x, int) for x in a) and \
                not k and name != 'join':
            try:
                r = getattr(o, name)(*a)
            except AttributeError:
                raise self.exc('AttributeError')
            if isinstance(r, list):
                return self.new(HList(items=r))
            return r
        if name == 'join':
            it = self.iterable(a[0])
            if isinstance(it.n, int) and it.n <= 8:
                r = ''
                for i in range(it.n):
                    x = self.force(it.get(i))
                    if not isinstance(x, (str, SStr)):
                        raise self.exc('TypeError')
                    r = self.strcat(r, x if i == 0 else
                                    self.strcat(o, x))
                return r
            return self.freshv('join', 'str')
        if name == 'format':
            return self.freshv('fmt', 'str')
        if name in ('startswith', 'endswith', 'isalpha', 'isdigit',
                    'isspace', 'isalnum'):
            xs = [x if not isinstance(x, tuple) else x for x in a]
            if any(isinstance(x, tuple) for x in xs):
                return self.mkbool(toz(z3or(*[toz(self.strmethod(
                    o, name, [x], {})) for x in xs[0]])))
            zs = [self.z(x, 'str') for x in a]
            f = self.ufun('str_' + name, PStr, *([PStr] * len(zs)),
                          z3.BoolSort())
            return self.mkbool(f(self.z(o, 'str'), *zs))
        if name in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title',
                    'capitalize', 'swapcase', 'replace'):
            zs = [self.z(self.force(x), 'str') for x in a]
            f = self.ufun('str_' + name, PStr, *([PStr] * len(zs)), PStr)
            return SStr(f(self.z(o, 'str'), *zs))
        if name in ('ljust', 'rjust', 'center'):
            return self.freshv('just', 'str')
        raise Unsupported(f'str.{name}')

    # --------------------------------------------------------- externals
    def extattr(self, o, name):
        full = o.name + '.' + name
        m = self.models.get(('value', full))
        if m is not None:
            return m(self) if callable(m) else m
        if full in ('numpy.nan', 'np.nan', 'math.nan'):
            return float('nan')
        if full in ('numpy.inf', 'np.inf', 'math.inf', 'numpy.Inf'):
            return INF
        return ExtRef(full)

    def callext(self, f, args, kw, node):
        m = self.models.get(('call', f.name))
        if m is not None:
            self.external_used.add(f.name)
            return m(self, args, kw)
        if f.name in ('copy.copy',):
            v = args[0]
            if isinstance(v, HList):
                return self.b_list([v], {})
            if isinstance(v, HDict):
                return self.b_dict([v], {})
            if isinstance(v, HSet):
                return self.b_set([v], {})
            if isinstance(v, HObj) and isinstance(v.cls, str):
                # a modelled object: another one with the same fields
                r = self.new(HObj(v.cls))
                r.fields.update(v.fields)
                return r
            if isinstance(v, tuple) or self.isconc(v) or \
                    isinstance(v, SVBase):
                return v
        if f.name == 'copy.deepcopy':
            v = args[0]
            return self.snapshot(v)
        if f.name in ('itertools.chain',):
            l = self.new(HList(items=[]))
            for x in args:
                self.list_extend(l, x)
            return l
        if f.name in ('math.sqrt', 'numpy.sqrt'):
            v = args[0]
            if self.num(v) is None:
                raise Unsupported(f.name)
            if f.name == 'math.sqrt':
                if self.truth(self.cmp('<', v, 0)):
                    raise self.exc('ValueError')
            return self.sqrtof(v)
        if f.name in ('math.floor', 'math.ceil'):
            v = self.force(args[0])
            k, e = self.num(v)
            if k == 'int':
                return v
            if isinstance(v, float):
                import math
                return getattr(math, f.name[5:])(v)
            return self.mkint(z3.ToInt(e) if f.name.endswith('floor')
                              else -z3.ToInt(-e))
        if f.name in ('math.isnan', 'numpy.isnan'):
            v = args[0]
            if isinstance(v, SVal):
                if self.decide(Val.is_VNaN(v.e)):
                    return True
                v = self.force(v)
            if isinstance(v, float):
                return v != v
            if self.num(v) is not None:
                return False
            raise self.exc('TypeError')
        if f.name in ('collections.OrderedDict',):
            return self.b_dict(args, kw)
        if f.name == 'collections.defaultdict':
            d = self.b_dict(args[1:], kw)
            if args and args[0] is not None:
                d.default = args[0]
            return d
        if f.name.startswith('operator.') and f.name[9:] in OPERATOR:
            op = f.name[9:]
            return self.compare(OPERATOR[op], args[0], args[1])
        raise Unsupported(f'external function {f.name}')


OPERATOR = {'lt': 'Lt', 'le': 'LtE', 'gt': 'Gt', 'ge': 'GtE', 'eq': 'Eq',
            'ne': 'NotEq'}

TYPES = ('int', 'str', 'float', 'bool', 'list', 'tuple', 'dict', 'set',
         'type', 'object', 'slice', 'bytes', 'complex', 'frozenset', 'range')
