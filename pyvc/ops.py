"""Python operators on symbolic values (shared by code and specifications)."""
import z3
from .values import *
from . import values as V
from .engine import Engine

CMP = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}


def z3and(*a):
    a = [x.e if isinstance(x, SBool) else x for x in a]
    if any(x is False for x in a):
        return False
    a = [x for x in a if x is not True]
    if not a:
        return True
    return a[0] if len(a) == 1 else z3.And(*a)


def z3or(*a):
    a = [x.e if isinstance(x, SBool) else x for x in a]
    if any(x is True for x in a):
        return True
    a = [x for x in a if x is not False]
    if not a:
        return False
    return a[0] if len(a) == 1 else z3.Or(*a)


def z3not(a):
    if isinstance(a, SBool):
        a = a.e
    if isinstance(a, bool):
        return not a
    return z3.Not(a)


def z3imp(a, b):
    return z3or(z3not(a), b)


def toz(b):
    if isinstance(b, SBool):
        return b.e
    if isinstance(b, bool):
        return z3.BoolVal(b)
    return b


def fdiv(a, b):
    if z3.is_int_value(b) and b.as_long() > 0:
        return a / b
    return z3.If(b > 0, a / b, (-a) / (-b))


def fmod(a, b):
    if z3.is_int_value(b) and b.as_long() > 0:
        return a % b
    return a - b * fdiv(a, b)


class Ops(Engine):
    # ------------------------------------------------------------ basics
    def isconc(self, v):
        return v is None or isinstance(v, (bool, int, float, str))

    def num(self, v):
        """-> ('int'|'real', z3 or py) for numeric typed values, else None"""
        if isinstance(v, bool):
            return 'int', int(v)
        if isinstance(v, int):
            return 'int', v
        if isinstance(v, float):
            return 'real', v
        if isinstance(v, SInt):
            return 'int', v.e
        if isinstance(v, SBool):
            return 'int', z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, SReal):
            return 'real', v.e
        return None

    def zi(self, v):
        """int value -> z3/py int"""
        k, e = self.num(v)
        if k != 'int':
            raise Unsupported('real used as index')
        return e

    def zr(self, k, e):
        if k == 'real':
            if isinstance(e, float):
                return z3.RealVal(repr(e))
            return e
        if isinstance(e, int):
            return z3.RealVal(e)
        return z3.ToReal(e)

    def mkint(self, e):
        if isinstance(e, int):
            return e
        e = z3.simplify(e)
        return e.as_long() if z3.is_int_value(e) else SInt(e)

    def mkbool(self, e):
        if isinstance(e, (bool, SBool)):
            return e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SBool(e)

    # ---------------------------------------------------------- equality
    def eq(self, a, b):
        """python ==, as python bool or z3 bool"""
        if a is b and not isinstance(a, float):
            if not isinstance(a, (SVal, HList, HDict)):
                return True
        if self.isconc(a) and self.isconc(b):
            return a == b
        if isinstance(a, Slice) or isinstance(b, Slice):
            if not (isinstance(a, Slice) and isinstance(b, Slice)):
                return False
            return z3and(self.eq(a.lo, b.lo), self.eq(a.hi, b.hi),
                         self.eq(a.step, b.step))
        na, nb = self.num(a), self.num(b)
        if na and nb:
            for x, y in ((a, b), (b, a)):
                if isinstance(x, float) and (x != x or x in (INF, -INF)):
                    return False
            if na[0] == nb[0] == 'int':
                r = na[1] == nb[1]
                return r if isinstance(r, bool) else z3.simplify(r)
            return z3.simplify(self.zr(*na) == self.zr(*nb))
        if isinstance(a, SVal) or isinstance(b, SVal):
            if isinstance(a, (HList, HDict, HSet, HObj, tuple)) or \
                    isinstance(b, (HList, HDict, HSet, HObj, tuple)):
                return False
            if not isinstance(a, SVal):
                a, b = b, a
            e = a.e
            if b is None:
                return Val.is_VNone(e)
            nb = self.num(b)
            if nb:
                if isinstance(b, float) and b != b:
                    return False
                if isinstance(b, float) and b in (INF, -INF):
                    return Val.is_VPInf(e) if b > 0 else Val.is_VNInf(e)
                if nb[0] == 'int':
                    return z3.Or(
                        z3.And(Val.is_VInt(e), Val.vi(e) == nb[1]),
                        z3.And(Val.is_VReal(e), Val.vr(e) == self.zr(*nb)),
                        z3.And(Val.is_VBool(e),
                               z3.If(Val.vb(e), 1, 0) == nb[1]))
                return z3.And(isnum(e), numof(e) == self.zr(*nb))
            if isinstance(b, (str, SStr)):
                return z3.And(Val.is_VStr(e), Val.vs(e) == self.z(b, 'str'))
            if isinstance(b, SOpq):
                return e == Val.VOpq(b.e)
            if isinstance(b, SVal):
                f = b.e
                r = mkpyeq(e, f)
                self.light.add(r == pyeq_def(e, f))
                return r
            return False
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return self.z(a, 'str') == self.z(b, 'str')
        if isinstance(a, SOpq) and isinstance(b, SOpq):
            return a.e == b.e
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return z3and(*[self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, HList) and isinstance(b, HList):
            if a.istuple != b.istuple:
                return False
            return self.leq(a, b)
        if isinstance(a, HDict) and isinstance(b, HDict):
            return self.deq(a, b)
        if isinstance(a, HSet) and isinstance(b, HSet):
            self.ssym(a)
            self.ssym(b)
            if a.kty is None or b.kty is None:
                return self.mkz(self.slen(a)) == self.mkz(self.slen(b))
            x = z3.Const('x!seq', zsort(a.kty))
            return z3.ForAll([x], z3.Select(a.dom, x) == z3.Select(b.dom, x))
        if isinstance(a, HObj) and isinstance(b, HObj):
            return a is b
        return False

    def mkz(self, v):
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, SInt):
            return v.e
        return v

    def leq(self, a, b):
        if a.items is not None and b.items is not None:
            if len(a.items) != len(b.items):
                return False
            return z3and(*[self.eq(x, y) for x, y in zip(a.items, b.items)])
        la, lb = self.llen(a), self.llen(b)
        if isinstance(la, int) and isinstance(lb, int) and la != lb:
            return False
        if la == 0 and isinstance(la, int):
            return self.mkz(lb) == 0
        if lb == 0 and isinstance(lb, int):
            return self.mkz(la) == 0
        ta, tb = self.ty(a)[1], self.ty(b)[1]
        t = join(ta, tb)
        na, aa = self.larr(a, ta)
        nb, ab = self.larr(b, tb)
        i = z3.Int('i!eq%d' % self.bump())
        body = self.eq(self.wrap(z3.Select(aa, i), ta),
                       self.wrap(z3.Select(ab, i), tb))
        return z3.And(na == nb, z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < na), toz(body))))

    def bump(self):
        self.freshno += 1
        return self.freshno

    def deq(self, a, b):
        if a.items is not None and b.items is not None:
            if set(a.items) != set(b.items):
                return False
            return z3and(*[self.eq(a.items[k], b.items[k]) for k in a.items])
        self.dsym(a)
        self.dsym(b)
        if a.kty is None or b.kty is None:
            return self.mkz(self.dlen(a)) == self.mkz(self.dlen(b))
        x = z3.Const('x!deq%d' % self.bump(), zsort(a.kty))
        va = self.wrap(z3.Select(a.val, x), a.vty)
        vb = self.wrap(z3.Select(b.val, x), b.vty)
        return z3.ForAll([x], z3.And(
            z3.Select(a.dom, x) == z3.Select(b.dom, x),
            z3.Implies(z3.Select(a.dom, x), toz(self.eq(va, vb)))))

    def is_(self, a, b):
        if isinstance(a, SVal) and b is None:
            return Val.is_VNone(a.e)
        if isinstance(b, SVal) and a is None:
            return Val.is_VNone(b.e)
        if isinstance(a, SVal) and isinstance(b, bool):
            return a.e == Val.VBool(b)
        if isinstance(b, SVal) and isinstance(a, bool):
            return b.e == Val.VBool(a)
        if isinstance(a, SBool) and isinstance(b, bool):
            return a.e if b else z3.Not(a.e)
        if isinstance(a, SBool) and isinstance(b, SBool):
            return a.e == b.e
        if a is None or b is None:
            return a is b
        if isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if isinstance(a, (HObj, HList, HDict, HSet)):
            return a is b
        if isinstance(a, tuple) and a and a[0] == '#type' and \
                isinstance(b, ExtRef):
            return False
        if type(a) is type(b) and hasattr(a, 'name'):
            return getattr(a, 'name') == getattr(b, 'name') and \
                getattr(a, 'module', None) is getattr(b, 'module', None)
        if isinstance(a, (Builtin, ExtRef, FuncVal)) or \
                isinstance(b, (Builtin, ExtRef, FuncVal)):
            return a is b
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if type(a) is not type(b):
            return False
        raise Unsupported(f'is on {a!r}, {b!r}')

    # --------------------------------------------------------- ordering
    def cmp(self, op, a, b):
        """op in < <= > >= ; a,b typed scalars; returns py/z3 bool"""
        if self.isconc(a) and self.isconc(b) and a is not None and \
                b is not None:
            import operator
            return {'<': operator.lt, '<=': operator.le, '>': operator.gt,
                    '>=': operator.ge}[op](a, b)
        na, nb = self.num(a), self.num(b)
        if na and nb:
            for x, o in ((a, op), (b, {'<': '>', '<=': '>=', '>': '<',
                                       '>=': '<='}[op])):
                if isinstance(x, float) and x != x:
                    return False
                if isinstance(x, float) and x in (INF, -INF):
                    return (o in ('<', '<=')) == (x < 0)
            if na[0] == nb[0] == 'int':
                x, y = na[1], nb[1]
            else:
                x, y = self.zr(*na), self.zr(*nb)
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
        if isinstance(a, SOpq) and isinstance(b, SOpq):
            f = V.opqlt
            return {'<': f(a.e, b.e), '>': f(b.e, a.e),
                    '<=': z3.Not(f(b.e, a.e)),
                    '>=': z3.Not(f(a.e, b.e))}[op]
        return None

    # ------------------------------------------------------- arithmetic
    def arith(self, op, a, b):
        """typed numeric arithmetic without zero checks"""
        if self.isconc(a) and self.isconc(b) and self.num(a) and self.num(b):
            import operator
            f = {'Add': operator.add, 'Sub': operator.sub,
                 'Mult': operator.mul, 'Div': operator.truediv,
                 'FloorDiv': operator.floordiv, 'Mod': operator.mod,
                 'Pow': operator.pow}[op]
            return f(a, b)
        (ka, ea), (kb, eb) = self.num(a), self.num(b)
        for x in (a, b):
            if isinstance(x, float) and (x != x or x in (INF, -INF)):
                raise Unsupported('arithmetic with infinity or nan')
        if op == 'Pow':
            if isinstance(b, int) and 0 <= b <= 4:
                r = 1
                for _ in range(b):
                    r = self.arith('Mult', r, a)
                return r
            raise Unsupported('power')
        if op == 'Div':
            return SReal(self.zr(ka, ea) / self.zr(kb, eb))
        if ka == kb == 'int':
            ea, eb = self.mkz(ea), self.mkz(eb)
            if op in ('FloorDiv', 'Mod'):
                if not z3.is_int_value(eb) and not boundvars(ea) and \
                        not boundvars(eb):
                    Z = z3.IntSort()
                    q = self.ufun('floordiv', Z, Z, Z)(ea, eb)
                    r = self.ufun('floormod', Z, Z, Z)(ea, eb)
                    self.assume(z3.And(
                        z3.Implies(eb != 0, ea == eb * q + r),
                        z3.Implies(eb > 0, z3.And(0 <= r, r < eb)),
                        z3.Implies(eb < 0, z3.And(eb < r, r <= 0)),
                        z3.Implies(z3.And(eb > 0, ea >= 0), q >= 0),
                        z3.Implies(z3.And(eb > 0, ea >= eb), q >= 1),
                        z3.Implies(z3.And(eb > 0, ea < eb), q <= 0)))
                    return self.mkint(q if op == 'FloorDiv' else r)
                return self.mkint((fdiv if op == 'FloorDiv' else fmod)(
                    ea, eb))
            return self.mkint({'Add': lambda: ea + eb, 'Sub': lambda: ea - eb,
                               'Mult': lambda: ea * eb}[op]())
        x, y = self.zr(ka, ea), self.zr(kb, eb)
        if op == 'FloorDiv':
            return SReal(z3.ToReal(z3.ToInt(x / y)))
        if op == 'Mod':
            return SReal(x - y * z3.ToReal(z3.ToInt(x / y)))
        return SReal(z3.simplify({'Add': lambda: x + y, 'Sub': lambda: x - y,
                                  'Mult': lambda: x * y}[op]()))

    # ---------------------------------------------------------- truth
    def truth(self, v):
        if isinstance(v, (bool, SBool)):
            return v.e if isinstance(v, SBool) else v
        if v is None:
            return False
        if isinstance(v, (int, float, str, tuple)):
            return bool(v)
        if isinstance(v, SInt):
            return v.e != 0
        if isinstance(v, SReal):
            return v.e != 0
        if isinstance(v, SStr):
            return v.e != V.strlit('')
        if isinstance(v, SOpq):
            return V.opqtrue(v.e)
        if isinstance(v, SVal):
            e = v.e
            return z3.Not(z3.Or(
                Val.is_VNone(e), z3.And(isnum(e), numof(e) == 0),
                z3.And(Val.is_VStr(e), Val.vs(e) == V.strlit('')),
                z3.And(Val.is_VOpq(e), z3.Not(V.opqtrue(Val.vo(e))))))
        if isinstance(v, HList):
            n = self.llen(v)
            return n > 0
        if isinstance(v, HDict):
            n = self.dlen(v)
            return n > 0
        if isinstance(v, HSet):
            n = self.slen(v)
            return n > 0
        if isinstance(v, IterV):
            return True
        if isinstance(v, HObj) and v.cls == 'NimVec':
            return self.truth(self.b_len([v.fields['cells']], {}))
        if isinstance(v, (FuncVal, BoundMethod, Builtin, UFunc, ExtRef)):
            return True
        return None

    # ------------------------------------------------------------- dict
    def keyz(self, d, k):
        """canonical key term"""
        if d.kty == 'val':
            e = self.z(k, 'val')
            if isinstance(k, (SVal,)):
                self.assumptions.add(
                    'dictionary keys of mixed type compare structurally '
                    '(1, 1.0 and True are never mixed as keys)')
            return e
        return self.z(k, d.kty)

    def dsym(self, d, kty=None, vty=None):
        if d.items is not None:
            kt, vt = kty, vty
            for k, v in d.items.items():
                kt = join(kt, self.ty(k))
                vt = join(vt, self.ty(v))
            if kt is None:
                d_empty = True
                if kty is None:
                    return
            if vt is None:
                vt = vty if vty is not None else 'val'
            dom = z3.K(zsort(kt), z3.BoolVal(False))
            val = self.fresh('dval', z3.ArraySort(zsort(kt), zsort(vt)))
            for k, v in d.items.items():
                kz = self.z(k, kt)
                dom = z3.Store(dom, kz, z3.BoolVal(True))
                val = z3.Store(val, kz, self.z(v, vt))
            n = z3.IntVal(len(d.items))
            for a, x in (('kty', kt), ('vty', vt), ('dom', dom),
                         ('val', val), ('n', n), ('items', None)):
                self.mut(d, a, x)
        else:
            if kty is not None and join(d.kty, kty) != d.kty:
                raise Unsupported('widening a dict key type')
            if vty is not None and join(d.vty, vty) != d.vty:
                nt = join(d.vty, vty)
                new = self.fresh('dcv', z3.ArraySort(zsort(d.kty), zsort(nt)))
                x = z3.Const('x!dcv', zsort(d.kty))
                self.assume(z3.ForAll([x], z3.Select(new, x) == self.z(
                    self.wrap(z3.Select(d.val, x), d.vty), nt)))
                self.mut(d, 'val', new)
                self.mut(d, 'vty', nt)

    def dlen(self, d):
        self.rd(d)
        if d.items is not None:
            return len(d.items)
        n = z3.simplify(d.n) if not isinstance(d.n, int) else d.n
        if z3.is_expr(n) and z3.is_int_value(n):
            return n.as_long()
        return n

    def dhas(self, d, k):
        self.rd(d)
        if isinstance(k, (HList, HObj, FuncVal, BoundMethod)) and \
                d.items is None:
            return False
        if d.items is not None:
            if self.hconc(k):
                return k in d.items
            if isinstance(k, HObj):
                return any(k is x for x in d.items)
            return z3or(*[self.eq(k, x) for x in d.items])
        try:
            kz = self.keyz(d, k)
        except Unsupported:
            # a key of another type is not in the dictionary
            kt = self.ty(k)
            if d.kty in SCALAR and kt in SCALAR and d.kty != 'val':
                if kt == 'val':
                    e = k.e
                    tests = {'int': (Val.is_VInt, Val.vi),
                             'str': (Val.is_VStr, Val.vs),
                             'bool': (Val.is_VBool, Val.vb),
                             'real': (Val.is_VReal, Val.vr),
                             'opq': (Val.is_VOpq, Val.vo)}[d.kty]
                    return z3.And(tests[0](e),
                                  z3.Select(d.dom, tests[1](e)))
                return False
            raise
        return z3.Select(d.dom, kz)

    def hconc(self, k):
        return self.isconc(k) or (isinstance(k, tuple)
                                  and all(self.hconc(x) for x in k))

    def dval(self, d, k):
        """value at a key that is present"""
        self.rd(d)
        if d.items is not None:
            if self.hconc(k):
                return d.items[k]
            ks = list(d.items)
            for x in ks[:-1]:
                if self.decide(self.eq(k, x)):
                    return d.items[x]
            return d.items[ks[-1]]
        if d.kty != 'val' and isinstance(k, SVal):
            acc = {'int': Val.vi, 'str': Val.vs, 'bool': Val.vb,
                   'real': Val.vr, 'opq': Val.vo}[d.kty]
            kz = acc(k.e)
        else:
            kz = self.keyz(d, k)
        e = z3.simplify(z3.Select(d.val, kz))
        return self.wrap(e, d.vty, wf=True)

    def dset(self, d, k, v):
        if not self.wr(d, ('store', k, v)):
            return
        if d.items is not None and self.hconc(k) and \
                all(self.hconc(x) for x in d.items):
            items = dict(d.items)
            items[k] = v
            self.mut(d, 'items', items)
            return
        kt, vt = self.ty(k), self.ty(v)
        self.mut(d, 'ver', d.ver + 1)
        self.dsym(d, kt, vt)
        kz, vz = self.keyz(d, k), self.z(v, d.vty)
        self.mut(d, 'n', z3.simplify(
            d.n + z3.If(z3.Select(d.dom, kz), 0, 1)))
        self.mut(d, 'dom', z3.Store(d.dom, kz, z3.BoolVal(True)))
        self.mut(d, 'val', z3.Store(d.val, kz, vz))
        self.mut(d, 'enum', None)

    def ddel(self, d, k):
        if not self.wr(d):
            return
        if d.items is not None and self.hconc(k):
            items = dict(d.items)
            del items[k]
            self.mut(d, 'items', items)
            return
        self.dsym(d)
        self.mut(d, 'ver', d.ver + 1)
        kz = self.keyz(d, k)
        self.mut(d, 'n', z3.simplify(d.n - 1))
        self.mut(d, 'dom', z3.Store(d.dom, kz, z3.BoolVal(False)))
        self.mut(d, 'enum', None)

    def denum(self, d):
        """(n, keys array) enumerating the domain of a symbolic dict/set"""
        if d.enum is None:
            ks = zsort(d.kty)
            keys = self.fresh('keys', z3.ArraySort(z3.IntSort(), ks))
            pos = self.freshfun('pos', ks, z3.IntSort())
            i = z3.Int('i!en')
            x = z3.Const('x!en', ks)
            n = d.n if z3.is_expr(d.n) else z3.IntVal(d.n)
            self.assume(n >= 0)
            self.assume(z3.ForAll([i], z3.Implies(
                z3.And(0 <= i, i < n),
                z3.And(z3.Select(d.dom, z3.Select(keys, i)),
                       pos(z3.Select(keys, i)) == i)),
                patterns=[z3.Select(keys, i)]))
            self.assume(z3.ForAll([x], z3.Implies(
                z3.Select(d.dom, x),
                z3.And(0 <= pos(x), pos(x) < n,
                       z3.Select(keys, pos(x)) == x)),
                patterns=[z3.Select(d.dom, x)]
                if z3.is_const(d.dom) else [pos(x)]))
            self.mut(d, 'enum', (n, keys))
        return d.enum

    # -------------------------------------------------------------- set
    def ssym(self, s, kty=None):
        if s.items is not None:
            kt = kty
            for k in s.items:
                kt = join(kt, self.ty(k))
            if kt is None:
                return
            dom = z3.K(zsort(kt), z3.BoolVal(False))
            for k in s.items:
                dom = z3.Store(dom, self.z(k, kt), z3.BoolVal(True))
            for a, x in (('kty', kt), ('dom', dom),
                         ('n', z3.IntVal(len(s.items))), ('items', None)):
                self.mut(s, a, x)

    def slen(self, s):
        self.rd(s)
        if s.items is not None:
            return len(s.items)
        return s.n

    def shas(self, s, k):
        self.rd(s)
        if s.items is not None:
            if self.hconc(k) and all(self.hconc(x) for x in s.items):
                return k in s.items
            return z3or(*[self.eq(k, x) for x in s.items])
        return self.dhas_like(s, k)

    def dhas_like(self, s, k):
        d = HDict(None, s.kty, 'val', s.dom, None, s.n)
        d.alloc = s.alloc
        return self.dhas(d, k)

    def sadd(self, s, k):
        if not self.wr(s, ('add', k)):
            return
        if s.items is not None and self.hconc(k) and \
                all(self.hconc(x) for x in s.items):
            if k not in s.items:
                self.mut(s, 'items', s.items + [k])
            return
        self.ssym(s, self.ty(k))
        kz = self.keyz(s, k)
        self.mut(s, 'n', z3.simplify(
            s.n + z3.If(z3.Select(s.dom, kz), 0, 1)))
        self.mut(s, 'dom', z3.Store(s.dom, kz, z3.BoolVal(True)))
        self.mut(s, 'enum', None)

    def sdel(self, s, k):
        if not self.wr(s):
            return
        if s.items is not None and self.hconc(k):
            self.mut(s, 'items', [x for x in s.items if x != k])
            return
        self.ssym(s)
        kz = self.keyz(s, k)
        self.mut(s, 'n', z3.simplify(
            s.n - z3.If(z3.Select(s.dom, kz), 1, 0)))
        self.mut(s, 'dom', z3.Store(s.dom, kz, z3.BoolVal(False)))
        self.mut(s, 'enum', None)

    def symset(self, kty, member):
        """fresh set {x | member(x)}; cardinality unknown"""
        ks = zsort(kty)
        dom = self.fresh('set', z3.ArraySort(ks, z3.BoolSort()))
        x = z3.Const('x!ss', ks)
        self.assume(z3.ForAll([x], z3.Select(dom, x) == toz(member(x)),
                              patterns=[z3.Select(dom, x)]))
        n = self.fresh('card', z3.IntSort())
        self.assume(n >= 0)
        self.assume(z3.ForAll([x], z3.Implies(z3.Select(dom, x), n > 0),
                              patterns=[z3.Select(dom, x)]))
        y = z3.Const(f'wit!{self.bump()}', ks)
        self.freshlog.append(y)
        self.assume(z3.Implies(n > 0, z3.Select(dom, y)))
        s = self.new(HSet(None, kty, dom, n))
        return s
