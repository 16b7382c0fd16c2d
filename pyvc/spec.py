"""Evaluation of specification expressions.

A specification is the text of a Python expression.  It is evaluated in two
ways from this one text: symbolically (here; quantifiers come from all()/any()
over generators, nothing forks) and natively (native_env/eval) against values
of a real execution, as the runtime oracle of replays and bounded checks.
"""
import ast
import z3
from .values import *
from . import values as V
from .ops import z3and, z3or, z3not, z3imp, toz, CMP
from .source import ClassInfo
from .engine import PathEnd
from .spec_native import OldRename

UNROLLQ = 12


class SpecError(Exception):
    pass


_cache = {}


def parse(text, names):
    key = (text, tuple(sorted(names)))
    if key not in _cache:
        t = ast.parse(text.strip(), mode='eval')
        t = OldRename(set(names)).visit(t)
        ast.fix_missing_locations(t)
        _cache[key] = t
    return _cache[key]


def load_macros(path):
    """functions of a specification module: name -> (params, lets, expr)"""
    with open(path) as f:
        tree = ast.parse(f.read())
    out = {}
    for st in tree.body:
        if isinstance(st, ast.FunctionDef):
            lets, ret = [], None
            ok = True
            for b in st.body:
                if isinstance(b, ast.Assign) and isinstance(
                        b.targets[0], ast.Name):
                    lets.append((b.targets[0].id, b.value))
                elif isinstance(b, ast.Return):
                    ret = b.value
                elif isinstance(b, ast.Expr):
                    pass
                else:
                    ok = False
            if ok and ret is not None:
                out[st.name] = ([a.arg for a in st.args.args], lets, ret)
    return out


class Spec:
    def __init__(self, eng, macros=None, funcs=None):
        self.eng = eng
        self.macros = macros or {}
        self.funcs = funcs or {}

    def formula(self, text, env, names):
        """-> z3 boolean"""
        e = self.eng
        old = e.inspec
        e.inspec = True
        try:
            return toz(self.truth(self.ev(parse(text, names).body, env)))
        finally:
            e.inspec = old

    def value(self, text, env, names):
        e = self.eng
        old = e.inspec
        e.inspec = True
        try:
            return self.ev(parse(text, names).body, env)
        finally:
            e.inspec = old

    def truth(self, v):
        if z3.is_expr(v) and z3.is_bool(v):
            return v
        t = self.eng.truth(v)
        if t is None:
            return True
        return t

    # ------------------------------------------------------------------
    def ev(self, n, env):
        return getattr(self, 'x_' + type(n).__name__)(n, env)

    def b(self, n, env):
        return self.truth(self.ev(n, env))

    def x_Constant(self, n, env):
        return n.value

    def x_Name(self, n, env):
        if n.id in env:
            return env[n.id]
        if n.id in ('int', 'str', 'float', 'bool', 'list', 'tuple', 'dict',
                    'set'):
            return Builtin(n.id, None)
        if n.id in ('nan', 'inf'):
            return float(n.id)
        if n.id in self.macros or n.id in self.funcs:
            return ('#macro', n.id)
        raise SpecError(f'name {n.id} in a specification')

    def x_Tuple(self, n, env):
        return tuple(self.ev(x, env) for x in n.elts)

    def x_List(self, n, env):
        return HList(items=[self.ev(x, env) for x in n.elts])

    def x_Dict(self, n, env):
        return HDict(items={self.ev(k, env): self.ev(v, env)
                            for k, v in zip(n.keys, n.values)})

    def x_Set(self, n, env):
        return HSet(items=[self.ev(x, env) for x in n.elts])

    def x_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        out = []
        for v in n.values:
            t = self.b(v, env)
            if isinstance(t, bool):
                if t != isand:
                    # short circuit keeps ill-typed tails from being read
                    return not isand if not out else SBool(toz(
                        (z3and if isand else z3or)(*out, t)))
                continue
            out.append(t)
        r = (z3and if isand else z3or)(*out)
        return self.eng.mkbool(toz(r))

    def x_UnaryOp(self, n, env):
        if isinstance(n.op, ast.Not):
            return self.eng.mkbool(toz(z3not(self.b(n.operand, env))))
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            return self.eng.arith('Sub', 0, self.asnum(v))
        raise SpecError('unary')

    def asnum(self, v):
        """mixed value used as a number (value must be numeric there)"""
        if isinstance(v, SVal):
            from .ops import numof
            return SReal(numof(v.e))
        return v

    def x_BinOp(self, n, env):
        a, b = self.ev(n.left, env), self.ev(n.right, env)
        op = type(n.op).__name__
        if op == 'Add' and isinstance(a, HList) and isinstance(b, HList):
            return self.eng.list_concat(a, b)
        if op == 'Add' and isinstance(a, (str, SStr)):
            return self.eng.strcat(a, b)
        if op == 'Mult' and isinstance(a, HList):
            return self.eng.list_repeat(a, b)
        a, b = self.asnum(a), self.asnum(b)
        if self.eng.num(a) is None or self.eng.num(b) is None:
            raise SpecError(f'arithmetic on {a!r} and {b!r}')
        return self.eng.arith(op, a, b)

    def x_Compare(self, n, env):
        left = self.ev(n.left, env)
        out = []
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(rn, env)
            out.append(self.cmp1(type(op).__name__, left, right))
            left = right
        return self.eng.mkbool(toz(z3and(*out)))

    def cmp1(self, op, a, b):
        e = self.eng
        if op in ('Eq', 'NotEq'):
            r = e.eq(a, b)
            return r if op == 'Eq' else z3not(r)
        if op in ('Is', 'IsNot'):
            r = e.is_(a, b)
            return r if op == 'Is' else z3not(r)
        if op in ('In', 'NotIn'):
            if isinstance(b, RangeV):
                r = z3and(e.cmp('<=', b.lo, a), e.cmp('<', a, b.hi))
            else:
                r = e.contains(b, a)
            return r if op == 'In' else z3not(r)
        if isinstance(a, SVal) or isinstance(b, SVal):
            return self.ordv(CMP[op], e.z(a, 'val'), e.z(b, 'val'))
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return e.compare(op, a, b)
        r = e.cmp(CMP[op], a, b)
        if r is None:
            raise SpecError(f'ordering of {a!r} and {b!r}')
        return r

    def ordv(self, op, a, b):
        """numerical order of mixed values (numbers there), with nan and
        the infinities"""
        from .ops import numof
        if op in ('>', '>='):
            a, b, op = b, a, {'>': '<', '>=': '<='}[op]
        fin = lambda x: z3.Not(z3.Or(Val.is_VPInf(x), Val.is_VNInf(x)))
        lt = z3.Or(z3.And(Val.is_VNInf(a), z3.Not(Val.is_VNInf(b))),
                   z3.And(Val.is_VPInf(b), z3.Not(Val.is_VPInf(a))),
                   z3.And(fin(a), fin(b), numof(a) < numof(b)))
        if op == '<=':
            lt = z3.Or(lt, z3.And(fin(a), fin(b), numof(a) == numof(b)),
                       z3.And(Val.is_VPInf(a), Val.is_VPInf(b)),
                       z3.And(Val.is_VNInf(a), Val.is_VNInf(b)))
        return z3.And(z3.Not(Val.is_VNaN(a)), z3.Not(Val.is_VNaN(b)), lt)

    def x_IfExp(self, n, env):
        t = self.b(n.test, env)
        if isinstance(t, bool):
            return self.ev(n.body if t else n.orelse, env)
        t = z3.simplify(t)
        if z3.is_true(t):
            return self.ev(n.body, env)
        if z3.is_false(t):
            return self.ev(n.orelse, env)
        a, b = self.ev(n.body, env), self.ev(n.orelse, env)
        return self.ite(t, a, b)

    def ite(self, t, a, b):
        e = self.eng
        if a is b:
            return a
        if isinstance(a, HList) and isinstance(b, HList):
            ty = join(e.ty(a)[1], e.ty(b)[1])
            na, aa = e.larr(a, ty)
            nb, ab = e.larr(b, ty)
            return HList(n=z3.If(t, na, nb), arr=z3.If(t, aa, ab), ety=ty)
        ta, tb = e.ty(a), e.ty(b)
        if ta in ('int', 'real') and tb in ('int', 'real') and ta != tb:
            ty = 'real'
        else:
            ty = join(ta, tb)
        return e.wrap(z3.If(t, e.z(a, ty), e.z(b, ty)), ty)

    def x_Attribute(self, n, env):
        o = self.ev(n.value, env)
        if isinstance(o, HObj):
            if n.attr in o.fields:
                v = o.fields[n.attr]
                return v
            m = self.funcs.get('.' + n.attr)
            if m is not None:
                return m(self.eng, o)
            raise SpecError(f'field {n.attr}')
        if isinstance(o, (Slice, RangeV)) and n.attr in ('start', 'stop', 'step'):
            return {'start': o.lo, 'stop': o.hi, 'step': o.step}[n.attr]
        raise SpecError(f'attribute {n.attr} of {o!r}')

    def x_Subscript(self, n, env):
        o = self.ev(n.value, env)
        e = self.eng
        if isinstance(n.slice, ast.Slice):
            s = n.slice
            sl = Slice(*[None if x is None else self.ev(x, env)
                         for x in (s.lower, s.upper, s.step)])
            if isinstance(o, HList):
                return e.lslice(o, sl)
            raise SpecError('slice')
        ix = self.ev(n.slice, env)
        if isinstance(o, HList):
            if isinstance(ix, int) and not isinstance(ix, bool) and ix < 0:
                ln = e.llen(o)
                ix = e.mkint(ln + ix) if not isinstance(ln, int) else ln + ix
            if isinstance(ix, SVal):
                ix = SInt(Val.vi(ix.e))
            i = e.zi(ix)
            if o.items is not None and isinstance(i, int):
                if not 0 <= i < len(o.items):
                    return self.junk(o)
                return o.items[i]
            if o.items is not None and not o.items:
                return self.junk(o)
            if o.items is not None:
                try:
                    e.ty(o)
                except Unsupported:
                    r = o.items[-1]
                    raise SpecError('symbolic index of a mixed list')
            return self.lget(o, i)
        if isinstance(o, tuple):
            if isinstance(ix, int):
                return o[ix]
            return self.lget(HList(items=list(o)), e.zi(ix))
        if isinstance(o, HDict):
            if o.items is not None and e.hconc(ix):
                if ix not in o.items:
                    return self.junk(None)
                return o.items[ix]
            if o.items is not None:
                r = None
                for k, v in o.items.items():
                    c = toz(e.eq(ix, k))
                    r = v if r is None else self.ite(c, v, r)
                if r is None:
                    return self.junk(None)
                return r
            return e.dval(o, ix)
        if o is None or isinstance(o, SVal):
            return self.junk(o)
        if isinstance(o, HArr2):
            i, j = (e.mkz(e.zi(x)) for x in ix)
            return e.wrap(z3.Select(z3.Select(o.arr, i), j), o.ety)
        raise SpecError(f'subscript of {o!r}')

    def lget(self, o, i):
        e = self.eng
        t = e.ty(o)[1]
        n, arr = e.larr(o, t)
        return e.wrap(z3.simplify(z3.Select(arr, i)), t)

    def junk(self, o):
        """out-of-range access: an arbitrary value"""
        return self.eng.freshv('junk', 'val')

    def x_Call(self, n, env):
        e = self.eng
        if isinstance(n.func, ast.Name):
            f = n.func.id
            if f in ('all', 'any') and len(n.args) == 1 and isinstance(
                    n.args[0], ast.GeneratorExp):
                return e.mkbool(toz(self.quant(f, n.args[0], 0, env)))
            if f == 'sum' and isinstance(n.args[0], ast.GeneratorExp):
                return self.summ(n.args[0], env)
            if f in env and isinstance(env[f], (UFunc,)):
                return e.callufunc(env[f], [self.ev(x, env)
                                            for x in n.args])
            if f in env and isinstance(env[f], ItemFn):
                return env[f].get(e.zi(self.ev(n.args[0], env)))
            if f == 'entry':
                # the value when the loop was entered
                v = self.ev(n.args[0], env)
                return e.entry_old.get(id(v), v)
            if f == 'implies':
                a = self.b(n.args[0], env)
                if a is False or (z3.is_expr(a) and
                                  z3.is_false(z3.simplify(a))):
                    return True
                return e.mkbool(toz(z3imp(a, self.b(n.args[1], env))))
            if f == 'iff':
                return e.mkbool(toz(self.b(n.args[0], env)) ==
                                toz(self.b(n.args[1], env)))
            if f in self.funcs:
                return self.funcs[f](self, *[self.ev(x, env)
                                             for x in n.args])
            if f in self.macros:
                params, lets, ret = self.macros[f]
                ne = {k: v for k, v in env.items() if k.startswith('#')}
                for p, x in zip(params, n.args):
                    ne[p] = self.ev(x, env)
                for nm, x in lets:
                    ne[nm] = self.ev(x, ne)
                return self.ev(ret, ne)
            if f == 'len':
                v = self.ev(n.args[0], env)
                if isinstance(v, SVal):
                    # of an out-of-range access: an arbitrary number
                    return e.freshv('junk', 'int')
                return e.b_len([v], {})
            if f == 'range':
                a = [self.ev(x, env) for x in n.args]
                return RangeV(0, a[0], 1) if len(a) == 1 else RangeV(
                    a[0], a[1], 1)
            if f in ('min', 'max') and len(n.args) == 2:
                a, b = [self.asnum(self.ev(x, env)) for x in n.args]
                c = e.cmp('<' if f == 'min' else '>', a, b)
                return self.ite(toz(c), a, b)
            if f in ('asint', 'asreal', 'asstr'):
                v = self.ev(n.args[0], env)
                if isinstance(v, SVal):
                    return {'asint': lambda: SInt(Val.vi(v.e)),
                            'asreal': lambda: SReal(Val.vr(v.e)),
                            'asstr': lambda: SStr(Val.vs(v.e))}[f]()
                return v
            if f == 'abs':
                return e.b_abs([self.asnum(self.ev(n.args[0], env))], {})
            if f == 'close':
                # equality of the mathematical values (rounding ignored when
                # evaluated on real inputs)
                a, b = [self.ev(x, env) for x in n.args]
                return e.mkbool(toz(e.eq(a, b)))
            if f == 'sqrt':
                return e.sqrtof(self.asnum(self.ev(n.args[0], env)))
            if f == 'isinstance':
                v = self.ev(n.args[0], env)
                t = self.ev(n.args[1], env)
                return e.mkbool(toz(e.typetest(v, t)))
            if f == 'bool':
                return e.mkbool(toz(self.b(n.args[0], env)))
            if f == 'set' and n.args:
                v = self.ev(n.args[0], env)
                return self.toset(v)
            if f == 'list':
                v = self.ev(n.args[0], env)
                return e.b_list([v], {})
            if f == 'str':
                return e.tostr(self.ev(n.args[0], env))
            if f == 'countin':
                # how many of 0..k-1 are elements of the set of integers
                st, k = [self.ev(x, env) for x in n.args]
                return e.countin(self.toset(st), e.zi(k))
            if f == 'countof':
                # how many of the first k elements equal x
                l, x, k = [self.ev(y, env) for y in n.args]
                return e.countof(l, x, e.zi(k))
            if f == 'sumof':
                # sum of the first k elements
                l, k = [self.ev(x, env) for x in n.args]
                ln, arr = e.larr(l)
                fn = e.sumfun(l.ety if l.items is None else e.ty(l)[1])
                r = fn(arr, e.mkz(e.zi(k)))
                return SInt(r) if fn.range() == z3.IntSort() else SReal(r)
        if isinstance(n.func, ast.Attribute):
            o = self.ev(n.func.value, env)
            args = [self.ev(x, env) for x in n.args]
            if isinstance(o, HDict) and n.func.attr == 'get':
                h = toz(e.dhas(o, args[0]))
                d = args[1] if len(args) > 1 else None
                if z3.is_false(z3.simplify(h)):
                    return d
                return self.ite(h, self.x_dval(o, args[0]), d)
            if isinstance(o, (str, SStr)):
                return e.strmethod(o, n.func.attr, args, {})
            if isinstance(o, HObj) and n.func.attr in o.fields and \
                    isinstance(o.fields[n.func.attr], UFunc):
                return e.callufunc(o.fields[n.func.attr], args)
        f = self.ev(n.func, env)
        if isinstance(f, UFunc):
            return e.callufunc(f, [self.ev(x, env) for x in n.args])
        raise SpecError(f'call {ast.dump(n.func)} in a specification')

    def x_dval(self, o, k):
        if o.items is not None:
            return self.x_items(o, k)
        return self.eng.dval(o, k)

    def x_items(self, o, k):
        r = None
        for kk, v in o.items.items():
            c = toz(self.eng.eq(k, kk))
            r = v if r is None else self.ite(c, v, r)
        return r

    def toset(self, v):
        e = self.eng
        if isinstance(v, HSet):
            return v
        if isinstance(v, HList):
            t = e.ty(v)[1]
            if t is None:
                return HSet(items=[])
            n, arr = e.larr(v, t)
            i = z3.Int(f'i!{e.bump()}')
            return e.symset(t, lambda x: z3.Exists([i], z3.And(
                0 <= i, i < n, z3.Select(arr, i) == x)))
        raise SpecError('set()')

    def summ(self, g, env):
        """sum(elt for v in range(k) | list [if cond])"""
        e = self.eng
        if len(g.generators) != 1:
            raise SpecError('nested sum')
        gen = g.generators[0]
        src = self.ev(gen.iter, env)
        if isinstance(src, RangeV):
            lo, hi = e.zi(src.lo), e.zi(src.hi)
            if not (isinstance(lo, int) and lo == 0):
                raise SpecError('sum from')
            get = lambda i: SInt(i)
        elif isinstance(src, HList):
            if src.items is not None:
                r = 0
                for x in src.items:
                    ne = dict(env)
                    self.bindt(gen.target, x, ne)
                    v = self.asnum(self.ev(g.elt, ne))
                    for c in gen.ifs:
                        v = self.ite(toz(self.b(c, ne)), v, 0)
                    r = e.arith('Add', r, v)
                return r
            hi = e.llen(src)
            get = lambda i: self.lget(src, i)
        else:
            raise SpecError(f'sum over {src!r}')
        ty = []

        def body(i):
            ne = dict(env)
            self.bindt(gen.target, get(i), ne)
            v = self.asnum(self.ev(g.elt, ne))
            t = e.ty(v)
            if t not in ('int', 'real', 'bool'):
                raise SpecError('sum of non-numbers')
            t = 'real' if t == 'real' else 'int'
            ty.append(t)
            z = e.z(v, t)
            for c in gen.ifs:
                z = z3.If(toz(self.b(c, ne)), z,
                          z3.RealVal(0) if t == 'real' else z3.IntVal(0))
            return z
        body(z3.Int('i!sumspec'))
        return e.sumspec(body, ty[0], hi)

    # ------------------------------------------------------- quantifiers
    def quant(self, kind, g, level, env):
        e = self.eng
        if level == len(g.generators):
            return self.b(g.elt, env)
        gen = g.generators[level]
        src = self.ev(gen.iter, env)

        def inner(env2):
            conds = [toz(self.b(c, env2)) for c in gen.ifs]
            r = self.quant(kind, g, level + 1, env2)
            if conds:
                c = z3and(*conds)
                r = z3imp(c, r) if kind == 'all' else z3and(c, r)
            return r

        def bind(v):
            ne = dict(env)
            self.bindt(gen.target, v, ne)
            return ne

        if isinstance(src, tuple) or (isinstance(src, HList)
                                      and src.items is not None):
            items = src if isinstance(src, tuple) else src.items
            rs = [inner(bind(v)) for v in items]
            return z3and(*rs) if kind == 'all' else z3or(*rs)
        if isinstance(src, RangeV):
            lo, hi = e.zi(src.lo), e.zi(src.hi)
            if isinstance(lo, int) and isinstance(hi, int) and \
                    hi - lo <= UNROLLQ:
                rs = [inner(bind(i)) for i in range(lo, hi)]
                return z3and(*rs) if kind == 'all' else z3or(*rs)
            i = z3.Int(f'q!{e.bump()}')
            return self.close(kind, i, z3.And(lo <= i, i < hi),
                              inner(bind(SInt(i))))
        if isinstance(src, HList):
            n = e.llen(src)
            i = z3.Int(f'q!{e.bump()}')
            return self.close(kind, i, z3.And(0 <= i, i < n),
                              inner(bind(self.lget(src, i))))
        if isinstance(src, HDict) or isinstance(src, HSet):
            if src.items is not None:
                rs = [inner(bind(v)) for v in src.items]
                return z3and(*rs) if kind == 'all' else z3or(*rs)
            x = z3.Const(f'q!{e.bump()}', zsort(src.kty))
            return self.close(kind, x, z3.Select(src.dom, x),
                              inner(bind(e.wrap(x, src.kty))))
        raise SpecError(f'quantification over {src!r}')

    def close(self, kind, x, rng, body):
        body = toz(body)
        if kind == 'all':
            return z3.ForAll([x], z3.Implies(rng, body))
        return z3.Exists([x], z3.And(rng, body))

    def bindt(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        else:
            for x, y in zip(t.elts, v):
                self.bindt(x, y, env)


class ItemFn:
    """item(j): what iteration j of the loop binds"""

    def __init__(self, get):
        self.get = get
