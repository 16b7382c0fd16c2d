"""Symbolic interpreter for the verified Python subset."""
import ast
import builtins as _bi
import z3
from .values import *
from . import values as V
from .engine import (Engine, Frame, Tracker, PathEnd, Restart, Carried,
                     BreakEx, ContinueEx, ReturnEx)
from .ops import Ops, z3and, z3or, z3not, z3imp, toz, isnum, numof, CMP
from .source import ClassInfo
from .loops import LoopsMixin
from .lib import LibMixin

UNROLL = 8

BUILTIN_EXC = {n: getattr(_bi, n) for n in dir(_bi)
               if isinstance(getattr(_bi, n), type)
               and issubclass(getattr(_bi, n), BaseException)}

# decorators whose effect is only documentation, logging or argument checks
# that do not change the result; their removal is reported by the checks
DROPPED_DECORATORS = {
    'limitedTo2D', 'prepLog', 'staticmethod', 'classmethod', 'property',
    'functools.wraps', 'abstractmethod', 'inheritDocstringsFactory',
    'numericRequired', 'performanceFunction', 'trackEntry', 'pyplotRequired',
    'wraps', 'contextmanager', 'contextlib.contextmanager', 'cached_property',
    'setter', 'exceptionDocstring'}


def decname(d):
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Attribute):
        return d.attr
    if isinstance(d, ast.Name):
        return d.id
    return '?'


import os as _os
DEBUGEXC = _os.environ.get('PYVC_EXC')


class Interp(LoopsMixin, LibMixin, Ops):
    # ------------------------------------------------------- exceptions
    def exc(self, name, node=None):
        if DEBUGEXC == name:
            import traceback
            traceback.print_stack(limit=8)
        return PyExc(BUILTIN_EXC[name], (), node)

    def excname(self, cls):
        return cls.name if isinstance(cls, ClassInfo) else cls.__name__

    def excmatch(self, cls, handler):
        if isinstance(handler, tuple):
            return any(self.excmatch(cls, h) for h in handler)
        if isinstance(handler, HList):
            return any(self.excmatch(cls, h) for h in handler.items)
        hs = self.excbases(cls)
        if isinstance(handler, Builtin):
            handler = BUILTIN_EXC.get(handler.name)
        if isinstance(handler, ExtRef):
            return any(f'{h.__module__}.{h.__name__}' == handler.name
                       for h in hs if isinstance(h, type))
        return any(h is handler for h in hs)

    def excbases(self, cls):
        if isinstance(cls, ClassInfo):
            out = []
            for c in cls.mro(self.loader):
                if isinstance(c, ClassInfo):
                    out.append(c)
                elif c[0] == 'builtin':
                    out.extend(BUILTIN_EXC[c[1]].__mro__)
            return out
        return list(cls.__mro__)

    # ------------------------------------------------------------ names
    def lookup(self, fr, name):
        f = fr
        while f is not None:
            if name in f.vars and not (f is fr and name in f.globals):
                v = f.vars[name]
                if isinstance(v, Poison):
                    raise self.poisoned(v, name)
                if v is UNDEF:
                    raise self.exc('UnboundLocalError')
                return v
            if f is fr and name in f.globals:
                break
            f = f.parent
        return self.glob(fr.module, name)

    def poisoned(self, p, name):
        if any(getattr(t, 'site', None) == p.site for t in self.trackers):
            return Carried(f'local {name} carried')
        info = self.loopinfo[p.site]
        if info.mode == 'summary':
            info.mode = 'inv'
            info.why = f'local {name} used after the loop'
            return Restart()
        return Unsupported(f'{name} after loop')

    def glob(self, mod, name):
        key = ('glob', mod.name, name)
        if key in self.ghost:
            return self.ghost[key]
        if (mod.name, name) in self.globals_override:
            return self.globals_override[(mod.name, name)]
        r = self.loader.lookup(mod, name)
        if r is None:
            if name in BUILTIN_EXC:
                return BUILTIN_EXC[name]
            b = getattr(self, 'b_' + name, None)
            if b is not None or name in ('int', 'str', 'float', 'bool',
                                         'list', 'tuple', 'dict', 'set',
                                         'type', 'object', 'slice',
                                         'bytes', 'complex', 'frozenset',
                                         'range', 'property'):
                return Builtin(name, b)
            if hasattr(_bi, name):
                return Builtin(name, None)
            raise self.exc('NameError')
        return self.resolved(r)

    globals_override = {}

    def resolved(self, r):
        if isinstance(r, ClassInfo):
            return r
        if r[0] == 'func':
            return FuncVal(r[2], r[1], None, None, r[2].name)
        if r[0] == 'mod':
            return ModRef(r[1])
        if r[0] == 'ext':
            return ExtRef(r[1])
        if r[0] == 'builtin':
            return Builtin(r[1], getattr(self, 'b_' + r[1], None))
        if r[0] == 'expr':
            key = ('glob', r[1].name, r[3])
            if key not in self.ghost:
                if (r[1].name, r[3]) in self.globals_override:
                    return self.globals_override[(r[1].name, r[3])]
                v = self.expr(r[2], Frame(r[1]))
                self.ghost[key] = v
            return self.ghost[key]
        raise Unsupported(f'global {r}')

    def assign_name(self, fr, name, v):
        if name in fr.globals:
            self.mutd(self.ghost, ('glob', fr.module.name, name), v)
            return
        f = fr
        if name in fr.nonlocals:
            f = fr.parent
            while name not in f.vars:
                f = f.parent
        self.mutd(f.vars, name, v)

    # ------------------------------------------------------- statements
    def block(self, body, fr):
        for st in body:
            self.stmt(st, fr)

    def stmt(self, st, fr):
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(st).__name__} '
                              f'line {st.lineno}')
        m(st, fr)

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.expr(st.value, fr)

    def s_Pass(self, st, fr):
        pass

    def s_Assign(self, st, fr):
        v = self.expr(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.expr(st.value, fr), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign_name(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts)
                    if isinstance(x, ast.Starred)]
            if star:
                raise Unsupported('starred assignment')
            vals = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vals):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.expr(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.expr(t.value, fr), self.index(t.slice, fr), v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n:
                raise self.exc('ValueError')
            return v
        if isinstance(v, HList):
            ln = self.llen(v)
            if isinstance(ln, int):
                if ln != n:
                    raise self.exc('ValueError')
            elif not self.decide(ln == n):
                raise self.exc('ValueError')
            return [self.lget(v, i) for i in range(n)]
        if v is None or isinstance(v, (int, SInt)):
            raise self.exc('TypeError')
        raise Unsupported(f'unpack {v!r}')

    def s_AugAssign(self, st, fr):
        t = st.target
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(fr, t.id)
            new = self.augop(op, cur, self.expr(st.value, fr))
            self.assign_name(fr, t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, fr)
            new = self.augop(op, self.getattr(o, t.attr),
                             self.expr(st.value, fr))
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, fr)
            ix = self.index(t.slice, fr)
            cur = self.getitem(o, ix)
            self.setitem(o, ix, self.augop(op, cur,
                                           self.expr(st.value, fr)))

    def augop(self, op, cur, v):
        if isinstance(cur, HList) and op == 'Add' and not cur.istuple:
            self.list_extend(cur, v)
            return cur
        if isinstance(cur, HSet) and op in ('BitOr', 'Sub', 'BitAnd'):
            raise Unsupported('in-place set operator')
        if isinstance(cur, HObj):
            m = self.models.get((self.clsname(cur), 'inplace'))
            if m is not None:
                m(self, op, cur, v)
                return cur
        return self.binop(op, cur, v)

    def s_If(self, st, fr):
        if self.cond(st.test, fr):
            self.block(st.body, fr)
        else:
            self.block(st.orelse, fr)

    def s_Return(self, st, fr):
        raise ReturnEx(self.expr(st.value, fr) if st.value else None)

    def s_Raise(self, st, fr):
        if st.exc is None:
            cur = self.curexc[-1] if self.curexc else None
            if cur is None:
                raise self.exc('RuntimeError')
            raise cur
        e = self.raisable(st.exc, fr)
        e.node = st
        raise e

    def raisable(self, node, fr):
        if isinstance(node, ast.Call):
            f = self.expr(node.func, fr)
            if self.isexc(f):
                args = []
                for a in node.args:
                    try:
                        args.append(self.expr(a, fr))
                    except Unsupported:
                        args.append(None)
                return PyExc(f, tuple(args), node)
        v = self.expr(node, fr)
        if isinstance(v, PyExc):
            return v
        if self.isexc(v):
            return PyExc(v, (), node)
        if isinstance(v, HObj) and v.fields.get('#exc'):
            return v.fields['#exc']
        raise Unsupported(f'raise {v!r}')

    def isexc(self, f):
        if isinstance(f, type):
            return issubclass(f, BaseException)
        if isinstance(f, ClassInfo):
            return any(isinstance(c, tuple) and c[0] == 'builtin'
                       and c[1] in BUILTIN_EXC
                       for c in f.mro(self.loader))
        return False

    curexc = []

    def s_Try(self, st, fr):
        try:
            try:
                self.block(st.body, fr)
            except PyExc as e:
                for h in st.handlers:
                    ht = None if h.type is None else self.expr(h.type, fr)
                    if h.type is None or self.excmatch(e.cls, ht):
                        if h.name:
                            self.assign_name(fr, h.name, self.excobj(e))
                        self.curexc.append(e)
                        try:
                            self.block(h.body, fr)
                        finally:
                            self.curexc.pop()
                        break
                else:
                    raise
            else:
                self.block(st.orelse, fr)
        except (PyExc, ReturnEx, BreakEx, ContinueEx):
            if st.finalbody:
                self.block(st.finalbody, fr)
            raise
        else:
            if st.finalbody:
                self.block(st.finalbody, fr)

    def excobj(self, e):
        o = self.new(HObj(e.cls if isinstance(e.cls, ClassInfo) else None,
                          {'#exc': e, 'args': tuple(e.pargs),
                           'value': e.pargs[0] if e.pargs else None}))
        return o

    def s_Assert(self, st, fr):
        if not self.cond(st.test, fr):
            raise self.exc('AssertionError')

    def s_FunctionDef(self, st, fr):
        f = self.closure(st, fr, st.name)
        for d in reversed(st.decorator_list):
            if decname(d) not in DROPPED_DECORATORS:
                f = self.call(self.expr(d, fr), [f], {}, st)
        self.assign_name(fr, st.name, f)

    def closure(self, node, fr, name):
        a = node.args
        defs = [self.expr(d, fr) for d in a.defaults]
        kwd = [None if d is None else (self.expr(d, fr),)
               for d in a.kw_defaults]
        return FuncVal(node, fr.module, fr, fr.cls, name, (defs, kwd))

    def s_Import(self, st, fr):
        for a in st.names:
            nm = a.asname or a.name.split('.')[0]
            tgt = a.name if a.asname else a.name.split('.')[0]
            m = self.loader.module(tgt) if self.loader.path(tgt) else None
            self.assign_name(fr, nm, ModRef(m) if m else ExtRef(tgt))

    def s_ImportFrom(self, st, fr):
        base = fr.module.relbase(st)
        for a in st.names:
            if self.loader.path(base):
                r = self.loader.lookup(self.loader.module(base), a.name)
                v = self.resolved(r) if r is not None else ExtRef(
                    base + '.' + a.name)
            else:
                v = ExtRef(base + '.' + a.name)
            self.assign_name(fr, a.asname or a.name, v)

    def s_Global(self, st, fr):
        fr.globals.update(st.names)

    def s_Nonlocal(self, st, fr):
        fr.nonlocals.update(st.names)

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.mutd(fr.vars, t.id, UNDEF)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.expr(t.value, fr), self.index(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.expr(t.value, fr)
                if not self.wr(o):
                    raise Carried()
                self.mutdel(o.fields, t.attr)

    def s_Break(self, st, fr):
        raise BreakEx()

    def s_Continue(self, st, fr):
        raise ContinueEx()

    def s_For(self, st, fr):
        it = self.iterable(self.expr(st.iter, fr))
        self.forloop(st, it, fr)

    def s_While(self, st, fr):
        self.whileloop(st, fr)

    def s_With(self, st, fr):
        names = []
        exits = []
        for item in st.items:
            cm = self.expr(item.context_expr, fr)
            ent, ex = self.ctxman(cm)
            v = ent()
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, fr)
            exits.append(ex)
        try:
            self.block(st.body, fr)
        except (PyExc, ReturnEx, BreakEx, ContinueEx) as e:
            for ex in reversed(exits):
                ex(e)
            raise
        for ex in reversed(exits):
            ex(None)

    def ctxman(self, cm):
        if isinstance(cm, tuple) and cm and cm[0] == '#cm':
            return cm[1], cm[2]
        if isinstance(cm, HObj):
            return (lambda: self.call(self.getattr(cm, '__enter__'), [], {}),
                    lambda e: self.call(self.getattr(cm, '__exit__'),
                                        [None, None, None], {}))
        raise Unsupported('context manager')

    # ------------------------------------------------------ expressions
    def expr(self, node, fr):
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(node).__name__} line '
                              f'{getattr(node, "lineno", "?")}')
        self.curpos = (getattr(node, 'lineno', 0),
                       getattr(node, 'col_offset', 0))
        return m(node, fr)

    def cond(self, node, fr):
        """evaluate as a branch condition -> python bool"""
        if isinstance(node, ast.BoolOp):
            if isinstance(node.op, ast.And):
                return all(self.cond(v, fr) for v in node.values)
            return any(self.cond(v, fr) for v in node.values)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return not self.cond(node.operand, fr)
        return self.branch(self.expr(node, fr))

    def branch(self, v):
        if isinstance(v, SVal):
            v = self.force(v)
        t = self.truth(v)
        if t is None:
            if isinstance(v, HObj):
                for m in ('__bool__', '__len__'):
                    mm = self.models.get((self.clsname(v), m))
                    if mm is not None:
                        return self.branch(mm(self, v, [], {}))
                    f = self.findmethod(v.cls, m)
                    if f is not None:
                        return self.branch(self.callfunc(f, [v], {}))
                return True
            if isinstance(v, HArr2):
                raise self.exc('ValueError')
            return True
        return self.decide(t)

    def e_Constant(self, n, fr):
        if n.value is Ellipsis or isinstance(n.value, (bytes, complex)):
            raise Unsupported('constant')
        return n.value

    def e_Name(self, n, fr):
        return self.lookup(fr, n.id)

    def e_Tuple(self, n, fr):
        return tuple(self.seqitems(n.elts, fr))

    def seqitems(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.expr(x.value, fr)
                if isinstance(v, tuple):
                    out.extend(v)
                elif isinstance(v, HList) and v.items is not None:
                    out.extend(v.items)
                else:
                    raise Unsupported('starred symbolic')
            else:
                out.append(self.expr(x, fr))
        return out

    def e_List(self, n, fr):
        if len(n.elts) == 1 and isinstance(n.elts[0], ast.Starred):
            return self.b_list([self.expr(n.elts[0].value, fr)], {})
        return self.new(HList(items=self.seqitems(n.elts, fr)))

    def e_Set(self, n, fr):
        s = self.new(HSet(items=[]))
        for x in self.seqitems(n.elts, fr):
            self.sadd(s, x)
        return s

    def e_Dict(self, n, fr):
        d = self.new(HDict(items={}))
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.expr(v, fr)
                if not isinstance(src, HDict) or src.items is None:
                    raise Unsupported('** of symbolic dict')
                for kk, vv in src.items.items():
                    self.dset(d, kk, vv)
            else:
                kk = self.expr(k, fr)
                self.dset(d, kk, self.expr(v, fr))
        return d

    def e_JoinedStr(self, n, fr):
        out = ''
        for part in n.values:
            if isinstance(part, ast.Constant):
                p = part.value
            else:
                try:
                    v = self.expr(part.value, fr)
                    if part.format_spec is not None or \
                            part.conversion not in (-1, 115):
                        p = self.freshv('fmt', 'str')
                    else:
                        p = self.tostr(v)
                except Unsupported:
                    p = self.freshv('fmt', 'str')
            out = self.strcat(out, p)
        return out

    def e_IfExp(self, n, fr):
        return self.expr(n.body if self.cond(n.test, fr) else n.orelse, fr)

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        for x in n.values[:-1]:
            v = self.expr(x, fr)
            b = self.branch(v)
            if b != isand:
                return v
        return self.expr(n.values[-1], fr)

    def e_UnaryOp(self, n, fr):
        if isinstance(n.op, ast.Not):
            v = self.expr(n.operand, fr)
            if isinstance(v, (bool, SBool)):
                return self.mkbool(toz(z3not(self.truth(v))))
            return not self.branch(v)
        v = self.force(self.expr(n.operand, fr))
        if isinstance(n.op, ast.USub):
            if self.num(v) is None:
                if isinstance(v, HObj):
                    return self.call(self.getattr(v, '__neg__'), [], {})
                raise self.exc('TypeError')
            if isinstance(v, float):
                return -v
            return self.arith('Sub', 0, v)
        if isinstance(n.op, ast.UAdd):
            return v
        raise Unsupported('unary operator')

    def e_BinOp(self, n, fr):
        a = self.expr(n.left, fr)
        b = self.expr(n.right, fr)
        return self.binop(type(n.op).__name__, a, b)

    def force(self, v):
        """split an SVal into its concrete kind"""
        if not isinstance(v, SVal):
            return v
        e = v.e
        if self.decide(Val.is_VInt(e)):
            return self.mkint(Val.vi(e))
        if self.decide(Val.is_VStr(e)):
            return SStr(Val.vs(e))
        if self.decide(Val.is_VNone(e)):
            return None
        if self.decide(Val.is_VReal(e)):
            return SReal(Val.vr(e))
        if self.decide(Val.is_VBool(e)):
            return SBool(Val.vb(e))
        if self.decide(Val.is_VNaN(e)):
            return float('nan')
        if self.decide(Val.is_VPInf(e)):
            return INF
        if self.decide(Val.is_VNInf(e)):
            return -INF
        self.assume(Val.is_VOpq(e))
        return SOpq(Val.vo(e))

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, UOpnd) or isinstance(b, UOpnd):
            return UOpnd.apply(self, op, a, b)
        for x in (a, b):
            if isinstance(x, HObj):
                m = self.models.get((self.clsname(x), 'binop'))
                if m is not None:
                    return m(self, op, a, b)
        if self.num(a) and self.num(b):
            if op in ('Div', 'FloorDiv', 'Mod'):
                if self.decide(toz(self.eq(b, 0))):
                    raise self.exc('ZeroDivisionError')
            if op == 'Pow':
                for x in (a, b):
                    if isinstance(x, SBool):
                        raise Unsupported('power of bool')
            if op in ('BitAnd', 'BitOr', 'BitXor'):
                if isinstance(a, (bool, SBool)) and \
                        isinstance(b, (bool, SBool)):
                    x, y = toz(a), toz(b)
                    return self.mkbool({
                        'BitAnd': z3.And(x, y), 'BitOr': z3.Or(x, y),
                        'BitXor': x != y}[op])
                raise Unsupported('bit operator')
            if isinstance(a, float) or isinstance(b, float):
                if isinstance(a, float) and a != a or \
                        isinstance(b, float) and b != b:
                    return float('nan')
            return self.arith(op, a, b)
        if op == 'Add':
            if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
                return self.strcat(a, b)
            if isinstance(a, (str, SStr)) and isinstance(b, SOpq) or \
                    isinstance(b, (str, SStr)) and isinstance(a, SOpq):
                self.assumptions.add(
                    'a text concatenated with a value of an unmodelled call '
                    'is a text (message text)')
                return self.freshv('cat', 'str')
            if isinstance(a, HList) and isinstance(b, HList):
                return self.list_concat(a, b)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, tuple) and isinstance(b, HList) and b.istuple \
                    and b.items is not None:
                return a + tuple(b.items)
        if op == 'Mult':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, HList) and isinstance(y, (int, SInt)):
                    return self.list_repeat(x, y)
                if isinstance(x, str) and isinstance(y, int):
                    return x * y
                if isinstance(x, (str, SStr)) and isinstance(y, (int, SInt)):
                    return self.freshv('strmul', 'str')
                if isinstance(x, tuple) and isinstance(y, int):
                    return x * y
        if op == 'Mod' and isinstance(a, (str, SStr)):
            return self.freshv('fmt', 'str')
        if isinstance(a, HSet) and isinstance(b, HSet):
            nm = {'BitOr': 'union', 'BitAnd': 'intersection',
                  'Sub': 'difference', 'BitXor': 'symmetric_difference'}
            if op in nm:
                return self.setop(nm[op], a, b)
        names = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv',
                 'FloorDiv': 'floordiv', 'Mod': 'mod', 'Pow': 'pow',
                 'MatMult': 'matmul'}
        if op in names:
            for o, other, pre in ((a, b, '__'), (b, a, '__r')):
                if isinstance(o, HObj):
                    f = self.findmethod(o.cls, pre + names[op] + '__')
                    if f is not None:
                        return self.callfunc(f, [o, other], {})
        self.extmodel_binop(op, a, b)
        raise self.exc('TypeError')

    def extmodel_binop(self, op, a, b):
        for x in (a, b):
            if isinstance(x, (HArr2, UFunc, ExtRef, SOpq)) or (
                    isinstance(x, HObj)):
                raise Unsupported(f'operator {op} on {a!r}, {b!r}')

    def e_Compare(self, n, fr):
        left = self.expr(n.left, fr)
        res = True
        for i, (op, rn) in enumerate(zip(n.ops, n.comparators)):
            right = self.expr(rn, fr)
            r = self.compare(type(op).__name__, left, right)
            if i == len(n.ops) - 1:
                return r if res is True else r
            if not self.branch(r):
                return False
            left = right
        return res

    def compare(self, op, a, b):
        if op in ('Eq', 'NotEq'):
            for o, other in ((a, b), (b, a)):
                if isinstance(o, HObj) and o.cls is not None and \
                        isinstance(o.cls, ClassInfo):
                    f = self.findmethod(o.cls, '__eq__')
                    if f is not None:
                        r = self.callfunc(f, [o, other], {})
                        return r if op == 'Eq' else (
                            not self.branch(r) if not isinstance(
                                r, (bool, SBool)) else self.mkbool(
                                    toz(z3not(r))))
            r = self.eq(a, b)
            if op == 'NotEq':
                r = z3not(r)
            return self.mkbool(toz(r))
        if op in ('Is', 'IsNot'):
            r = self.is_(a, b)
            if op == 'IsNot':
                r = z3not(r)
            return self.mkbool(toz(r))
        if op in ('In', 'NotIn'):
            r = self.contains(b, a)
            if op == 'NotIn':
                r = z3not(r)
            return self.mkbool(toz(r))
        a, b = self.force(a), self.force(b)
        if isinstance(a, HSet) and isinstance(b, HSet):
            raise Unsupported('set comparison')
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.tuplecmp(op, a, b)
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)) and not (
                isinstance(a, str) and isinstance(b, str)):
            f = self.ufun('strlt', PStr, PStr, z3.BoolSort())
            x, y = self.z(a, 'str'), self.z(b, 'str')
            return self.mkbool({'Lt': f(x, y), 'Gt': f(y, x),
                                'LtE': z3.Not(f(y, x)),
                                'GtE': z3.Not(f(x, y))}[op])
        try:
            r = self.cmp(CMP[op], a, b)
        except TypeError:
            raise self.exc('TypeError')
        if r is None:
            for x in (a, b):
                if isinstance(x, (HObj, HArr2, UFunc)):
                    raise Unsupported(f'comparison {a!r} {b!r}')
            raise self.exc('TypeError')
        return self.mkbool(toz(r))

    def tuplecmp(self, op, a, b):
        raise Unsupported('tuple ordering')

    _ufuns = {}

    def ufun(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        if k not in Interp._ufuns:
            Interp._ufuns[k] = z3.Function(name, *sorts)
        return Interp._ufuns[k]

    def contains(self, c, x):
        if isinstance(c, tuple):
            return z3or(*[z3or(self.is_(c_, x) if c_ is None else
                               self.eq(c_, x)) for c_ in c])
        if isinstance(c, HList):
            self.rd(self.lroot(c))
            if c.items is not None:
                return z3or(*[self.eq(y, x) for y in c.items])
            n, arr = self.larr(c)
            i = z3.Int('i!in%d' % self.bump())
            el = self.wrap(z3.Select(arr, i), c.ety)
            return z3.Exists([i], z3.And(0 <= i, i < n,
                                         toz(self.eq(el, x))))
        if isinstance(c, HDict):
            return self.dhas(c, x)
        if isinstance(c, HSet):
            return self.shas(c, x)
        if isinstance(c, RangeV):
            if self.num(x) is None:
                return False
            k, e = self.num(x)
            lo, hi = self.zi(c.lo), self.zi(c.hi)
            if c.step != 1:
                raise Unsupported('in range with step')
            return z3and(self.cmp('<=', c.lo, x), self.cmp('<', x, c.hi))
        if isinstance(c, (str, SStr)):
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            f = self.ufun('strin', PStr, PStr, z3.BoolSort())
            if not isinstance(x, (str, SStr)):
                raise self.exc('TypeError')
            return f(self.z(x, 'str'), self.z(c, 'str'))
        if isinstance(c, HObj):
            m = self.models.get((self.clsname(c), '__contains__'))
            if m is not None:
                return toz(m(self, c, [x], {}))
            f = self.findmethod(c.cls, '__contains__')
            if f is not None:
                return self.truth(self.callfunc(f, [c, x], {}))
        if c is None or isinstance(c, (int, float, SInt, SReal, SBool)):
            raise self.exc('TypeError')
        if isinstance(c, SVal):
            return self.contains(self.force(c), x)
        if isinstance(c, IterV):
            raise Unsupported('in on an iterator')
        raise Unsupported(f'in {c!r}')

    def e_Attribute(self, n, fr):
        return self.getattr(self.expr(n.value, fr), n.attr)

    def e_Subscript(self, n, fr):
        return self.getitem(self.expr(n.value, fr), self.index(n.slice, fr))

    def index(self, n, fr):
        if isinstance(n, ast.Slice):
            return self.e_Slice(n, fr)
        return self.expr(n, fr)

    def e_Slice(self, n, fr):
        return Slice(*[None if x is None else self.expr(x, fr)
                       for x in (n.lower, n.upper, n.step)])

    def e_Lambda(self, n, fr):
        return self.closure(n, fr, '<lambda>')

    def e_Call(self, n, fr):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and \
                not n.args:
            f = fr
            while f.parent is not None and '__self__' not in f.vars:
                f = f.parent
            return SuperV(f.vars['__self__'], f.cls)
        # any/all over a generator: keep the short circuit
        f = self.expr(n.func, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value, fr)
                if isinstance(v, tuple):
                    args.extend(v)
                elif isinstance(v, HList) and v.items is not None:
                    args.extend(v.items)
                else:
                    raise Unsupported('* argument')
            elif isinstance(a, ast.GeneratorExp) and isinstance(f, Builtin) \
                    and f.name in ('any', 'all') and len(n.args) == 1:
                return self.anyall(f.name, a, fr)
            else:
                args.append(self.expr(a, fr))
        kw = {}
        for k in n.keywords:
            v = self.expr(k.value, fr)
            if k.arg is None:
                if isinstance(v, HDict) and v.items is not None:
                    kw.update(v.items)
                else:
                    raise Unsupported('** argument')
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, n)

    def e_ListComp(self, n, fr):
        return self.comp(n, fr, 'list')

    def e_GeneratorExp(self, n, fr):
        l = self.comp(n, fr, 'list')
        n = self.llen(l)
        return self.once(IterV(n, lambda k: self.lget(l, k), l))

    def e_SetComp(self, n, fr):
        return self.comp(n, fr, 'set')

    def e_DictComp(self, n, fr):
        return self.comp(n, fr, 'dict')

    def e_Starred(self, n, fr):
        raise Unsupported('starred')

    def e_NamedExpr(self, n, fr):
        v = self.expr(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def e_Yield(self, n, fr):
        f = fr
        v = self.expr(n.value, fr) if n.value else None
        m = self.models.get(('yield',))
        if m is not None:
            return m(self, v)
        if '#yields' in f.vars:
            self.list_append(f.vars['#yields'], v)
            return None
        raise Unsupported('yield')

    # ------------------------------------------------------- attributes
    def findmethod(self, cls, name, after=None):
        """-> FuncVal or None"""
        if not isinstance(cls, ClassInfo):
            return None
        mro = cls.mro(self.loader)
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if isinstance(c, ClassInfo) and name in c.methods:
                node = c.methods[name]
                return FuncVal(node, c.module, None, c, name)
        return None

    def findattr(self, cls, name):
        for c in cls.mro(self.loader):
            if isinstance(c, ClassInfo) and name in c.attrs:
                return (self.expr(c.attrs[name], Frame(c.module)),)
        return None

    def getattr(self, o, name):
        if isinstance(o, HObj):
            self.rd(o)
            if name in o.fields:
                v = o.fields[name]
                if callable(v) and not isinstance(
                        v, (type, ClassInfo)) and getattr(v, 'lazy', False):
                    return v(self, o)
                return v
            if o.cls is not None and isinstance(o.cls, ClassInfo):
                if name == '__class__':
                    return o.cls
                f = self.findmethod(o.cls, name)
                if f is not None:
                    decs = [decname(d) for d in f.node.decorator_list]
                    if 'property' in decs or 'cached_property' in decs:
                        return self.callfunc(f, [o], {})
                    if 'staticmethod' in decs:
                        return f
                    if 'classmethod' in decs:
                        return BoundMethod(f, o.cls)
                    return BoundMethod(f, o)
                a = self.findattr(o.cls, name)
                if a is not None:
                    return a[0]
                f = self.findmethod(o.cls, '__getattr__')
                if f is not None:
                    return self.callfunc(f, [o, name], {})
            m = self.models.get((self.clsname(o), name))
            if m is not None:
                return Builtin(name, lambda a, k: m(self, o, a, k))
            if o.fields.get('#closed'):
                raise self.exc('AttributeError')
            raise Unsupported(f'attribute {name} of {o!r}')
        if isinstance(o, FuncVal) and name in o.__dict__.get('attrs', ()):
            if self.trackers:
                raise Unsupported('function attribute in a loop')
            return o.attrs[name]
        if isinstance(o, SuperV):
            f = self.findmethod(o.obj.cls, name, after=o.cls)
            if f is None:
                m = self.models.get(('super', name))
                if m is not None:
                    return Builtin(name, lambda a, k: m(self, o.obj, a, k))
                raise Unsupported(f'super().{name}')
            decs = [decname(d) for d in f.node.decorator_list]
            if 'property' in decs:
                return self.callfunc(f, [o.obj], {})
            return BoundMethod(f, o.obj)
        if isinstance(o, ModRef):
            if o.module is None:
                raise Unsupported('module')
            key = ('glob', o.module.name, name)
            if key in self.ghost:
                return self.ghost[key]
            if (o.module.name, name) in self.globals_override:
                return self.globals_override[(o.module.name, name)]
            r = self.loader.lookup(o.module, name)
            if r is None:
                m = o.module.name + '.' + name
                if self.loader.path(m):
                    return ModRef(self.loader.module(m))
                return ExtRef(m)
            return self.resolved(r)
        if isinstance(o, ExtRef):
            return self.extattr(o, name)
        if isinstance(o, ClassInfo):
            f = self.findmethod(o, name)
            if f is not None:
                decs = [decname(d) for d in f.node.decorator_list]
                if 'classmethod' in decs:
                    return BoundMethod(f, o)
                return f
            a = self.findattr(o, name)
            if a is not None:
                return a[0]
            if name == '__name__':
                return o.name
            raise self.exc('AttributeError')
        if isinstance(o, SVal):
            return self.getattr(self.force(o), name)
        return self.libattr(o, name)

    def clsname(self, o):
        return o.cls.name if isinstance(o.cls, ClassInfo) else (
            o.cls if isinstance(o.cls, str) else '?')

    def setattr(self, o, name, v):
        if isinstance(o, HObj):
            if o.cls is not None and isinstance(o.cls, ClassInfo) and \
                    name not in o.fields:
                f = self.findmethod(o.cls, name + '.setter')
                if f is not None:
                    self.callfunc(f, [o, v], {})
                    return
            if not self.wr(o):
                return
            for t in self.trackers:
                if getattr(t, 'inv', False) and o.alloc <= t.start:
                    t.fields.add((o.label, name))
            self.mutd(o.fields, name, v)
            return
        if isinstance(o, ModRef):
            self.mutd(self.ghost, ('glob', o.module.name, name), v)
            return
        if isinstance(o, ExtRef):
            m = self.models.get(('setattr', o.name + '.' + name))
            if m:
                m(self, v)
                return
        if isinstance(o, FuncVal) and o.frame is not None and \
                not self.trackers:
            o.__dict__.setdefault('attrs', {})[name] = v
            return
        raise Unsupported(f'attribute assignment on {o!r}')

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw, node=None):
        if isinstance(f, BoundMethod):
            return self.callfunc(f.func, [f.obj] + list(args), kw, node)
        if isinstance(f, FuncVal):
            return self.callfunc(f, list(args), kw, node)
        if isinstance(f, Builtin):
            if f.fn is None:
                raise Unsupported(f'builtin {f.name}')
            return f.fn(list(args), kw)
        if isinstance(f, UFunc):
            return self.callufunc(f, args)
        if isinstance(f, ClassInfo):
            return self.instantiate(f, args, kw, node)
        if isinstance(f, ExtRef):
            return self.callext(f, list(args), kw, node)
        if isinstance(f, type) and issubclass(f, BaseException):
            return self.excobj(PyExc(f, tuple(args), node))
        if isinstance(f, HObj):
            m = self.findmethod(f.cls, '__call__')
            if m is not None:
                return self.callfunc(m, [f] + list(args), kw, node)
            if '#call' in f.fields:
                return f.fields['#call'](self, args, kw)
        if isinstance(f, SVal):
            f = self.force(f)
        if self.isconc(f) or isinstance(f, SVBase):
            raise self.exc('TypeError')
        raise Unsupported(f'call of {f!r}')

    def callufunc(self, f, args):
        if callable(f.f) and not isinstance(f.f, z3.FuncDeclRef):
            return f.f(self, args)
        zs = []
        for a, t in zip(args, f.argtys):
            zs.append(self.z(a, t))
        return self.wrap(f.f(*zs), f.retty)

    def instantiate(self, cls, args, kw, node):
        if self.isexc(cls):
            return self.excobj(PyExc(cls, tuple(args), node))
        m = self.models.get(('new', cls.name))
        if m is not None:
            return m(self, cls, args, kw)
        o = self.new(HObj(cls))
        init = self.findmethod(cls, '__init__')
        if init is not None:
            self.callfunc(init, [o] + list(args), kw, node)
        return o

    MAXDEPTH = 14

    def fname(self, f):
        return f'{f.module.name}:' + (f.cls.name + '.' if f.cls is not None
                                      else '') + str(f.name)

    def callfunc(self, f, args, kw, node=None):
        nm = self.fname(f)
        s = self.summaries.get(nm)
        if s is None and f.cls is not None:
            s = self.summaries.get('*:' + f.name)
        if s is None:
            s = self.summaries.get('*:' + str(f.name))
        if s is not None and not getattr(self, 'nosummary', None) == nm:
            return s(self, args, kw)
        if self.depth > self.MAXDEPTH:
            raise Unsupported(f'call depth at {nm}')
        fr = Frame(f.module, f.cls, f.frame, f.name)
        if f.cls is None and f.frame is not None:
            fr.cls = f.frame.cls
        self.bind(f, args, kw, fr)
        if f.cls is not None and args and isinstance(args[0], HObj):
            fr.vars['__self__'] = args[0]
        self.inlined.add((nm, getattr(f.node, 'lineno', 0)))
        if isinstance(f.node, ast.Lambda):
            return self.expr(f.node.body, fr)
        isgen = any(isinstance(x, (ast.Yield, ast.YieldFrom))
                    for x in self.ownwalk(f.node))
        if isgen:
            fr.vars['#yields'] = self.new(HList(items=[]))
        self.depth += 1
        self.sitestack.append((nm, getattr(node, 'lineno', 0),
                               getattr(node, 'col_offset', 0),
                               getattr(f.node, 'lineno', 0)))
        try:
            self.block(f.node.body, fr)
            r = None
        except ReturnEx as e:
            r = e.v
        finally:
            self.depth -= 1
            if self.sitestack:
                self.sitestack.pop()
        if isgen:
            return fr.vars['#yields']
        return r

    def ownwalk(self, node):
        todo = list(ast.iter_child_nodes(node))
        while todo:
            x = todo.pop()
            yield x
            if not isinstance(x, (ast.FunctionDef, ast.Lambda)):
                todo.extend(ast.iter_child_nodes(x))

    def bind(self, f, args, kw, fr):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        vals = dict(zip(names, args))
        if len(args) > len(names):
            if a.vararg is None:
                raise self.exc('TypeError')
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(args[len(names):])
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                if n in vals:
                    raise self.exc('TypeError')
                vals[n] = kw.pop(n)
        if a.kwarg is not None:
            d = self.new(HDict(items=dict(kw)))
            vals[a.kwarg.arg] = d
            kw = {}
        if kw:
            raise self.exc('TypeError')
        if f.defaults is not None:
            defs, kwd = f.defaults
        else:
            dfr = Frame(f.module)
            defs = kwd = None
        nd = len(a.defaults)
        for i, n in enumerate(names):
            if n not in vals:
                j = i - (len(names) - nd)
                if j < 0:
                    raise self.exc('TypeError')
                vals[n] = defs[j] if defs is not None else self.expr(
                    a.defaults[j], Frame(f.module))
        for i, x in enumerate(a.kwonlyargs):
            if x.arg not in vals:
                d = a.kw_defaults[i]
                if d is None:
                    raise self.exc('TypeError')
                vals[x.arg] = kwd[i][0] if kwd is not None else self.expr(
                    d, Frame(f.module))
        fr.vars.update(vals)


class UOpnd:
    """hook for abstract operands"""
    @staticmethod
    def apply(eng, op, a, b):
        raise Unsupported('abstract operand')
