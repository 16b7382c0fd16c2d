"""Symbolic values, sorts and heap objects of the verifier.

Scalars are immutable wrappers round z3 terms; mutable Python objects (list,
dict, set, instances) are heap objects whose every mutation goes through
Engine.mut so that it can be undone when the engine backtracks.
"""
import z3

PStr = z3.DeclareSort('PStr')
Opq = z3.DeclareSort('Opq')

_Val = z3.Datatype('Val')
_Val.declare('VNone')
_Val.declare('VBool', ('vb', z3.BoolSort()))
_Val.declare('VInt', ('vi', z3.IntSort()))
_Val.declare('VReal', ('vr', z3.RealSort()))
_Val.declare('VStr', ('vs', PStr))
_Val.declare('VNaN')
_Val.declare('VPInf')
_Val.declare('VNInf')
_Val.declare('VOpq', ('vo', Opq))
Val = _Val.create()

INF = float('inf')


class Unsupported(Exception):
    """The code uses something outside the verified subset."""


class SVBase:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f'{type(self).__name__}({self.e})'


class SInt(SVBase):
    pass


class SBool(SVBase):
    pass


class SReal(SVBase):
    pass


class SStr(SVBase):
    pass


class SVal(SVBase):
    pass


class SOpq(SVBase):
    pass


# ---------------------------------------------------------------- types
_list_sorts = {}
_tup_sorts = {}


def zsort(ty):
    if ty == 'int':
        return z3.IntSort()
    if ty == 'bool':
        return z3.BoolSort()
    if ty == 'real':
        return z3.RealSort()
    if ty == 'str':
        return PStr
    if ty in ('val', 'none'):
        return Val
    if ty == 'opq':
        return Opq
    if isinstance(ty, tuple) and ty[0] == 'list':
        if ty not in _list_sorts:
            d = z3.Datatype('List_' + tyname(ty[1]))
            d.declare('mk', ('ln', z3.IntSort()),
                      ('el', z3.ArraySort(z3.IntSort(), zsort(ty[1]))))
            _list_sorts[ty] = d.create()
        return _list_sorts[ty]
    if isinstance(ty, tuple) and ty[0] == 'tuple':
        if ty not in _tup_sorts:
            d = z3.Datatype('Tup_' + '_'.join(tyname(t) for t in ty[1]))
            d.declare('mk', *[(f'f{i}', zsort(t))
                              for i, t in enumerate(ty[1])])
            _tup_sorts[ty] = d.create()
        return _tup_sorts[ty]
    raise Unsupported(f'no sort for type {ty}')


def tyname(ty):
    if isinstance(ty, str):
        return ty
    if ty[0] == 'list':
        return 'L' + tyname(ty[1])
    return 'T' + '_'.join(tyname(t) for t in ty[1])


SCALAR = ('int', 'bool', 'real', 'str', 'val', 'none', 'opq')


def join(a, b):
    if a == b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    if a in SCALAR and b in SCALAR:
        return 'val'
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0]:
        if a[0] == 'list':
            return ('list', join(a[1], b[1]))
        if len(a[1]) == len(b[1]):
            return ('tuple', tuple(join(x, y) for x, y in zip(a[1], b[1])))
    raise Unsupported(f'cannot join types {a} and {b}')


_strlits = {}
strid = z3.Function('strid', PStr, z3.IntSort())
str_axioms = []


pyeq = z3.Function('pyeq', Val, Val, z3.BoolSort())
q_axioms = []


def isnum(e):
    """Val term is a (finite) number"""
    return z3.Or(Val.is_VBool(e), Val.is_VInt(e), Val.is_VReal(e))


def numof(e):
    return z3.If(Val.is_VBool(e), z3.If(Val.vb(e), z3.RealVal(1),
                                        z3.RealVal(0)),
                 z3.If(Val.is_VInt(e), z3.ToReal(Val.vi(e)), Val.vr(e)))


def pyeq_def(e, f):
    return z3.Or(z3.And(e == f, z3.Not(Val.is_VNaN(e))),
                 z3.And(isnum(e), isnum(f), numof(e) == numof(f)))


def mkpyeq(e, f):
    """python == of two scalars, opaque until the solver needs it"""
    if not q_axioms:
        a, b = z3.Const('a!pyeq', Val), z3.Const('b!pyeq', Val)
        q_axioms.append(z3.ForAll([a, b], pyeq(a, b) == pyeq_def(a, b),
                                  patterns=[pyeq(a, b)]))
    return pyeq(e, f)


def strlit(s):
    if s not in _strlits:
        c = z3.Const('str!%d!%s' % (len(_strlits), ''.join(
            ch if ch.isalnum() else '_' for ch in s[:20])), PStr)
        _strlits[s] = c
        str_axioms.append(strid(c) == len(_strlits) - 1)
        if s:
            str_axioms.append(strlen(c) == len(s))
        else:
            str_axioms.append(strlen(c) == 0)
    return _strlits[s]


strlen = z3.Function('strlen', PStr, z3.IntSort())
strcat = z3.Function('strcat', PStr, PStr, PStr)
strof = z3.Function('strof', Val, PStr)
opqtrue = z3.Function('opqtrue', Opq, z3.BoolSort())
opqlt = z3.Function('opqlt', Opq, Opq, z3.BoolSort())


# ---------------------------------------------------------------- heap
class Heap:
    label = None
    shared = False
    ver = 0
    inner = 0
    alloc = 0


class HList(Heap):
    """items: concrete python list of values; or symbolic n/arr/ety.
    parent: (HList, index z3) when this object is element of another list."""

    def __init__(self, items=None, n=None, arr=None, ety=None):
        self.items = items
        self.n = n
        self.arr = arr
        self.ety = ety
        self.parent = None
        self.istuple = False
        self.frozen = False

    def __repr__(self):
        return f'HList({self.items if self.items is not None else self.ety})'


class HDict(Heap):
    """items: python dict {const key: value} in insertion order; or symbolic
    dom/val arrays with key type kty and value type vty, and size n."""

    def __init__(self, items=None, kty=None, vty=None, dom=None, val=None,
                 n=None):
        self.items = items
        self.kty, self.vty, self.dom, self.val, self.n = kty, vty, dom, val, n
        self.enum = None
        self.default = None

    def __repr__(self):
        return f'HDict({self.items})'


class HSet(Heap):
    def __init__(self, items=None, kty=None, dom=None, n=None):
        self.items = items      # python list of distinct concrete constants
        self.kty, self.dom, self.n = kty, dom, n
        self.enum = None


class HObj(Heap):
    def __init__(self, cls, fields=None):
        self.cls = cls
        self.fields = dict(fields or {})

    def __repr__(self):
        return f'HObj({self.cls})'


class HArr2(Heap):
    """two dimensional array: (rows, cols, Array Int (Array Int T))"""

    def __init__(self, nr, nc, arr, ety):
        self.nr, self.nc, self.arr, self.ety = nr, nc, arr, ety


class Poison:
    """value of a local that a summarised loop assigns"""
    def __init__(self, site):
        self.site = site


class Undef:
    pass


UNDEF = Undef()


class FuncVal:
    def __init__(self, node, module, frame=None, cls=None, name=None,
                 defaults=None):
        self.node, self.module, self.frame = node, module, frame
        self.cls, self.name = cls, name
        self.defaults = defaults

    def __repr__(self):
        return f'FuncVal({self.module.name}:{self.name})'


class BoundMethod:
    def __init__(self, func, obj):
        self.func, self.obj = func, obj


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f'Builtin({self.name})'


class ExtRef:
    """something outside the repository, by dotted name"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'ExtRef({self.name})'


class UFunc:
    """a caller-supplied callable, modelled as a pure total function"""
    def __init__(self, f, argtys, retty, effects=None):
        self.f, self.argtys, self.retty = f, argtys, retty


class ModRef:
    def __init__(self, module):
        self.module = module


class Slice:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class RangeV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class IterV:
    """an indexed iterable: n (z3 or int) and get(k)"""
    def __init__(self, n, get, src=None):
        self.n, self.get, self.src = n, get, src
        self.pos = 0


class SuperV:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class PyExc(Exception):
    """a Python exception raised by the interpreted code"""
    def __init__(self, cls, args=(), node=None):
        self.cls, self.pargs, self.node = cls, args, node
        self.cause = None

    def __str__(self):
        return f'{self.cls}'


def boundvars(e):
    """constants named q!N (bound variables of a specification) in e"""
    out, seen, todo = [], set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                    x.decl().name().startswith('q!'):
                out.append(x)
        else:
            todo.extend(reversed(x.children()))
    return out
