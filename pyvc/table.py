"""Stand-ins of nimble data objects for functions that use them only through
their public interface.

A NimVec is a data object with one point or one feature: `cells` is the list
of its elements.  A NimTab is a two dimensional object of which only the
points matter: `rows` is the list of its points (opaque values).  What their
methods do is assumed here (the contract of the data object, decided for the
four real types by C02, C03, C04 and C09) and listed in the evidence of the
functions that rely on it.  At run time the same contracts are evaluated on
real nimble objects.
"""
import z3
from .values import HObj, HList, SInt, SBool, IterV, Unsupported, SVal

NOTE = ('data objects handed to {} behave as their contract says: indexing, '
        'iteration, length, copy, extract, permute, calculate and '
        'matchingElements act on the vectors and elements asked for '
        '(bounded for the four data types by C02, C03, C04, C09)')


def note(eng, who='functions under contract'):
    eng.assumptions.add(NOTE.format(who))


# ------------------------------------------------------------------ vectors
def mkvec(eng, cells, pt):
    o = eng.new(HObj('NimVec'))
    o.fields['cells'] = cells
    o.fields['isPt'] = pt
    o.fields['points'] = vec_axis('points')
    o.fields['features'] = vec_axis('features')
    return o


def vec_axis(which):
    def get(eng, o):
        a = eng.new(HObj('NimVecAxis'))
        a.fields['vec'] = o
        a.fields['which'] = which
        return a
    get.lazy = True
    return get


def vec_n(eng, v):
    return eng.b_len([v.fields['cells']], {})


def axis_len(eng, a, args=(), kw=None):
    v = a.fields['vec']
    along = (a.fields['which'] == 'points') != bool(v.fields['isPt'])
    return vec_n(eng, v) if along else 1


def vec_index(eng, v, ix):
    if isinstance(ix, tuple):
        i, j = ix
        off, on = (i, j) if v.fields['isPt'] else (j, i)
        if off != 0:
            if not isinstance(off, (int, SInt)):
                raise Unsupported('index of a vector')
            if eng.decide(eng.zi(off) != 0):
                raise Unsupported('index of a vector')
        ix = on
    return eng.getitem(v.fields['cells'], ix)


def calc(eng, a, args, kw):
    """calculate(f) on the axis that has one vector"""
    v = a.fields['vec']
    n = axis_len(eng, a)
    if n != 1 and not (isinstance(n, SInt) and not eng.feasible(n.e != 1)):
        raise Unsupported('calculate on the long axis')
    note(eng)
    r = eng.call(args[0], [v], {})
    if isinstance(r, HObj) and r.cls == 'NimVec':
        r = r.fields['cells']
    return mkvec(eng, eng.b_list([r], {}), a.fields['which'] == 'points')


def matching(eng, v, args, kw):
    note(eng)
    f = args[0]
    it = eng.iterable(v.fields['cells'])
    from .values import Builtin
    m = eng.b_map([Builtin('match', lambda a, k: eng.b_bool(
        [eng.call(f, a, {})], {})), v.fields['cells']], {})
    return mkvec(eng, eng.b_list([m], {}), v.fields['isPt'])


def vec_copy(eng, v, args, kw):
    if args or kw and set(kw) - {'useLog'}:
        raise Unsupported('copy with arguments')
    return mkvec(eng, eng.b_list([v.fields['cells']], {}), v.fields['isPt'])


def vec_bool(eng, v):
    n = vec_n(eng, v)
    return eng.truth(n)


VEC = {
    ('NimVec', '__len__'): lambda e, o, a, k: vec_n(e, o),
    ('NimVec', '__getitem__'): lambda e, o, a, k: vec_index(e, o, a[0]),
    ('NimVec', '__iter__'): lambda e, o, a, k: o.fields['cells'],
    ('NimVec', '__reversed__'): lambda e, o, a, k: e.b_reversed(
        [o.fields['cells']], {}),
    ('NimVec', 'matchingElements'): matching,
    ('NimVec', 'copy'): vec_copy,
    ('NimVecAxis', '__len__'): axis_len,
    ('NimVecAxis', 'calculate'): calc,
}


# ------------------------------------------------------------------- tables
def mktab(eng, rows):
    o = eng.new(HObj('NimTab'))
    o.fields['rows'] = rows
    o.fields['name'] = None
    o.fields['points'] = pts = eng.new(HObj('NimPoints'))
    pts.fields['tab'] = o
    return o


def tab_copy(eng, o, args, kw):
    note(eng)
    return mktab(eng, eng.b_list([o.fields['rows']], {}))


def pts_len(eng, p, args=(), kw=None):
    return eng.b_len([p.fields['tab'].fields['rows']], {})


def rows_at(eng, rows, ids):
    """rows[i] for i in ids; the indices must be valid"""
    it = eng.iterable(ids)
    from .values import Builtin
    return eng.b_list([eng.b_map([Builtin('row', lambda a, k: eng.getitem(
        rows, a[0])), ids], {})], {})


def pts_copy(eng, p, args, kw):
    note(eng)
    return mktab(eng, rows_at(eng, p.fields['tab'].fields['rows'], args[0]))


def pts_extract(eng, p, args, kw):
    """the chosen rows in the order asked for; the others stay, in order"""
    note(eng)
    t = p.fields['tab']
    rows = t.fields['rows']
    ids = args[0]
    out = rows_at(eng, rows, ids)
    if not eng.wr(t):
        from .engine import Carried
        raise Carried()
    n = eng.llen(rows)
    idset = eng.specset(ids) if hasattr(eng, 'specset') else None
    t0, arr = eng.larr(rows)
    ty = eng.ty(rows)[1]
    from .values import zsort
    m = eng.fresh('restn', z3.IntSort())
    left = eng.fresh('rest', z3.ArraySort(z3.IntSort(), zsort(ty)))
    src = eng.fresh('restsrc', z3.ArraySort(z3.IntSort(), z3.IntSort()))
    k, j = z3.Ints('k!rest j!rest')
    ni, iarr = eng.larr(ids)
    inids = lambda x: z3.Exists([j], z3.And(
        0 <= j, j < ni, z3.Select(iarr, j) == x))
    eng.assume(m == n - ni)
    eng.assume(m >= 0)
    eng.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(
        0 <= z3.Select(src, k), z3.Select(src, k) < n,
        z3.Not(inids(z3.Select(src, k))),
        z3.Select(left, k) == z3.Select(arr, z3.Select(src, k)))),
        patterns=[z3.Select(left, k)]))
    eng.assume(z3.ForAll([k, j], z3.Implies(
        z3.And(0 <= k, k < j, j < m),
        z3.Select(src, k) < z3.Select(src, j))))
    eng.mutd(t.fields, 'rows', eng.new(HList(n=m, arr=left, ety=ty)))
    t.fields['src'] = eng.new(HList(n=m, arr=src, ety='int'))
    return mktab(eng, out)


def pts_permute(eng, p, args, kw):
    note(eng)
    t = p.fields['tab']
    new = rows_at(eng, t.fields['rows'], args[0])
    if not eng.wr(t):
        from .engine import Carried
        raise Carried()
    eng.mutd(t.fields, 'rows', new)


TAB = {
    ('NimTab', 'copy'): tab_copy,
    ('NimTab', '__len__'): lambda e, o, a, k: pts_len(e, o.fields['points']),
    ('NimTab', 'getTypeString'): lambda e, o, a, k: 'List',
    ('NimPoints', '__len__'): pts_len,
    ('NimPoints', 'copy'): pts_copy,
    ('NimPoints', 'extract'): pts_extract,
    ('NimPoints', 'permute'): pts_permute,
}


def s_cells(sp, v):
    if isinstance(v, HObj) and v.cls == 'NimVec':
        return v.fields['cells']
    if isinstance(v, HObj) and v.cls == 'NimTab':
        return v.fields['rows']
    return v


SPECFUNCS = {'cells': s_cells}


def empty_like(eng, args, kw):
    """an array of the length of the vector with unspecified contents"""
    v = args[0]
    cells = v.fields['cells'] if isinstance(v, HObj) else v
    if not isinstance(cells, HList):
        raise Unsupported('numpy.empty_like')
    from .values import zsort
    ty = eng.ty(cells)[1]
    n = eng.larr(cells)[0]
    return eng.new(HList(n=n, arr=eng.fresh('empty', z3.ArraySort(
        z3.IntSort(), zsort(ty))), ety=ty))


VEC[('call', 'numpy.empty_like')] = empty_like


def zeros(eng, args, kw):
    from .values import HArr2, Builtin
    shape = args[0]
    dt = args[1] if len(args) > 1 else kw.get('dtype')
    nm = getattr(dt, 'name', None) or getattr(dt, '__name__', None)
    ety = 'int' if nm == 'int' else 'real'
    zero = z3.IntVal(0) if ety == 'int' else z3.RealVal(0)
    if not (isinstance(shape, tuple) and len(shape) == 2):
        raise Unsupported('numpy.zeros')
    return eng.new(HArr2(*[eng.zi(x) for x in shape], z3.K(
        z3.IntSort(), z3.K(z3.IntSort(), zero)), ety))


VEC[('call', 'numpy.zeros')] = zeros


# -------------------------------------------------------------------- grids
def mkgrid(eng, rows, nf):
    """a two dimensional object (two or more points and features)"""
    o = eng.new(HObj('NimGrid'))
    o.fields.update(rows=rows, nf=nf)
    for w in ('points', 'features'):
        a = eng.new(HObj('NimGridAxis'))
        a.fields.update(grid=o, which=w)
        o.fields[w] = a
    o.fields['shape'] = (eng.b_len([rows], {}), nf)
    return o


def grid_axis_len(eng, a, args=(), kw=None):
    g = a.fields['grid']
    return eng.b_len([g.fields['rows']], {}) if a.fields['which'] == \
        'points' else g.fields['nf']


def grid_iter(eng, o, args, kw):
    raise eng.exc('TypeError')


def grid_get(eng, o, args, kw):
    from .values import Slice, Builtin
    ix = args[0]
    note(eng)
    if not isinstance(ix, tuple):
        raise Unsupported('index of a grid')
    i, j = ix
    rows = o.fields['rows']
    full = lambda s: isinstance(s, Slice) and s.lo is None and \
        s.hi is None and s.step is None
    if full(i):
        j = norm(eng, j, o.fields['nf'])
        return mkvec(eng, eng.b_list([eng.b_map([Builtin(
            'col', lambda a, k: eng.getitem(a[0], j)), rows], {})], {}),
            False)
    i = norm(eng, i, eng.llen(rows))
    row = eng.getitem(rows, i)
    if full(j):
        return mkvec(eng, eng.b_list([row], {}), True)
    return eng.getitem(row, norm(eng, j, o.fields['nf']))


def norm(eng, i, n):
    if isinstance(i, (int, SInt)) and not isinstance(i, bool):
        nz = eng.zi(n) if not isinstance(n, int) else n
        ie = eng.zi(i)
        if isinstance(ie, int) and isinstance(nz, int):
            bad = not -nz <= ie < nz
        else:
            bad = eng.decide(z3.Or(ie < -nz, ie >= nz))
        if bad:
            raise eng.exc('IndexError')
        return i
    raise Unsupported('index of a grid')


def grid_vec(eng, a, args, kw):
    from .values import Slice
    full = Slice(None, None, None)
    return grid_get(eng, a.fields['grid'], [
        (args[0], full) if a.fields['which'] == 'points'
        else (full, args[0])], {})


GRID = {
    ('NimGridAxis', '__getitem__'): grid_vec,
    ('NimGridAxis', '__len__'): grid_axis_len,
    ('NimGrid', '__iter__'): grid_iter,
    ('NimGrid', '__getitem__'): grid_get,
}


def grid_sym(eng, el, name, lo):
    from . import dsl
    rows = dsl.List(dsl.List(el), lo=lo).sym(eng, name)
    nf = eng.freshv(name + '_nf', 'int')
    eng.assume(nf.e >= lo)
    n, arr = eng.larr(rows)
    from .values import zsort
    s = zsort(('list', el.ety()))
    i = z3.Int('i!grid')
    eng.assume(z3.ForAll([i], z3.Implies(
        z3.And(0 <= i, i < n), s.ln(z3.Select(arr, i)) == nf.e),
        patterns=[z3.Select(arr, i)]))
    return mkgrid(eng, rows, nf)


def s_grid(sp, v):
    return v.fields['rows']


SPECFUNCS['gridrows'] = s_grid


# --------------------------------------------------------------- randomness
def rng_obj(cls):
    def m(eng, args, kw):
        return eng.new(HObj(cls))
    return m


def shuffle(eng, o, args, kw):
    """some permutation of the list, in place; `shufpos(x)` in a
    specification is where the element that was at x has gone"""
    l = args[0]
    if not isinstance(l, HList) or l.parent is not None:
        raise Unsupported('shuffle')
    eng.assumptions.add('shuffle permutes its list')
    from .values import zsort
    ty = eng.ty(l)[1]
    n, arr = eng.larr(l)
    I = z3.IntSort()
    new = eng.fresh('shuf', z3.ArraySort(I, zsort(ty)))
    p = eng.fresh('shufp', z3.ArraySort(I, I))
    q = eng.fresh('shufq', z3.ArraySort(I, I))
    i = z3.Int('i!shuf')
    ins = z3.And(0 <= i, i < n)
    pi, qi = z3.Select(p, i), z3.Select(q, i)
    eng.assume(z3.ForAll([i], z3.Implies(ins, z3.And(
        0 <= pi, pi < n, z3.Select(q, pi) == i,
        z3.Select(new, i) == z3.Select(arr, pi))),
        patterns=[z3.Select(new, i), pi]))
    eng.assume(z3.ForAll([i], z3.Implies(ins, z3.And(
        0 <= qi, qi < n, z3.Select(p, qi) == i)), patterns=[qi]))
    eng.setlist(l, eng.new(HList(n=n, arr=new, ety=ty)))
    eng.lastshuf = q


def s_shufpos(sp, x):
    q = getattr(sp.eng, 'lastshuf', None)
    if q is None:
        from .spec import SpecError
        raise SpecError('no shuffle')
    return SInt(z3.Select(q, sp.eng.mkz(sp.eng.zi(x))))


SPECFUNCS['shufpos'] = s_shufpos


def arange(eng, args, kw):
    return eng.b_list([eng.b_range(args, {})], {})


RANDOM = {('call', 'random.Random'): rng_obj('Random'),
          ('call', 'numpy.random.RandomState'): rng_obj('RandomState'),
          ('Random', 'shuffle'): shuffle, ('RandomState', 'shuffle'): shuffle,
          ('call', 'numpy.arange'): arange}
