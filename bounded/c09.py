import operator

from . import ops
from .driver import *
from .ops import Op

RULE = ('random tables of up to 4 x 4 in the four data types, reached '
        'through different histories, and views: arithmetic (scalar on '
        'either side, objects, in place, stretched), comparisons and logical '
        'operators, calculateOnElements / transformElements / '
        'matchingElements / countElements with limits, points/features '
        'calculate and transform, and matrix products, cell by cell against '
        'a table model with the documented names; then the result is changed '
        'and the operands must stay')

NUM = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow']


def cell(op, a, b):
    if op in ('truediv', 'floordiv', 'mod') and not missing(b) and b == 0:
        raise Refuse('zero division')
    if missing(a) or missing(b):
        if op == 'pow':
            raise Skip()
        return None
    if op == 'pow':
        if a == 0 and b < 0:
            raise Refuse('0 ** -1')
        if a < 0 and b != int(b):
            raise Refuse('complex')
    return getattr(operator, op)(a, b)


def unequal(a, b):
    """inconsistent names: given on both sides and different, or the same
    name in two places"""
    if nm(a) is None or nm(b) is None:
        return False
    for i, (x, y) in enumerate(zip(a, b)):
        if x is not None and y is not None and x != y:
            return True
        if x is not None and y is None and x in b:
            return True
        if y is not None and x is None and y in a:
            return True
    return False


def mergenames(a, b):
    return [x if x is not None else y for x, y in zip(a, b)]


def numtab(rng, n=None, m=None, kind=None, **k):
    return gentab(rng, kind or rng.choice(['int', 'float', 'nan', 'zero',
                                           'pos']), n, m, **k)


def check0(tab, op, right):
    """a zero anywhere in a divisor refuses"""
    if op in ('truediv', 'floordiv', 'mod') and any(
            not missing(v) and v == 0 for r in right.rows for v in r):
        raise Refuse('zero in the divisor')


def scalarop(rng, tab):
    op = rng.choice(NUM)
    f = getattr(operator, op)
    c = rng.choice([0, 1, 2, 3, .5, -1, 2.5])
    if op == 'pow':
        c = rng.choice([0, 1, 2, 3])
    left = rng.random() < .35
    ip = not left and rng.random() < .35
    if left:
        if op == 'pow' or op in ('truediv', 'floordiv', 'mod') and any(
                not missing(v) and v < 0 for r in tab.rows for v in r):
            op, f = 'sub', operator.sub
        # a Sparse divisor is refused for its zeros only when asked
        if op in ('truediv', 'floordiv', 'mod') and any(
                not missing(v) and v == 0 for r in tab.rows for v in r):
            op, f = 'add', operator.add

    def model(t):
        if op in ('truediv', 'floordiv', 'mod') and not left and c == 0:
            raise Refuse('zero')
        rows = [[cell(op, c, v) if left else cell(op, v, c) for v in r]
                for r in t.rows]
        new = Tab(rows, t.pn, t.fn, t.nf)
        return (new, new) if ip else (t, new)
    if ip:
        g = getattr(operator, 'i' + op)
        return Op('i' + op, f'{c}', lambda o, a, rt: g(o, c), model, True)
    return Op(op, f'{"scalar " * left}{c}', lambda o, a, rt: f(c, o) if left
              else f(o, c), model, False)


def objnames(op, t, a, ip):
    """the point and feature names of a result, or Refuse"""
    fe, pe = not unequal(t.fn, a.fn), not unequal(t.pn, a.pn)
    if ip and not (fe and pe):
        raise Refuse('names')
    if not fe and not pe:
        raise Refuse('names')

    def disjoint(x, y):
        if {v for v in x if v} & {v for v in y if v}:
            raise Refuse('the differing names share one')
    pn, fn = mergenames(t.pn, a.pn), mergenames(t.fn, a.fn)
    if fe and not pe:
        disjoint(t.pn, a.pn)
        pn = [None] * t.np
    elif pe and not fe:
        disjoint(t.fn, a.fn)
        fn = [None] * t.nf
    return pn, fn


def like(rng, tab, kind=None):
    r = rng.random()
    if r < .1:
        return numtab(rng, tab.np + 1, tab.nf, kind)
    a = numtab(rng, tab.np, tab.nf, kind)
    if r < .6:
        a.pn, a.fn = list(tab.pn), list(tab.fn)
        if rng.random() < .3:
            a.fn = [x and (x + '!' if rng.random() < .7 else None)
                    for x in a.fn]
        if rng.random() < .3:
            a.pn = [x and (x + '!' if rng.random() < .7 else None)
                    for x in a.pn]
    return a


def objop(rng, tab):
    op = rng.choice(NUM)
    f = getattr(operator, op)
    kind = None
    if op in ('truediv', 'floordiv', 'mod'):
        kind = rng.choice(['pos', 'pos', 'zero'])
    if op == 'pow':
        kind = 'pos'
    a = like(rng, tab, kind)
    ip = rng.random() < .35

    def model(t):
        if (t.np, t.nf) != (a.np, a.nf):
            raise Refuse('shape')
        if op == 'pow' and any(missing(v) for r in t.rows for v in r):
            raise Skip()
        check0(t, op, a)
        pn, fn = objnames(op, t, a, ip)
        rows = [[cell(op, x, y) for x, y in zip(r, s)]
                for r, s in zip(t.rows, a.rows)]
        new = Tab(rows, pn, fn, t.nf)
        return (new, new) if ip else (t, new)
    if op in ('pow', 'mod', 'floordiv') and any(
            missing(v) for r in a.rows for v in r):
        raise Skip()
    if ip:
        g = getattr(operator, 'i' + op)
        return Op('i' + op, f'{a}', lambda o, x, rt: g(o, x[0]), model, True,
                  [a])
    return Op(op, f'{a}', lambda o, x, rt: f(o, x[0]), model, False, [a])


def unary(rng, tab):
    k = rng.choice(['neg', 'pos', 'abs'])
    f = getattr(operator, k)
    return Op(k, '', lambda o, a, rt: f(o), lambda t: (t, Tab(
        [[v if missing(v) else f(v) for v in r] for r in t.rows], t.pn, t.fn,
        t.nf)), False)


def logical(rng, tab):
    k = rng.choice(['and_', 'or_', 'xor', 'invert'])
    f = getattr(operator, k)
    vals = [0, 1, 0, 1, True, False] if rng.random() < .6 else [True, False]
    t = Tab([[rng.choice(vals) for _ in range(tab.nf)]
             for _ in range(tab.np)], tab.pn, tab.fn, tab.nf)
    if k == 'invert':
        return t, Op(k, '', lambda o, a, rt: f(o), lambda t: (t, Tab(
            [[not v for v in r] for r in t.rows], t.pn, t.fn, t.nf)), False)
    a = like(rng, t)
    a.rows = [[rng.choice(vals) for _ in r] for r in a.rows]

    def model(t):
        if (t.np, t.nf) != (a.np, a.nf):
            raise Refuse('shape')
        pn, fn = objnames('__and__', t, a, False)
        return t, Tab([[f(bool(x), bool(y)) for x, y in zip(r, s)]
                       for r, s in zip(t.rows, a.rows)], pn, fn, t.nf)
    return t, Op(k, f'{a}', lambda o, x, rt: f(o, x[0]), model, False, [a])


FS = {'double': lambda v: v * 2, 'plus': lambda v: v + 1,
      'square': lambda v: v * v, 'zero': lambda v: 0 * v,
      'const': lambda v: 5, 'isone': lambda v: v == 1,
      'text': lambda v: f'v{float(v):g}',
      'none if 2': lambda v: None if v == 2 else v + 3}
FS3 = {'place': lambda v, i, j: 10 * i + j,
       'value and place': lambda v, i, j: (0 if missing(v) else v) * 100
       + 10 * i + j,
       'none on the diagonal': lambda v, i, j: None if i == j else v + 1}


def efun(rng, tab):
    k = rng.random()
    if k < .15:
        d = {rng.choice([0, 1, 2, -1, 3]): rng.choice([7, 8, 0, 2])
             for _ in range(2)}
        return f'{d}', d, lambda v, i, j: d.get(v, v)
    if k < .4:
        n = rng.choice(list(FS3))
        return n, FS3[n], FS3[n]
    n = rng.choice(list(FS))
    return n, FS[n], lambda v, i, j: FS[n](v)


def element(rng, tab, which=None):
    k = which or rng.choice(['calculateOnElements', 'transformElements'])
    n, f, g = efun(rng, tab)
    lim = {}
    if rng.random() < .4:
        lim['points'] = ops.idlist(rng, tab.pn, tab.np, dup=0)
        if not isinstance(lim['points'], list):
            lim['points'] = [lim['points']]
    if rng.random() < .4:
        lim['features'] = ops.idlist(rng, tab.fn, tab.nf, dup=0)
        if not isinstance(lim['features'], list):
            lim['features'] = [lim['features']]
    pz = rng.random() < .3
    sn = rng.random() < .3
    if pz:
        lim['preserveZeros'] = True
    if sn:
        lim['skipNoneReturnValues'] = True

    def one(v, i, j):
        if pz and not missing(v) and v == 0:
            return 0
        try:
            r = g(v, i, j)
        except TypeError:
            raise Skip()
        if r is None and sn:
            return v
        return r

    def model(t):
        ps = ops.resolved(t.pn, t.np, lim['points']) \
            if 'points' in lim else list(range(t.np))
        fs = ops.resolved(t.fn, t.nf, lim['features']) \
            if 'features' in lim else list(range(t.nf))
        if any(missing(v) for r in t.rows for v in r) and 'text' in n:
            raise Skip()
        if k == 'transformElements':
            rows = [[one(t.rows[i][j], i, j) if i in ps and j in fs
                     else t.rows[i][j] for j in range(t.nf)]
                    for i in range(t.np)]
            if not sn and any(v is None and not missing(w) for r, s in
                              zip(rows, t.rows) for v, w in zip(r, s)):
                raise Skip()  # kept as None by some types
            return Tab(rows, t.pn, t.fn, t.nf), None
        if len(set(ps)) < len(ps) or len(set(fs)) < len(fs):
            raise Skip()
        return t, Tab([[one(t.rows[i][j], i, j) for j in fs] for i in ps],
                      None, None, len(fs))
    return Op(k, f'{n} {lim}', lambda o, a, rt: getattr(o, k)(
        dict(f) if isinstance(f, dict) else f, **lim, useLog=False), model,
        k == 'transformElements', retnames=False, text=n == 'text')


MS = {'0': (0, lambda v: v == 0), '1': (1, lambda v: v == 1),
      '> 1': ('> 1', lambda v: v > 1), '<= 1': ('<= 1', lambda v: v <= 1),
      '!= 1': ('!= 1', lambda v: v != 1),
      'missing': ('is missing', missing),
      'fun': (lambda v: v == 2, lambda v: v == 2)}


def matching(rng, tab):
    n = rng.choice(list(MS))
    f, g = MS[n]
    count = rng.random() < .3 and n not in ('0', '1')

    def hit(v):
        if missing(v):
            return n in ('missing', '!= 1')
        return bool(g(v))
    lim = {}
    if not count and rng.random() < .4:
        lim['points'] = ops.idlist(rng, tab.pn, tab.np, dup=0)
    if not count and rng.random() < .4:
        lim['features'] = ops.idlist(rng, tab.fn, tab.nf, dup=0)

    def model(t):
        if n == '!= 1' and any(missing(v) for r in t.rows for v in r):
            raise Skip()
        if count:
            return t, sum(hit(v) for r in t.rows for v in r)
        ps = ops.resolved(t.pn, t.np, lim['points']) \
            if 'points' in lim else list(range(t.np))
        fs = ops.resolved(t.fn, t.nf, lim['features']) \
            if 'features' in lim else list(range(t.nf))
        if len(set(ps)) < len(ps) or len(set(fs)) < len(fs):
            raise Skip()
        return t, Tab([[hit(t.rows[i][j]) for j in fs] for i in ps],
                      [t.pn[i] for i in ps], [t.fn[j] for j in fs], len(fs))
    if count:
        return Op('countElements', n, lambda o, a, rt: o.countElements(f),
                  model, False)
    return Op('matchingElements', f'{n} {lim}', lambda o, a, rt:
              o.matchingElements(f, **lim, useLog=False), model, False)


VS = {'sum': lambda v: sum(v), 'rev': lambda v: list(v)[::-1],
      'double': lambda v: [2 * x for x in v], 'first': lambda v: v[0],
      'pair': lambda v: [v[0], len(v)], 'ones': lambda v: [1] * len(v)}


def vector(rng, tab):
    ax = rng.choice(['points', 'features'])
    k = rng.choice(['calculate', 'transform'])
    n = rng.choice(list(VS))
    f = VS[n]
    t0 = tab.axis(ax)
    lim = (ops.idlist(rng, t0.pn, t0.np, dup=0),) \
        if rng.random() < .5 else ()

    def model(tab):
        t = tab.axis(ax)
        ids = ops.resolved(t.pn, t.np, lim[0]) if lim else list(range(t.np))
        if len(set(ids)) < len(ids):
            raise Skip()
        if any(missing(v) for r in t.rows for v in r) and n == 'sum':
            raise Skip()

        def g(r):
            r = [float('nan') if v is None else v for v in r]
            return f(r)
        if k == 'calculate':
            rows = [g(t.rows[i]) for i in ids]
            rows = [r if isinstance(r, list) else [r] for r in rows]
            if not rows:
                raise Skip()
            return tab, fromax(Tab(rows, [t.pn[i] for i in ids], None,
                                   len(rows[0])), ax)
        rows = []
        for i, r in enumerate(t.rows):
            if i in ids:
                r = g(r)
                if not isinstance(r, list):
                    raise Refuse('no list')
                if len(r) != t.nf:
                    raise Refuse('length')
            rows.append(r)
        return fromax(Tab(rows, t.pn, t.fn, t.nf), ax), None
    return Op(f'{ax}.{k}', f'{n} {lim}', lambda o, a, rt: getattr(getattr(
        o, ax), k)(f, *lim, useLog=False), model, k == 'transform',
        retnames=True)


def product(rng, tab):
    if any(missing(v) for r in tab.rows for v in r):
        raise Skip()
    a = numtab(rng, tab.nf + (rng.random() < .1), None, 'int')
    # the inner names have to agree
    a.pn = list(tab.fn) if rng.random() < .6 else [None] * a.np
    if len(a.pn) != a.np:
        a.pn = [None] * a.np

    def model(t):
        if t.nf != a.np:
            raise Refuse('shape')
        return t, Tab([[sum(t.rows[i][k] * a.rows[k][j]
                            for k in range(t.nf)) for j in range(a.nf)]
                       for i in range(t.np)], t.pn, a.fn, a.nf)
    return Op('@', f'{a}', lambda o, x, rt: o @ x[0], model, False, [a],
              tol=1e-7)


def stretch(rng, tab):
    op = rng.choice(['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod'])
    f = getattr(operator, op)
    ax = rng.choice(['points', 'features'])
    t0 = tab.axis(ax)
    a0 = numtab(rng, 1, t0.nf, 'pos', pn='none', fn='none')
    left = rng.random() < .4
    a = fromax(a0, ax)
    if op in ('truediv', 'floordiv', 'mod') and left and any(
            missing(v) or v <= 0 for r in tab.rows for v in r):
        op, f = 'sub', operator.sub

    def model(tab):
        t = tab.axis(ax)
        rows = [[cell(op, y, x) if left else cell(op, x, y)
                 for x, y in zip(r, a0.rows[0])] for r in t.rows]
        return tab, fromax(Tab(rows, t.pn, t.fn, t.nf), ax)
    return Op('stretch ' + op, f'{a} {left}', lambda o, x, rt:
              f(x[0].stretch, o) if left else f(o, x[0].stretch), model,
              False, [a])


MAKERS = [scalarop, scalarop, objop, objop, objop, unary, element, element,
          element, matching, vector, vector, product, stretch]
KINDS = ('int', 'float', 'nan', 'zero', 'pos')


def run(api):
    runops(api, MAKERS, 700, viewp=.2, share=.6, kinds=KINDS)
    loop(api, 'logic', 200, logic, share=.5)
    loop(api, 'apart', 250, apart)


def logic(rng):
    tab = gentab(rng)
    t, op = logical(rng, tab)
    rt = rng.choice(TYPES)
    if rt == 'Sparse' and any(len({type(v) for r in x.rows for v in r}) > 1
                              for x in [t] + op.argtabs):
        return  # no array type holds both
    try:
        ops.step(t, rt, rng.choice(['direct', 'T', 'perm', 'warm']), op)
    except Check as e:
        e.args = (f'{e.args[0]}; table {t}',)
        raise


CHANGES = {
    'setNames': lambda o: (o.points.setNames([f'q{i}' for i in range(len(
        o.points))], useLog=False), o.features.setNames(
            None, useLog=False)),
    'transform': lambda o: o.transformElements(lambda v: 99, useLog=False),
    'setitem': lambda o: operator.setitem(o, (0, 0), 99),
    'transpose': lambda o: o.transpose(useLog=False),
    'delete': lambda o: o.points.delete(0, useLog=False),
    'deletef': lambda o: o.features.delete(0, useLog=False),
    'parse': lambda o: o.features.splitByParsing(
        0, lambda v: [v, v], ['new1', 'new2'], useLog=False),
    'repeat': lambda o: o.features.repeat(2, True),
    'append': lambda o: o.points.append(o.copy(), useLog=False),
    'sort': lambda o: o.points.permute(list(range(len(o.points)))[::-1],
                                       useLog=False),
    'imul': lambda o: o.__imul__(3),
    'fill': lambda o: o.features.fillMatching(
        88, nimble.match.numeric, useLog=False),
    'flatten': lambda o: o.flatten(useLog=False),
}


def apart(rng):
    """changing the result of an operation leaves the operands, and changing
    the operands leaves the result"""
    tab = gentab(rng, kinds=KINDS, lo=1)
    while True:
        try:
            op = rng.choice(MAKERS)(rng, tab)
            new, ret = op.model(tab.copy())
        except (Skip, Refuse):
            continue
        if not op.mut and not op.text:
            break
    rt, how = rng.choice(TYPES), rng.choice(HOW)
    o = mk(tab, rt, how)
    args = [mk(t, rt) for t in op.argtabs]
    val = op.apply(o, args, rt)
    if not isinstance(val, nimble.core.data.Base):
        return
    was = read(val)
    n = rng.choice(list(CHANGES))
    what = f'{op.name} {op.desc} on {rt}/{how}, then {n}; table {tab}'
    if rng.random() < .6:
        attempt(CHANGES[n], val)
        same(o, tab, what + ' on the result')
        for a, t in zip(args, op.argtabs):
            same(a, t, what + ' on the result, argument')
    else:
        attempt(CHANGES[n], rng.choice([o] + args))
        same(val, was, what + ' on an operand')
