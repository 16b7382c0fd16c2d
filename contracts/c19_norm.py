"""Normalisations: each value mapped by the parameters of the first vector."""
from contracts._common import *

NORM = 'nimble.calculate.normalize:'
STAT = 'nimble.calculate.statistic:'
NAMES = {'mean': 'mean', 'standardDeviation': 'std', 'minimum': 'min',
         'maximum': 'max'}


def arith(eng):
    """vectors combined with numbers or vectors of their length, element by
    element; the statistics of the first vector are some numbers, those of
    another vector are other numbers"""
    from pyvc.values import Builtin, HObj
    from pyvc import table

    def cells(e, op, a, b):
        if isinstance(a, HObj) and isinstance(b, HObj):
            n, m = table.vec_n(e, a), table.vec_n(e, b)
            e.assume(e.zi(n) == e.zi(m)) if e.decide(
                e.zi(n) == e.zi(m)) else refuse(e)
            la, lb = a.fields['cells'], b.fields['cells']
            it = e.b_map([Builtin('op', lambda x, k: e.binop(
                op, *x[0])), e.b_zip([la, lb], {})], {})
        elif isinstance(a, HObj):
            it = e.b_map([Builtin('op', lambda x, k: e.binop(op, x[0], b)),
                          a.fields['cells']], {})
        else:
            it = e.b_map([Builtin('op', lambda x, k: e.binop(op, a, x[0])),
                          b.fields['cells']], {})
        return e.b_list([it], {})

    def refuse(e):
        raise e.exc('ValueError')

    def binop(e, op, a, b):
        v = a if isinstance(a, HObj) else b
        table.note(e)
        return table.mkvec(e, cells(e, op, a, b), v.fields['isPt'])

    def inplace(e, op, a, b):
        e.setlist(a.fields['cells'], cells(e, op, a, b))
    eng.models[('NimVec', 'binop')] = binop
    eng.models[('NimVec', 'inplace')] = inplace

    def stat(nm, field):
        def s(e, a, k):
            if a[0] is e.specenv['values1']:
                if nm == 'standardDeviation':
                    if (a[1:] or [k.get('sample', True)])[0] is not False:
                        return e.freshv('sample_std', 'real')
                return e.specenv['st'].fields[field]
            return e.freshv(nm, 'real')
        return s
    for nm, f in NAMES.items():
        eng.summaries[STAT + nm] = stat(nm, f)


NUMS = Vec(Real(), rts=('List', 'Matrix', 'DataFrame', 'Sparse'))
ST = Obj('Stats', mean=Real(), std=Real(), min=Real(), max=Real())


class Stats:
    def __init__(self, cells):
        import math
        n = len(cells)
        self.mean = sum(cells) / n
        self.std = math.sqrt(sum((c - self.mean) ** 2 for c in cells) / n)
        self.min, self.max = min(cells), max(cells)

    def __deepcopy__(self, memo):
        return self


def native(fn):
    def go(env):
        import numpy
        import nimble.calculate.normalize as m
        v = [float(x) for x in vcells(env['values1'])]
        env['st'].__dict__.update(Stats(v).__dict__)
        if 0 < env['st'].std < 1e-9:
            env['st'].std = 0
        return fn(m, env)
    return go


def vcells(v):
    return [v[i] for i in range(len(v))]


def gen_norm(two):
    def gen(rng):
        v = NUMS.gen(rng)
        d = dict(st=Stats([float(x) for x in vcells(v)]), values1=v)
        if two:
            d['values2'] = NUMS.gen(rng)
        return d
    return gen


def kept(two):
    return [('the data is untouched', ' and '.join(
        f'len(cells({v})) == len(old(cells({v}))) and all(cells({v})[i] == '
        f'old(cells({v}))[i] for i in range(len(cells({v}))))'
        for v in (('values1', 'values2') if two else ('values1',))))]


def maps(two, expr, label):
    """each element of each result is expr of the element"""
    out = kept(two)
    for i, v in enumerate(('values1', 'values2') if two else ('values1',)):
        r = f'result[{i}]' if two else 'result'
        e = expr.format(x=f'cells({v})[i]')
        out.append((f'{label} ({v})', f'len(cells({r})) == len(cells({v})) '
                    f'and all(close(cells({r})[i], {e}) for i in '
                    f'range(len(cells({v}))))'))
    return out


STD = '(({x} - st.mean) / st.std if st.std != 0 else {x} - st.mean)'
R01 = '(({x} - st.min) / (st.max - st.min) if st.max != st.min else ' \
      '{x} - st.min)'
for two in (False, True):
    ps = dict(st=ST, values1=NUMS)
    if two:
        ps['values2'] = NUMS
    sfx = '_second' if two else ''
    for cid, fn, expr in (
            ('mean', 'meanNormalize', '{x} - st.mean'),
            ('zscore', 'meanStandardDeviationNormalize', STD),
            ('range01', 'range0to1Normalize', R01)):
        def run(eng, env, fn=fn, two=two):
            from pyvc.values import FuncVal
            mod, cls, node = eng.loader.target(NORM + fn)
            return eng.callfunc(FuncVal(node, mod, None, None, node.name),
                                [env['values1']] + ([env['values2']]
                                                    if two else []), {})

        def nat(m, env, fn=fn, two=two):
            return getattr(m, fn)(env['values1'],
                                  *([env['values2']] if two else []))
        ens = maps(two, expr, 'each value on the scale')
        if cid == 'range01':
            ens.append(('between 0 and 1', 'all(0 <= cells({r})[i] and '
                        'cells({r})[i] <= 1.0000001 for i in range(len(cells'
                        '({r}))))'.format(r='result[0]' if two else
                                          'result')))
        contract(f'normalize_{cid}{sfx}', 'C19', NORM + fn, ps, run=run,
                 native=native(nat), gen=gen_norm(two), overrides=arith,
                 requires=['st.std >= 0', 'all(st.min <= cells(values1)[i] '
                           'and cells(values1)[i] <= st.max for i in '
                           'range(len(cells(values1))))'], ensures=ens)


def sym_search(eng):
    """numpy.searchsorted on an ascending array: the first index whose value
    is not below"""
    def search(e, a, k):
        import z3
        l, v = a[0], a[1]
        n, arr = e.larr(l, 'real')
        r = e.freshv('idx', 'int')
        i = z3.Int('i!ss')
        x = e.z(v, 'real')
        nz = e.mkz(n)
        e.assume(z3.And(0 <= r.e, r.e <= nz))
        e.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < nz), z3.And(
            z3.Implies(i < r.e, z3.Select(arr, i) < x),
            z3.Implies(i >= r.e, z3.Select(arr, i) >= x))),
            patterns=[z3.Select(arr, i)]))
        e.assume(z3.Implies(z3.And(0 <= r.e, r.e < nz),
                            z3.Select(arr, r.e) >= x))
        e.assume(z3.Implies(z3.And(0 < r.e, r.e <= nz),
                            z3.Select(arr, r.e - 1) < x))
        return r
    eng.models[('call', 'numpy.searchsorted')] = search
    eng.models[('call', 'numpy.isnan')] = lambda e, a, k: False
    eng.assumptions.add('no missing values')


def gen_interp(rng):
    import numpy as np
    n = rng.randint(1, 5)
    s = sorted(rng.choice([0., 1., 2., 3.5, 4.]) for _ in range(n))
    by = {v: None for v in s}
    ps = sorted(rng.choice([0., .25, .5, .75, 1.]) for _ in by)
    by = dict(zip(by, ps))
    return dict(minimum=s[0], maximum=s[-1], sortedValues=np.array(s),
                sortedPercentiles=np.array([by[v] for v in s]),
                val=rng.choice([-1., 0., .5, 1., 1.5, 2., 3., 3.5, 3.7, 4.,
                                5.]))


contract('interp_percentile', 'C19', NORM + '_interpPercentile',
         dict(minimum=Real(), maximum=Real(), sortedValues=List(Real(), lo=1),
              sortedPercentiles=List(Real(), lo=1), val=Real()),
         overrides=sym_search, gen=gen_interp,
         requires=['len(sortedValues) == len(sortedPercentiles)',
                   'minimum == sortedValues[0]',
                   'maximum == sortedValues[len(sortedValues) - 1]',
                   'all(implies(i < j, sortedValues[i] <= sortedValues[j]) '
                   'for i in range(len(sortedValues)) for j in '
                   'range(len(sortedValues)))',
                   'all(implies(sortedValues[i] == sortedValues[j], '
                   'sortedPercentiles[i] == sortedPercentiles[j]) '
                   'for i in range(len(sortedValues)) for j in '
                   'range(len(sortedValues)))',
                   'all(implies(i < j, sortedPercentiles[i] <= '
                   'sortedPercentiles[j]) for i in range(len(sortedValues)) '
                   'for j in range(len(sortedValues)))',
                   'all(0 <= sortedPercentiles[i] and sortedPercentiles[i] '
                   '<= 1 for i in range(len(sortedValues)))'],
         ensures=[
             ('0 below', 'implies(val < minimum, result == 0)'),
             ('1 above', 'implies(val > maximum, result == 1)'),
             ('that of an equal value', 'all(implies(sortedValues[i] == val,'
              ' result == sortedPercentiles[i]) for i in '
              'range(len(sortedValues)))'),
             ('not below those of smaller values', 'all(implies('
              'sortedValues[i] <= val, result >= sortedPercentiles[i] - '
              '0.0000001) for i in range(len(sortedValues)))'),
             ('not above those of larger values', 'all(implies('
              'sortedValues[i] >= val, result <= sortedPercentiles[i] + '
              '0.0000001) for i in range(len(sortedValues)))'),
             ('on the line between the neighbours', 'all(implies('
              'sortedValues[i] < val and val < sortedValues[i + 1], '
              'close((result - sortedPercentiles[i]) * (sortedValues[i + 1]'
              ' - sortedValues[i]), (sortedPercentiles[i + 1] - '
              'sortedPercentiles[i]) * (val - sortedValues[i]))) for i in '
              'range(len(sortedValues) - 1))')])
