"""Views: the window of the source, and the refusal to change anything."""
try:
    import z3
except ImportError:      # the repository's interpreter
    z3 = None

from contracts._common import *

VW = 'nimble.core.data.views:'
BASE = 'nimble.core.data.base:Base'
LST = 'nimble.core.data.list:'


# ---------------------------------------------------- which window is shown
class Axis:
    """identifiers of an axis of n vectors (contract axis_getIndex)"""

    def __init__(self, n, names=None, namesInverse=None):
        self.n, self.names, self.namesInverse = n, names, namesInverse

    def __len__(self):
        return self.n

    def getIndex(self, x):
        if -self.n <= x < self.n:
            return x + self.n if x < 0 else x
        raise IndexError(x)


class Src:
    """a source that records the window it is asked for"""

    def __init__(self, points, features, dims=(0, 0)):
        self.points, self.features, self._dims = points, features, list(dims)

    def _view_backend(self, *a):
        return a


def sym_axis(eng):
    def getindex(e, o, a, k):
        x, n = e.zi(a[0]), e.zi(o.fields['n'])
        if e.decide(z3.And(x >= 0, x < n)):
            return a[0]
        if e.decide(z3.And(x < 0, x >= -n)):
            return e.mkint(x + n)
        raise e.exc('IndexError')
    eng.models[('VAxis', 'getIndex')] = getindex
    eng.models[('VAxis', '__len__')] = lambda e, o, a, k: o.fields['n']
    eng.models[('VSrc', '_view_backend')] = lambda e, o, a, k: tuple(a)
    eng.summaries[BASE + '._view_implementation'] = \
        lambda e, a, k: tuple(a[1:])


def ax(**kw):
    return Obj('VAxis', n=Int(0), **kw)


def gen_window(rng, view):
    n, m = rng.randint(1, 5), rng.randint(1, 5)
    if view:
        s = [sorted((rng.randint(0, k), rng.randint(0, k))) for k in (n, m)]
        lens = [b - a for a, b in s]
        o = dict(_pStart=s[0][0], _pEnd=s[0][1], _fStart=s[1][0],
                 _fEnd=s[1][1], points=Axis(lens[0]), features=Axis(lens[1]),
                 _source=Src(Axis(n), Axis(m)))
    else:
        lens = [n, m]
        o = dict(points=Axis(n), features=Axis(m), _dims=[n, m])

    def idx(k):
        return None if rng.random() < .3 else rng.randint(-k - 1, k)
    return dict(self=o, pointStart=idx(lens[0]), pointEnd=idx(lens[0]),
                featureStart=idx(lens[1]), featureEnd=idx(lens[1]),
                dropDimension=rng.random() < .2)


def at(x, n):
    return f'({x} + {n} if {x} < 0 else {x})'


def native_base(env):
    from nimble.core.data.base import Base
    o = env['self']
    o._view_implementation = lambda *a: a
    return Base._view_backend(o, env['pointStart'], env['pointEnd'],
                              env['featureStart'], env['featureEnd'],
                              env['dropDimension'])


WP = dict(pointStart=Opt(Int()), pointEnd=Opt(Int()), featureStart=Opt(Int()),
          featureEnd=Opt(Int()), dropDimension=Bool())


def bounds(p, n):
    """the window of one axis with inclusive optional ends"""
    s, e = p + 'Start', p + 'End'
    return (f'(0 if {s} is None else {at(s, n)})',
            f'({n} if {e} is None else {at(e, n)} + 1)')


NP, NF = 'len(self.points)', 'len(self.features)'
BP, BF = bounds('point', NP), bounds('feature', NF)
OUT = ' or '.join(f'({x} is not None and ({x} < -{n} or {x} >= {n}))'
                  for x, n in (('pointStart', NP), ('pointEnd', NP),
                               ('featureStart', NF), ('featureEnd', NF)))
EMPTY = ' or '.join(f'({p}End is not None and {b[0]} >= {b[1]})'
                    for p, b in (('point', BP), ('feature', BF)))

contract('view_backend_source', ['C05', 'C22'], BASE + '._view_backend', WP,
         selfp=Obj(BASE, points=ax(), features=ax(),
                   _dims=Items(Int(0), Int(0))),
         overrides=sym_axis, gen=lambda rng: gen_window(rng, False),
         native=native_base,
         raises={'IndexError': ('only', OUT),
                 'InvalidArgumentValueCombination': ('only', EMPTY)},
         ensures=[('the identifiers are inside', f'not ({OUT})'),
                  ('the window asked for', f'result[0] == {BP[0]} and '
                   f'result[1] == {BP[1]} and result[2] == {BF[0]} and '
                   f'result[3] == {BF[1]}'),
                  ('an end before the start is refused', f'not ({EMPTY})')])

SN, SF = 'len(self._source.points)', 'len(self._source.features)'
contract('view_backend_view', ['C05', 'C22'], VW + 'BaseView._view_backend',
         WP, selfp=Obj(VW + 'BaseView', _pStart=Int(0), _pEnd=Int(0),
                       _fStart=Int(0), _fEnd=Int(0), points=ax(),
                       features=ax(), _source=Obj(
                           'VSrc', points=ax(), features=ax())),
         overrides=sym_axis, gen=lambda rng: gen_window(rng, True),
         requires=['self._pStart <= self._pEnd', 'self._fStart <= self._fEnd',
                   f'self._pEnd <= {SN}', f'self._fEnd <= {SF}',
                   f'{NP} == self._pEnd - self._pStart',
                   f'{NF} == self._fEnd - self._fStart'],
         raises={'IndexError': OUT},
         ensures=[
             ('start inside the window, counted from the source',
              f'implies({SN} > 0, result[0] == self._pStart + (0 if '
              f'pointStart is None else {at("pointStart", NP)})) and '
              f'implies({SF} > 0, result[2] == self._fStart + (0 if '
              f'featureStart is None else {at("featureStart", NF)}))'),
             ('end inside the window, counted from the source',
              f'implies({SN} > 0, result[1] == self._pStart + ({NP} - 1 if '
              f'pointEnd is None else {at("pointEnd", NP)})) and '
              f'implies({SF} > 0, result[3] == self._fStart + ({NF} - 1 if '
              f'featureEnd is None else {at("featureEnd", NF)}))'),
             ('an empty axis is taken whole', f'implies({SN} == 0, '
              f'result[0] is None and result[1] is None) and implies('
              f'{SF} == 0, result[2] is None and result[3] is None)')])


# ------------------------------------------------------ names of the window
def sym_init(eng):
    def init(e, a, k):
        for f in ('pointNames', 'featureNames', 'reuseData'):
            e.setattr(a[0], 'got_' + f, k.get(f))
    eng.summaries[BASE + '.__init__'] = init


def native_init(env):
    import nimble.core.data.views as v

    class B:
        def __init__(self, **kw):
            for f in ('pointNames', 'featureNames', 'reuseData'):
                setattr(self, 'got_' + f, kw.get(f))
    o = env['self']
    f = v.BaseView.__init__
    # the code object of __init__ with super().__init__ recording
    K = type('K', (B,), {})
    import types
    k = K.__new__(K)
    cell = types.CellType(K)
    fn = types.FunctionType(f.__wrapped__.__code__ if hasattr(
        f, '__wrapped__') else f.__code__, v.__dict__, '__init__',
        f.__defaults__, (cell,))
    fn(k, env['source'], env['pointStart'], env['pointEnd'],
       env['featureStart'], env['featureEnd'])
    o.__dict__.update(k.__dict__)


def gen_init(rng):
    n, m = rng.randint(0, 5), rng.randint(0, 5)

    def axn(k, p):
        if rng.random() < .3:
            return Axis(k)
        return Axis(k, {}, [p + str(i) if rng.random() < .7 else None
                            for i in range(k)])
    p = sorted((rng.randint(0, n), rng.randint(0, n)))
    f = sorted((rng.randint(0, m), rng.randint(0, m)))
    return dict(self={}, source=Src(axn(n, 'p'), axn(m, 'f'), [n, m]),
                pointStart=p[0], pointEnd=p[1], featureStart=f[0],
                featureEnd=f[1])


def nmax():
    return ax(names=Opt(Dict(Str(), Int())),
              namesInverse=List(Val('none', 'str')))


def nameclause(p, f):
    a = f'source.{f}'
    got = f'self.got_{p}Names'
    return (f'iff({got} is None, {a}.names is None) and implies({got} is not '
            f'None, len({got}) == {p}End - {p}Start and all({got}[i] == '
            f'{a}.namesInverse[{p}Start + i] for i in range({p}End - '
            f'{p}Start)))')


contract('view_init', ['C05', 'C01'], VW + 'BaseView.__init__',
         dict(source=Obj('VSrc', points=nmax(), features=nmax(),
                         _dims=Items(Int(0), Int(0))), pointStart=Int(0),
              pointEnd=Int(0), featureStart=Int(0), featureEnd=Int(0)),
         selfp=Obj(VW + 'BaseView'), overrides=sym_init, gen=gen_init,
         native=native_init,
         requires=['pointStart <= pointEnd', 'featureStart <= featureEnd',
                   'pointEnd <= len(source.points.namesInverse) or '
                   'source.points.names is None',
                   'featureEnd <= len(source.features.namesInverse) or '
                   'source.features.names is None'],
         ensures=[('the names of the window', nameclause('point', 'points')),
                  ('the names of the window, features',
                   nameclause('feature', 'features')),
                  ('the data is the source\'s own', 'self.got_reuseData and '
                   'self._source is source and self._pStart == pointStart '
                   'and self._pEnd == pointEnd and self._fStart == '
                   'featureStart and self._fEnd == featureEnd')])


# ------------------------------------------------- reading a view of a List
class Holder:
    def __init__(self, data):
        self._data = data


def gen_pass(rng):
    r, c = rng.randint(1, 4), rng.randint(1, 4)
    data = [[rng.choice([0, 1, 'x', 2.5]) for _ in range(c)]
            for _ in range(r)]
    p = sorted((rng.randint(0, r), rng.randint(0, r)))
    f = sorted((rng.randint(0, c), rng.randint(0, c)))
    return data, p, f


def gen_feat(rng):
    data, p, f = gen_pass(rng)
    r = len(data)
    return dict(self=dict(source=dict(_data=data), fStart=f[0], fEnd=f[1],
                          fRange=f[1] - f[0], limit=rng.randrange(r)),
                key=rng.randint(-1, 4))


FV = Obj(LST + 'FeatureViewer', source=Obj('ListData', _data=List(List(
    Opq()))), fStart=Int(0), fEnd=Int(0), fRange=Int(0), limit=Int(0))
FVR = ['self.fRange == self.fEnd - self.fStart',
       'self.limit < len(self.source._data)',
       'self.fEnd <= len(self.source._data[self.limit])']

contract('feature_viewer_get', ['C05', 'C06'],
         LST + 'FeatureViewer.__getitem__', dict(key=Int()), selfp=FV,
         gen=gen_feat, requires=FVR,
         raises={'IndexError': 'key < 0 or key >= self.fRange'},
         ensures=[('the cell of the window', 'result == self.source._data['
                   'self.limit][self.fStart + key]')])

contract('feature_viewer_copy', ['C05', 'C06'],
         LST + 'FeatureViewer.__copy__', {}, selfp=FV, gen=gen_feat,
         requires=FVR + ['self.fStart <= self.fEnd'],
         ensures=[('the row of the window', 'len(result) == self.fRange and '
                   'all(result[j] == self.source._data[self.limit]['
                   'self.fStart + j] for j in range(self.fRange))'),
                  ('a new list', 'result is not self.source._data['
                   'self.limit]')])


def gen_through(rng):
    data, p, f = gen_pass(rng)
    return dict(self=dict(source=dict(_data=data), pStart=p[0], pEnd=p[1],
                          pRange=p[1] - p[0], fStart=f[0], fEnd=f[1],
                          fviewer=None), key=rng.randint(-1, 4))


contract('list_pass_through', ['C05', 'C06'],
         LST + 'ListPassThrough.__getitem__', dict(key=Int()),
         selfp=Obj(LST + 'ListPassThrough', source=Obj('ListData', _data=List(
             List(Opq()))), pStart=Int(0), pEnd=Int(0), pRange=Int(0),
             fStart=Int(0), fEnd=Int(0), fviewer=Const(None)),
         gen=gen_through,
         requires=['self.pRange == self.pEnd - self.pStart',
                   'self.pEnd <= len(self.source._data)',
                   'self.fStart <= self.fEnd'],
         raises={'IndexError': 'key < 0 or key >= self.pRange'},
         ensures=[('the row of the window', 'result.limit == self.pStart + '
                   'key and result.source is self.source and result.fStart '
                   '== self.fStart and result.fEnd == self.fEnd and '
                   'result.fRange == self.fEnd - self.fStart')])


def sym_copy(eng):
    def new(e, cls, args, kw):
        from pyvc.values import HObj
        o = e.new(HObj('NewList'))
        o.fields['data'] = args[0]
        for k in ('pointNames', 'featureNames', 'shape'):
            o.fields[k] = kw.get(k)
        return o
    eng.models[('new', 'List')] = new
    eng.models[('VNames', '_getNamesNoGeneration')] = \
        lambda e, o, a, k: o.fields['names']
    eng.models[('VNames', '__len__')] = lambda e, o, a, k: o.fields['n']


class VNames:
    def __init__(self, n, names):
        self.n, self.names = n, names

    def __len__(self):
        return self.n

    def _getNamesNoGeneration(self):
        return self.names


def gen_copy(rng):
    data, p, f = gen_pass(rng)
    return dict(self=dict(
        _source=dict(_data=data), _pStart=p[0], _pEnd=p[1], _fStart=f[0],
        _fEnd=f[1], _dims=[p[1] - p[0], f[1] - f[0]],
        points=VNames(p[1] - p[0], None),
        features=VNames(f[1] - f[0], ['f'] * (f[1] - f[0]))),
        to=rng.choice(['List', 'pythonlist']))


def native_copy(env):
    import nimble.core.data.list as m
    from contracts.c04_list import NewList
    saved = m.List
    f = m.ListView._copy_implementation
    m.List = NewList
    try:
        return f(env['self'], env['to'])
    finally:
        m.List = saved


for to in ('List', 'pythonlist'):
    R = 'result.data' if to == 'List' else 'result'
    contract('list_view_copy_' + to, ['C05', 'C06'],
             LST + 'ListView._copy_implementation', dict(to=Const(to)),
             selfp=Obj(LST + 'ListView', _source=Obj('ListData', _data=List(
                 List(Opq()))), _pStart=Int(0), _pEnd=Int(0), _fStart=Int(0),
                 _fEnd=Int(0), _dims=Items(Int(0), Int(0)),
                 points=Obj('VNames', n=Int(0), names=Opt(List(Str()))),
                 features=Obj('VNames', n=Int(0), names=Opt(List(Str())))),
             overrides=sym_copy, native=native_copy,
             gen=lambda rng, to=to: dict(gen_copy(rng), to=to),
             requires=['self._pStart <= self._pEnd', 'self._fStart <= '
                       'self._fEnd', 'self._pEnd <= len(self._source._data)',
                       'all(self._fEnd <= len(self._source._data[i]) for i '
                       'in range(len(self._source._data)))',
                       'len(self.points) == self._pEnd - self._pStart',
                       'len(self.features) == self._fEnd - self._fStart',
                       'self._dims[0] == len(self.points)',
                       'self._dims[1] == len(self.features)'] + (
                 ['len(self.points) > 0 and len(self.features) > 0']
                 if to != 'List' else []),
             ensures=[
                 ('the cells of the window', f'len({R}) == self._pEnd - '
                  f'self._pStart and all(len({R}[i]) == self._fEnd - '
                  f'self._fStart and all({R}[i][j] == self._source._data['
                  'self._pStart + i][self._fStart + j] for j in '
                  'range(self._fEnd - self._fStart)) for i in '
                  'range(self._pEnd - self._pStart))'),
                 ('the source is kept', 'self._source._data == '
                  'old(self._source._data)')] + ([
                      ('names and shape', 'result.pointNames == '
                       'self.points.names and result.featureNames == '
                       'self.features.names and result.shape[0] == '
                       'len(self.points) and result.shape[1] == '
                       'len(self.features)')] if to == 'List' else []))


# ----------------------------------------------------- nothing is changed
READONLY = {
    'BaseView': [
        'replaceFeatureWithBinaryFeatures', 'transformFeatureToIntegers',
        '_referenceFrom', 'transformElements', 'transpose',
        'replaceRectangle', 'flatten', 'unflatten', 'merge', '__setitem__',
        '__imatmul__', '__imul__', '__iadd__', '__isub__', '__itruediv__',
        '__ifloordiv__', '__imod__', '__ipow__'],
    'PointsView': [
        'setNames', 'extract', 'delete', 'retain', 'insert', 'append',
        'permute', 'sort', 'transform', 'fillMatching',
        'splitByCollapsingFeatures', 'combineByExpandingFeatures',
        'replace'],
    'FeaturesView': [
        'setNames', 'extract', 'delete', 'retain', 'insert', 'append',
        'permute', 'sort', 'transform', 'fillMatching', 'normalize',
        'splitByParsing', 'replace'],
}
# the arguments of the methods as they are documented
NARGS = {'replaceFeatureWithBinaryFeatures': 1, '_referenceFrom': 1,
         'transformFeatureToIntegers': 1, 'transformElements': 1,
         'replaceRectangle': 3, 'unflatten': 1, 'merge': 1, '__setitem__': 2,
         'setNames': 1, 'insert': 2, 'append': 1, 'transform': 1,
         'fillMatching': 2, 'splitByCollapsingFeatures': 3,
         'combineByExpandingFeatures': 2, 'replace': 1, 'normalize': 1,
         'splitByParsing': 3, **{'__i%s__' % o: 1 for o in (
             'matmul', 'mul', 'add', 'sub', 'truediv', 'floordiv', 'mod',
             'pow')}}


def refuse(cls, meth):
    n = NARGS.get(meth, 0)

    def native(env):
        import nimble.core.data.views as v
        return getattr(getattr(v, cls), meth)(
            env['self'], *[env[f'a{i}'] for i in range(n)])
    contract(f'readonly_{cls[:-4].lower()}_{meth}', 'C05',
             VW + f'{cls}.{meth}', {f'a{i}': Opq() for i in range(n)},
             selfp=Obj(VW + cls, _source=Opq(), _data=Opq()), native=native,
             samples=5,
             raises={'ImproperObjectAction': 'True'},
             exc_ensures=[('nothing changes', 'self._source == '
                           'old(self._source) and self._data == '
                           'old(self._data)')])


for _cls, _ms in READONLY.items():
    for _m in _ms:
        refuse(_cls, _m)
