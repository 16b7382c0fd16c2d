"""Sorting an axis: one order for values and names."""
from contracts._common import *

AX = 'nimble.core.data.axis:Axis'


class SBase:
    """base object whose features/points are columns of a table"""
    __verif_stub__ = True

    def __init__(self, cols):
        self.features = self.points = cols


class Seen:
    pass


def sym_sort(eng):
    from pyvc.values import HObj

    def permute(e, a, k):
        e.setattr(a[0], 'moved', e.b_list([a[1]], {}))
    eng.summaries[AX + '._permute'] = permute
    eng.summaries[AX + '.__len__'] = lambda e, a, k: e.b_len(
        [e.specenv['data']], {})
    eng.models[('SCols', '__getitem__')] = lambda e, o, a, k: \
        e.b_list([e.specenv['data']], {})


class SColsT(Obj):
    def native(self, vals):
        return None


def nat_sort(env):
    from nimble.core.data.axis import Axis
    data = env['data']

    class Cols(list):
        def __getitem__(self, i):
            return list(data)

    class Ax:
        __verif_stub__ = True
        _axis = env['axis']

        class _base:
            points = features = Cols()

        def __len__(self):
            return len(data)

        def _permute(self, order):
            env['self'].moved = list(order)
    Axis._sortByIdentifier(Ax(), env['index'], env['reverse'])


def gen_sort(rng):
    n = rng.randint(0, 6)
    return dict(self=dict(_axis='point', _base=None, moved=[]), index=0,
                axis=rng.choice(['point', 'feature']),
                reverse=rng.random() < .5, data=[
                    float('nan') if rng.random() < .2 else
                    float(rng.randint(0, 3)) for _ in range(n)])


D = 'data[self.moved[{}]]'
NAN = '({0} != {0})'
KNOWN = f'{NAN.format(D.format("i"))}'.replace('!=', '==')
contract('sort_identifier', 'C04', AX + '._sortByIdentifier',
         dict(index=Int(), reverse=Bool(), data=List(Val('real', 'nan')),
              axis=Str()),
         selfp=Obj(AX, _axis=Fork(Const('point'), Const('feature')),
                   _base=Obj('SBase', points=Obj('SCols'),
                             features=Obj('SCols')),
                   moved=List(Int(), n=0)),
         overrides=sym_sort, native=nat_sort, gen=gen_sort,
         run=lambda eng, env: eng.call(eng.getattr(
             env['self'], '_sortByIdentifier'),
             [env['index'], env['reverse']], {}),
         ensures=[
             ('every vector once', 'len(self.moved) == len(data) and all('
              '0 <= self.moved[i] and self.moved[i] < len(data) for i in '
              'range(len(self.moved))) and all(implies(i != j, self.moved[i]'
              ' != self.moved[j]) for i in range(len(self.moved)) for j in '
              'range(len(self.moved)))'),
             ('in the order asked for', 'all(implies(i < j and '
              f'{D.format("i")} == {D.format("i")} and {D.format("j")} == '
              f'{D.format("j")}, ({D.format("i")} >= {D.format("j")}) if '
              f'reverse else ({D.format("i")} <= {D.format("j")})) for i in '
              'range(len(self.moved)) for j in range(len(self.moved)))'),
             ('stable', 'all(implies(i < j and '
              f'{D.format("i")} == {D.format("j")}, self.moved[i] < '
              'self.moved[j]) for i in '
              'range(len(self.moved)) for j in range(len(self.moved)))'),
             ('missing values last', 'all(implies(i < j and '
              f'{D.format("i")} != {D.format("i")}, {D.format("j")} != '
              f'{D.format("j")}) for i in range(len(self.moved)) for j in '
              'range(len(self.moved)))')])


# ------------------------------------------------------------------- permute
def sym_permute(eng):
    """the values are moved by the back end (list_permute_points and
    list_permute_features for lists), which is told the order; resolving the
    identifiers of an order is under contract (indices_list)"""
    def moved(e, o, a, k):
        e.list_append(o.fields['moved'], e.b_list([a[0]], {}))
    eng.models[('ListPoints', '_permute_implementation')] = moved
    eng.summaries['nimble.core.data.listAxis:ListAxis.'
                  '_permute_implementation'] = lambda e, a, k: moved(
                      e, a[0], a[1:], k)
    eng.summaries['nimble.core.data._dataHelpers:constructIndicesList'] = \
        lambda e, a, k: e.b_list([a[2]], {})


def nat_permute(env):
    from nimble.core.data import axis as m
    o = env['self']
    o._permute_implementation = lambda order: o.moved.append(list(order))
    keep = m.constructIndicesList
    m.constructIndicesList = lambda b, a, v, n: list(v)
    try:
        return m.Axis._permute(o, env['order'])
    finally:
        m.constructIndicesList = keep


def gen_permute(rng):
    s = gen_axis(rng)
    n = s['_base']['_dims'][0 if s['_isPoint'] else 1]
    o = list(range(n))
    rng.shuffle(o)
    if rng.random() < .2 and n:
        o[rng.randrange(n)] = rng.randrange(n)
    if rng.random() < .1 and n:
        o.pop()
    s.update(moved=[], _axis='point')
    return dict(self=s, order=None if rng.random() < .2 else o)


NEWPOS = 'self.moved[0]'
contract('axis_permute', 'C04', AX + '._permute',
         dict(order=Opt(List(Int()))),
         selfp=Obj('nimble.core.data.listAxis:ListPoints', **{
             **axis().fields, 'moved': List(List(Int()))}),
         gen=gen_permute, overrides=sym_permute, native=nat_permute,
         uses=['axis_setNames_list'],
         requires=['wfaxis(self)', 'len(self.moved) == 0',
                   'implies(order is not None, all(0 <= x and x < '
                   'axlen(self) for x in order))'],
         raises={'InvalidArgumentValue': 'order is not None and (len(order) '
                 '!= axlen(self) or any(any(i != j and order[i] == order[j] '
                 'for j in range(len(order))) for i in range(len(order))))'},
         exc_ensures=[('nothing moved', 'len(self.moved) == 0 and self.names '
                       '== old(self.names) and self.namesInverse == '
                       'old(self.namesInverse)')],
         ensures=[
             ('values are moved once, by a permutation',
              'implies(axlen(self) > 1, len(self.moved) == 1 and '
              f'len({NEWPOS}) == axlen(self) and all(0 <= x and x < '
              f'axlen(self) for x in {NEWPOS}))'),
             ('which is the order given', 'implies(order is not None and '
              f'axlen(self) > 1, {NEWPOS} == order)'),
             ('names move as the values do', 'implies(axlen(self) > 1 and '
              'old(self.names) is not None, all(self.namesInverse[i] == '
              f'old(self.namesInverse)[{NEWPOS}[i]] for i in '
              'range(axlen(self))))'),
             ('unnamed stay unnamed', 'implies(old(self.names) is None, '
              'self.names is None)'), 'wfaxis(self)'])
