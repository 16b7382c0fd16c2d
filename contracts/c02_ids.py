from contracts._common import *

NAMED = axis(names=Dict(Str(), Int()))
DH = 'nimble.core.data._dataHelpers'


def gax(rng):
    s = gen_axis(rng)
    if s['names'] is None:
        n = s['_base']['_dims'][0 if s['_isPoint'] else 1]
        s['names'], s['namesInverse'] = {}, [None] * n
    return s


def an_id(rng, s, none=0):
    n = s['_base']['_dims'][0 if s['_isPoint'] else 1]
    c = list(s['names'] or []) + list(range(-n, n)) + [0.0, float(n - 1)]
    if rng.random() < .12:
        c = ['zz', n, -n - 1, 0.5]
    if rng.random() < none:
        return None
    return rng.choice(c)


def gen_slice(rng):
    s = gax(rng)
    return dict(self=s, key=slice(an_id(rng, s, .3), an_id(rng, s, .3),
                                  rng.choice([None, 1, 2, -1, -2])))


IDK = Val('none', 'int', 'str', 'real')

contract('axis_processMultiple_slice', 'C02', AXC + '._processMultiple',
         dict(key=Slc(IDK, IDK, Fork(Const(None), Const(1), Const(2),
                                     Const(-1), Const(-3)))),
         selfp=NAMED, gen=gen_slice, uses=['axis_getIndex'],
         requires=['wfaxis(self)'],
         raises={'IndexError': None, 'KeyError': None},
         ensures=[
             'implies(key.start is None and key.stop is None and '
             'key.step is None, result is None)',
             'implies(result is None and axlen(self) > 0, '
             'sfirst(key, self.names, axlen(self)) == 0 and '
             'slast(key, self.names, axlen(self)) == axlen(self) - 1 '
             'and sstep(key) == 1)',
             'implies(result is not None, '
             'all(result[j] == sfirst(key, self.names, axlen(self)) '
             '+ sstep(key) * j for j in range(len(result))))',
             'implies(result is not None, all(0 <= result[j] and '
             'result[j] < axlen(self) for j in range(len(result))))',
             'implies(result is not None and sstep(key) > 0, '
             'all(result[j] <= slast(key, self.names, axlen(self)) '
             'for j in range(len(result))) and '
             'sfirst(key, self.names, axlen(self)) + sstep(key) * len(result)'
             ' > slast(key, self.names, axlen(self)))',
             'implies(result is not None and sstep(key) < 0, '
             'all(result[j] >= slast(key, self.names, axlen(self)) '
             'for j in range(len(result))) and '
             'sfirst(key, self.names, axlen(self)) + sstep(key) * len(result)'
             ' < slast(key, self.names, axlen(self)))',
             'wfaxis(self)'])


def gen_list(rng):
    s = gax(rng)
    n = s['_base']['_dims'][0 if s['_isPoint'] else 1]
    r = rng.random()
    if r < .3:
        key = [rng.random() < .5 for _ in range(n)]
    else:
        key = [an_id(rng, s) for _ in range(rng.randint(0, n + 1))]
        if r < .7:
            key = list(dict.fromkeys(key))
        elif r < .8:
            key.append(True)
    return dict(self=s, key=key)


contract('axis_processMultiple_mask', 'C02', AXC + '._processMultiple',
         dict(key=List(Val('bool'))), selfp=NAMED,
         gen=gen_list, uses=['axis_getIndex'],
         requires=['wfaxis(self)', 'all(isinstance(x, bool) for x in key)'],
         raises={'KeyError': 'len(key) != axlen(self) and len(key) > 0',},
         ensures=[
             'implies(len(key) > 0 and result is not None, '
             'all(0 <= result[j] and result[j] < len(key) and '
             'key[result[j]] for j in range(len(result))) and '
             'all(implies(j > 0, result[j - 1] < result[j]) '
             'for j in range(len(result))) and '
             'all(implies(key[i], any(result[j] == i for j in '
             'range(len(result)))) for i in range(len(key))))',
             'implies(len(key) > 0, result is not None)',
             'wfaxis(self)'])

contract('axis_processMultiple_list', 'C02', AXC + '._processMultiple',
         dict(key=List(Val('int', 'str'))), selfp=NAMED,
         gen=gen_list, uses=['axis_getIndex'],
         requires=['wfaxis(self)', 'len(key) > 0',
                   'all(isinstance(x, (int, str)) and not isinstance(x, bool) for x in key)'],
         raises={'KeyError': None, 'IndexError': None},
         ensures=[
             'implies(result is None, len(key) == axlen(self) and '
             'all(resolves(self.names, axlen(self), key[i]) == i '
             'for i in range(len(key))))',
             'implies(result is not None, len(result) == len(key) and '
             'all(result[i] == resolves(self.names, axlen(self), key[i]) '
             'for i in range(len(key))))',
             'all(resolves(self.names, axlen(self), key[i]) >= 0 '
             'for i in range(len(key)))',
             'all(all(implies(i != j, resolves(self.names, axlen(self), '
             'key[i]) != resolves(self.names, axlen(self), key[j])) '
             'for j in range(len(key))) for i in range(len(key)))',
             'wfaxis(self)'])

contract('axis_getIndices', ['C01', 'C02'], AXC + '._getIndices',
         dict(names=List(Str())), selfp=axis(names=Dict(Str(), Int())),
         gen=lambda rng: (lambda s: dict(self=s, names=[
             rng.choice(list(s['names']) or ['zz'])
             for _ in range(rng.randint(0, 3))] + ['zz'] * (
                 rng.random() < .1)))(gax(rng)),
         requires=['wfaxis(self)'],
         raises={'KeyError': 'any(x not in self.names for x in names)'},
         ensures=['len(result) == len(names)',
                  'all(result[i] == self.names[names[i]] '
                  'for i in range(len(names)))'])

contract('axis_hasName', ['C01', 'C02'], AXC + '._hasName', dict(name=Str()),
         selfp=NAMED, uses=['axis_getIndex'],
         gen=lambda rng: (lambda s: dict(self=s, name=rng.choice(
             list(s['names']) + ['zz'])))(gax(rng)),
         requires=['wfaxis(self)'],
         ensures=['result == (name in self.names)', 'wfaxis(self)'])

contract('axis_validateStartEnd', ['C02', 'C03'],
         'nimble.core.data.axis:_validateStartEndRange',
         dict(start=Int(), end=Int(), axis=Str(), axisLength=Int(0)),
         raises={'InvalidArgumentValue': 'start < 0 or start > axisLength or '
                 'end < 0 or end > axisLength',
                 'InvalidArgumentValueCombination': '0 <= start and '
                 'start <= axisLength and 0 <= end and end <= axisLength '
                 'and start > end'},
         ensures=['result is None', '0 <= start and start <= end and '
                  'end <= axisLength'])


# ------------------------------------------------------- lists of identifiers
class IxObj:
    """an object whose axis is the one described"""
    __verif_stub__ = True

    def __init__(self, ax):
        self.ax = ax

    def _getAxis(self, name):
        return self.ax


class IxT(Obj):
    def native(self, d):
        return IxObj(d['ax'])


def sym_ix(eng):
    """pandas objects are not considered"""
    eng.models[('IxObj', '_getAxis')] = lambda e, o, a, k: o.fields['ax']
    eng.summaries['nimble._utility:DeferredModuleImport.nimbleAccessible'] = \
        lambda e, a, k: False


def gen_ix(rng):
    s = gax(rng)
    n = s['_base']['_dims'][0 if s['_isPoint'] else 1]
    s['_axis'] = 'point'
    return dict(obj=dict(ax=s), values=[an_id(rng, s) for _ in range(
        rng.randint(0, n + 1))])


IXAX = Obj('nimble.core.data.listAxis:ListPoints', **NAMED.fields)
IXN = 'obj.ax.names, axlen(obj.ax)'
contract('indices_list', 'C02', DH + ':constructIndicesList',
         dict(obj=IxT('IxObj', ax=IXAX), axis=Str(['point', 'feature']),
              values=List(Val('int', 'str'))),
         gen=gen_ix, overrides=sym_ix, uses=['axis_getIndex'],
         requires=['wfaxis(obj.ax)', 'all(isinstance(x, (int, str)) and not '
                   'isinstance(x, bool) for x in values)'],
         raises={x: ('only', f'any(resolves({IXN}, x) == -1 for x in '
                     'values)') for x in ('IndexError', 'KeyError')},
         ensures=['len(result) == len(values)',
                  f'all(result[i] == resolves({IXN}, values[i]) for i in '
                  'range(len(values)))',
                  'all(0 <= result[i] and result[i] < axlen(obj.ax) for i in '
                  'range(len(result)))',
                  'wfaxis(obj.ax)', 'values == old(values)'])

contract('indices_list_single', 'C02', DH + ':constructIndicesList',
         dict(obj=IxT('IxObj', ax=IXAX), axis=Str(['point', 'feature']),
              values=Fork(Str(), Int())),
         gen=lambda rng: (lambda g: dict(g, values=(
             [v for v in g['values'] if isinstance(v, (int, str))]
             or ['zz'])[0]))(gen_ix(rng)),
         overrides=sym_ix, uses=['axis_getIndex'],
         requires=['wfaxis(obj.ax)'],
         raises={x: ('only', f'resolves({IXN}, values) == -1')
                 for x in ('IndexError', 'KeyError')},
         ensures=['len(result) == 1',
                  f'result[0] == resolves({IXN}, values)',
                  '0 <= result[0] and result[0] < axlen(obj.ax)',
                  'wfaxis(obj.ax)'])
