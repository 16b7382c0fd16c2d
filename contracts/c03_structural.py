"""Selecting vectors: what the shared front end of copy, extract, delete and
retain hands to the back end of each data type, and what remains."""
from contracts._common import *
from contracts.c02_ids import gax, an_id

AX = 'nimble.core.data.axis:'
STRUCTS = [Const(s) for s in ('copy', 'extract', 'delete', 'retain', 'count')]


class Ret:
    """stand-in for the object a back end returns: remembers the targets"""
    __verif_stub__ = True

    def __init__(self, dims, gt):
        self._dims, self.gt = dims, gt

    def _getAxis(self, axis):
        return [0] * self._dims[0 if axis == 'point' else 1]


def with_backend(s):
    """native stand-in of the abstract back end"""
    def backend(structure, targets):
        dims = list(s['_base']['_dims'])
        dims[0 if s['_isPoint'] else 1] = len(targets)
        return Ret(dims, list(targets))
    s['_structuralBackend_implementation'] = backend
    s['_axis'] = 'point' if s['_isPoint'] else 'feature'
    s['_offAxis'] = 'feature' if s['_isPoint'] else 'point'
    return s


def sym_backend(eng):
    from pyvc.values import HObj, HList

    def call(eng, args, kw):
        from pyvc.values import SInt
        o, structure, tl = args
        eng.assumptions.add('the back end returns an object with one vector '
                            'per target (its contract for the List type, '
                            'bounded for the others)')
        n = eng.mkint(eng.llen(tl))
        d = o.fields['_base'].fields['_dims'].items
        pt = eng.branch(o.fields['_isPoint'])
        ret = eng.new(HObj('StructRet'))
        ret.fields['_dims'] = eng.new(HList(
            items=[n, d[1]] if pt else [d[0], n]))
        ret.fields['gt'] = eng.snapshot(tl)
        ret.fields['n'] = n
        return ret
    eng.summaries[AX + 'Axis._structuralBackend_implementation'] = call
    eng.models[('StructRet', '_getAxis')] = lambda e, o, a, k: axobj(e, o)
    eng.models[('StructAxis', '__len__')] = lambda e, o, a, k: o.fields['n']

    def axobj(e, o):
        r = e.new(HObj('StructAxis'))
        r.fields['n'] = o.fields['n']
        return r


SAX = axis(names=Opt(Dict(Str(), Int())), _offAxis=Str(['feature']))
NSAX = axis(names=Dict(Str(), Int()), _offAxis=Str(['feature']))

KEEP = [
    PoolItem('len(L) + countin(S, k) == k', L='list', S='set'),
    PoolItem('all(0 <= self.names[x] and self.names[x] < len(L) and '
             'L[self.names[x]] == x for x in self.names)', L='list'),
    PoolItem('all(implies(L[i] is not None, L[i] in self.names and '
             'self.names[L[i]] == i) for i in range(len(L)))', L='list'),
    PoolItem('all(implies(item(j)[1] is not None, iff(item(j)[1] in '
             'self.names, j not in S)) for j in range(k))', S='set'),
    PoolItem('all(x in old(self.names) and old(self.names)[x] < k and '
             'old(self.names)[x] not in S for x in self.names)', S='set'),
    PoolItem('all(all(implies(old(self.names)[x] < old(self.names)[y], '
             'self.names[x] < self.names[y]) for y in self.names) '
             'for x in self.names)'),
    PoolItem('all(self.names[x] == old(self.names)[x] - countin(S, '
             'old(self.names)[x]) for x in self.names)', S='set'),
]

# what remains of the name tables after the vectors in T have left
LEFT = [
    ('names still bijective', 'implies(structure == "extract" or '
     'structure == "delete", wfaxis(self))'),
    ('length', 'implies(structure == "extract" or structure == "delete", '
     'axlen(self) == old(axlen(self)) - len(result.gt))'),
    ('surviving names', 'implies((structure == "extract" or structure == '
     '"delete") and old(self.names) is not None, all(iff(x in self.names, '
     'all(result.gt[j] != old(self.names)[x] for j in '
     'range(len(result.gt)))) for x in old(self.names)) and '
     'all(x in old(self.names) for x in self.names))'),
    ('order of the survivors', 'implies((structure == "extract" or '
     'structure == "delete") and old(self.names) is not None, '
     'all(all(implies(old(self.names)[x] < old(self.names)[y], '
     'self.names[x] < self.names[y]) for x in self.names) '
     'for y in self.names))'),
    ('exact place of the survivors', 'implies((structure == "extract" or '
     'structure == "delete") and old(self.names) is not None, '
     'all(self.names[x] == old(self.names)[x] - countin(set(result.gt), '
     'old(self.names)[x]) for x in self.names))'),
    ('other structures leave the object', 'implies(structure == "copy" or '
     'structure == "retain" or structure == "count", wfaxis(self) and '
     'axlen(self) == old(axlen(self)))'),
]


def gen_range(rng, st, full):
    s = with_backend(gax(rng))
    if rng.random() < .2:
        s['names'] = s['namesInverse'] = None
    n = s['_base']['_dims'][0 if s['_isPoint'] else 1]
    ids = list(range(-n, n + 1))
    return dict(self=s, structure=st, target=None,
                start=rng.choice([None] * full + ids),
                end=rng.choice([None] * full + ids),
                number=rng.choice([None, None, 1, 2, 0]) if full else None)


RANGE_LO = '(0 if start is None else resolves(old(self.names), ' \
    'old(axlen(self)), start))'
RANGE_HI = '(old(axlen(self)) - 1 if end is None else ' \
    'resolves(old(self.names), old(axlen(self)), end))'

# extract and delete also rebuild the name tables: the quick tier proves them
# for a start and an end, the thorough tier for every combination
for st, full in (('copy', True), ('retain', True), ('extract', False),
                 ('delete', False), ('extract', True), ('delete', True)):
    slow = full and st in ('extract', 'delete')
    contract('axis_structural_range_' + st + '_full' * slow, ['C03', 'C02'],
             AX + 'Axis._genericStructuralFrontend',
             dict(structure=Const(st), target=Const(None),
                  start=Opt(Int()) if full else Int(),
                  end=Opt(Int()) if full else Int(),
                  number=Opt(Int()) if full else Const(None)),
             thorough=slow, budget=400 if slow else 150,
             selfp=NSAX, overrides=sym_backend,
             gen=lambda rng, st=st, full=full: gen_range(rng, st, full),
             uses=['axis_getIndex', 'axis_validateStartEnd'],
             requires=['wfaxis(self)'],
             raises={'InvalidArgumentTypeCombination':
                     'start is None and end is None and number is None',
                     'InvalidArgumentValue': ('only', 'number is not None or '
                                              'end == -1 or end is None'),
                     'IndexError': ('only',
                                    'start is not None or end is not None'),
                     'InvalidArgumentValueCombination':
                     ('only', f'{RANGE_LO} > {RANGE_HI}')},
             exc_ensures=[('a refusal changes nothing',
                           'wfaxis(self) and axlen(self) == '
                           'old(axlen(self)) and implies(old(self.names) is '
                           'not None, self.names == old(self.names))')],
             ensures=[
                 ('the range', f'all(result.gt[j] == {RANGE_LO} + j for j in '
                  'range(len(result.gt)))'),
                 ('its length', f'len(result.gt) == (number if number is not '
                  f'None and number > 0 else {RANGE_HI} - {RANGE_LO} + 1)'),
             ] + LEFT, pool=KEEP)
