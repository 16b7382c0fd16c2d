"""types shared by the contracts"""
from pyvc.dsl import *

AXC = 'nimble.core.data.axis:Axis'


def base2d(**kw):
    return Obj('nimble.core.data.base:Base', _dims=Items(Int(0), Int(0)),
               **kw)


def axis(**kw):
    f = dict(names=Opt(Dict(Str(), Int())),
             namesInverse=Opt(List(Val('none', 'str'))),
             _isPoint=Bool(), _axis=Str(['point']), _base=base2d())
    f.update(kw)
    return Obj(AXC, **f)


def gen_axis(rng, maxn=4):
    n = rng.randint(0, maxn)
    d = dict(_isPoint=rng.random() < .5)
    dims = [rng.randint(0, 3), rng.randint(0, 3)]
    dims[0 if d['_isPoint'] else 1] = n
    d['_base'] = dict(_dims=dims)
    if rng.random() < .25:
        d['names'] = d['namesInverse'] = None
    else:
        pool = ['a', 'b', 'c', 'd', 'e']
        rng.shuffle(pool)
        inv = [pool[i] if rng.random() < .7 else None for i in range(n)]
        d['namesInverse'] = inv
        d['names'] = {k: i for i, k in enumerate(inv) if k is not None}
    return d
