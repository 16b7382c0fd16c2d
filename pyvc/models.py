"""Models of functions outside the repository (each one is an assumption)."""


def numpy_scalar(eng, v):
    eng.assumptions.add('inputs are Python scalars: numpy scalar types are '
                        'not distinguished (the runtime part exercises them)')
    return False


MODELS = {('isinstance', 'numpy.' + t): numpy_scalar for t in (
    'integer', 'bool_', 'float64', 'floating', 'number', 'ndarray',
    'generic', 'float_', 'inexact')}


def _new_obj(name):
    from .values import HObj

    def m(eng, args, kw):
        return eng.new(HObj(name))
    return m


def _fresh(ty, cond=None):
    def m(eng, *a):
        v = eng.freshv('ext', ty)
        if cond is not None:
            eng.assume(cond(v.e))
        return v
    return m


MODELS[('call', 'difflib.SequenceMatcher')] = lambda e, a, k: _new_obj(
    'SequenceMatcher')(e, a, k)
MODELS[('SequenceMatcher', 'ratio')] = _fresh('real')

from . import table as _table
MODELS.update(_table.VEC)
MODELS.update(_table.TAB)
MODELS.update(_table.GRID)


def isinf(eng, a, kw):
    """numpy.isinf of one Python scalar; TypeError for anything else"""
    from .values import SVal, SStr, SInt, SBool, SReal, Val, SOpq
    import z3
    v = a[0]
    if isinstance(v, SVal):
        if eng.decide(z3.Or(Val.is_VNone(v.e), Val.is_VStr(v.e),
                            Val.is_VOpq(v.e))):
            raise eng.exc('TypeError')
        return eng.mkbool(z3.Or(Val.is_VPInf(v.e), Val.is_VNInf(v.e)))
    if isinstance(v, float):
        return v in (float('inf'), float('-inf'))
    if eng.num(v) is not None:
        return False
    raise eng.exc('TypeError')


MODELS[('call', 'numpy.isinf')] = isinf
MODELS.update(_table.RANDOM)
