"""Filling the matching elements of one vector."""
from contracts._common import *

FILL = 'nimble.fill.fill:'


def isp(x):
    return x == 'p'


def isq(x):
    return x in ('q', 'r')


def never(x):
    return False


def always(x):
    return True


MATCH = Fun([Opq()], Bool(), [isp, isq, never, always])


def messages(eng):
    eng.summaries[FILL + 'errorMsgFormatter'] = \
        lambda e, a, k: e.freshv('msg', 'str')


KEPT = [('one value per element', 'len(cells(result)) == len(cells(vector))'),
        ('unmatched elements stay', 'all(implies(not match(cells(vector)[i]),'
         ' cells(result)[i] == cells(vector)[i]) for i in '
         'range(len(cells(vector))))'),
        ('the vector is untouched', 'len(cells(vector)) == '
         'len(old(cells(vector))) and all(cells(vector)[i] == '
         'old(cells(vector))[i] for i in range(len(cells(vector))))')]

contract('fill_constant', 'C10', FILL + 'constant',
         dict(vector=Vec(Opq()), match=MATCH, constantValue=Opq()),
         ensures=KEPT + [
             ('matches get the constant', 'all(implies(match(cells(vector)'
              '[i]), cells(result)[i] == constantValue) for i in '
              'range(len(cells(vector))))')])

contract('fill_forward', 'C10', FILL + 'forwardFill',
         dict(vector=Vec(Opq()), match=MATCH), overrides=messages,
         raises={'InvalidArgumentValue': 'match(cells(vector)[0])'},
         ensures=KEPT + [
             ('matches get the value before', 'all(implies(match(cells('
              'vector)[i]), i > 0 and cells(result)[i] == '
              'cells(result)[i - 1]) for i in range(len(cells(vector))))')],
         pool=[PoolItem('len(L) == k', L='list'),
               PoolItem('all(implies(not match(cells(vector)[i]), L[i] == '
                        'cells(vector)[i]) for i in range(k))', L='list'),
               PoolItem('all(implies(match(cells(vector)[i]), i > 0 and '
                        'L[i] == L[i - 1]) for i in range(k))', L='list')])

contract('fill_backward', 'C10', FILL + 'backwardFill',
         dict(vector=Vec(Opq()), match=MATCH), overrides=messages,
         raises={'InvalidArgumentValue':
                 'match(cells(vector)[len(cells(vector)) - 1])'},
         ensures=KEPT + [
             ('matches get the value after', 'all(implies(match(cells('
              'vector)[i]), i + 1 < len(cells(vector)) and cells(result)[i]'
              ' == cells(result)[i + 1]) for i in '
              'range(len(cells(vector))))')],
         pool=[PoolItem('len(L) == n', L='list'),
               PoolItem('all(implies(not match(cells(vector)[i]), L[i] == '
                        'cells(vector)[i]) for i in range(n - k, n))',
                        L='list'),
               PoolItem('all(implies(match(cells(vector)[i]), i + 1 < n and '
                        'L[i] == L[i + 1]) for i in range(n - k, n))',
                        L='list')])
