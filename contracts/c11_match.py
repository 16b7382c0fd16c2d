"""Match predicates and their any/all forms."""
from contracts._common import *

M = 'nimble.match.match:'
SC = Val('none', 'int', 'str', 'real', 'bool', 'nan', 'inf')
NUMBER = '(isinstance(value, (int, float)) and not isinstance(value, bool))'
REALNUM = 'isinstance(value, (int, float, bool))'
NAN = '(isinstance(value, float) and value != value)'

for nm, d in dict(
        missing=f'value is None or {NAN}',
        nonMissing=f'value is not None and not {NAN}',
        numeric=NUMBER,
        nonNumeric='not ' + NUMBER,
        zero=f'{REALNUM} and value == 0',
        nonZero=f'not ({REALNUM} and value == 0)',
        positive=f'{REALNUM} and value > 0',
        negative=f'{REALNUM} and value < 0',
        infinity='isinstance(value, float) and '
        '(value == inf or value == -inf)',
        boolean='isinstance(value, bool)',
        integer='isinstance(value, int)',
        floating='isinstance(value, float)',
        true='isinstance(value, bool) and value',
        false='isinstance(value, bool) and not value').items():
    contract('match_' + nm, 'C11', M + nm, dict(value=SC),
             ensures=[('definition', f'iff(result, {d})')])


def pos(x):
    return isinstance(x, (int, float)) and x > 0


def miss(x):
    return x is None or x != x


def never(x):
    return False


PRED = Fun([Opq()], Bool(), [lambda x: x == 'p', lambda x: x in 'qr', never,
                             lambda x: True])
for q in ('any', 'all'):
    contract(f'match_{q}Values_vector', 'C11', M + f'{q}Values',
             dict(match=PRED, data=Vec(Opq())), apply=1,
             ensures=[('definition', f'iff(result, {q}(match(x) for x in '
                       'cells(data)))')])
    contract(f'match_{q}Values_grid', 'C11', M + f'{q}Values',
             dict(match=PRED, data=Grid(Opq())), apply=1,
             ensures=[('definition', f'iff(result, {q}({q}(match(x) for x in '
                       'r) for r in gridrows(data)))')],
             pool=[PoolItem('all(all(not match(r[j]) for j in range(k)) '
                            'for r in gridrows(data))'),
                   PoolItem('all(all(match(r[j]) for j in range(k)) '
                            'for r in gridrows(data))')])
    for nm, d in dict(
            Missing=f'value is None or {NAN}',
            NonMissing=f'value is not None and not {NAN}',
            Numeric=NUMBER, NonNumeric='not ' + NUMBER,
            Zero=f'{REALNUM} and value == 0',
            NonZero=f'not ({REALNUM} and value == 0)',
            Positive=f'{REALNUM} and value > 0',
            Negative=f'{REALNUM} and value < 0',
            Infinity='isinstance(value, float) and '
            '(value == inf or value == -inf)',
            Boolean='isinstance(value, bool)',
            Integer='isinstance(value, int)',
            Floating='isinstance(value, float)',
            True_='isinstance(value, bool) and value',
            False_='isinstance(value, bool) and not value').items():
        nm = nm.rstrip('_')
        contract(f'match_{q}{nm}', 'C11', M + q + nm,
                 dict(data=List(SC, lo=1)),
                 ensures=[('definition', f'iff(result, {q}({d} for value in '
                           'data))')])

# a plain value as the thing to match
contract('match_convert_value', 'C11', M + '_convertMatchToFunction',
         dict(match=Val('none', 'int', 'str', 'real', 'bool', 'nan', 'inf'),
              value=SC), apply=1,
         ensures=[('equality with the value, missing for missing',
                   'iff(result, value is None if match is None else ('
                   f'{NAN} if isinstance(match, float) and match != match '
                   'else value == match))')])
contract('match_convert_list', 'C11', M + '_convertMatchToFunction',
         dict(match=List(SC), value=SC), apply=1,
         ensures=[('membership, a nan matches any nan',
                   'iff(result, any(value == x for x in match) or '
                   f'({NAN} and any(isinstance(x, float) and x != x for x in '
                   'match)))')])
contract('match_convert_function', 'C11', M + '_convertMatchToFunction',
         dict(match=PRED, value=Opq()), apply=1,
         ensures=[('the function itself', 'iff(result, match(value))')])
