"""The small functions the data operations share: names of two operands,
orders, ranges, mappings and what a function given by the user may return."""
from contracts._common import *

DH = 'nimble.core.data._dataHelpers:'
NL = List(Val('none', 'str'))


def namelist(rng, n=None):
    n = rng.randint(0, 5) if n is None else n
    pool = ['a', 'b', 'c', 'd', 'e', 'f']
    rng.shuffle(pool)
    return [pool[i] if rng.random() < .6 else None for i in range(n)]


def gen_two(rng):
    a = namelist(rng)
    r = rng.random()
    b = list(a) if r < .3 else namelist(rng, len(a))
    if r > .9:
        b.append('z')
    return dict(selfNames=a, otherNames=b)


DIFF = 'selfNames[i] != otherNames[i]'
REC = [
    PoolItem('all(implies({a}[i] is not None and {a}[i] != {b}[i], i in D) '
             'for i in range(k))'.format(a=a, b=b), D='dict')
    for a, b in (('selfNames', 'otherNames'), ('otherNames', 'selfNames'))
] + [
    PoolItem('all(implies({a}[i] is not None and {b}[i] is not None and '
             '{a}[i] != {b}[i], i in D) for i in range(k))'.format(
                 a='selfNames', b='otherNames'), D='dict'),
    PoolItem('all(implies(selfNames[i] is not None and selfNames[i] != '
             'otherNames[i], i in D) for i in range(len(selfNames)))',
             D='dict'),
    PoolItem('all(implies(selfNames[i] is not None and otherNames[i] is not '
             'None and selfNames[i] != otherNames[i], i in D) for i in '
             'range(len(selfNames)))', D='dict'),
    PoolItem('all(0 <= i and i < len(selfNames) and selfNames[i] != '
             'otherNames[i] for i in D)', D='dict'),
    PoolItem('all(0 <= i and i < len(selfNames) for i in D)', D='dict')]
contract('unequal_names', ['C09', 'C07'], DH + 'unequalNames',
         dict(selfNames=NL, otherNames=NL), gen=gen_two,
         requires=['len(selfNames) == len(otherNames)'],
         returns=Dict(Int(), Tup(Val('none', 'str'), Val('none', 'str'))),
         ensures=[('where the names differ', 'all(iff(i in result, '
                   'selfNames[i] != otherNames[i]) for i in '
                   'range(len(selfNames)))'),
                  ('and nowhere else', 'all(0 <= i and i < len(selfNames) '
                   'for i in result)'),
                  ('names stay', 'selfNames == old(selfNames) and '
                   'otherNames == old(otherNames)')], pool=REC)
UNIQ = ['all(implies(i != j and {a}[i] is not None, {a}[i] != {a}[j]) for i '
        'in range(len({a})) for j in range(len({a})))'.format(a=a)
        for a in ('selfNames', 'otherNames')]


def clash(i):
    return (f'({{a}}[{i}] is not None and {{b}}[{i}] is not None or '
            f'{{a}}[{i}] is not None and {{a}}[{i}] in {{b}} or '
            f'{{b}}[{i}] is not None and {{b}}[{i}] in {{a}})').format(
                a='selfNames', b='otherNames')


contract('inconsistent_names', ['C09', 'C07'], DH + 'inconsistentNames',
         dict(selfNames=NL, otherNames=NL), gen=gen_two,
         requires=['len(selfNames) == len(otherNames)'] + UNIQ,
         ensures=[('names that differ', 'all(implies(selfNames[i] is not '
                   'None and otherNames[i] is not None and selfNames[i] != '
                   'otherNames[i], i in result) for i in '
                   'range(len(selfNames)))'),
                  ('names elsewhere in the other', 'all(implies(selfNames['
                   'i] is not None and otherNames[i] is None and selfNames['
                   'i] in otherNames, i in result) for i in '
                   'range(len(selfNames)))'),
                  ('no place is reported where the names agree', 'all('
                   '0 <= i and i < len(selfNames) and selfNames[i] != '
                   'otherNames[i] for i in result)')],
         pool=[
             PoolItem('all(0 <= i and i < len(selfNames) and selfNames[i] != '
                      'otherNames[i] for i in D)', D='dict'),
             PoolItem('all(implies(selfNames[i] is not None and selfNames[i]'
                      ' != otherNames[i] and (otherNames[i] is not None or '
                      'selfNames[i] in otherNames), i in D) for i in '
                      'range(k))', D='dict'),
             PoolItem('all(implies(selfNames[i] is not None and selfNames[i]'
                      ' != otherNames[i] and (otherNames[i] is not None or '
                      'selfNames[i] in otherNames), i in D) for i in '
                      'range(len(selfNames)))', D='dict')])


def gen_eq(rng):
    g = gen_two(rng)
    for k in g:
        if rng.random() < .2:
            g[k] = None
        elif rng.random() < .2:
            g[k] = [None] * len(g[k])
    return g


BLANK = '({a} is None or all({a}[i] is None for i in range(len({a}))))'
contract('equal_names', ['C09', 'C07'], DH + 'equalNames',
         dict(selfNames=Opt(NL), otherNames=Opt(NL)), gen=gen_eq,
         uses=['unequal_names'],
         ensures=[('names equal, no names equal to blank names',
                   'iff(result, (selfNames is None or otherNames is None) and '
                   + BLANK.format(a='selfNames') + ' and ' +
                   BLANK.format(a='otherNames') + ' or selfNames is not None'
                   ' and otherNames is not None and len(selfNames) == '
                   'len(otherNames) and all(selfNames[i] == otherNames[i] '
                   'for i in range(len(selfNames))))')])


def gen_range(rng):
    return dict(startName='s', startVal=rng.randint(-3, 3), endName='e',
                endVal=rng.randint(-3, 3))


contract('range_order', ['C02', 'C03', 'C08'], DH + 'validateRangeOrder',
         dict(startName=Str(), startVal=Int(), endName=Str(), endVal=Int()),
         gen=gen_range,
         raises={'InvalidArgumentValueCombination': 'startVal > endVal'},
         ensures=[('accepted', 'result is None')])
contract('validate_axis', ['C03', 'C08'], DH + 'validateAxis',
         dict(axis=Fork(Const('point'), Const('feature'), Str())),
         raises={'InvalidArgumentValue': 'axis != "point" and axis != '
                 '"feature"'}, ensures=[('accepted', 'result is None')])
contract('numpy_order', 'C08', DH + 'convertToNumpyOrder',
         dict(order=Fork(Const('point'), Const('feature'))),
         ensures=[('rows first for points', 'result == ("C" if order == '
                   '"point" else "F")')])
contract('mapping_function', 'C09', DH + '_getDictionaryMappingFunction',
         dict(dictionary=Dict(Opq(), Opq()), value=Opq()), apply=1,
         ensures=[('the value given for the key, others as they are',
                   'result == (dictionary[value] if value in dictionary '
                   'else value)'),
                  ('the dictionary stays', 'dictionary == '
                   'old(dictionary)')])


# ------------------------------------------------ functions given by the user
class UserF(T):
    """a function of n arguments: TypeError for another number of them"""

    def __init__(self, n):
        self.n = n

    def sym(self, eng, name):
        from pyvc.values import Builtin, HObj

        def f(a, k):
            if len(a) != self.n:
                raise eng.exc('TypeError')
            eng.list_append(eng.specenv['log'], a[0])
            if self.n == 3:
                eng.list_append(eng.specenv['log'], a[1])
                eng.list_append(eng.specenv['log'], a[2])
            return eng.specenv['ans']
        return Builtin('user', f)

    def gen(self, rng):
        return None

    def conc(self, md, v):
        return None


VAL = Val('none', 'int', 'bool', 'str', 'real')
VALS = [None, 0, 1, 2, True, False, 'x', 0., 1., 2.5]


def user(env, n):
    def f1(a):
        env['log'].append(a)
        return env['ans']

    def f3(a, b, c):
        env['log'].extend([a, b, c])
        return env['ans']
    return f1 if n == 1 else f3


def nat_match(n):
    def go(env):
        from nimble.core.data._dataHelpers import wrapMatchFunctionFactory
        w = wrapMatchFunctionFactory(user(env, n))
        del env['log'][:]
        return w(*[env[x] for x in ('value', 'i', 'j')[:n]])
    return go


def run_match(n):
    def run(eng, env):
        from pyvc.values import FuncVal
        mod, cls, node = eng.loader.target(DH + 'wrapMatchFunctionFactory')
        w = eng.callfunc(FuncVal(node, mod, None, None, node.name),
                         [env['matchFunc']], {})
        eng.setlist(env['log'], eng.b_list([], {}))
        return eng.call(w, [env[x] for x in ('value', 'i', 'j')[:n]], {})
    return run


for n in (1, 3):
    contract(f'wrap_match_{n}', ['C09', 'C11'],
             DH + 'wrapMatchFunctionFactory',
             dict(matchFunc=UserF(n), value=Opq(), i=Int(0), j=Int(0),
                  ans=VAL, log=List(Opq())), run=run_match(n),
             native=nat_match(n),
             gen=lambda rng: dict(matchFunc=None, value=rng.choice('pq'),
                                  i=rng.randint(0, 3), j=rng.randint(0, 3),
                                  ans=rng.choice(VALS), log=[]),
             raises={'InvalidArgumentValue': 'ans != True and ans != False'},
             ensures=[('true or false', 'iff(result, ans == True)'),
                      ('asked once', f'len(log) == {n}')])


# ------------------------------------------------------- element functions
def sym_elem(eng):
    """how many arguments a function requires, as Python reports it; a
    dictionary becomes the mapping function under contract; None, numbers and
    text may be elements"""
    UT = 'nimble._utility:'

    def inspect(e, a, k):
        e.assumptions.add('inspect reports the arguments of the function')
        m = e.specenv['nargs']
        return (e.b_list([('a', 'b', 'c')[:m]], {}), None, None,
                e.b_list([()], {}))
    eng.summaries[UT + 'inspectArguments'] = inspect
    eng.summaries[UT + 'isAllowedSingleElement'] = lambda e, a, k: \
        e.specenv['allowed']


def run_elem(n):
    def run(eng, env):
        from pyvc.values import FuncVal
        mod, cls, node = eng.loader.target(DH + 'validateElementFunction')
        w = eng.callfunc(FuncVal(node, mod, None, None, node.name),
                         [env[x] for x in ('func', 'preserveZeros',
                                           'skipNoneReturnValues',
                                           'funcName')], {})
        r = eng.call(w, [env[x] for x in ('value', 'i', 'j')[:n]], {})
        o = eng.new(__import__('pyvc.values').values.HObj('Out'))
        o.fields.update(ret=r, oneArg=eng.getattr(w, 'oneArg'),
                        keeps=eng.getattr(w, 'preserveZeros'))
        return o
    return run


class UserE(T):
    """a pure function of its n arguments"""

    def __init__(self, n):
        self.n = n

    def sym(self, eng, name):
        from pyvc.values import Builtin
        from pyvc import values as V

        def f(a, k):
            if len(a) != self.n:
                raise eng.exc('TypeError')
            if isinstance(a[0], int) and not isinstance(a[0], bool):
                return eng.specenv['atzero']
            return eng.specenv['ans']
        return Builtin('user', f)

    def gen(self, rng):
        return None

    def conc(self, md, v):
        return None


def nat_elem(n):
    def go(env):
        from nimble.core.data._dataHelpers import validateElementFunction

        class Odd:
            pass

        def ans(v):
            if type(v) is int and v == 0 and env['probe']:
                return env['atzero']
            return env['ans'] if env['allowed'] else Odd()
        if n == 1:
            f = lambda v: ans(v)
        else:
            f = lambda v, i, j: ans(v)
        env['probe'] = True
        w = validateElementFunction(f, env['preserveZeros'],
                                    env['skipNoneReturnValues'], 'fn')
        env['probe'] = False
        return Stub(ret=w(*[env[x] for x in ('value', 'i', 'j')[:n]]),
                    oneArg=w.oneArg, keeps=w.preserveZeros)
    return go


def gen_elem(n):
    def gen(rng):
        v, a = rng.choice(VALS + ['y', 3.5]), rng.choice(VALS)
        z = a if type(v) is int and v == 0 else rng.choice(VALS)
        return dict(func=None, preserveZeros=rng.random() < .5,
                    skipNoneReturnValues=rng.random() < .5, funcName='f',
                    value=v, i=rng.randint(0, 3), j=rng.randint(0, 3),
                    ans=a, atzero=z, allowed=True if a is None else
                    rng.random() < .8, nargs=n, probe=False)
    return gen


for n in (1, 3):
    zero = '(keeps and value == 0)'.replace(
        'keeps', '(preserveZeros or atzero == 0)' if n == 1 else
        'preserveZeros')
    skip = '(skipNoneReturnValues and ans is None)'
    contract(f'element_function_{n}', ['C09'],
             DH + 'validateElementFunction',
             dict(func=UserE(n), preserveZeros=Bool(),
                  skipNoneReturnValues=Bool(), funcName=Str(), value=Real(),
                  i=Int(0), j=Int(0), ans=VAL, atzero=VAL, allowed=Bool(),
                  nargs=Const(n)), run=run_elem(n), native=nat_elem(n),
             overrides=sym_elem, gen=gen_elem(n),
             requires=['implies(ans is None, allowed)'],
             raises={'InvalidArgumentValue': f'not {zero} and not {skip} '
                     'and not allowed'},
             ensures=[
                 ('the answer of the function, the element if skipped',
                  f'implies(not {zero}, result.ret == (value if {skip} else '
                  'ans))'),
                 ('zeros are preserved', f'implies({zero}, result.ret == '
                  '0)'),
                 ('zeros are only preserved when asked or when zero gives '
                  'zero', 'iff(result.keeps, preserveZeros' +
                  (' or atzero == 0)' if n == 1 else ')')),
                 ('the positions are given to functions of three', 'iff('
                  f'result.oneArg, {n == 1})')])
