import copy
import io
import os
import shutil
import tempfile

from .driver import *

RULE = ('random tables of up to 5 x 4 saved to a csv file from the four data '
        'types, as built in the ways of model.HOW and as views, with names '
        'absent, partly given or given, text with separators, quotes, '
        'spaces, line ends and number signs, missing values and numbers, and '
        'read back: the same table, the saved object as it was; and random '
        'csv files with comments, blank lines, three separators, optional '
        'quotes, strings for missing values, embedded or given names, points '
        'and features selected by index or name in any order, rows that are '
        'features, and features with text ignored, read as each type: the '
        'cells of the file at their positions, numbers exactly in the '
        'columns with only numbers')

TEXT = ['a', 'b b', ' lead', 'trail ', 'x,y', 'say "hi"', '"', ',', "it's",
        'two\nlines', 'gap\n\nline', '#1', 'a;b', '1,5', '"q"', 'a\tb', '|',
        '-', 'Trueish', 'é', 'x, "y"', "''", 'none', '1 2', '#', 'N A', '].']
NAMES = ['n', 'first name', 'last, first', 'the "best"', '#id', 'x;y',
         ' pad ', "o'k", '7', '-3.5', 'pointNames', 'True', 'a\nb', 'é',
         '"all"', 'nan', 'zz', 'q', 'w,', ',e']
DIR = None


def scratch():
    return os.path.join(DIR, 'f.csv')


def names(rng, n, kind):
    if kind == 'none':
        return None
    ns = rng.sample(NAMES, n)
    if kind == 'some':
        for i in rng.sample(range(n), rng.randint(0, n)):
            ns[i] = None
        if all(x is None for x in ns):
            return None
    return ns


def column(rng, n, kinds):
    k = rng.choice(kinds)
    if k == 'int':
        vs = [rng.choice([0, 1, -2, 30, 123456789]) for _ in range(n)]
    elif k == 'float':
        vs = [rng.choice([0.0, .1, -2.5, 1e-7, 12345.678, 1 / 3, 1e15])
              for _ in range(n)]
    elif k == 'num':
        vs = [rng.choice([0, 1, -2.5, 4, .25]) for _ in range(n)]
    elif k == 'text':
        vs = [rng.choice(TEXT) for _ in range(n)]
    elif k == 'bool':
        vs = [rng.random() < .5 for _ in range(n)]
    if rng.random() < .35:
        for i in rng.sample(range(n), rng.randint(1, n)):
            vs[i] = None
    return vs


def roundtrip(rng, rt):
    n, m = rng.randint(1, 5), rng.randint(1, 4)
    kinds = ['int', 'float', 'num'] + ([] if rt == 'Sparse' else
                                       ['text', 'text', 'bool'])
    if rng.random() < .2:
        kinds = ['text'] if rt != 'Sparse' else ['int']
    cols = [column(rng, n, kinds) for _ in range(m)]
    tab = Tab([list(r) for r in zip(*cols)],
              names(rng, n, rng.choice(['none', 'some', 'all'])),
              names(rng, m, rng.choice(['none', 'some', 'all'])), m)
    how = rng.choice(HOW)
    if rng.random() < .3:
        o = mkview(tab, rt, rng, how)[0]
    else:
        o = mk(tab, rt, how)
    n, m = len(tab.rows), tab.nf
    if not n or not m:
        raise Skip()
    hasp = tab.pn is not None and any(x is not None for x in tab.pn)
    hasf = tab.fn is not None and any(x is not None for x in tab.fn)
    inc = rng.random() < .85
    kw = dict(useLog=False, pointNames=hasp and inc, featureNames=hasf and inc)
    if m + (hasp and inc) == 1:
        kw['inputSeparator'] = ','
    if m + (hasp and inc) == 1 and rng.random() < .4:
        del kw['inputSeparator']
        first = tab.fn[0] if hasf and inc else str(tab.rows[0][0])
        if not first.replace('.', '').replace('-', '').isalnum():
            raise Skip()
    last = [r[-1] for r in tab.rows]
    nolast = not (hasf and inc) or tab.fn[-1] is None
    if all(missing(v) for v in last) and nolast:
        raise Skip()       # taken for the end of rows that end in a separator
    if not (hasf and inc) and not (hasp and inc) and isinstance(
            tab.rows[0][0], str) and tab.rows[0][0].startswith('#'):
        if rt == 'DataFrame':
            raise Skip()
    if hasp and inc and not (hasf and inc) and (
            tab.pn[0] or '').startswith('#') and rt == 'DataFrame':
        raise Skip()
    if rng.random() < .2 and hasf and inc and all(
            isinstance(x, str) and not numeric(x) for x in tab.fn) \
            and isinstance(tab.rows[0][-1], (int, float)) \
            and not isinstance(tab.rows[0][-1], bool) \
            and not missing(tab.rows[0][-1]) and m > 1 \
            and 'pointNames' not in tab.fn:
        del kw['featureNames'], kw['pointNames']
    what = f'{rt} saved with names {inc} and read with {kw}'
    path = scratch()
    o.save(path, includeNames=inc)
    same(o, tab, f'{rt} after it was saved')
    text = open(path, encoding='utf-8').read()
    kw['returnType'] = rng.choice([rt, rt] + [
        t for t in TYPES if t != 'Sparse' or rt == 'Sparse'])
    back = nimble.data(path, **kw)
    want = Tab(tab.rows, tab.pn if hasp and inc else None,
               tab.fn if hasf and inc else None, m)
    same(back, want, f'{what}, file {text!r}, of {tab}')


def numeric(s):
    try:
        float(s)
    except ValueError:
        return False
    return True


# reading of files

MISS = ['', 'NA', 'nan', 'None', 'NULL']


def quoted(rng, s, sep):
    if any(c in s for c in ('"', '\n', sep)) or s.startswith('#') \
            or rng.random() < .15:
        return '"' + s.replace('"', '""') + '"'
    return s


def rawcolumn(rng, n):
    k = rng.choice(['int', 'float', 'num', 'text', 'mixed', 'bool', 'int'])
    ints = ['0', '1', '-2', '+4', '30', ' 3', '007']
    flts = ['.5', '2.', '1e3', '-0.25', '3.0']
    pool = dict(int=ints, float=flts, num=ints + flts, text=TEXT,
                mixed=['1', '2.5', 'x', 'True', '4', 'y z'],
                bool=['True', 'False'])[k]
    vs = [rng.choice(pool) for _ in range(n)]
    if rng.random() < .4:
        for i in rng.sample(range(n), rng.randint(1, n)):
            vs[i] = rng.choice(MISS)
    return vs


def typed(cells, miss):
    """the values of the column with the given cells; None, True or False for
    unknown, numbers, text"""
    real = [c for c in cells if c not in miss]
    if all(numeric(c) for c in real):
        return [None if c in miss or c == 'nan' else float(c)
                for c in cells], True
    if all(c in ('True', 'False') for c in real):
        return [None if c in miss else c == 'True' for c in cells], True
    return [None if c in miss else c for c in cells], False


def readfile(rng):
    n, m = rng.randint(1, 5), rng.randint(1, 4)
    cells = [list(r) for r in zip(*[rawcolumn(rng, n) for _ in range(m)])]
    pn, fn = rng.sample(NAMES, n), rng.sample(NAMES, m)
    sep = rng.choice([',', ',', ';', '\t'])
    pmode = rng.choice([True, True, False, 'list', 'dict', 'kept', None])
    fmode = rng.choice([True, True, False, 'list', 'dict', 'kept', None])
    if pmode is True and rng.random() < .3:
        for i in rng.sample(range(n), rng.randint(0, n)):
            pn[i] = None
    if fmode is True and rng.random() < .3:
        for i in rng.sample(range(m), rng.randint(0, m)):
            fn[i] = None
    kp, pp = pick(rng, n, pn, pmode in (True, 'list', 'dict'))
    kf, fp = pick(rng, m, fn, fmode in (True, 'list', 'dict'))
    if kp == 'all' and pmode == 'kept':
        pmode = 'list'
    if kf == 'all' and fmode == 'kept':
        fmode = 'list'
    lines = []
    if fmode is True:
        head = [x or '' for x in fn]
        if pmode is True:
            head.insert(0, rng.choice(['', 'ID', 'pointNames', 'x y']))
        lines.append(head)
    for x, r in zip(pn, cells):
        lines.append(([x or ''] if pmode is True else []) + r)
    text = ''
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        text += rng.choice(['#c,d\n', '\n', '# a comment\n'])
    for line in lines:
        s = sep.join(quoted(rng, x, sep) for x in line)
        if s == '':
            s = '""'
        text += s + '\n'
        if rng.random() < .15:
            text += '\n'
    if rng.random() < .2:
        text = text.rstrip('\n')
    kw = dict(useLog=False)
    kw['pointNames'] = given(rng, pmode, pn, pp)
    kw['featureNames'] = given(rng, fmode, fn, fp)
    if kp != 'all':
        kw['keepPoints'] = kp
    if kf != 'all':
        kw['keepFeatures'] = kf
    # (csv.Sniffer guesses from the first line, where quotes mislead it)
    top = [x for x in text.split('\n') if x and x[0] != '#']
    if sep != ',' or len(lines[0]) < 2 or '"' in top[0] or \
            rng.random() < .5:
        kw['inputSeparator'] = sep
    turned = rng.random() < .15
    ignore = not turned and rng.random() < .2
    miss, rep = set(MISS), None
    if rng.random() < .25:
        w = rng.sample(MISS, rng.randint(0, 2)) + [float('nan'), None]
        miss = set(x for x in w if isinstance(x, str))
        kw['treatAsMissing'] = w
        if '' not in miss:
            raise Skip()
        if rng.random() < .5:
            rep = kw['replaceMissingWith'] = rng.choice([0, -7, 2.5])
    if turned:
        kw['rowsArePoints'] = False
        if 'keepPoints' in kw:
            kw['keepFeatures'], kp = kw.pop('keepPoints'), 1
        elif 'keepFeatures' in kw:
            kw['keepPoints'] = kw.pop('keepFeatures')
            kf = 1
        if kp == 1 and kf != 'all':
            kw['keepPoints'] = kf
        kw['pointNames'], kw['featureNames'] = (kw['featureNames'],
                                                kw['pointNames'])
    if ignore:
        kw['ignoreNonNumericalFeatures'] = True
    # the expected table
    nolast = fmode in (False, None) or fmode is True and fn[-1] is None
    if kf == 'all' and all(cells[i][-1] == '' for i in pp) and nolast:
        raise Skip()       # taken for the end of rows that end in a separator
    cols, keep = [], []
    for j in fp:
        vs, num = typed([cells[i][j] for i in pp], miss)
        if ignore and not num:
            continue
        cols.append([rep if v is None else v for v in vs])
        keep.append(j)
    if not cols:
        raise Skip()
    if ignore and fmode == 'kept':
        raise Skip()
    want = Tab([list(r) for r in zip(*cols)],
               [pn[i] for i in pp] if pmode not in (False, None) else None,
               [fn[j] for j in keep] if fmode not in (False, None) else None,
               len(keep))
    if turned:
        want = want.T()
    istext = any(isinstance(v, str) for c in cols for v in c)
    if rng.random() < .8:
        kw['returnType'] = rng.choice(
            [t for t in TYPES if t != 'Sparse' or not istext])
    path = scratch()
    with open(path, 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    was = repr(kw)
    what = f'file {text!r} read with {kw}'
    if rng.random() < .3:
        src = io.StringIO(text)
    elif rng.random() < .3:
        src = open(path, encoding='utf-8')
    else:
        src = path
    o = nimble.data(src, **kw)
    if src is not path:
        src.close()
    same(o, want, what)
    expect(repr(kw) == was, lambda: f'{what}: the arguments are now {kw}')
    other = 'a,b c\n1,2\n3,4\n'
    with open(path, 'w', encoding='utf-8') as f:
        f.write(other)
    same(nimble.data(path, useLog=False, featureNames=True),
         Tab([[1, 2], [3, 4]], None, ['a', 'b c'], 2),
         f'{other!r} read after that')


def pick(rng, n, ns, named):
    if n < 2 or rng.random() < .6:
        return 'all', list(range(n))
    pos = rng.sample(range(n), rng.randint(1, n - 1))
    return [ns[i] if named and ns[i] is not None and rng.random() < .4 else i
            for i in pos], pos


def given(rng, mode, ns, pos):
    if mode is True:
        return True
    if mode is False or mode is None:
        return rng.choice([False, None])
    if mode == 'kept':
        return [ns[i] for i in pos]
    if mode == 'dict':
        d = list(enumerate(ns))
        rng.shuffle(d)
        return {x: i for i, x in d}
    return list(ns)


def outside(rng):
    """indices outside the file are rejected"""
    n, m = rng.randint(1, 4), rng.randint(1, 4)
    text = ''.join(','.join(str(i + 10 * j) for j in range(m)) + '\n'
                   for i in range(n))
    pt = rng.random() < .5
    k = n if pt else m
    bad = rng.choice([k, k + 1, -1])
    keep = rng.sample(range(k), rng.randint(0, k - 1)) + [bad]
    rng.shuffle(keep)
    kw = {'keepPoints' if pt else 'keepFeatures': keep}
    try:
        o = nimble.data(io.StringIO(text), pointNames=False,
                        featureNames=False, inputSeparator=',', useLog=False,
                        **kw)
    except nimble.exceptions.InvalidArgumentValue:
        return
    raise Check(f'{text!r} read with {kw}: {read(o)}')


def run(api):
    global DIR
    DIR = tempfile.mkdtemp(prefix='c12-')
    try:
        for rt in TYPES:
            loop(api, f'save {rt}', 350, lambda r, t=rt: roundtrip(r, t))
        loop(api, 'read', 1800, readfile)
        loop(api, 'outside', 60, outside)
    finally:
        shutil.rmtree(DIR, ignore_errors=True)
