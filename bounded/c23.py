"""The printed form of real objects, cell by cell."""
import contextlib
import io
import signal

from .driver import *

RULE = ('random tables of up to 14 points and 12 features in the four data '
        'types and as views, printed under random limits on lines, line '
        'width, column width and significant digits, with random ranges or '
        'counts of points and features; every displayed cell, name and '
        'placeholder is compared with the table; a case is one text')
HOLD, CHOLD, CUT = '\u2502', '\u2500\u2500', '\u2500'


def text(v, sig):
    if isinstance(v, float):
        if v != v:
            return ''
        if sig is not None:
            return f'{v:.{sig}f}'
    return str(v)


def cut(s, n):
    return s if len(s) <= n else s[:n - 1] + CUT


def label(names, i, use, limit, quote):
    n = names[i] if use and names is not None else None
    if n is None:
        return str(i)
    if not quote:
        return cut(n, limit)
    return "'" + (n if len(n) <= limit - 2 else n[:limit - 3] + CUT) + "'"


def shown(labels, wanted, holder, what, most, all_):
    """positions displayed: a leading and a trailing run of wanted, with a
    placeholder between them exactly when some are left out"""
    want = [s for _, s in wanted]
    if holder not in labels:
        expect(labels == want, lambda: f'{what}: labels {labels}, '
               f'without a placeholder must be {want}')
        return [i for i, _ in wanted]
    expect(labels.count(holder) == 1, lambda: f'{what}: {labels}')
    h = labels.index(holder)
    tail = len(labels) - h - 1
    expect(h + tail < len(want), lambda: f'{what}: placeholder although '
           f'nothing is omitted: {labels}')
    expect(labels[:h] == want[:h] and labels[h + 1:] == want[len(want)
           - tail:], lambda: f'{what}: labels {labels} of {want}')
    expect(not all_, lambda: f'{what}: omits some of {want} without a '
           f'limit: {labels}')
    expect(most is None or h + tail <= most, lambda: f'{what}: more than '
           f'{most} displayed: {labels}')
    return [i for i, _ in wanted[:h]] + [None] + [
        i for i, _ in wanted[len(want) - tail:]]


WORDS = ['a', 'bb', 'word', 'somewhat.longer', 'x' * 24, 'Q']


def one(rng):
    n, m = rng.randint(0, 14), rng.randint(0, 12)
    kind = rng.choice(['int', 'short', 'float', 'nan', 'text', 'mixed'])
    pools = dict(int=[0, 1, -7, 12, 345, 100000], short=[0, 1, 12, -7],
                 float=[0.5, -1.25, 3.0, 1000.125, 7.0],
                 nan=[1.5, 0.0, float('nan'), 22.0, None],
                 text=WORDS, mixed=WORDS + [1, 2.5, 30, float('nan')])
    cols = [pools[kind] if kind != 'mixed' else pools[rng.choice(list(pools))]
            for _ in range(m)]
    nms = [lambda k, c: [f'{c}{i}' for i in range(k)],
           lambda k, c: [None if rng.random() < .4 else
                         rng.choice(WORDS) + str(i) for i in range(k)],
           lambda k, c: None]
    rt = rng.choice(['List', 'Matrix', 'DataFrame', 'Sparse'])
    tab = Tab([[rng.choice(c) for c in cols] for _ in range(n)],
              rng.choice(nms)(n, 'p'), rng.choice(nms)(m, 'f'),
              **(dict(nf=m) if not n else {}))
    if rt == 'Sparse' and kind in ('text', 'mixed'):
        rt = 'List'
    if rng.random() < .3 and n and m:
        obj = mkview(tab, rt, rng)[0]
    else:
        obj = mk(tab, rt)
    kw = dict(lineLimit=rng.choice([None, 4, 5, 6, 7, 9, 12, 30]),
              lineWidthLimit=rng.choice([None, None, 79] +
                                        [rng.randint(24, 70)] * 4),
              sigDigits=rng.choice([0, 1, 3, 5, None]),
              columnWidthLimit=rng.randint(5, 22),
              includePointNames=rng.random() < .8,
              includeFeatureNames=rng.random() < .8,
              indent=rng.choice(['', '  ', '>']),
              quoteNames=rng.random() < .2)
    pw, fw = list(range(n)), list(range(m))
    if rng.random() < .3:
        a, b = rng.randint(0, n), rng.randint(0, n + 3)
        kw['points'] = range(a, b)
        pw = [i for i in pw if i in kw['points']]
    elif rng.random() < .2:
        kw['points'] = rng.randint(2, 16)
    if rng.random() < .3:
        a, b = rng.randint(0, m), rng.randint(0, m + 3)
        kw['features'] = range(a, b)
        fw = [i for i in fw if i in kw['features']]
    elif rng.random() < .3:
        kw['features'] = rng.randint(1, 14)
    if rng.random() < .3 and n and m:
        # about as wide as the whole table
        st, val = attempt(obj.toString, **dict(kw, lineWidthLimit=None))
        if st == 'ok':
            kw['lineWidthLimit'] = max(max(map(len, val.split('\n')))
                                       - rng.randint(0, 5), 24)
    what = f'{rt} {tab} toString({kw})'
    check(obj, tab, kw, pw, fw, what)
    same(obj, tab, what)


class Hangs(Exception):
    pass


@contextlib.contextmanager
def within(seconds):
    """printing a small table must end"""
    def stop(*a):
        raise Hangs(f'not finished after {seconds} s')
    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def check(obj, tab, kw, pw, fw, what, out=None):
    with within(20):
        st, val = attempt(obj.toString, **kw) if out is None else \
            ('ok', out)
    if st == 'raise':
        raise Check(f'{what}: raised {type(val).__name__}: '
                    f'{str(val)[:200]}') from val
    expect(val.endswith('\n'), what)
    lines = val[:-1].split('\n')
    ind = kw.get('indent', '')
    limit, width = kw['lineLimit'], kw['lineWidthLimit']
    expect(limit is None or len(lines) <= limit,
           lambda: f'{what}: {len(lines)} lines\n{val}')
    if not fw or not pw:
        return
    P = kw['columnWidthLimit']
    quote = kw.get('quoteNames', False)
    plabel = [(i, label(tab.pn, i, kw['includePointNames'], P, quote))
              for i in pw]
    flabel = [(i, label(tab.fn, i, kw['includeFeatureNames'], P, quote))
              for i in fw]
    expect(all(l.startswith(ind) or not l for l in lines), what)
    lines = [l[len(ind):] for l in lines]
    # the header names the features displayed
    heads = lines[0].split()
    if quote or any(' ' in s for _, s in flabel):
        expect(not any(' ' in s for _, s in flabel), what)
    if heads == [CHOLD]:
        return      # not even one feature fits the width
    most = kw.get('features')
    most = most if isinstance(most, int) else None
    cols = shown(heads, flabel, CHOLD, f'{what}\n{val}\nfeatures', most,
                 width is None and most is None)
    # the rows name the points displayed
    body = lines[2:]
    names = [l.split(' ' + HOLD)[0].strip() if not l.strip().startswith(
        HOLD) else HOLD for l in body]
    most = kw.get('points')
    most = most if isinstance(most, int) else None
    rows = shown(names, plabel, HOLD, f'{what}\n{val}\npoints', most,
                 limit is None and most is None)
    expect(width is None or all(len(l) + len(ind) <= width for l in lines),
           lambda: f'{what}: wider than {width}\n{val}')
    if limit is not None and len(pw) <= limit - 2 and most is None:
        expect(None not in rows, lambda: f'{what}: omits points\n{val}')
    # the cells, column by column
    cells = {}
    for j in cols:
        if j is None:
            continue
        for i in rows:
            if i is None:
                continue
            v = obj[i, j]
            w = tab.rows[i][j]
            expect(missing(v) and missing(w) or eqv(v, w),
                   lambda: f'{what}: [{i}, {j}] is {v!r}, not {w!r}')
            cells[i, j] = cut(text(v, kw['sigDigits']), P)
    byf = dict(flabel)
    at = max(len(s) for s in names) + 3
    for j in cols:
        if j is None:
            wd = len(CHOLD)
        else:
            wd = max([len(byf[j])] + [len(cells[i, j]) for i in rows
                                      if i is not None])
        for i, l in zip(rows, body):
            got = l[at:at + wd].strip()
            want = CHOLD if j is None else HOLD if i is None else \
                cells[i, j].strip()
            expect(got == want, lambda: f'{what}: cell of point {i} and '
                   f'feature {j} shows {got!r}, not {want!r}\n{val}')
        at += wd + 2
    expect(all(len(l) <= at - 2 for l in body), lambda: f'{what}: more '
           f'cells than features\n{val}')


def show(rng):
    """str() and show(): never refused, header with the shape"""
    n, m = rng.randint(0, 40), rng.randint(0, 12)
    rt = rng.choice(TYPES)
    tab = Tab([[rng.choice([1, 25.5, 0, -3]) for _ in range(m)]
               for _ in range(n)], None, None, **(dict(nf=m) if not n
                                                  else {}))
    obj = mk(tab, rt)
    what = f'str of {rt} {n} x {m}'
    with within(20):
        st, val = attempt(str, obj)
    if st == 'raise':
        raise Check(f'{what}: raised {type(val).__name__}: '
                    f'{str(val)[:200]}') from val
    head, _, rest = val.partition('\n')
    expect(head.endswith(f'{n}pt x {m}ft'), lambda: f'{what}: {head}')
    kw = dict(lineLimit=28, lineWidthLimit=79, sigDigits=3,
              columnWidthLimit=40, includePointNames=True,
              includeFeatureNames=True)
    check(obj, tab, kw, list(range(n)), list(range(m)), what, rest)
    w = rng.randint(20, 60)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), within(20):
        st, val = attempt(obj.show, None, lineWidthLimit=w,
                          lineLimit=rng.choice([8, 15]))
    if st == 'raise':
        raise Check(f'show({what}): raised {type(val).__name__}: '
                    f'{str(val)[:200]}') from val
    body = buf.getvalue().split('\n')[1:]
    expect(all(len(l) <= w for l in body), lambda: f'{what}: show('
           f'lineWidthLimit={w}) prints\n{buf.getvalue()}')


def run(api):
    loop(api, 'table', 700, one, .6)
    loop(api, 'show', 200, show)
