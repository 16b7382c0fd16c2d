from . import ops, calls
from .driver import *

RULE = ('random windows of random tables of up to 4 x 4 in the four data '
        'types: operations of the table model on the view, and the catalogue '
        'of public calls on the view compared with the same call on an '
        'independent object of the same content; the view and its source '
        'must be as before afterwards and calls that modify must be refused; '
        'plus windows of windows')


def run(api):
    runops(api, ops.C02 + ops.C03 + ops.C04 + ops.C08, 250, viewp=1,
           share=.3)
    loop(api, 'window', 150, nested, share=.15)
    loop(api, 'call', 1500, onview)


def onview(rng):
    tab = gentab(rng)
    f = rng.choice(calls.ALL)
    c = f(rng, tab)
    rt = rng.choice(TYPES)
    how = rng.choice(HOW)
    v, src, big = mkview(tab, rt, rng, how)
    o = mk(tab, rt, 'direct')
    argrt = rng.choice([rt, rt, 'List', 'Matrix'])
    a1, a2 = ([mk(t, argrt) for t in c.argtabs] for _ in range(2))
    what = f'{c.name} {c.desc} on a view [{rt}/{how}] of {tab}'
    s1, r1 = calls.outcome(c, v, a1)
    s2, r2 = calls.outcome(c, o, a2)
    if c.mut:
        if s1 == 'ok':
            same(v, tab, what + ': not refused; the view')
            expect(s2 == 'ok' and eqrows(read(o, False).rows, tab.rows),
                   f'{what} was not refused')
    else:
        expect(s1 == s2, lambda: f'{what}: {s1} {str(r1)[:200]}, on an '
               f'independent object {s2} {str(r2)[:200]}')
        if s1 == 'ok':
            expect(calls.eqn(r1, r2, c.tol), lambda: f'{what}: {r1}, on an '
                   f'independent object {r2}')
    same(v, tab, what + ', the view afterwards')
    same(src, big, what + ', the source afterwards')
    for a, t in zip(a1, c.argtabs):
        same(a, t, what + ', argument')


def nested(rng):
    tab = gentab(rng, lo=2, hi=5)
    rt = rng.choice(TYPES)
    v, src, big = mkview(tab, rt, rng, rng.choice(HOW))
    t = tab
    for _ in range(rng.randint(1, 3)):
        p = sorted(rng.choices(range(t.np), k=2))
        f = sorted(rng.choices(range(t.nf), k=2))
        k = rng.random()
        if k < .6:
            ids = [ident(rng, t.pn, p[0], t.np), ident(rng, t.pn, p[1],
                   t.np), ident(rng, t.fn, f[0], t.nf),
                   ident(rng, t.fn, f[1], t.nf)]
            for i, q in enumerate((0, t.np - 1, 0, t.nf - 1)):
                if rng.random() < .2:
                    ids[i] = None
                    if i < 2:
                        p[i] = q
                    else:
                        f[i - 2] = q
            v = v.view(*ids)
        elif k < .8:
            v = v.pointView(ident(rng, t.pn, p[0], t.np))
            p[1], f = p[0], [0, t.nf - 1]
        else:
            v = v.featureView(ident(rng, t.fn, f[0], t.nf))
            f[1], p = f[0], [0, t.np - 1]
        t = t.pick(range(p[0], p[1] + 1), range(f[0], f[1] + 1))
        same(v, t, f'window {p} {f} [{rt}] of {tab}')
    for how in ('copy', 'List', 'Matrix', 'DataFrame'):
        c = v.copy() if how == 'copy' else v.copy(how)
        same(c, t, f'copy {how} of a window [{rt}]')
    # later changes of the source show in the view, not in the copy
    if rt in ('List', 'Matrix') or True:
        i, j = rng.randrange(big.np), rng.randrange(big.nf)
        c = v.copy()
        try:
            src[i, j] = 5
        except Exception:
            return
        same(c, t, 'a copy after a change of the source')
