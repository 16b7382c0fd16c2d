"""Session configurations against two plain dictionaries (session, file)."""
import configparser
import os
import tempfile

from .driver import *
from nimble.core.configuration import SessionConfiguration

RULE = ('random sequences of 14 settings operations (get of all forms, set, '
        'setDefault, saveChanges of all forms, hook) on a session over a '
        'configuration file with random content, checked after each against '
        'two dictionaries and a fresh reading of the file; a case is one '
        'sequence')
SECS = ['alpha', 'beta', 'gamma']
OPTS = ['one', 'Two', 'three.four']
VALS = ['1', '2', 'x y', '', 'True', './dir']


def infile(path):
    p = configparser.ConfigParser()
    p.optionxform = str
    p.read(path)
    return {s: dict(p[s].items()) for s in p.sections()}


def merged(ses, fil):
    out = {s: dict(o) for s, o in fil.items()}
    for s, o in ses.items():
        out.setdefault(s, {}).update(o)
    return out


def recorder(got):
    def call(value):
        got.append(value)
    return call


def history(rng):
    d = tempfile.mkdtemp()
    path = os.path.join(d, 'conf.ini')
    fil = {s: {o: rng.choice(VALS) for o in OPTS if rng.random() < .6}
           for s in SECS if rng.random() < .7}
    with open(path, 'w') as f:
        for s, o in fil.items():
            f.write(f'[{s}]\n' + ''.join(f'{k} = {v}\n'
                                         for k, v in o.items()) + '\n')
    fil = infile(path)
    c = SessionConfiguration(path)
    ses, log, hooked, want = {}, [], {}, {}

    def check(what):
        whole = merged(ses, fil)
        for _ in range(2):
            for s in SECS + ['nope']:
                for o in OPTS + ['none']:
                    st, v = attempt(c.get, s, o)
                    if o in whole.get(s, {}):
                        expect(st == 'ok' and v == whole[s][o],
                               lambda: f'{what}: {s}/{o} is {v!r}, expected '
                               f'{whole[s][o]!r}')
                    else:
                        expect(st == 'raise', lambda: f'{what}: {s}/{o} '
                               f'is {v!r} but was never given')
                st, v = attempt(c.get, s)
                if s in whole:
                    expect(st == 'ok' and v == whole[s],
                           lambda: f'{what}: section {s} is {v}, expected '
                           f'{whole[s]}')
                    if st == 'ok':
                        v['spoil'] = '0'
                else:
                    expect(st == 'raise', lambda: f'{what}: section {s}')
            v = c.get()
            expect(v == whole, lambda: f'{what}: all {v}, expected {whole}')
            for s in v:
                v[s]['spoil'] = '0'
            v['spoil'] = {}
        expect(attempt(c.get, None, 'one')[0] == 'raise', what)
        expect(infile(path) == fil, lambda: f'{what}: file has '
               f'{infile(path)}, expected {fil}')
        fresh = SessionConfiguration(path)
        expect(fresh.get() == fil, lambda: f'{what}: fresh {fresh.get()}')
        for k, h in hooked.items():
            expect(h == want[k], lambda: f'{what}: hook of {k} was called '
                   f'with {h}, expected {want[k]}')

    def save(s, o):
        for x in list(ses):
            if s in (None, x):
                for y in list(ses[x]):
                    if o in (None, y):
                        fil.setdefault(x, {})[y] = ses[x].pop(y)
                if not ses[x]:
                    del ses[x]

    check('start')
    for _ in range(14):
        s, o, v = rng.choice(SECS), rng.choice(OPTS), rng.choice(VALS)
        op = rng.choice(['set', 'set', 'set', 'back', 'default', 'save',
                         'saves', 'saveo', 'hook', 'refuse'])
        if op == 'back':
            v = fil.get(s, {}).get(o, v)
        log.append((op, s, o, v))
        if op in ('set', 'back'):
            c.set(s, o, v)
            ses.setdefault(s, {})[o] = v
        elif op == 'default':
            c.setDefault(s, o, v)
            ses.setdefault(s, {})[o] = v
            save(s, o)
        elif op == 'save':
            c.saveChanges()
            save(None, None)
        elif op == 'saves':
            c.saveChanges(s)
            save(s, None)
        elif op == 'saveo':
            c.saveChanges(s, o)
            save(s, o)
        elif op == 'hook':
            got = []
            c.hook(s, o, recorder(got))
            hooked[s, o] = got
            want[s, o] = []
        elif op == 'refuse':
            if merged(ses, fil) != fil:
                st, _v = attempt(c.saveChanges, None, o)
                expect(st == 'raise', 'an option needs a section')
            for bad in (5, lambda: 0, lambda a, b: 0):
                expect(attempt(c.hook, 'other', 'opt', bad)[0] == 'raise',
                       lambda: f'hook accepts {bad}')
        if op in ('set', 'back', 'default') and (s, o) in want:
            want[s, o].append(v)
        check(f'file {fil}: after {log}')


def interfaces(rng):
    """an interface accepts its own options only"""
    c = SessionConfiguration(os.path.join(tempfile.mkdtemp(), 'c.ini'))
    for s, o, ok in (('sklearn', 'nope', False), ('nimble', 'x', False),
                     ('scikitlearn', 'wrong', False),
                     ('nimble', 'location', False)):
        before = c.get()
        st, v = attempt(c.set, s, o, '1')
        expect((st == 'ok') == ok, lambda: f'set({s!r}, {o!r}): {st} {v}')
        expect(c.get() == before and not c.changes,
               lambda: f'after refusing {s}/{o}: {c.get()}')


def run(api):
    loop(api, 'history', 60, history)
    loop(api, 'interface', 1, interfaces)
