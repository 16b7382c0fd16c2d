"""Runtime side (runs under the repository's interpreter).

The contracts of a property are evaluated natively on generated inputs of the
real functions (cross-check of the verifier, and search for failing inputs
when an obligation is not discharged), and the bounded API-level checks of
the property are run.  Everything here is a bounded check.
"""
import copy
import ast
import hashlib
import importlib
import inspect
import json
import os
import pickle
import random
import sys
import time
import traceback

from . import dsl, spec_native


def resolve(target):
    mod, path = target.split(':')
    o = importlib.import_module(mod)
    parts = path.split('.')
    if len(parts) == 1:
        return getattr(o, parts[0]), None
    cls = getattr(o, parts[0])
    for c in cls.__mro__:
        if parts[1] in c.__dict__:
            f = c.__dict__[parts[1]]
            break
    else:
        raise AttributeError(target)
    if isinstance(f, (staticmethod, classmethod)):
        f = f.__func__
    if isinstance(f, property):
        f = f.fget
    return f, cls


_macros = {}


def macros_env():
    """the specification functions, with a lazy implies()"""
    if not _macros:
        path = os.path.join(dsl.HERE, 'contracts', 'specfns.py')
        t = spec_native.Lazy().visit(ast.parse(open(path).read()))
        ns = dict(spec_native.HELPERS)
        exec(compile(ast.fix_missing_locations(t), path, 'exec'), ns)
        _macros.update((k, v) for k, v in ns.items()
                       if not k.startswith('__'))
    return _macros


class Skip(Exception):
    pass


class Mismatch(Exception):
    """the function no longer fits the shape the contract describes (a
    renamed parameter or field): nothing can be said at run time"""


def fits(c, func):
    """the contract's parameters are the leading ones of the function, the
    others have defaults"""
    try:
        ps = [p for p in inspect.signature(func).parameters.values()
              if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]
    except (TypeError, ValueError):
        return True
    names = list(c.allparams)
    if c.apply:
        names = names[:-c.apply]
    if [p.name for p in ps[:len(names)]] != names:
        return False
    return all(p.default is not p.empty for p in ps[len(names):])


def show(v, depth=0):
    if hasattr(v, '__dict__') and not callable(v) and depth < 3:
        return '{' + ', '.join(f'{k}: {show(x, depth + 1)}'
                               for k, x in vars(v).items()) + '}'
    r = repr(v)
    return r if len(r) < 400 else r[:400] + '...'


def call_contract(c, env, func):
    """-> ('skip'|'ok'|'fail', message, description)"""
    names = list(c.allparams)
    base = dict(menv)
    base.update(env)
    memo = {}
    olds = {'old_' + k: safe_copy(v, memo) for k, v in env.items()}
    desc = {k: show(v) for k, v in env.items()}
    base.update(olds)
    ev = spec_native.native_eval
    try:
        for r in c.requires:
            if not ev(r, base, names):
                return 'skip', '', desc
    except Exception as e:
        return 'skip', f'{e}', desc
    try:
        if c.native is not None:
            res = c.native(env)
            base.update({k: v for k, v in env.items() if k not in base})
        elif c.apply:
            res = func(*[env[p] for p in names[:-c.apply]])(
                *[env[p] for p in names[-c.apply:]])
        else:
            res = func(*[env[p] for p in names])
        out = ('ok', res)
    except Exception as e:
        out = ('raise', e)
    if out[0] == 'raise':
        e = out[1]
        if isinstance(e, AttributeError) and hasattr(
                type(e.obj), '__verif_stub__'):
            raise Mismatch(str(e))
        mro = {k.__name__ for k in type(e).__mro__}
        hit = [x for x in c.raises if x in mro]
        if not hit:
            if c.total:
                return 'fail', (f'raised {type(e).__name__}: '
                                f'{str(e)[:200]}'), desc
            return 'ok', '', desc
        conds = [c.mayraise.get(x, c.raises[x]) for x in hit]
        if all(x is not None for x in conds):
            if not any(ev(x, base, names) for x in conds):
                return 'fail', (f'raised {hit[0]} although not '
                                f'{conds[0]}'), desc
        for nm, x in c.exc_ensures:
            if not ev(x, base, names):
                return 'fail', f'after {hit[0]}: {nm}: {x}', desc
        return 'ok', '', desc
    base['result'] = out[1]
    for exc, cond in c.raises.items():
        if cond is not None and ev(cond, base, names):
            return 'fail', (f'returned {show(out[1])} instead of raising '
                            f'{exc} although {cond}'), desc
    for nm, x in c.ensures:
        try:
            ok = ev(x, base, names)
        except Exception as e:
            return 'fail', (f'{nm}: {x} cannot be evaluated on '
                            f'{show(out[1])}: {type(e).__name__} {e}'), desc
        if not ok:
            return 'fail', f'{nm}: {x} is false; result {show(out[1])}', desc
    return 'ok', '', desc


def safe_copy(v, memo):
    try:
        return copy.deepcopy(v, memo)
    except Exception:
        return v


menv = {}


def nest(t, d):
    if not (isinstance(t, dsl.Obj) and isinstance(d, dict)):
        return d
    return t.native({f: nest(t.fields[f], v) if f in t.fields else v
                     for f, v in d.items()})


def gen_env(c, rng):
    if c.gen is not None:
        env = c.gen(rng)
        for p, t in c.allparams.items():
            if p not in env:
                env[p] = t.gen(rng)
            elif isinstance(t, dsl.Obj) and isinstance(env[p], dict):
                d = dict(env[p])
                for f, ft in t.fields.items():
                    if f not in d:
                        d[f] = ft.gen(rng)
                    else:
                        d[f] = nest(ft, d[f])
                env[p] = t.native(d)
        return env
    return {p: t.gen(rng) for p, t in c.allparams.items()}


def from_ce(c, ce):
    env = {}
    for p, t in c.allparams.items():
        v = ce[p]
        if isinstance(v, dict) and '#obj' in v:
            v = mkobj(t, v['#obj'])
        env[p] = v
    return env


def mkobj(t, fields):
    while isinstance(t, dsl.Fork):
        t = [a for a in t.alts if isinstance(a, dsl.Obj)][0]
    d = {}
    for f, ft in t.fields.items():
        v = fields[f]
        if isinstance(v, dict) and '#obj' in v:
            v = mkobj(ft, v['#obj'])
        d[f] = v
    return t.native(d)


def run_contract(c, seed, n, tlimit, ces=()):
    menv.clear()
    menv.update(macros_env())
    menv.update(spec_native.HELPERS)
    if c.nfuncs:
        menv.update(c.nfuncs)
    out = dict(id=c.id, tried=0, run=0, distinct=0, fail=None, samples=[])
    try:
        func = None
        if c.native is None:
            func, cls = resolve(c.target)
    except Exception as e:
        out['fail'] = dict(msg=f'{c.target} cannot be resolved: {e}',
                           kind='missing')
        return out
    if c.native is None and getattr(c, 'unwrap', False):
        while hasattr(func, '__wrapped__'):
            func = func.__wrapped__
    if c.native is None and not fits(c, func):
        out['fail'] = dict(msg=f'{c.target}: other parameters than the '
                           'contract describes', kind='missing')
        return out
    seen = set()
    for ce in ces:
        try:
            env = from_ce(c, ce)
            st, msg, desc = call_contract(c, env, func)
        except Exception as e:
            continue
        out['run'] += st != 'skip'
        if st == 'fail':
            out['fail'] = dict(msg=msg, input=desc, ce=ce,
                               kind='counterexample')
            return out
    t0 = time.time()
    base = int(hashlib.sha256(f'{c.id}/{seed}'.encode()).hexdigest()[:12],
               16)
    for i in range(n * 20):
        if out['run'] >= n or time.time() - t0 > tlimit:
            break
        rng = random.Random(base + i)
        out['tried'] += 1
        try:
            env = gen_env(c, rng)
        except Skip:
            continue
        try:
            st, msg, desc = call_contract(c, env, func)
        except Mismatch as e:
            out['fail'] = dict(msg=f'{c.target}: {e}', kind='missing')
            return out
        if st == 'skip':
            continue
        out['run'] += 1
        key = repr(sorted(desc.items()))
        if key not in seen:
            seen.add(key)
            if len(out['samples']) < 2:
                out['samples'].append(desc)
        if st == 'fail':
            out['fail'] = dict(msg=msg, input=desc, rng=base + i,
                               kind='input')
            break
    out['distinct'] = len(seen)
    return out


# ------------------------------------------------------------- API checks
class Api:
    """context handed to the bounded API-level checks"""

    def __init__(self, prop, seed, tier, tlimit, only=None, known=()):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.t0, self.tlimit = time.time(), tlimit
        self.only = only
        self.cases = 0
        self.keys = set()
        self.fails = []
        self.maxfail = 5
        self.known_hit = {}
        self.known = {k['key']: k for k in known}
        self.samples = []
        self.thorough = tier == 'thorough'

    def rng(self, *key):
        h = hashlib.sha256(repr((self.seed,) + key).encode()).hexdigest()
        return random.Random(int(h[:12], 16))

    def left(self):
        return self.tlimit - (time.time() - self.t0)

    def out_of_time(self):
        return self.left() < 0

    def case(self, key, fn, *args):
        """run one case; an AssertionError or any other exception fails"""
        if self.only is not None and key != self.only:
            return
        self.cases += 1
        self.keys.add(key)
        if len(self.samples) < 3 or self.cases % 997 == 0 and \
                len(self.samples) < 6:
            self.samples.append(str(key)[:300])
        try:
            fn(*args)
        except Exception as e:
            self.note(key, e)

    def note(self, key, e):
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}'
                            for f in reversed(tb[-4:]))
        msg = f'{type(e).__name__}: {str(e)[:600]} [{where}]'
        cls = getattr(e, 'known', None)
        if cls in self.known:
            self.known_hit.setdefault(cls, f'{key}: {msg}')
            return
        if len(self.fails) < self.maxfail:
            self.fails.append(dict(key=key, msg=msg))


class Check(AssertionError):
    """failed check; `known` may name a listed finding"""

    def __init__(self, msg, known=None):
        super().__init__(msg)
        self.known = known


def expect(cond, msg, known=None):
    if not cond:
        raise Check(msg() if callable(msg) else msg, known)


def main():
    req = json.load(open(sys.argv[1]))
    sys.path.insert(0, dsl.HERE)
    import warnings
    warnings.simplefilter('ignore')
    res = dict(contracts={}, api=None)
    dsl.load_all()
    ces = {}
    if req.get('ces'):
        with open(req['ces'], 'rb') as f:
            ces = pickle.load(f)
    only = req.get('only')
    for cid in req['contracts']:
        c = dsl.CONTRACTS[cid]
        n = req.get('n') or c.samples * (20 if req['tier'] == 'thorough'
                                         else 1)
        res['contracts'][cid] = run_contract(
            c, req['seed'], n, req.get('tlimit', 20), ces.get(cid, ()))
    with open(sys.argv[2] + '.part', 'w') as f:
        json.dump(res, f, default=str)
    if req.get('api'):
        name = 'bounded.' + req['api']
        path = os.path.join(dsl.HERE, 'bounded', req['api'] + '.py')
        if os.path.exists(path):
            known = [k for k in req.get('known', ())]
            api = Api(req['prop'], req['seed'], req['tier'],
                      req.get('apilimit', 120), only, known)
            api.maxfail = req.get('maxfail', 5)
            mod = importlib.import_module(name)
            try:
                mod.run(api)
            except Exception as e:
                api.fails.append(dict(key='driver', msg=''.join(
                    traceback.format_exception(e))[-1500:]))
            res['api'] = dict(cases=api.cases, distinct=len(api.keys),
                              fails=api.fails, samples=api.samples,
                              known=api.known_hit,
                              rule=getattr(mod, 'RULE', ''),
                              wall=time.time() - api.t0)
    with open(sys.argv[2], 'w') as f:
        json.dump(res, f, default=str)


if __name__ == '__main__':
    main()
