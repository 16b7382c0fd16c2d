"""Prover side: generate and discharge the obligations of one contract."""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import z3
from .values import *
from . import values as V
from .engine import (Restart, PathEnd, Carried, solve, cvc5_solve, has_quant)
from .interp import Interp
from .source import Loader, ClassInfo
from .spec import Spec, SpecError, load_macros
from .ops import toz, z3and, z3not
from . import dsl

MACROS = None


def macros():
    global MACROS
    if MACROS is None:
        MACROS = load_macros(os.path.join(dsl.HERE, 'contracts',
                                          'specfns.py'))
    return MACROS


class Model:
    """z3 model -> native values"""

    def __init__(self, eng, m):
        self.eng, self.m = eng, m
        self.strs = {}
        for s, c in V._strlits.items():
            self.strs[str(m.eval(c, model_completion=True))] = s

    def ev(self, e):
        return self.m.eval(e, model_completion=True)

    def value(self, v):
        if v is None or isinstance(v, (bool, int, float, str)):
            return v
        if isinstance(v, SInt):
            return self.ev(v.e).as_long()
        if isinstance(v, SBool):
            return z3.is_true(self.ev(v.e))
        if isinstance(v, SReal):
            r = self.ev(v.e)
            return float(r.as_fraction())
        if isinstance(v, (SStr, SOpq)):
            k = str(self.ev(v.e))
            if k not in self.strs:
                self.strs[k] = f's{len(self.strs)}'
            return self.strs[k]
        if isinstance(v, SVal):
            e = self.ev(v.e)
            return self.term(e, 'val')
        if isinstance(v, tuple):
            return tuple(self.value(x) for x in v)
        if isinstance(v, HList):
            if v.items is not None:
                r = [self.value(x) for x in v.items]
            else:
                n = self.ev(v.n if z3.is_expr(v.n) else z3.IntVal(v.n)
                            ).as_long()
                if n > 50:
                    raise ValueError('model too large')
                r = [self.term(self.ev(z3.Select(v.arr, i)), v.ety)
                     for i in range(n)]
            return tuple(r) if v.istuple else r
        if isinstance(v, HDict):
            if v.items is not None:
                return {k: self.value(x) for k, x in v.items.items()}
            n, keys = v.enum
            n = self.ev(n).as_long()
            if n > 50:
                raise ValueError('model too large')
            d = {}
            for i in range(n):
                k = self.ev(z3.Select(keys, i))
                d[self.term(k, v.kty)] = self.term(
                    self.ev(z3.Select(v.val, k)), v.vty)
            return d
        if isinstance(v, HSet):
            if v.items is not None:
                return set(v.items)
            n, keys = v.enum
            return {self.term(self.ev(z3.Select(keys, i)), v.kty)
                    for i in range(self.ev(n).as_long())}
        raise ValueError(f'no native value for {v!r}')

    def term(self, e, ty):
        if ty in ('val', 'none'):
            d = e.decl().name()
            if d == 'VNone':
                return None
            if d == 'VNaN':
                return float('nan')
            if d == 'VPInf':
                return INF
            if d == 'VNInf':
                return -INF
            return self.term(self.ev(e.arg(0)), {
                'VInt': 'int', 'VBool': 'bool', 'VReal': 'real',
                'VStr': 'str', 'VOpq': 'opq'}[d])
        if ty == 'int':
            return self.ev(e).as_long()
        if ty == 'bool':
            return z3.is_true(self.ev(e))
        if ty == 'real':
            return float(self.ev(e).as_fraction())
        if ty in ('str', 'opq'):
            return self.value(SStr(e))
        if ty[0] == 'list':
            s = zsort(ty)
            n = self.ev(s.ln(e)).as_long()
            if n > 50:
                raise ValueError('model too large')
            a = s.el(e)
            return [self.term(self.ev(z3.Select(a, i)), ty[1])
                    for i in range(n)]
        if ty[0] == 'tuple':
            s = zsort(ty)
            return tuple(self.term(self.ev(s.accessor(0, i)(e)), t)
                         for i, t in enumerate(ty[1]))
        raise ValueError('term')


def as_summary(c):
    """callee contract: precondition obliged, postcondition assumed"""
    def call(eng, args, kw):
        names = list(c.allparams)
        env = dict(zip(names, args))
        env.update(kw)
        for p in names:
            if p not in env:
                env[p] = c.defaults.get(p) if hasattr(c, 'defaults') else None
        sp = Spec(eng, macros(), eng.specfuncs)
        for i, r in enumerate(c.requires):
            eng.oblige(f'precondition {i} of {c.id} at a call',
                       sp.formula(r, env, names), 'call')
        olds = {('old_' + k): eng.snapshot(v) for k, v in env.items()}
        env.update(olds)
        for exc, cond in c.raises.items():
            if cond is None:
                b = eng.fresh('mayraise', z3.BoolSort())
                if exc in c.mayraise:
                    b = z3.And(b, sp.formula(c.mayraise[exc], env, names))
            else:
                b = sp.formula(cond, env, names)
            if eng.decide(b):
                raise find_exc(eng, c, exc)
        for path in c.modifies:
            o = env[path.split('.')[0]]
            for f in path.split('.')[1:-1]:
                o = o.fields[f]
            fld = path.split('.')[-1]
            if not eng.wr(o):
                raise Carried()
            eng.mutd(o.fields, fld, c.modifies[path].sym(eng, fld))
        res = c.returns.sym(eng, c.id + '_res') if c.returns is not None \
            else None
        env['result'] = res
        for nm, e in c.ensures:
            eng.assume(sp.formula(e, env, names))
        eng.used_contracts.add(c.id)
        return res
    return call


def find_exc(eng, c, name):
    from .interp import BUILTIN_EXC
    if name in BUILTIN_EXC:
        return PyExc(BUILTIN_EXC[name])
    m = eng.loader.module('nimble.exceptions')
    return PyExc(m.defs[name])


def fullname(c):
    mod, path = c.target.split(':')
    return f'{mod}:{path}'


def run_contract(c, tier='quick', budget=None):
    """-> result dict.  When a proof with the candidate invariants as they
    are written fails, they are tried on the other ways to write the loops:
    with and without the position, over the positions of a list"""
    res = once(c, tier, budget, False)
    if res['status'] not in ('proved', 'vacuous') and res.pop('items', 0):
        alt = once(c, tier, min(budget or c.budget, 150), True)
        alt['wall'] += res['wall']
        if alt['status'] == 'proved':
            return alt
        res['wall'] = alt['wall']
    return res


def once(c, tier, budget, alt):
    t0 = time.time()
    budget = budget or c.budget
    deadline = t0 + budget
    res = dict(id=c.id, target=c.target, status='error', obligations=0,
               discharged=0, by={}, solver_s=0.0, failed=[], reason='',
               assumptions=[], inlined=[], paths=0, kinds={}, ces=[],
               externals=[], used=[])
    try:
        loader = Loader()
        eng = Interp(loader, feas_ms=c.feas_ms, deadline=deadline)
        eng.cand_ms = c.cand_ms
        eng.altviews = alt
        eng.used_contracts = set()
        eng.specmacros = macros()
        from . import table
        eng.specfuncs = dict(table.SPECFUNCS)
        eng.specfuncs.update(c.funcs or {})
        eng.pool = list(c.pool) if not callable(c.pool) else c.pool()
        eng.hints = hints().get(c.id, {})
        eng.models = dict(default_models())
        eng.models.update(c.models or {})
        for u in c.uses:
            cc = dsl.CONTRACTS[u]
            eng.summaries[fullname(cc)] = as_summary(cc)
        if callable(c.overrides):
            c.overrides(eng)
        go(c, eng, res, deadline, tier)
    except Unsupported as e:
        res['status'] = 'unsupported'
        res['reason'] = str(e)
    except SpecError as e:
        res['status'] = 'unsupported'
        res['reason'] = 'specification: ' + str(e)
    except KeyError as e:
        res['status'] = 'unsupported'
        res['reason'] = f'missing {e}'
        res['trace'] = traceback.format_exc()
    except Exception as e:
        res['status'] = 'unsupported'
        res['reason'] = f'{type(e).__name__}: {e}'
        res['trace'] = traceback.format_exc()
    try:
        res['inlined'] = sorted({n for n, _ in eng.inlined})
        res['assumptions'] = sorted(eng.assumptions)
        res['externals'] = sorted(eng.external_used)
        res['used'] = sorted(eng.used_contracts)
    except Exception:
        pass
    res['wall'] = time.time() - t0
    res['items'] = getattr(eng, 'itemseen', False)
    try:
        res['loops'] = {eng.sitekey(k): dict(
            mode=i.mode, dropped=sorted(i.dropped),
            kept=sorted(i.kept - i.dropped))
            for k, i in eng.loopinfo.items()}
    except Exception:
        res['loops'] = {}
    return res


def hints():
    """which candidate invariants survived when the hints were recorded: only
    decides the order and the time given to the solver, never what counts
    as proved"""
    p = os.path.join(dsl.HERE, 'contracts', 'hints.json')
    if os.environ.get('PYVC_NOHINTS') or not os.path.exists(p):
        return {}
    with open(p) as f:
        return json.load(f)


def default_models():
    from . import models
    return models.MODELS


def go(c, eng, res, deadline, tier):
    mod, cls, node = eng.loader.target(c.target)
    names = list(c.allparams)
    sp = Spec(eng, macros(), eng.specfuncs)
    state = {}

    def thunk():
        env = {}
        for p, t in c.allparams.items():
            eng.curpos = ('in', p)
            env[p] = t.sym(eng, p)
            if isinstance(env[p], HObj):
                mark_inputs(eng, env[p])
        state['in'] = {p: eng.snapshot(v) for p, v in env.items()}
        env.update({'old_' + p: v for p, v in state['in'].items()})
        for r in c.requires:
            eng.assume(sp.formula(r, env, names))
        for r in c.assumes:
            eng.assume(sp.formula(r, env, names))
            eng.assumptions.add('assumed: ' + r)
        if eng.light.check() == z3.unsat:
            raise PathEnd()
        eng.specenv = env
        eng.specnames = names
        state['env'] = env
        eng.nosummary = fullname(c)
        if c.run is not None:
            return c.run(eng, env)
        f = FuncVal(node, mod, None, cls, node.name)
        eng.framestack = [type('F', (), {'vars': {
            k: v for k, v in env.items() if not k.startswith('old_')}})()]
        if c.apply:
            # the function returns a function, which is applied in turn
            r = eng.callfunc(f, [env[p] for p in names[:-c.apply]], {})
            return eng.call(r, [env[p] for p in names[-c.apply:]], {})
        return eng.callfunc(f, [env[p] for p in names], {})

    def on_path(ctx, out, m):
        env = dict(state['env'])
        kind, v = out
        res['paths'] += 1
        if kind == 'return':
            kind = 'ok'
        eng.cur_inputs = state['in']
        n0 = len(eng.obligations)
        if kind == 'ok':
            env['result'] = v
            for nm, e in c.ensures:
                eng.oblige(nm, sp.formula(e, env, names), 'post')
            for exc, cond in c.raises.items():
                if cond is not None:
                    eng.oblige(f'raises {exc} when {cond}', z3not(
                        sp.formula(cond, env, names)), 'raises')
        elif kind == 'raise':
            bases = {eng.excname(b) for b in eng.excbases(v.cls)}
            hit = [x for x in c.raises if x in bases]
            line = getattr(v.node, 'lineno', '?')
            if not hit:
                if c.total:
                    eng.oblige(f'no {eng.excname(v.cls)} (line {line})',
                               z3.BoolVal(False), 'noexc')
            else:
                conds = [c.mayraise.get(x, c.raises[x]) for x in hit]
                if all(x is not None for x in conds):
                    from .ops import z3or
                    eng.oblige(f'{hit[0]} only when {conds[0]}', toz(z3or(*[
                        sp.formula(x, env, names) for x in conds])),
                        'raises')
                for nm, e in c.exc_ensures:
                    eng.oblige(nm, sp.formula(e, env, names), 'post')
        for o in eng.obligations[n0:]:
            o['in'] = state['in']
        state.setdefault('ends', []).append(list(eng.facts))

    for attempt in range(200):
        eng.reset()
        state.pop('ends', None)
        res['paths'] = 0
        try:
            eng.enumerate(thunk, on_path)
            break
        except Restart:
            if time.time() > deadline:
                raise Unsupported('time budget of the task exhausted while '
                                  'searching for loop invariants')
            continue
    else:
        raise Unsupported('loop invariant search did not settle')
    if not state.get('ends'):
        res['status'] = 'vacuous'
        res['reason'] = 'no feasible path reaches the end of the function'
        return
    obs = eng.obligations
    res['obligations'] = len(obs)
    seen = {}
    for o in obs:
        res['kinds'][o['kind']] = res['kinds'].get(o['kind'], 0) + 1
        if o.get('proved'):
            ok, by, dt = True, 'z3', 0.0
        else:
            key = (o['goal'].get_id(), tuple(f.get_id() for f in o['facts']))
            if key in seen:
                ok, by, dt = seen[key]
            else:
                ok, by, dt, info = discharge(o, c, deadline, eng)
                seen[key] = (ok, by, dt)
                if not ok:
                    res['failed'].append(dict(name=o['name'],
                                              kind=o['kind'], info=info))
                    if info.get('ce') is not None:
                        res['ces'].append(info.pop('ce'))
        res['solver_s'] += dt
        if ok:
            res['discharged'] += 1
            res['by'][by] = res['by'].get(by, 0) + 1
    # vacuity: some path end must not be refutable
    live = False
    for fs in state['ends'][:40]:
        r, dt, _, _ = solve(fs, z3.BoolVal(False), 400)
        if r != 'unsat':
            live = True
            break
    if not live:
        res['status'] = 'vacuous'
        res['reason'] = 'the facts of every path are contradictory'
        return
    if res['discharged'] == res['obligations'] and res['obligations']:
        res['status'] = 'proved'
    else:
        res['status'] = 'failed'
        res['reason'] = '; '.join(
            f"{f['name']}: {f['info'].get('verdict')}"
            for f in res['failed'][:4])


def mark_inputs(eng, o):
    for f, v in list(o.fields.items()):
        if not f.startswith('@') and not f.startswith('#'):
            pass


def discharge(o, c, deadline, eng):
    goal, facts = o['goal'], o['facts']
    tot = 0.0
    left = max(1.0, deadline - time.time())
    r, dt, m, s = solve(facts, goal, int(min(2500, left * 1000)), True)
    tot += dt
    if r == 'unsat':
        return True, 'z3', tot, {}
    if r != 'sat':
        left = max(1.0, deadline - time.time())
        out, dt = cvc5_solve(facts, goal, min(4, left))
        tot += dt
        if out == 'unsat':
            return True, 'cvc5', tot, {}
        left = max(1.0, deadline - time.time())
        r, dt, m, s = solve(facts, goal, int(min(c.goal_ms, left * 1000)), True)
        tot += dt
        if r == 'unsat':
            return True, 'z3', tot, {}
    if r != 'sat':
        for seed in (7,):
            left = max(1.0, deadline - time.time())
            r2, dt, m, s = solve(facts, goal, int(min(
                c.goal_ms, left * 1000)), True, seed)
            tot += dt
            if r2 == 'unsat':
                return True, 'z3', tot, {}
            if r2 == 'sat':
                r = r2
                break
        if r != 'sat':
            left = max(1.0, deadline - time.time())
            out, dt = cvc5_solve(facts, goal, min(c.goal_ms / 1000, left))
            tot += dt
            if out == 'unsat':
                return True, 'cvc5', tot, {}
            r = out if out in ('sat',) else 'unknown'
    if os.environ.get('PYVC_DUMP'):
        fn = f"/tmp/dump{int(time.time() * 100) % 10**7}.smt2"
        open(fn, 'w').write(s.to_smt2())
        with open(fn[:-4] + 'txt', 'w') as ff:
            for x in facts:
                ff.write(f'{z3.simplify(x)}\n\n')
            ff.write(f'GOAL {z3.simplify(goal)}')
        print('dumped', fn, o['name'][:60], r, flush=True)
    info = dict(verdict={'sat': 'refuted', 'unknown': 'not proved',
                         }.get(r, r), goal=str(z3.simplify(goal))[:600])
    if m is not None:
        try:
            md = Model(eng, m)
            ce = {p: c.allparams[p].conc(md, v) if not isinstance(
                v, HObj) else obj_ce(md, v) for p, v in o['in'].items()}
            info['ce'] = ce
            info['model'] = {k: repr(v)[:300] for k, v in ce.items()}
        except Exception as e:
            info['ce_error'] = f'{type(e).__name__}: {e}'
    return False, '', tot, info


def obj_ce(md, v):
    """object counterexample as a dictionary of fields"""
    out = {}
    for f, x in v.fields.items():
        if f.startswith('#'):
            continue
        if isinstance(x, HObj):
            out[f] = obj_ce(md, x)
        elif isinstance(x, (UFunc, FuncVal)):
            raise ValueError('function in a counterexample')
        else:
            out[f] = md.value(x)
    return {'#obj': out}


def worker(args):
    cid, tier, budget, q = args
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    try:
        r = run_contract(dsl.CONTRACTS[cid], tier, budget)
    except BaseException as e:
        r = dict(id=cid, target='', status='unsupported',
                 reason=f'{type(e).__name__}: {e}', obligations=0,
                 discharged=0, by={}, solver_s=0, failed=[], ces=[],
                 assumptions=[], inlined=[], paths=0, kinds={}, wall=0,
                 externals=[], used=[])
    import pickle
    try:
        pickle.dumps(r)
    except Exception:
        r['ces'] = []
    q.put(r)


def run_many(cids, tier='quick', jobs=8, hard=None):
    """each contract in its own process with a hard time limit"""
    out = {}
    todo = sorted(cids, key=lambda i: -dsl.CONTRACTS[i].budget)
    running = {}
    mult = 1 if tier == 'quick' else 3
    # a quick check answers within its time
    begin, limit = time.time(), 600 if tier == 'quick' else 1e9
    while todo or running:
        while todo and len(running) < jobs:
            cid = todo.pop(0)
            q = mp.Queue()
            b = dsl.CONTRACTS[cid].budget * mult
            p = mp.Process(target=worker, args=((cid, tier, b, q),))
            p.start()
            running[cid] = (p, q, time.time(), b)
        for cid, (p, q, t, b) in list(running.items()):
            r = None
            try:
                r = q.get(timeout=0.02)
            except Exception:
                pass
            if r is None and (not p.is_alive() or time.time() - t > b * 2.0
                              + 20 or time.time() - begin > limit):
                try:
                    r = q.get(timeout=0.5)
                except Exception:
                    r = dict(id=cid, target=dsl.CONTRACTS[cid].target,
                             status='unsupported', reason='hard time or '
                             'memory limit', obligations=0, discharged=0,
                             by={}, solver_s=0, failed=[], ces=[],
                             assumptions=[], inlined=[], paths=0, kinds={},
                             wall=time.time() - t, externals=[], used=[])
            if r is not None:
                out[cid] = r
                p.join(2)
                if p.is_alive():
                    p.kill()
                    p.join()
                del running[cid]
    return out
