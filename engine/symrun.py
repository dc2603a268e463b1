"""Runs one obligation symbolically in this process and returns a plain dict."""
import math
import random
import sys
import time
import traceback
from fractions import Fraction

from . import loader, symnp
from .harness import Sym
from .solve import Prover, evalf, evalb, variables, TooBig
from .sym import S, B, Ctx, Unsupported, Infeasible, PathLimit, explore, b_not, const, b_and
from . import sym as _sym


def trace_functions(src, seen):
    def prof(frame, event, arg):
        if event == 'call':
            f = frame.f_code
            if f.co_filename.startswith(src):
                seen.add('%s:%s' % (f.co_filename[len(src) + 1:], f.co_qualname))
    return prof


def margin(claim, env):
    """how badly the claim fails at env (0: holds; 1: as badly as can be told)"""
    if not isinstance(claim, B):
        return 0.0 if claim else 1.0
    if claim.op in ('eq', 'lt', 'le'):
        x, y = evalf(claim.args[0], env), evalf(claim.args[1], env)
        if claim.op == 'eq':
            d = abs(x - y) / (abs(x) + abs(y)) if x != y else 0
            return float(d) if d > 1e-25 else 0.0
        if (x < y) if claim.op == 'lt' else (x <= y):
            return 0.0
        return float(abs(x - y) / (abs(x) + abs(y) + 1e-30)) + 1e-9
    return 0.0 if evalb(claim, env) else 1.0


def real_num(v):
    import mpmath
    return not isinstance(v, mpmath.mpc)


def check_point(conds, claim, env):
    try:
        for c in conds:
            if isinstance(c, B) and not evalb(c, env):
                return 0.0
        return margin(claim, env)
    except (ZeroDivisionError, ValueError, TypeError, OverflowError, KeyError, Unsupported):
        return 0.0


def candidates(ob, conds, claim, env0, seed, tries=60, budget=20.0):
    """numeric points at which the claim fails, best first (models + nearby/random points)"""
    vs = variables([c for c in conds if isinstance(c, B)] + ([claim] if isinstance(claim, B) else []))
    rnd = random.Random(seed)
    out = []
    t0 = time.time()

    def complete(e):
        r = {}
        for n, v in vs.items():
            if e is not None and n in e and (not v.args[2] or e[n] > 0):
                r[n] = e[n]
            elif n in ob.vars:
                lo, hi, ii = ob.vars[n]
                r[n] = rnd.randint(math.ceil(lo), math.floor(hi)) if ii else rnd.uniform(lo, hi)
            else:
                r[n] = rnd.uniform(0.2, 2.0)
        return r
    pts = []
    if env0 is not None:
        pts.append(complete(env0))
    for k in range(tries):
        if time.time() - t0 > budget:
            break
        if k < len(pts):
            e = pts[k]
        elif env0 is not None and k % 3 == 0:
            e = complete({n: v * (1 + rnd.uniform(-.2, .2)) if not float(v).is_integer() else v
                          for n, v in env0.items()})
        else:
            e = complete(None)
        m = check_point(conds, claim, e)
        if m > 0:
            out.append((m, e))
            if len(out) >= 8:
                break
    out.sort(key=lambda t: -t[0])
    return [e for m, e in out]


class Enough(Exception):
    """plenty of counterexamples: the verdict cannot change"""


def run(ob, seed=1, report=None):
    t0 = time.time()
    prover = Prover(timeout_ms=ob.query_ms)
    prover.split_log = ob.split_log
    res = {'name': ob.name, 'bounds': ob.bounds, 'claims': 0, 'proved': 0, 'paths': 0,
           'problems': [], 'status': 'ok', 'functions': []}
    seen = set()
    cache = {}
    labels = set()
    symnp.Quad.nodes = ob.quad_nodes

    def once():
        symnp._undef[0] = 0
        ctx = Ctx.cur()
        w = loader.World(overrides=ob.overrides(loader) if ob.overrides else None)
        h = Sym(ob, ctx, prover, w)
        ctx.h = h
        first = res['paths'] == 0
        if first:
            sys.setprofile(trace_functions(loader.SRC, seen))
        try:
            ob.fn(h, **ob.params)
        finally:
            if first:
                sys.setprofile(None)
        return h

    def problem(kind, label, conds, claim, env, detail=''):
        if sum(1 for p in res['problems'] if p['kind'] == kind) >= 6:
            res['more_problems'] = res.get('more_problems', 0) + 1
            if res['more_problems'] >= 6 and sum(1 for p in res['problems'] if p['points']) >= 6:
                raise Enough()
            return
        pts = candidates(ob, conds, claim, env, seed)
        res['problems'].append({'kind': kind, 'label': label, 'detail': detail,
                                'points': pts[:4], 'model': env})
        if report:
            report(res)

    try:
        symnp.Quad.reset()
        for ctx, r in explore(once, (), prover, ob.max_paths, ob.max_depth):
            res['paths'] += 1
            h = ctx.h
            if isinstance(r, Exception):
                conds = ctx.assumptions + ctx.pc
                rr = prover.check(conds)
                if rr == 'unsat':
                    continue
                env = prover.model_env(prover.last_model) if rr == 'sat' else None
                tb = traceback.extract_tb(r.__traceback__)
                loc = next((t for t in reversed(tb) if t.filename.startswith(loader.SRC)), None)
                res['claims'] += 1
                problem('exception', 'no exception', conds, False, env,
                        '%s: %s%s' % (type(r).__name__, str(r)[:200],
                                      ' at %s:%s' % (loc.filename, loc.lineno) if loc else ''))
            for label, claim, pc in h.claims:
                key = (id(claim) if isinstance(claim, B) else bool(claim), label,
                       tuple(id(c) for c in pc))
                if key in cache:
                    continue
                cache[key] = (claim, list(pc))      # keeps the ids alive
                labels.add(label)
                res['claims'] += 1
                conds = ctx.assumptions + pc
                if not isinstance(claim, B):
                    if claim:
                        res['proved'] += 1
                        continue
                    rr = prover.check(conds)
                    if rr == 'unsat':
                        res['proved'] += 1
                        continue
                    env = prover.model_env(prover.last_model) if rr == 'sat' else None
                    problem('cex', label, conds, False, env)
                    continue
                try:
                    v, env = prover.prove(conds, claim)
                except (TooBig, ZeroDivisionError, ValueError) as e:
                    v, env = 'unknown', None
                    res['problems_note'] = str(e)[:200]
                if v == 'proved':
                    res['proved'] += 1
                else:
                    problem(v, label, conds, claim, env)
    except Unsupported as e:
        res['status'] = 'unsupported'
        res['detail'] = str(e)[:300]
    except Enough:
        res['status'] = 'stopped'
        res['detail'] = 'stopped after %d counterexamples' % len(res['problems'])
    except PathLimit as e:
        res['status'] = 'pathlimit'
        res['detail'] = str(e)[:300]
    except RecursionError as e:
        res['status'] = 'unsupported'
        res['detail'] = 'recursion'
    res['functions'] = sorted(seen)
    res['stats'] = prover.stats
    res['domain'] = {str(k): v for k, v in prover.domain.items()}
    res['distinct_labels'] = len(labels)
    res['wall_s'] = round(time.time() - t0, 2)
    return res
