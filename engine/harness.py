"""One property harness, two executions: symbolic (all values, decided by the solver) and
concrete (one point, against the real modules; used to validate the encoding and to replay
counterexamples)."""
import hashlib
import importlib
import math
import random
from fractions import Fraction

import numpy as np

from .sym import (S, B, Ctx, Unsupported, const, lift, var, PI, b_and, b_or, b_not, implies,
                  mk_exp, mk_log, mk_pow, mk_abs)
from . import sym as _sym
from . import symnp


def hashed(name, lo, hi, salt=0):
    r = random.Random(int(hashlib.sha256(("%s/%s" % (name, salt)).encode()).hexdigest()[:12], 16))
    return lo + (hi - lo) * r.random()


class Missing(Exception):
    pass


class Base:
    """API available to harnesses in both modes"""

    def pick(self, *xs):
        return xs

    def each(self, a, b):
        """pairs of scalars of two equally shaped arrays (broadcast allowed)"""
        A, Bb = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        for i in np.ndindex(A.shape):
            yield i, A[i], Bb[i]

    def eq(self, a, b, label, tol=None, atol=0.0):
        for i, x, y in self._pairs(a, b, label):
            self._eq(x, y, label + (str(list(i)) if i else ''), tol, atol)

    def le(self, a, b, label, tol=None):
        for i, x, y in self._pairs(a, b, label):
            self._le(x, y, label + (str(list(i)) if i else ''), False)

    def lt(self, a, b, label, tol=None):
        for i, x, y in self._pairs(a, b, label):
            self._le(x, y, label + (str(list(i)) if i else ''), True)

    def _pairs(self, a, b, label):
        sa, sb = np.shape(a), np.shape(b)
        if sa and sb and sa != sb:
            self.true(False, label + ': shapes %s and %s agree' % (sa, sb))
            return []
        return list(self.each(a, b))

    def shape(self, a, sh, label):
        self.true(tuple(np.shape(a)) == tuple(sh), label + ': shape is %s' % (tuple(sh),))


class Sym(Base):
    sym = True

    def __init__(self, ob, ctx, prover, world):
        self.ob, self.ctx, self.prover, self.world = ob, ctx, prover, world
        self.np = symnp.NPX
        self.pi = PI
        self.inf = math.inf
        self.claims = []
        self.seen = set()

    # inputs
    def _bounds(self, v, name, lo, hi, strict, smp, integer=False):
        d = self.ob.vars
        if name not in d:
            if smp is None:
                smp = (lo if lo is not None else 0.3 if self._pos else -2.0,
                       hi if hi is not None else (2.5 if self._pos else 2.0)
                       + (float(lo) if lo else 0))
            d[name] = (float(smp[0]), float(smp[1]), integer)
        for c in ([] if lo is None else [v > Fr(lo) if strict else v >= Fr(lo)]) + \
                 ([] if hi is None else [v < Fr(hi) if strict else v <= Fr(hi)]):
            self.given(c)
        return v

    def given(self, c):
        """global assumption (about inputs only)"""
        if isinstance(c, B):
            if not any(c is x for x in self.ctx.assumptions):
                self.ctx.assumptions.append(c)
            if not any(c is x for x in self.prover.assumptions):
                self.prover.assumptions.append(c)
                self.prover.signcache.clear()
        elif not c:
            raise _sym.Infeasible()

    def pos(self, name, lo=None, hi=None, smp=None, strict=False):
        self._pos = True
        return self._bounds(var(name, 'R', True), name, lo, hi, strict, smp)

    def real(self, name, lo=None, hi=None, smp=None, strict=False):
        self._pos = False
        return self._bounds(var(name, 'R', lo is not None and lo > 0), name, lo, hi, strict, smp)

    def integer(self, name, lo, hi):
        self._pos = False
        return self._bounds(var(name, 'I', lo > 0), name, lo, hi, False, None, True)

    def num(self, x):
        return symnp.lit(str(x)) if not isinstance(x, (int, Fraction)) else const(x)

    def arr(self, xs):
        out = np.empty(np.shape(np.array(xs, dtype=object)), dtype=object)
        src = np.array(xs, dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = src[i] if isinstance(src[i], (S, float)) else lift(src[i])
        return out

    def iarr(self, xs):
        return np.array(xs, dtype=np.int64)

    def mod(self, name):
        return self.world.mod(name)

    def assume(self, c):
        self.ctx.assume(c)

    # functions usable in oracles
    exp = staticmethod(lambda x: symnp.umap(symnp.np_exp, 'exp')(x))
    log = staticmethod(lambda x: symnp.umap(lambda v: mk_log(v), 'log')(x))
    sqrt = staticmethod(lambda x: symnp.umap(lambda v: mk_pow(v, const(Fraction(1, 2))), 'sqrt')(x))
    abs = staticmethod(abs)

    def quad(self, f, a, b):
        return symnp.QUAD(f, a, b)[0]

    def frac(self, p, q=1):
        return const(Fraction(p, q))

    def And(self, *c):
        return b_and(*c)

    def Or(self, *c):
        return b_or(*c)

    def Not(self, c):
        return b_not(c)

    def Implies(self, a, b):
        return implies(a, b)

    def generalize(self, inner, *values):
        """the values with every entry of inner that occurs in them replaced by a number about which nothing is
        known: what is shown for arbitrary numbers holds for the actual ones"""
        table = {}
        for n, x in enumerate(np.ravel(np.array(inner, dtype=object))):
            if isinstance(x, S) and x.op not in ('c', 'v') and id(x) not in table:
                table[id(x)] = var('any%d' % n)
        f = lambda v: _sym.replace(v, table) if isinstance(v, S) else v
        return [symnp.umap(f, 'any')(v) if np.shape(v) else f(v) for v in values]

    # claims
    def true(self, c, label):
        self.claims.append((label, c, list(self.ctx.pc)))

    def _eq(self, x, y, label, tol, atol):
        if isinstance(x, float) or isinstance(y, float):
            self.true((not isinstance(x, S) and not isinstance(y, S) and
                       (x == y)), label)
            return
        x, y = lift(x), lift(y)
        self.true(x == y, label)

    def _le(self, x, y, label, strict):
        if not isinstance(x, S) and not isinstance(y, S):
            self.true(bool(x < y) if strict else bool(x <= y), label)
            return
        self.true(x < y if strict else x <= y, label)

    def try_(self, f):
        """(value, None) or (None, exception)"""
        try:
            return f(), None
        except Exception as e:
            return None, e

    def raises(self, f, exc, label):
        v, e = self.try_(f)
        self.true(isinstance(e, exc), label)


def Fr(x):
    if isinstance(x, (S, int, Fraction)):
        return x
    return Fraction(repr(x))


class Conc(Base):
    sym = False

    def generalize(self, inner, *values):
        return list(values)

    def __init__(self, ob, env, tol):
        self.ob, self.env, self.tol = ob, dict(env), tol
        self.np = np
        self.pi = math.pi
        self.inf = math.inf
        self.failed = []
        self.passed = 0
        self.skipped = False
        self.used = {}

    def _val(self, name, lo, hi, smp, pos):
        if name in self.env:
            v = self.env[name]
        else:
            if smp is None:
                smp = (lo if lo is not None else 0.3 if pos else -2.0,
                       hi if hi is not None else (2.5 if pos else 2.0) + (float(lo) if lo else 0))
            v = hashed(name, float(smp[0]), float(smp[1]), self.env.get('#salt', 0))
        v = float(v)
        if lo is not None:
            v = max(v, float(lo))
        if hi is not None:
            v = min(v, float(hi))
        self.used[name] = v
        return v

    def _open(self, v, lo, hi, strict):
        if strict and ((lo is not None and v <= float(lo)) or (hi is not None and v >= float(hi))):
            raise SkipPoint()
        return v

    def pos(self, name, lo=None, hi=None, smp=None, strict=False):
        return self._open(self._val(name, lo, hi, smp, True), lo, hi, strict)

    def real(self, name, lo=None, hi=None, smp=None, strict=False):
        return self._open(self._val(name, lo, hi, smp, False), lo, hi, strict)

    def integer(self, name, lo, hi):
        v = int(round(self._val(name, lo, hi, None, False)))
        self.used[name] = v
        return v

    def num(self, x):
        return float(x)

    def arr(self, xs):
        return np.array(xs, dtype=np.float64)

    def iarr(self, xs):
        return np.array(xs, dtype=np.int64)

    def mod(self, name):
        return importlib.import_module(name)

    def assume(self, c):
        if not bool(np.all(c)):
            raise SkipPoint()

    given = assume
    exp = staticmethod(np.exp)
    log = staticmethod(np.log)
    sqrt = staticmethod(np.sqrt)
    abs = staticmethod(abs)

    def quad(self, f, a, b):
        from scipy.integrate import quad
        return quad(f, a, b)[0]

    def frac(self, p, q=1):
        return float(p) / q

    def And(self, *c):
        return all(bool(x) for x in c)

    def Or(self, *c):
        return any(bool(x) for x in c)

    def Not(self, c):
        return not c

    def Implies(self, a, b):
        return (not a) or bool(b)

    def true(self, c, label):
        if bool(c):
            self.passed += 1
        else:
            self.failed.append((label, 'false'))

    def _eq(self, x, y, label, tol, atol):
        x, y = float(x), float(y)
        t = self.tol if tol is None else tol
        if x == y:
            ok = True
        elif math.isnan(x) or math.isnan(y) or math.isinf(x) or math.isinf(y):
            ok = False
        else:
            ok = abs(x - y) <= t * max(abs(x), abs(y)) + max(atol, 1e-290)
        if ok:
            self.passed += 1
        else:
            self.failed.append((label, '%.12g != %.12g' % (x, y)))

    def _le(self, x, y, label, strict):
        x, y = float(x), float(y)
        t = self.tol
        if x <= y + t * max(abs(x), abs(y)) + 1e-12:
            self.passed += 1
        else:
            self.failed.append((label, 'not %.12g <= %.12g' % (x, y)))

    def try_(self, f):
        try:
            return f(), None
        except Exception as e:
            return None, e

    def raises(self, f, exc, label):
        v, e = self.try_(f)
        self.true(isinstance(e, exc), label)


class SkipPoint(Exception):
    """the concrete point is outside the property's assumptions"""


class Obligation:
    def __init__(self, name, fn, params=None, tier='quick', tol=1e-6, timeout=240,
                 query_ms=20000, max_paths=400, max_depth=400, bounds='', points=2,
                 witness=None, exceptions_ok=False, quad_nodes=1, overrides=None, split_log=False):
        self.name, self.fn, self.params = name, fn, dict(params or {})
        self.tier, self.tol, self.timeout = tier, tol, timeout
        self.query_ms, self.max_paths, self.max_depth = query_ms, max_paths, max_depth
        self.bounds, self.points = bounds, points
        self.witness = witness or []
        self.exceptions_ok = exceptions_ok
        self.quad_nodes = quad_nodes
        self.split_log = split_log
        self.vars = {}
        self.overrides = overrides
