"""Symbolic scalars (hash-consed expression DAG) and the path explorer.

Every number the code under test touches becomes an S: an exact rational constant, a
symbolic variable, or an operation on these.  Python control flow that depends on a
symbolic comparison goes through Ctx.branch, which asks the solver which outcomes are
feasible under the current path condition and forks by re-execution.
"""
import math
import sys
from fractions import Fraction

sys.setrecursionlimit(100000)


class Unsupported(BaseException):
    """the symbolic executor met a construct it cannot encode (never a verdict)"""


class Abort(BaseException):
    """path steering (BaseException so that code under test cannot swallow it)"""


class PathLimit(Abort):
    pass


class Infeasible(Abort):
    pass


_TABLE = {}


def reset_table():
    _TABLE.clear()


def _mk(op, *args):
    key = (op,) + tuple(id(a) if isinstance(a, (S, B)) else a for a in args)
    n = _TABLE.get(key)
    if n is None:
        n = S.__new__(S)
        n.op, n.args, n.n = op, args, len(_TABLE)
        n.g = (op == 'c' or (op == 'v' and args[0] == '#pi') or
               (op not in ('v', 'uf', 'ite') and
                all(a.g for a in args if isinstance(a, S))))
        _TABLE[key] = n
    return n


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            raise Unsupported("non-finite float in symbolic arithmetic: %r" % x)
        return Fraction(repr(x))
    raise TypeError(type(x))


def const(x):
    f = frac(x)
    return _mk('c', f)


def var(name, sort='R', pos=False):
    """symbolic variable; pos=True declares it strictly positive (a global assumption)"""
    return _mk('v', name, sort, pos)


PI = None  # set below


def is_num(x):
    import numpy as np
    return isinstance(x, (int, float, Fraction, np.integer, np.floating, bool, np.bool_))


def lift(x):
    """python/numpy number -> S"""
    if isinstance(x, S):
        return x
    if isinstance(x, B):
        return ite(x, const(1), const(0))
    if isinstance(x, (bool, int, Fraction)):
        return const(x)
    import numpy as np
    if isinstance(x, float) or isinstance(x, np.floating):
        x = float(x)
        if x == math.pi:
            return PI
        if x == -math.pi:
            return -PI
        return const(x)
    if isinstance(x, (np.integer, np.bool_)):
        return const(int(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    raise Unsupported("cannot lift %r" % type(x))


def _bin(f):
    def g(self, other):
        import numpy as np
        if isinstance(other, (np.ndarray, list, tuple, str)) or other is None:
            if isinstance(other, np.ndarray) and other.ndim == 0:
                other = other.item()
            else:
                return NotImplemented
        if isinstance(other, complex):
            raise Unsupported("complex number")
        if isinstance(other, float) and (math.isinf(other) or math.isnan(other)):
            return _inf_arith(f.__name__, self, other)
        return f(self, lift(other))
    g.__name__ = f.__name__
    return g


def _inf_arith(name, s, o):
    if math.isnan(o):
        return o
    sg = sign_of(s)
    if name in ('add', 'radd'):
        return o
    if name == 'sub':
        return -o
    if name == 'rsub':
        return o
    if name in ('mul', 'rmul'):
        if sg == 0:
            return float('nan')
        return o * sg
    if name == 'div':
        return const(0)
    if name == 'rdiv':
        return o * (1 if sg == 0 else sg)
    raise Unsupported("inf arithmetic " + name)


def sign_of(s):
    """-1/0/1, forking if symbolic"""
    if s.op == 'c':
        return (s.args[0] > 0) - (s.args[0] < 0)
    if bool(s > 0):
        return 1
    if bool(s < 0):
        return -1
    return 0


class S:
    __slots__ = ('op', 'args', 'n', 'g', '__weakref__')
    __hash__ = None  # replaced below

    # -- construction ------------------------------------------------------
    @_bin
    def add(a, b):
        return mk_add(a, b)

    @_bin
    def sub(a, b):
        return mk_add(a, mk_mul(const(-1), b))

    @_bin
    def rsub(a, b):
        return mk_add(b, mk_mul(const(-1), a))

    @_bin
    def mul(a, b):
        return mk_mul(a, b)

    @_bin
    def div(a, b):
        return mk_div(a, b)

    @_bin
    def rdiv(a, b):
        return mk_div(b, a)

    @_bin
    def pow_(a, b):
        return mk_pow(a, b)

    @_bin
    def rpow(a, b):
        return mk_pow(b, a)

    @_bin
    def fdiv(a, b):
        return mk_floor(mk_div(a, b))

    @_bin
    def rfdiv(a, b):
        return mk_floor(mk_div(b, a))

    @_bin
    def mod(a, b):
        return mk_add(a, mk_mul(const(-1), mk_mul(b, mk_floor(mk_div(a, b)))))

    @_bin
    def rmod(a, b):
        return b.__mod__(a)

    __add__ = __radd__ = add
    __sub__ = sub
    __rsub__ = rsub
    __mul__ = __rmul__ = mul
    __truediv__ = div
    __rtruediv__ = rdiv

    def __pow__(a, b, mod=None):
        return S.pow_(a, b)
    __rpow__ = rpow
    __floordiv__ = fdiv
    __rfloordiv__ = rfdiv
    __mod__ = mod
    __rmod__ = rmod

    def __neg__(a):
        return mk_mul(const(-1), a)

    def __pos__(a):
        return a

    def __abs__(a):
        return mk_abs(a)

    # -- comparisons -------------------------------------------------------
    def __lt__(a, b):
        return _cmp('lt', a, b)

    def __le__(a, b):
        return _cmp('le', a, b)

    def __gt__(a, b):
        return _cmp('gt', a, b)

    def __ge__(a, b):
        return _cmp('ge', a, b)

    def __eq__(a, b):
        return _cmp('eq', a, b)

    def __ne__(a, b):
        r = _cmp('eq', a, b)
        if r is NotImplemented:
            return r
        if isinstance(r, B):
            return b_not(r)
        return not r

    def __hash__(a):
        if a.op == 'c':
            return hash(a.args[0])
        return id(a)

    def __bool__(a):
        r = (a == 0)
        return not bool(r)

    # -- numpy scalar emulation -------------------------------------------
    def exp(a):
        return mk_exp(a)

    def log(a):
        return mk_log(a)

    def sqrt(a):
        return mk_pow(a, const(Fraction(1, 2)))

    def log10(a):
        return mk_div(mk_log(a), mk_log(const(10)))

    def log2(a):
        return mk_div(mk_log(a), mk_log(const(2)))

    def log1p(a):
        return mk_log(a + 1)

    def expm1(a):
        return mk_exp(a) - 1

    def sinh(a):
        return (mk_exp(a) - mk_exp(-a)) / 2

    def cosh(a):
        return (mk_exp(a) + mk_exp(-a)) / 2

    def tanh(a):
        return a.sinh() / a.cosh()

    def arccosh(a):
        return mk_log(a + (a * a - 1).sqrt())

    def square(a):
        return a * a

    def reciprocal(a):
        return 1 / a

    def conjugate(a):
        return a
    conj = conjugate

    @property
    def real(a):
        return a

    @property
    def imag(a):
        return const(0)

    def floor(a):
        return mk_floor(a)

    def ceil(a):
        return -mk_floor(-a)

    def trunc(a):
        return mk_trunc(a)

    def rint(a):
        return mk_round(a)

    def round(a, *n):
        return mk_round(a)

    def __round__(a, n=None):
        if n:
            return mk_round(a * 10 ** n) / 10 ** n
        return mk_round(a)

    def __floor__(a):
        return mk_floor(a)

    def __ceil__(a):
        return -mk_floor(-a)

    def __trunc__(a):
        return mk_trunc(a)

    def copy(a):
        return a

    def item(a):
        return a

    def sum(a, *k, **kw):
        return a

    def any(a):
        return bool(a)
    all = any

    def max(a, *k, **kw):
        return a
    min = max

    def flatten(a):
        import numpy as np
        return np.array([a], dtype=object)
    ravel = flatten

    def tolist(a):
        return a

    def astype(a, t, **kw):
        from . import symnp
        return symnp._astype(a, t)

    @property
    def shape(a):
        return ()

    @property
    def ndim(a):
        return 0

    @property
    def size(a):
        return 1

    def is_integer(a):
        return bool(mk_floor(a) == a)

    def __index__(a):
        if a.op == 'c':
            f = a.args[0]
            if f.denominator != 1:
                raise TypeError("non-integer index %s" % f)
            return int(f)
        return Ctx.cur().concretize(a)

    def __int__(a):
        if a.op == 'c':
            f = a.args[0]
            return int(f)
        return Ctx.cur().concretize(mk_trunc(a))

    def __float__(a):
        if a.op == 'c':
            return float(a.args[0])
        if a.op == 'v' and a.args[0] == '#pi':
            return math.pi
        if a.g:
            from .solve import evalf
            return float(evalf(a, {}))
        raise Unsupported("float() of a symbolic value reached native code")

    def __complex__(a):
        raise Unsupported("complex() of a symbolic value")

    def __format__(a, spec):
        if a.op == 'c':
            return format(float(a.args[0]), spec)
        return show(a)

    def __repr__(a):
        return show(a)
    __str__ = __repr__

    def __reduce__(a):
        raise Unsupported("pickling of symbolic values")

    def __copy__(a):
        return a

    def __deepcopy__(a, memo):
        return a


def show(a, depth=6):
    if a.op == 'c':
        f = a.args[0]
        if f.denominator == 1:
            return str(f.numerator)
        return repr(float(f)) if f.denominator > 1000 else str(f)
    if a.op == 'v':
        return a.args[0]
    if depth == 0:
        return '..'
    xs = [show(x, depth - 1) if isinstance(x, S) else str(x) for x in a.args]
    if a.op in '+*/':
        return '(' + a.op.join(xs) + ')'
    return a.op + '(' + ','.join(xs) + ')'


def mk_add(a, b):
    if a.op == 'c':
        if b.op == 'c':
            return const(a.args[0] + b.args[0])
        if a.args[0] == 0:
            return b
    if b.op == 'c' and b.args[0] == 0:
        return a
    if a.n > b.n:
        a, b = b, a
    return _mk('+', a, b)


def mk_mul(a, b):
    if b.op == 'c':
        a, b = b, a
    if a.op == 'c':
        if b.op == 'c':
            return const(a.args[0] * b.args[0])
        if a.args[0] == 0:
            return a
        if a.args[0] == 1:
            return b
        if b.op == '*' and b.args[0].op == 'c':
            return mk_mul(const(a.args[0] * b.args[0].args[0]), b.args[1])
        return _mk('*', a, b)
    if a.n > b.n:
        a, b = b, a
    return _mk('*', a, b)


def mk_div(a, b):
    if b.op == 'c':
        if b.args[0] == 0:
            ctx = Ctx.cur_or_none()
            if ctx is not None:
                ctx.note_domain('division by zero')
            raise ZeroDivisionError("symbolic division by the constant 0")
        return mk_mul(const(1 / b.args[0]), a)
    if a.op == 'c' and a.args[0] == 0:
        return a
    if a is b:
        return const(1)
    return _mk('/', a, b)


def mk_pow(a, b):
    if b.op != 'c':
        if a.op == 'c' and a.args[0] == -1:
            # (-1)**n for integer n: parity
            half = mk_floor(mk_div(b, const(2)))
            return mk_add(const(1), mk_mul(const(-2), mk_add(b, mk_mul(const(-2), half))))
        return mk_exp(mk_mul(b, mk_log(a)))
    e = b.args[0]
    if e == 0:
        return const(1)
    if e == 1:
        return a
    if e.denominator == 1:
        n = int(e)
        if a.op == 'c':
            if a.args[0] == 0 and n < 0:
                raise ZeroDivisionError("0 to a negative power")
            return const(a.args[0] ** n)
        if a.op == '^' and a.args[1].denominator == 1:
            return mk_pow(a.args[0], const(a.args[1] * n))
        return _mk('^', a, e)
    if a.op == 'c':
        f = a.args[0]
        if f < 0:
            raise ValueError("math domain error (negative base to a fractional power)")
        if f == 0:
            return const(0)
        if e.denominator == 2:
            p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if p * p == f.numerator and q * q == f.denominator:
                return const(Fraction(p, q) ** int(e.numerator))
    return _mk('^', a, e)


def mk_exp(a):
    if a.op == 'c' and a.args[0] == 0:
        return const(1)
    if a.op == 'log':
        return a.args[0]
    return _mk('exp', a)


def mk_log(a):
    if a.op == 'c':
        if a.args[0] == 1:
            return const(0)
        if a.args[0] <= 0:
            raise ValueError("math domain error: log(%s)" % a.args[0])
    if a.op == 'exp':
        return a.args[0]
    return _mk('log', a)


def mk_abs(a):
    if a.op == 'c':
        return const(abs(a.args[0]))
    if a.op in ('abs', 'exp') or (a.op == 'v' and a.args[2]):
        return a
    if a.op == '*' and (a.args[0].op == 'c' or a.args[1].op == 'c'):
        return mk_mul(mk_abs(a.args[0]), mk_abs(a.args[1]))
    return _mk('abs', a)


def mk_floor(a):
    if a.op == 'c':
        return const(math.floor(a.args[0]))
    if a.op == 'v' and a.args[1] == 'I':
        return a
    if a.op == 'floor':
        return a
    return _mk('floor', a)


def mk_trunc(a):
    if a.op == 'c':
        return const(math.trunc(a.args[0]))
    if is_int_valued(a):
        return a
    if a.op == 'v' and a.args[2]:
        return mk_floor(a)
    if bool(a >= 0):
        return mk_floor(a)
    return -mk_floor(-a)


def mk_round(a):
    if a.op == 'c':
        return const(round(a.args[0]))
    if is_int_valued(a):
        return a
    return mk_floor(a + Fraction(1, 2))


def is_int_valued(a):
    if a.op == 'c':
        return a.args[0].denominator == 1
    if a.op == 'v':
        return a.args[1] == 'I'
    if a.op in ('+', '*'):
        return all(is_int_valued(x) for x in a.args)
    if a.op == '^':
        return is_int_valued(a.args[0]) and a.args[1].denominator == 1 and a.args[1] > 0
    if a.op == 'floor':
        return True
    if a.op == 'abs':
        return is_int_valued(a.args[0])
    if a.op == 'ite':
        return is_int_valued(a.args[1]) and is_int_valued(a.args[2])
    return False


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    return _mk('ite', c, lift(a), lift(b))


def uf(name, *args):
    """application of an uninterpreted real function"""
    return _mk('uf', name, *[lift(x) if not isinstance(x, str) else x for x in args])


def replace(root, table):
    """root with the nodes whose id is in table replaced"""
    memo = {}
    build = {'+': mk_add, '*': mk_mul, '/': mk_div, 'exp': mk_exp, 'log': mk_log, 'abs': mk_abs, 'floor': mk_floor}

    def done(x):
        return not isinstance(x, S) or id(x) in memo or id(x) in table or not x.args or x.op in ('c', 'v', 'ite')

    def get(x):
        if not isinstance(x, S):
            return x
        return table[id(x)] if id(x) in table else memo.get(id(x), x)
    stack = [root]
    while stack:
        x = stack[-1]
        if done(x):
            stack.pop()
            continue
        todo = [y for y in x.args if not done(y)]
        if todo:
            stack.extend(todo)
            continue
        args = [get(y) for y in x.args]
        if all(a is b for a, b in zip(args, x.args)):
            memo[id(x)] = x
        elif x.op == '^':
            memo[id(x)] = mk_pow(args[0], const(args[1]))
        elif x.op in build:
            memo[id(x)] = build[x.op](*args)
        else:
            memo[id(x)] = _mk(x.op, *args)
        stack.pop()
    return get(root)


# -- booleans ---------------------------------------------------------------

_BT = {}


class B:
    """symbolic boolean"""
    __slots__ = ('op', 'args', '__weakref__')

    def __bool__(self):
        return Ctx.cur().branch(self)

    def __and__(a, b):
        return b_and(a, b)
    __rand__ = __and__

    def __or__(a, b):
        return b_or(a, b)
    __ror__ = __or__

    def __invert__(a):
        return b_not(a)

    def __xor__(a, b):
        return b_or(b_and(a, b_not(b)), b_and(b_not(a), b))

    def all(self):
        return bool(self)
    any = all

    def __repr__(self):
        return '%s(%s)' % (self.op, ', '.join(map(str, self.args)))

    def __add__(a, b):
        return lift(a) + b
    __radd__ = __add__

    def __mul__(a, b):
        import numpy as np
        if isinstance(b, np.ndarray):
            return NotImplemented
        return lift(a) * b
    __rmul__ = __mul__


def _mkb(op, *args):
    key = (op,) + tuple(id(a) if isinstance(a, (S, B)) else a for a in args)
    n = _BT.get(key)
    if n is None:
        n = B.__new__(B)
        n.op, n.args = op, args
        _BT[key] = n
    return n


def _cmp(op, a, b):
    import numpy as np
    if isinstance(b, np.ndarray):
        if b.ndim == 0:
            b = b.item()
        else:
            return NotImplemented
    if b is None or isinstance(b, (str, list, tuple, type)):
        return NotImplemented if op != 'eq' else False
    if isinstance(b, float) and math.isinf(b):
        return {'lt': b > 0, 'le': b > 0, 'gt': b < 0, 'ge': b < 0, 'eq': False}[op]
    if isinstance(b, float) and math.isnan(b):
        return False
    try:
        b = lift(b)
    except Unsupported:
        return NotImplemented
    if op == 'gt':
        op, a, b = 'lt', b, a
    elif op == 'ge':
        op, a, b = 'le', b, a
    if a is b:
        return op != 'lt'
    if a.op == b.op and a.op in ('log', 'exp') and op != 'eq':
        return _cmp(op, a.args[0], b.args[0])       # both increasing
    if a.op == 'c' and b.op == 'c':
        x, y = a.args[0], b.args[0]
        return {'lt': x < y, 'le': x <= y, 'eq': x == y}[op]
    if a.g and b.g:
        sg = ground_sign(mk_add(a, mk_mul(const(-1), b)))
        if sg is not None:
            return {'lt': sg < 0, 'le': sg < 0, 'eq': False}[op]
    return _mkb(op, a, b)


_GS = {}


def ground_sign(d):
    """sign of a variable-free expression if 120 digits settle it (never 0), else None"""
    if d.op == 'c':
        return (d.args[0] > 0) - (d.args[0] < 0) or None
    if id(d) not in _GS:
        from .solve import evalf
        v = evalf(d, {}, prec=120)
        size = 1
        if d.op == '+':
            size = max([1] + [abs(evalf(x, {}, prec=120)) for x in d.args])
        _GS[id(d)] = None if abs(v) < 1e-60 * size else (1 if v > 0 else -1)
    return _GS[id(d)]


def b_not(a):
    if isinstance(a, B):
        if a.op == 'not':
            return a.args[0]
        return _mkb('not', a)
    return not a


def b_and(*xs):
    ys = []
    for x in xs:
        if isinstance(x, B):
            ys.append(x)
        elif not x:
            return False
    if not ys:
        return True
    return ys[0] if len(ys) == 1 else _mkb('and', *ys)


def b_or(*xs):
    ys = []
    for x in xs:
        if isinstance(x, B):
            ys.append(x)
        elif x:
            return True
    if not ys:
        return False
    return ys[0] if len(ys) == 1 else _mkb('or', *ys)


def implies(a, b):
    return b_or(b_not(a), b)


PI = var('#pi', 'R', True)


# -- path exploration --------------------------------------------------------

class Ctx:
    """one symbolic run (one path); explore() drives many of them"""
    _stack = []

    def __init__(self, assumptions, prefix, max_depth, prover):
        self.assumptions = list(assumptions)
        self.pc = []            # branch conditions taken
        self.prefix = prefix
        self.trace = []         # (choice, has_alternative)
        self.max_depth = max_depth
        self.prover = prover
        self.domain = []
        self.log = []
        self.memo = {}
        self.keep = []

    @classmethod
    def cur(cls):
        if not cls._stack:
            raise Unsupported("branch on a symbolic value outside explore()")
        return cls._stack[-1]

    @classmethod
    def cur_or_none(cls):
        return cls._stack[-1] if cls._stack else None

    def note_domain(self, what):
        self.domain.append(what)

    def assume(self, c):
        if isinstance(c, B):
            self.pc.append(c)
        elif not c:
            raise Infeasible()

    def branch(self, c):
        k = id(c)
        if k in self.memo:
            return self.memo[k]
        v = self.prover.quick_truth(c)
        if v is not None:
            self.memo[k] = v
            self.keep.append(c)
            return v
        i = len(self.trace)
        if i < len(self.prefix):
            v, alt = self.prefix[i]
        else:
            if i >= self.max_depth:
                raise PathLimit("more than %d branch decisions" % self.max_depth)
            base = self.assumptions + self.pc
            t = self.prover.feasible(base + [c])
            f = self.prover.feasible(base + [b_not(c)])
            if not t and not f:
                raise Infeasible()
            v, alt = (True, f) if t else (False, False)
        self.trace.append((v, alt))
        self.pc.append(c if v else b_not(c))
        self.memo[k] = v
        n = b_not(c)
        if isinstance(n, B):
            self.memo[id(n)] = not v
        return v

    def concretize(self, s):
        """fork over the feasible integer values of s"""
        for _ in range(10000):
            m = self.prover.some_value(self.assumptions + self.pc, s)
            if m is None:
                raise Infeasible()
            if bool(s == m):
                return m
        raise PathLimit("concretization")


def explore(run, assumptions=(), prover=None, max_paths=2000, max_depth=400):
    """Run `run()` on every feasible path.  Yields (ctx, result) where result is the value
    returned or the Exception raised by the code."""
    todo = [[]]
    n = 0
    while todo:
        prefix = todo.pop()
        ctx = Ctx(assumptions, prefix, max_depth, prover)
        Ctx._stack.append(ctx)
        try:
            try:
                res = run()
            except Exception as e:      # an outcome of the code under test
                res = e
        except Infeasible:
            res = Infeasible
        finally:
            Ctx._stack.pop()
        for j in range(len(prefix), len(ctx.trace)):
            v, alt = ctx.trace[j]
            if alt:
                todo.append(ctx.trace[:j] + [(not v, False)])
        if res is Infeasible:
            continue
        n += 1
        if n > max_paths:
            raise PathLimit("more than %d paths" % max_paths)
        yield ctx, res
