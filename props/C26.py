"""C26: numerical helpers."""
import math

from engine.harness import Obligation


def grid(h, n, positive=True):
    x0 = h.pos('x0', smp=(0.5, 2)) if positive else h.real('x0', smp=(-2, 2))
    s = h.pos('s', smp=(0.1, 1))
    return x0, s, h.arr([x0 + i * s for i in range(n)])


def data(h, name, n):
    return [h.real('%s%d' % (name, i), smp=(-3, 3)) for i in range(n)]


def poly(h, cs, x):
    r = h.frac(0) if h.sym else 0.0
    for c in reversed(cs):
        r = r * x + c
    return r


def dpoly(h, cs, x):
    return poly(h, [i * c for i, c in enumerate(cs)][1:], x) if len(cs) > 1 else 0


def factorials(h, lo, hi):
    hf = h.mod('helper_functions')
    for n in range(lo, hi + 1):
        h.eq(hf.lfac(n), h.log(h.frac(math.factorial(n))) if n > 1 else h.frac(0), 'ln n!', atol=1e-12)
        d = 1
        for j in range(1, 2 * n, 2):
            d *= j
        h.eq(hf.ln_2dbl(n), h.log(h.frac(d)) if d > 1 else h.frac(0), 'ln (2n-1)!!', atol=1e-9)
    a = h.iarr(list(range(lo, hi + 1)))
    h.eq(hf.lfac(a), h.arr([hf.lfac(n) for n in range(lo, hi + 1)]), 'element by element', atol=1e-12)
    h.eq(hf.ln_2dbl(a), h.arr([hf.ln_2dbl(n) for n in range(lo, hi + 1)]), 'element by element', atol=1e-9)
    b = a.reshape(1, -1)
    h.eq(hf.lfac(b), h.arr([[hf.lfac(n) for n in range(lo, hi + 1)]]), 'shape', atol=1e-12)
    h.eq(a, list(range(lo, hi + 1)), 'argument unchanged')


def exact(h, n, deg):
    hf = h.mod('helper_functions')
    x0, s, x = grid(h, n, False)
    cs = data(h, 'c', deg + 1)
    f = h.arr([poly(h, cs, x[i]) for i in range(n)])
    f0 = f.copy()
    D = hf.num_derivative(f, x)
    h.shape(D, (n,), 'one value per grid point')
    for i in range(n):
        order = 4 if 2 <= i <= n - 3 else 2 if 1 <= i <= n - 2 else 1
        if deg <= order:
            h.eq(D[i], dpoly(h, cs, x[i]), 'exact for polynomials of degree %d at point %d' % (deg, i), atol=1e-9)
    h.eq(f, f0, 'data unchanged')


def linear(h, n, cols=0):
    hf = h.mod('helper_functions')
    x0, s, x = grid(h, n, False)
    a, b = h.real('a', smp=(-2, 2)), h.real('b', smp=(-2, 2))
    if cols:
        F = [data(h, 'f%d_' % i, cols) for i in range(n)]
        G = [data(h, 'g%d_' % i, cols) for i in range(n)]
    else:
        F, G = data(h, 'f', n), data(h, 'g', n)
    f, g = h.arr(F), h.arr(G)
    Df, Dg = hf.num_derivative(f, x), hf.num_derivative(g, x)
    h.eq(hf.num_derivative(a * f + b * g, x), a * Df + b * Dg, 'linear', atol=1e-9)
    h.shape(Df, f.shape, 'shape')
    c = h.real('c', smp=(-2, 2))
    h.eq(hf.num_derivative(f + c, x), Df, 'a constant has no derivative', atol=1e-9)
    h.eq(hf.num_derivative(f[::-1], x), -Df[::-1], 'reflection', atol=1e-9)


def order(h, zero):
    hf = h.mod('helper_functions')
    x0 = h.real('x0', smp=(1, 2))
    s = h.pos('s', smp=(0.1, 0.2)) if not zero else h.frac(0)
    x = h.arr([x0 - i * s for i in range(5)])
    f = h.arr(data(h, 'f', 5))
    h.raises(lambda: hf.num_derivative(f, x), ValueError, 'not increasing')
    h.raises(lambda: hf.num_derivative(f, x, interpolate=True), ValueError, 'not increasing')


def ref(h, y, k, n, mult):
    """5-point derivative of a function known on the refined grid, at the points of the coarse one"""
    N = (n - 1) * mult + 1
    out = []
    for i in range(n):
        j = i * mult
        if j in (0, N - 1):
            o = 1 if j == 0 else -1
            out.append(o * (y(j + o) - y(j)) / k)
        elif j in (1, N - 2):
            out.append((y(j + 1) - y(j - 1)) / (2 * k))
        else:
            out.append((-y(j + 2) + 8 * y(j + 1) - 8 * y(j - 1) + y(j - 2)) / (12 * k))
    return out


def refined_power(h, n, mult, p, neg):
    """a x^p is reproduced exactly by interpolation in doubly logarithmic scale"""
    hf = h.mod('helper_functions')
    x0, s, x = grid(h, n)
    a = h.pos('a', smp=(0.3, 3))
    sg = -1 if neg else 1
    P = h.frac(*p)

    def law(t):
        return sg * h.exp(h.log(a) + P * h.log(t))
    f = h.arr([law(x[i]) for i in range(n)])
    f0 = f.copy()
    D = hf.num_derivative(f, x, interpolate=True, multiplier=mult)
    h.shape(D, (n,), 'values on the original grid')
    k = s / mult
    want = ref(h, lambda j: law(x0 + j * k), k, n, mult)
    for i in range(n):
        h.eq(D[i], want[i], 'derivative of the power law', tol=1e-6, atol=1e-9)
    if p == (1, 1):
        for i in range(n):
            h.eq(D[i], sg * a, 'straight line through the origin', tol=1e-6, atol=1e-9)
    h.eq(f, f0, 'data unchanged')


def refined_scale(h, n, mult, neg):
    hf = h.mod('helper_functions')
    x0, s, x = grid(h, n)
    F = [h.pos('f%d' % i, smp=(0.3, 3)) for i in range(n)]
    f = h.arr(F)
    c = h.pos('c', smp=(0.3, 3))
    D = hf.num_derivative(f, x, interpolate=True, multiplier=mult)
    h.shape(D, (n,), 'values on the original grid')
    E = hf.num_derivative((-c if neg else c) * f, x, interpolate=True, multiplier=mult)
    for i in range(n):
        h.eq(E[i], (-c if neg else c) * D[i], 'proportional to the data, sign included', tol=1e-6, atol=1e-8)


def refined_one(h, n, signs):
    """a multiplier of one refines nothing"""
    hf = h.mod('helper_functions')
    x0, s, x = grid(h, n)
    F = []
    for i, c in enumerate(signs):
        v = h.pos('f%d' % i, smp=(0.3, 3))
        F.append(v if c == '+' else -v)
    f = h.arr(F)
    D = hf.num_derivative(f, x)
    E = hf.num_derivative(f, x, interpolate=True, multiplier=1)
    for i in range(n):
        h.eq(E[i], D[i], 'same as the plain derivative', tol=1e-6, atol=1e-8)


def default_multiplier(h):
    hf = h.mod('helper_functions')
    x0, s, x = grid(h, 3)
    f = h.arr([h.pos('f%d' % i, smp=(0.3, 3)) for i in range(3)])
    D, E = hf.num_derivative(f, x, True), hf.num_derivative(f, x, interpolate=True, multiplier=10)
    for i in range(3):
        h.eq(D[i], E[i], 'ten intermediate steps by default', atol=1e-9)
    P, Q = hf.num_derivative(f, x), hf.num_derivative(f, x, False)
    h.eq(P, Q, 'no refinement by default', atol=1e-12)


def history(h):
    """derivatives of different data on different grids, one after the other, arrays refilled in place"""
    hf = h.mod('helper_functions')
    x0, s = h.pos('x0', smp=(0.5, 2)), [h.pos('s%d' % i, smp=(0.1, 1)) for i in range(2)]
    x, f = {}, {}
    for c, (n, g, deg) in enumerate(((5, 0, 2), (5, 0, 2), (5, 1, 2), (4, 0, 1), (5, 0, 1), (6, 1, 2), (5, 1, 2))):
        cs = data(h, 'c%d_' % c, deg + 1)
        xx, ff = x.setdefault(n, h.arr([h.frac(0)] * n)), f.setdefault(n, h.arr([h.frac(0)] * n))
        for i in range(n):
            xx[i] = x0 + i * s[g]
            ff[i] = poly(h, cs, xx[i])
        D = hf.num_derivative(ff, xx)
        h.shape(D, (n,), 'one value per grid point')
        for i in range(1, n - 1):
            h.eq(D[i], dpoly(h, cs, xx[i]), 'question %d: exact at point %d' % (c, i), atol=1e-9)
        for i in range(n):
            h.eq(xx[i], x0 + i * s[g], 'grid unchanged')
    for n in (5, 3, 7, 0, 5, 12, 1):
        h.eq(hf.lfac(n), h.log(h.frac(math.factorial(n))) if n > 1 else h.frac(0), 'ln n!', atol=1e-12)


OBLIGATIONS = [
    Obligation('history', history, {}, bounds='seven questions, grids of 4 to 6 points'),
    Obligation('factorials_0_40', factorials, dict(lo=0, hi=40), bounds='n = 0..40'),
    Obligation('factorials_41_90', factorials, dict(lo=41, hi=90), bounds='n = 41..90'),
]
for n in (3, 4, 5, 6, 8, 12, 20):
    for deg in (1, 2, 3, 4):
        if deg in (3, 4) and n < 5:
            continue
        OBLIGATIONS.append(Obligation('exact_n%d_deg%d' % (n, deg), exact, dict(n=n, deg=deg)))
for n, c in ((3, 0), (5, 0), (7, 0), (5, 2), (12, 0), (6, 3), (3, 1)):
    OBLIGATIONS.append(Obligation('linear_n%d_c%d' % (n, c), linear, dict(n=n, cols=c)))
OBLIGATIONS += [Obligation('order_dec', order, dict(zero=False)), Obligation('order_const', order, dict(zero=True))]
for p in ((1, 1), (2, 1), (-1, 1), (1, 2), (-3, 1)):
    for neg in (0, 1):
        OBLIGATIONS.append(Obligation('power_%d_%d_%s' % (p[0], p[1], 'neg' if neg else 'pos'), refined_power,
                                      dict(n=4, mult=2, p=p, neg=neg), split_log=True))
for n, mult, p in ((6, 3, (2, 1)), (3, 10, (-2, 1)), (8, 2, (3, 1)), (5, 7, (-1, 2)), (3, 20, (2, 1))):
    OBLIGATIONS.append(Obligation('power_n%d_x%d' % (n, mult), refined_power, dict(n=n, mult=mult, p=p, neg=n % 2), split_log=True))
for n, mult in ((6, 3), (3, 10), (8, 2)):
    OBLIGATIONS.append(Obligation('scale_n%d_x%d' % (n, mult), refined_scale, dict(n=n, mult=mult, neg=n % 2), split_log=True))
OBLIGATIONS.append(Obligation('power_m5', refined_power, dict(n=3, mult=5, p=(2, 1), neg=0), split_log=True))
for neg in (0, 1):
    OBLIGATIONS.append(Obligation('scale_%s' % ('neg' if neg else 'pos'), refined_scale, dict(n=4, mult=2, neg=neg), split_log=True))
for sg in ('+++++', '-----', '+-++-', '-++++', '++++-'):
    OBLIGATIONS.append(Obligation('one_' + sg.replace('+', 'p').replace('-', 'm'), refined_one, dict(n=5, signs=sg), split_log=True))
OBLIGATIONS.append(Obligation('default_multiplier', default_multiplier, {}))
OUTSIDE = ('factorials of more than 90, grids of more than 20 points, refinement factors above 20, '
           'data containing exact zeros in the refined variant, floating-point rounding')
HOW = """The helper functions are executed symbolically: data values, polynomial coefficients, the grid origin and its spacing
are symbolic reals, grid sizes are enumerated.  The derivative is compared with the derivative of an arbitrary polynomial
of the promised degree at every point, with linear combinations, reflections and constants, and in the refined variant
with the difference formula applied to an arbitrary power law, with scaled data, and with the plain derivative for a
refinement factor of one.  Factorials are compared with exact integers."""
