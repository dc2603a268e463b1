"""C02: regular modified spherical Bessel functions, element by element."""
from fractions import Fraction

from engine.harness import Obligation
from props.common import bi, i_exact, k_poly, lnk_exact
import numpy as np


def exact_ratio(h, b):
    """the continued fraction (decided by obligation 'cf') replaced by the ratio it converges to"""
    if not h.sym:
        return

    def fnu(x, nu):
        l = (Fraction(nu.args[0]) if hasattr(nu, 'op') else Fraction(nu)) - Fraction(1, 2)
        out = np.empty(len(x), dtype=object)
        for i in range(len(x)):
            out[i] = bi(h, int(l), x[i]) / bi(h, int(l) + 1, x[i])
        return out
    b.fnu = fnu


def wronskian(h, x, l):
    """i_l k_(l+1) + i_(l+1) k_l = pi/(2 x^2), the defining relation of the abstract i_l"""
    if h.sym:
        k = lambda n: h.pi / 2 * h.exp(-x) / x * k_poly(x, n)
        h.given(bi(h, l, x) * k(l + 1) + bi(h, l + 1, x) * k(l) == h.pi / (2 * x * x))


def regime(h, name, kind):
    """x in the series regime, in the closed-form regime, or anywhere"""
    if kind == 's':
        return h.pos(name, hi=0.001, strict=True, smp=(1e-5, 9.9e-4))
    if kind == 'b':
        return h.pos(name, lo=101, hi=1000, smp=(500, 600))
    return h.pos(name, lo=0.001, hi=100, smp=(0.002, 12))


def check(h, x, kind, row, l, label):
    """one table entry against the exact function; the series regime to relative accuracy 1e-10"""
    if l >= 2:
        wronskian(h, x, l)
        h.eq(h.exp(row[l]) if h.sym else row[l],
             bi(h, l, x) if h.sym else np.log(i_exact(h, x, l)), label)
        return
    if kind == 's':
        if l == 0:
            exact = x**2 / 6 - x**4 / 180 + x**6 / 2835
        else:
            exact = -h.log(h.num(3)) + h.log(x) + x**2 / 10 - x**4 / 700
        # ln i_0, ln i_1: Taylor remainder below x^8/30000 resp. x^6/20000
        h.le(h.abs(row[l] - exact), h.num('2e-12'), label + ' (series)')
        return
    h.eq(h.exp(row[l]) if h.sym else row[l],
         i_exact(h, x, l) if h.sym else np.log(i_exact(h, x, l)), label)


def table(h, kinds, lmax):
    b = h.mod('bessel_sk')
    exact_ratio(h, b)
    xs = [regime(h, 'x%d' % i, kd) for i, kd in enumerate(kinds)]
    lni, lnk = b.lniknu(h.arr(xs), lmax)
    h.shape(lni, (len(kinds), lmax + 1), 'I table')
    h.shape(lnk, (len(kinds), lmax + 1), 'K table')
    for i, (x, kd) in enumerate(zip(xs, kinds)):
        for l in range(lmax + 1):
            check(h, x, kd, lni[i], l, 'ln i_%d(x%d)' % (l, i))
            h.eq(lnk[i, l], lnk_exact(h, x, l), 'ln k_%d(x%d)' % (l, i))


def cf(h, kinds, nu2, via):
    """the ratio I_nu/I_(nu+1) is the continued fraction to (at least) the documented depth"""
    b = h.mod('bessel_sk')
    xs = [regime(h, 'x%d' % i, kd) for i, kd in enumerate(kinds)]
    nu = h.frac(nu2, 2)
    if via == 'fnu':
        r = b.fnu(h.arr(xs), nu)
        h.shape(r, (len(xs),), 'fnu')
    else:
        r = b.i_fraction(h.arr(xs), h.arr([nu]))
        h.shape(r, (1, len(xs)), 'i_fraction')
        r = r[0]
    for i, x in enumerate(xs):
        if h.sym:
            depth = 140 if 'b' in kinds else 80
            t = 2 * (nu + depth) / x
            for n in range(depth - 1, 0, -1):
                t = 2 * (nu + n) / x + 1 / t
        else:
            import mpmath as mp
            with mp.workdps(30):
                t = float(mp.besseli(nu, x) / mp.besseli(nu + 1, x))
        h.eq(r[i], t, 'I_nu/I_(nu+1)(x%d)' % i)


def recip(h, n):
    """continued fraction evaluation a0 + 1/(a1 + 1/(a2 + ...)), any positive partial terms"""
    b = h.mod('bessel_sk')
    a = [[h.pos('a%d_%d' % (i, j)) for j in range(n)] for i in range(2)]
    r = b.fraction(h.arr(a))
    for i in range(2):
        t = a[i][-1]
        for j in range(n - 2, -1, -1):
            t = a[i][j] + 1 / t
        h.eq(r[i], t, 'continued fraction row %d' % i)


def slices(h, lmin, lmax, kinds=('m', 'm')):
    b = h.mod('bessel_sk')
    exact_ratio(h, b)
    xs = [regime(h, 'x%d' % i, kd) for i, kd in enumerate(kinds)]
    x = h.arr(xs)
    iv, kv = b.mie_bessels(x, lmin, lmax)
    h.shape(iv, (len(xs), lmax - lmin + 1), 'mie I')
    h.shape(kv, (len(xs), lmax - lmin + 1), 'mie K')
    te = b.trans_bessels(x, lmax, 1)
    ti = b.trans_bessels(x, lmax, 0)
    h.shape(te, (len(xs), lmax + 1), 'exterior table')
    h.shape(ti, (len(xs), lmax + 1), 'interior table')
    for i, xx in enumerate(xs):
        for l in range(lmin, lmax + 1):
            check(h, xx, kinds[i], {l: iv[i, l - lmin]}, l, 'mie i_%d(x%d)' % (l, i))
            h.eq(kv[i, l - lmin], lnk_exact(h, xx, l), 'mie k_%d(x%d)' % (l, i))
        for l in range(lmax + 1):
            h.eq(te[i, l], lnk_exact(h, xx, l), 'exterior k_%d' % l)
            check(h, xx, kinds[i], {l: ti[i, l]}, l, 'interior i_%d' % l)


def history(h, order):
    """a sequence of tables: every entry depends on its own argument and order only"""
    b = h.mod('bessel_sk')
    exact_ratio(h, b)
    kinds = 'msmb'
    xs = [regime(h, 'x%d' % i, kd) for i, kd in enumerate(kinds)]
    arr = {}
    for n, q in enumerate(order.split()):
        ix, lmax, how = [int(c) for c in q.split(',')[0]], int(q.split(',')[1]), q.split(',')[2]
        a = arr.setdefault(len(ix), h.arr([xs[i] for i in ix]))
        for j, i in enumerate(ix):
            a[j] = xs[i]
        r = {'i': lambda: b.lniknu(a, lmax)[0], 't': lambda: b.trans_bessels(a, lmax, 0),
             'm': lambda: b.mie_bessels(a, 0, lmax)[0]}[how]()
        h.shape(r, (len(ix), lmax + 1), 'table %d' % n)
        for j, i in enumerate(ix):
            for l in range(lmax + 1):
                check(h, xs[i], kinds[i], r[j], l, 'table %d: ln i_%d(x%d)' % (n, l, i))
        for j in range(len(ix)):
            for l in range(lmax + 1):
                r[j, l] = h.frac(7)


def refuse(h):
    b = h.mod('bessel_sk')
    x = h.arr([h.pos('x', lo=0.01, smp=(0.01, 4))])
    h.raises(lambda: b.mie_bessels(x, 3, 2), ValueError, 'lmin>lmax is refused')
    h.raises(lambda: b.lniknu(x, h.frac(3, 2)), TypeError, 'non-integer order is refused')
    h.raises(lambda: b.lnknu(x, h.frac(3, 2)), TypeError, 'non-integer order is refused')


OBLIGATIONS = [Obligation('table-%s-%d' % (''.join(k), n), table, {'kinds': k, 'lmax': n}, tol=1e-7,
                          bounds='argument regimes %s (s: 0<x<1e-3, m: x>=1e-3), orders 0..%d' % (''.join(k), n))
               for k, n in [('m', 0), ('m', 1), ('m', 3), ('mm', 4), ('s', 0), ('s', 1), ('s', 3), ('ss', 1),
                            ('sm', 3), ('ms', 3), ('msm', 1), ('smsm', 2), ('bm', 3), ('mb', 3), ('m', 8), ('m', 12), ('s', 6), ('sbm', 3), ('mmm', 2)]]
OBLIGATIONS += [Obligation('fraction-%d' % n, recip, {'n': n}, bounds='%d partial terms' % n)
                for n in (1, 2, 3, 5)]
OBLIGATIONS += [Obligation('cf-%s-%d-%s' % (k, nu, v), cf, {'kinds': k, 'nu2': nu, 'via': v}, tol=1e-7,
                           bounds='nu=%d/2, regimes %s (b: x>100)' % (nu, k))
                for k, nu, v in [('mm', 5, 'fnu'), ('bm', 5, 'fnu'), ('mb', 5, 'fnu'), ('m', 1, 'frac'),
                                 ('m', 9, 'fnu'), ('m', 21, 'fnu'), ('b', 41, 'fnu'), ('mm', 101, 'fnu'), ('bs', 201, 'fnu'), ('s', 5, 'fnu'),
                                 ('bmb', 7, 'frac')]]
OBLIGATIONS += [Obligation('slices-%d-%d' % (a, c), slices, {'lmin': a, 'lmax': c},
                           bounds='orders %d..%d' % (a, c)) for a, c in [(0, 0), (0, 2), (1, 1), (1, 3), (2, 4), (3, 3), (5, 8)]]
OBLIGATIONS += [Obligation('history-%d' % n, history, {'order': o}, tol=1e-7, bounds='%d tables, four arguments' % len(o.split()))
                for n, o in enumerate(('02,3,i 20,3,i 01,3,i 03,3,i 0,3,i 2,3,i 02,1,i', '02,2,t 01,2,t 20,3,m 02,2,m 2,2,t 0,2,t'))]
OBLIGATIONS += [Obligation('refuse', refuse)]
ASSUMPTIONS = ['obligations "table"/"slices" treat the ratio I_nu/I_(nu+1) as exact; obligation "cf" shows the code '
               'evaluates the continued fraction to depth 80 (140 for arguments above 100), whose truncation error '
               'is below 1e-7 there (classical bound 1/(q_N q_(N+1)))',
               'real arithmetic: floating-point rounding of the closed forms is outside']
