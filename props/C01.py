"""C01: spherical Bessel functions K (log form) are exact at every order."""
import numpy as np

from engine.harness import Obligation
from props.common import lnk_exact


def orders(h, lmax, n=2, how='table', only=None):
    b = h.mod('bessel_sk')
    xs = [h.pos('xyzuvw'[i], smp=(0.05, 8)) for i in range(n)]
    if how == 'np':
        r = b.lnknu(h.arr(xs), np.int64(lmax))
    elif how == 'trans':
        r = b.trans_bessels(h.arr(xs), lmax, 1)
    elif how == 'mie':
        r = b.mie_bessels(h.arr(xs), 0, lmax)[1]
    else:
        a = h.arr(xs)
        r = b.lnknu(a, lmax)
        h.eq(a, h.arr(xs), 'arguments untouched')
    h.shape(r, (n, lmax + 1), 'lnknu')
    for l in range(lmax + 1) if only is None else only:
        for i, x in enumerate(xs):
            h.eq(r[i, l], lnk_exact(h, x, l), 'ln k_%d(x%d)' % (l, i))


def far(h, lmax, lo, hi, n=1):
    """arguments in one decade (so that a special case hidden in a rarely met range has a concrete witness there)"""
    b = h.mod('bessel_sk')
    xs = [h.pos('xyz'[i], lo=lo, hi=hi) for i in range(n)]
    r = b.lnknu(h.arr(xs), lmax)
    h.shape(r, (n, lmax + 1), 'lnknu')
    for l in range(lmax + 1):
        for i, x in enumerate(xs):
            h.eq(r[i, l], lnk_exact(h, x, l), 'ln k_%d(x%d)' % (l, i))


def refuse(h):
    b = h.mod('bessel_sk')
    x = h.arr([h.pos('x', lo=0.01, smp=(0.01, 4))])
    for v in (h.frac(3, 2), h.frac(2), '2', None):
        h.raises(lambda: b.lnknu(x, v), TypeError, 'non-integer order %s is refused' % v)


def history(h, order):
    """many tables one after the other: each entry depends on its own argument and order only, also when the array
    is refilled in place and when the caller overwrites a table it was given"""
    b = h.mod('bessel_sk')
    xs = [h.pos('xyzuvw'[i], smp=(0.05, 8)) for i in range(4)]
    arr = {}
    for n, q in enumerate(order.split()):
        ix, lmax, how = [int(c) for c in q.split(',')[0]], int(q.split(',')[1]), q.split(',')[2]
        a = arr.setdefault(len(ix), h.arr([xs[i] for i in ix])) if how[-1] == 'r' else h.arr([xs[i] for i in ix])
        for j, i in enumerate(ix):
            a[j] = xs[i]
        r = {'k': lambda: b.lnknu(a, lmax), 't': lambda: b.trans_bessels(a, lmax, 1),
             'm': lambda: b.mie_bessels(a, 0, lmax)[1]}[how[0]]()
        h.shape(r, (len(ix), lmax + 1), 'table %d' % n)
        for j, i in enumerate(ix):
            for l in range(lmax + 1):
                h.eq(r[j, l], lnk_exact(h, xs[i], l), 'table %d: ln k_%d(x%d)' % (n, l, i))
            h.true(a[j] == xs[i], 'table %d: argument untouched' % n)
        for j in range(len(ix)):
            for l in range(lmax + 1):
                r[j, l] = h.frac(7)


OBLIGATIONS = [Obligation('lnknu-%d' % n, orders, {'lmax': n}, bounds='lmax=%d, array of 2, all x>0' % n)
               for n in (0, 1, 2, 3, 4, 8, 16, 32)]
OBLIGATIONS += [Obligation('lnknu-%d-high' % n, orders, {'lmax': n, 'n': 1, 'only': (n - 1, n)}, tier=t, timeout=900,
                           bounds='lmax=%d, orders %d and %d, all x>0' % (n, n - 1, n))
                for n, t in ((64, 'quick'), (110, 'quick'), (200, 'thorough'))]
OBLIGATIONS += [Obligation('array-%d' % n, orders, {'lmax': 3, 'n': n}, bounds='lmax=3, array of %d, all x>0' % n)
                for n in (1, 3, 5)]
OBLIGATIONS += [Obligation(w + '-%d' % n, orders, {'lmax': n, 'how': w}, bounds='lmax=%d, array of 2, all x>0' % n)
                for w in ('np', 'trans', 'mie') for n in (0, 1, 3)]
OBLIGATIONS += [Obligation('decade-%d' % d, far, {'lmax': 6, 'lo': 10.0 ** d, 'hi': 10.0 ** (d + 1)},
                           bounds='lmax=6, 1e%d <= x <= 1e%d' % (d, d + 1)) for d in (-6, -4, -3, -2, 1, 2, 3)]
OBLIGATIONS += [Obligation('history-%d' % n, history, {'order': o}, bounds='%d tables, four arguments' % len(o.split()))
                for n, o in enumerate(('01,3,kr 01,3,kr 23,3,kr 02,3,k 10,2,kr 0,3,k 1,3,k 01,5,kr 01,1,k',
                                       '01,2,tr 23,2,tr 012,2,t 210,2,t 01,2,m 01,4,kr 32,4,tr 0,2,m 3,2,m'))]
OBLIGATIONS += [Obligation('refuse', refuse)]
OUTSIDE = 'orders above those listed; floating-point rounding'
