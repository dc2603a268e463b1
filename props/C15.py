"""C15: trace expansion of the log-determinant.

arbitrary_roundtrips and mSum_roundtrips run on arbitrary matrices (symbolic entries); the oracle is the explicit
power sum.  The automatic order is decided by exploring every number of iterations that the stopping rule allows for
matrices whose traces lie in the stated interval."""
import numpy as np

from engine.harness import Obligation
from props.C12 import near
from props.C13 import conc, geometry
from props.common import stub_elements


def mats(h, nk, n, lo=None, hi=None, name='m'):
    if lo is not None:
        return h.arr([[[h.pos('%s%d%d%d' % (name, k, a, b), lo=lo, hi=hi) for b in range(n)] for a in range(n)]
                      for k in range(nk)])
    return h.arr([[[h.real('%s%d%d%d' % (name, k, a, b), smp=(-0.3, 0.3)) for b in range(n)] for a in range(n)]
                  for k in range(nk)])


def powers(M, N):
    """[Tr M, Tr M^2, ...] for a nested list"""
    n = len(M)
    P, out = M, []
    for _ in range(N):
        out.append(sum(P[i][i] for i in range(n)))
        P = [[sum(P[i][k] * M[k][j] for k in range(n)) for j in range(n)] for i in range(n)]
    return out


def fixed(h, nk, n, order):
    G = geometry(h, 2)
    M = mats(h, nk, n)
    keep = M.copy()
    r = G.arbitrary_roundtrips(M, order, 1)
    h.shape(r, (nk,), 'one number per wavenumber')
    for k in range(nk):
        t = powers(keep[k].tolist(), order)
        h.eq(r[k], -sum(t[i] * h.frac(1, i + 1) for i in range(order)), 'k%d' % k, atol=1e-13)
    h.eq(M, keep, 'matrices untouched')
    h.true(G.roundTrip_dct[1] == order, 'order recorded')


def automatic(h, nk, n, lo, hi, prec, top):
    G = geometry(h, 2)
    G.precision = prec
    M = mats(h, nk, n, lo, hi)
    keep = M.copy()
    r = G.arbitrary_roundtrips(M, 'automatic', 0)
    h.shape(r, (nk,), 'one number per wavenumber')
    N = G.roundTrip_dct[0]
    N = int(float(str(N)))
    h.true(1 <= N <= top, 'terminates within %d' % top)
    p = h.num(str(prec))
    ok = []
    for k in range(nk):
        t = powers(keep[k].tolist(), N)
        s = sum(t[i] * h.frac(1, i + 1) for i in range(N))
        h.eq(r[k], -s, 'sum of the recorded order k%d' % k)
        h.le(h.abs(t[N - 1] * h.frac(1, N)), p * h.abs(s), 'last term negligible k%d' % k)
        if N > 2:
            s1 = s - t[N - 1] * h.frac(1, N)
            u = t[N - 2] * h.frac(1, N - 1)
            ok.append(h.abs(u) > p * h.abs(s1) if h.sym else abs(u) >= p * abs(s1) * (1 - 1e-9))
    if ok:
        h.true(h.Or(*ok), 'earlier terms were needed')


def history(h, calls):
    """one geometry object, several evaluations in a row: calls = (size, order, m)"""
    G = geometry(h, 4)
    last = {}
    for i, (n, order, m) in enumerate(calls):
        M = mats(h, 1, n, name='h%d_' % i)
        r = G.arbitrary_roundtrips(M, order, m)
        t = powers(M[0].tolist(), order)
        h.eq(r[0], -sum(t[j] * h.frac(1, j + 1) for j in range(order)), 'call %d' % i, atol=1e-13)
        last[m] = order
        h.true(sorted(G.roundTrip_dct) == sorted(last), 'call %d: which m have been expanded' % i)
        for q in last:
            h.true(G.roundTrip_dct[q] == last[q], 'call %d: order of m=%d' % (i, q))


def twice(h, lmax, nk, order):
    """the sum over m of one object for different wavenumbers, one after the other and again"""
    stub_elements(h)
    G = geometry(h, lmax, evaluation='trace')
    G.precision = h.num('1e-9') if h.sym else 1e-9
    ks = [h.pos('k%d' % j, smp=(0.2, 1)) for j in range(2 * nk)]
    blocks(h, G, lmax, {str(k): str(i) for i, k in enumerate(ks)}, True)
    H = geometry(h, lmax, evaluation='trace')
    H.precision, H.blockmatrices = G.precision, G.blockmatrices
    a, b = h.arr(ks[:nk]), h.arr(ks[nk:])
    x, y, z = [G.mSum_roundtrips(q.copy(), order) for q in (a, b, a)]
    h.eq(x, z, 'the same again')
    h.eq(y, H.mSum_roundtrips(b, order), 'as with a fresh object')


def blocks(h, G, lmax, keys, positive, real=False):
    if real and not h.sym:
        return
    v = h.pos if positive else h.real

    def bm(m, k):
        n = lmax - max(1, m) + 1
        out = [np.empty((len(k), n, n), dtype=object) for _ in range(4)]
        for b in range(4):
            for j, a, c in np.ndindex(out[b].shape):
                out[b][j, a, c] = v('b%d%s%d%d%d' % (m, keys[str(k[j])], b, a, c))
        return [conc(h, x) for x in out]
    G.blockmatrices = bm


def big(M, j):
    n = M[0].shape[1]
    return [[M[2 * (a // n) + b // n][j, a % n, b % n] for b in range(2 * n)] for a in range(2 * n)]


def msum(h, lmax, nk, order, how='direct', prec=None, real=False):
    stub_elements(h)
    G = geometry(h, lmax, evaluation='trace')
    pr = h.pos('prec', hi=1, smp=(1e-5, 0.05)) if prec is None else prec
    G.precision = pr
    ks = [h.pos('k%d' % j, smp=(0.2, 1)) for j in range(nk)]
    blocks(h, G, lmax, {str(k): str(i) for i, k in enumerate(ks)}, True, real)
    ka = h.arr(ks)
    S, steps = [0] * nk, []
    for m in range(lmax + 1):
        M = G.blockmatrices(m, ka)
        new = []
        for j in range(nk):
            t = powers(big(M, j), order)
            new.append(S[j] - (1 if m == 0 else 2) * sum(t[i] * h.frac(1, i + 1) for i in range(order)))
        steps.append((S, new))
        S = new
    r = G.mSum_roundtrips(ka, order)
    h.shape(r, (nk,), 'one number per wavenumber')
    ok = [h.And(*[near(h, r[j], steps[-1][1][j]) for j in range(nk)])]
    for old, new in steps[1:-1]:
        same = h.And(*[near(h, r[j], new[j]) for j in range(nk)])
        dom = []
        for d in range(nk):
            dom.append(h.And(*[abs(new[d]) >= abs(new[j]) * (1 if h.sym else 0.999999) for j in range(nk)]
                             + [abs(abs(new[d] / old[d]) - 1) < pr * (1 if h.sym else 1.001)]))
        ok.append(h.And(same, h.Or(*dom)))
    h.true(h.Or(*ok), 'full sum or safe early stop')


def supermatrix(h, lmax, m, nk, real=False):
    stub_elements(h)
    G = geometry(h, lmax)
    ks = [h.pos('k%d' % j, smp=(0.2, 1)) for j in range(nk)]
    blocks(h, G, lmax, {str(k): str(i) for i, k in enumerate(ks)}, False, real)
    ka = h.arr(ks)
    B = G.supermatrix(m, ka)
    M = G.blockmatrices(m, ka)
    n = M[0].shape[1]
    h.shape(B, (nk, 2 * n, 2 * n), 'assembled')
    for j in range(nk):
        h.eq(B[j], h.arr(big(M, j)), 'assembled k%d' % j)


def dispatch(h, lmax):
    """evaluation='trace' makes the trace expansion the energy integrand, 'lndet' the determinant, others are refused"""
    stub_elements(h)
    k = h.pos('k', smp=(0.2, 1))
    G = geometry(h, lmax, evaluation='trace')
    H = geometry(h, lmax)
    for g in (G, H):
        g.precision = 0.1
    if h.sym:
        for g in (G, H):
            g.arbitrary_roundtrips = lambda M, order, m: h.arr([m + 1])
            g.blockmatrices = lambda m, k: [h.arr([[[0]]])] * 4
        h.eq(G.mSumme(h.arr([k])), h.arr([1 + sum(2 * (m + 1) for m in range(1, lmax + 1))]), 'trace expansion')
    else:
        h.eq(G.mSumme(h.arr([k])), H.mSumme(h.arr([k])), 'both agree', tol=0.2)
    h.raises(lambda: geometry(h, lmax, evaluation='series'), ValueError, 'unknown evaluation')


OBLIGATIONS = []


def add(name, fn, tier='quick', **kw):
    o = {k: kw.pop(k) for k in ('timeout', 'tol', 'points', 'max_paths') if k in kw}
    OBLIGATIONS.append(Obligation(name, fn, kw, tier=tier, points=o.get('points', 2), tol=o.get('tol', 1e-7),
                                  timeout=o.get('timeout', 300), max_paths=o.get('max_paths', 400),
                                  bounds=', '.join('%s=%s' % x for x in kw.items())))


for nk, n, order in ((2, 2, 1), (2, 2, 2), (1, 2, 4), (2, 1, 6), (1, 3, 3), (1, 1, 12), (2, 1, 40)):
    add('fixed-%d-%d-%d' % (nk, n, order), fixed, nk=nk, n=n, order=order)
add('auto-1', automatic, nk=1, n=1, lo=0.01, hi=0.8, prec=0.05, top=9)
add('auto-1-fine', automatic, nk=1, n=1, lo=0.01, hi=0.5, prec=0.001, top=9)
add('auto-2k', automatic, nk=2, n=1, lo=0.01, hi=0.7, prec=0.05, top=8)
add('auto-2', automatic, nk=1, n=2, lo=0.05, hi=0.2, prec=0.3, top=4)
add('msum-1-1', msum, lmax=1, nk=1, order=1)
add('msum-2-1', msum, lmax=2, nk=1, order=2)
add('msum-3-1', msum, lmax=3, nk=1, order=1)
add('msum-2-2', msum, lmax=2, nk=2, order=1)
add('msum-3-2', msum, 'thorough', lmax=3, nk=2, order=1)
add('msum-real-2-2', msum, lmax=2, nk=2, order=1, real=True)
add('super-real-2-1', supermatrix, lmax=2, m=1, nk=2, real=True)
add('super-2-0', supermatrix, lmax=2, m=0, nk=2)
add('super-2-2', supermatrix, lmax=2, m=2, nk=2)
add('history-orders', history, calls=((2, 3, 0), (2, 1, 0), (2, 2, 1), (1, 5, 0), (1, 1, 3), (2, 2, 1)))
add('history-growing', history, calls=tuple((1, i, i % 3) for i in range(1, 13)))
add('history-falling', history, calls=tuple((1, 12 - i, i % 2) for i in range(12)))
add('twice-1-1', twice, lmax=1, nk=1, order=2)
add('twice-2-1', twice, lmax=2, nk=1, order=1)
add('msum-5-1', msum, lmax=5, nk=1, order=1)
add('msum-9-1', msum, lmax=9, nk=1, order=1)
add('dispatch', dispatch, lmax=2)
OUTSIDE = 'matrices above size 4, expansion orders above 9, force flag; rounding'
