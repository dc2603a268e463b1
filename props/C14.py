"""C14: linear algebra on stacks of matrices, balancing."""
import numpy as np

from engine.harness import Obligation
from props.C12 import det, lndet1m
from props.common import cycles


def stack(h, name, nk, n, m=None, lo=None, hi=None):
    return h.arr([[[h.real('%s%d%d%d' % (name, k, a, b), lo=lo, hi=hi, smp=(-0.4, 0.4) if lo is None else None)
                    for b in range(m or n)] for a in range(n)] for k in range(nk)])


def dot(h, nk, n, p, q):
    g = h.mod('geometry')
    A, B = stack(h, 'a', nk, n, p), stack(h, 'b', nk, p, q)
    C = g.dot_3d_matrices(A, B)
    h.shape(C, (nk, n, q), 'product')
    for k in range(nk):
        for i in range(n):
            for j in range(q):
                h.eq(C[k, i, j], sum(A[k, i, l] * B[k, l, j] for l in range(p)), 'product', atol=1e-12)


def small(h, M):
    """diagonally dominant, hence every leading block and Schur complement is invertible"""
    n = M.shape[1]
    for k in range(len(M)):
        for i in range(n):
            h.assume(M[k, i, i] > sum(abs(M[k, i, j]) for j in range(n) if j != i))


def domin(h, name, nk, n):
    M = stack(h, name, nk, n)
    for k in range(nk):
        for i in range(n):
            M[k, i, i] = 2 + M[k, i, i] if not h.sym else M[k, i, i]
    return M


def inverse(h, nk, n, block):
    g = h.mod('geometry')
    M = domin(h, 'm', nk, n)
    for k in range(nk):
        h.assume(det(M[k].tolist()) != 0)
        if block:
            h.assume(det(M[k, :n // 2, :n // 2].tolist()) != 0)
    keep = M.copy()
    R = (g.inv_3d_blockmatrix if block else g.inv_3d_matrix)(M)
    h.shape(R, (nk, n, n), 'inverse')
    h.eq(M, keep, 'argument untouched')
    for k in range(nk):
        for i in range(n):
            for j in range(n):
                h.eq(sum(M[k, i, l] * R[k, l, j] for l in range(n)), 1 if i == j else 0, 'M R = 1', atol=1e-10)


def large(h, n, block, low=()):
    """large matrices, mostly upper bidiagonal (entries symbolic), with some entries below the diagonal"""
    g = h.mod('geometry')
    M = h.arr([[[h.pos('d%d' % i, smp=(1, 2)) if i == j else
                 h.real('o%d_%d' % (i, j), smp=(-0.4, 0.4)) if j in (i + 1, i + n // 2) or (i, j) in low else 0
                 for j in range(n)] for i in range(n)]])
    if low:
        h.assume(det(M[0].tolist()) != 0)
        if block:
            h.assume(det(M[0, :n // 2, :n // 2].tolist()) != 0)
    R = (g.inv_3d_blockmatrix if block else g.inv_3d_matrix)(M)
    h.shape(R, (1, n, n), 'inverse')
    for i in range(n):
        for j in range(n):
            h.eq(sum(M[0, i, l] * R[0, l, j] for l in range(n)), 1 if i == j else 0, 'M R = 1', atol=1e-10)


def trace_dot(h, nk, n, thin=False):
    g = h.mod('geometry')
    M, B = stack(h, 'm', nk, n), stack(h, 'b', nk, n)
    if thin:
        for k in range(nk):
            for i in range(n):
                for j in range(n):
                    if j not in (i, i + 1) and (i, j) != (n - 1, 1):
                        M[k, i, j] = h.frac(0)
    eye = lambda i, j: 1 if i == j else 0
    for k in range(nk):
        D = [[eye(i, j) - M[k, i, j] for j in range(n)] for i in range(n)]
        h.assume(det(D) != 0)
        h.assume(det([r[:n // 2] for r in D[:n // 2]]) != 0)
    r = g.trace_dot_3d(M, B)
    h.shape(r, (nk,), 'trace')
    for k in range(nk):
        D = [[eye(i, j) - M[k, i, j] for j in range(n)] for i in range(n)]
        d = det(D)
        t = 0
        for i in range(n):
            for j in range(n):
                minor = [row[:i] + row[i + 1:] for a, row in enumerate(D) if a != j]
                t = t + (-1) ** (i + j) * (det(minor) if n > 1 else 1) * B[k, j, i]
        h.eq(r[k] * d, t, 'trace of (1-M)^-1 B', atol=1e-10)


def append(h, nk, n):
    g = h.mod('geometry')
    A = [stack(h, x, nk, n) for x in 'abcd']
    M = g.matrix_append(A)
    h.shape(M, (nk, 2 * n, 2 * n), 'assembled')
    h.eq(M[:, :n, :n], A[0], 'upper left')
    h.eq(M[:, :n, n:], A[1], 'upper right')
    h.eq(M[:, n:, :n], A[2], 'lower left')
    h.eq(M[:, n:, n:], A[3], 'lower right')


def rejects(h):
    g = h.mod('geometry')
    z = lambda *s: h.arr(np.zeros(s, dtype=int))
    bad = Exception
    h.raises(lambda: g.dot_3d_matrices(z(2, 2), z(1, 2, 2)), bad, 'product of 2d arrays')
    h.raises(lambda: g.inv_3d_matrix(z(2, 2)), bad, 'inverse of a 2d array')
    h.raises(lambda: g.inv_3d_blockmatrix(z(2, 2)), ValueError, 'block inverse of a 2d array')
    h.raises(lambda: g.inv_3d_blockmatrix(z(1, 3, 3)), ValueError, 'block inverse of odd size')
    h.raises(lambda: g.inv_3d_blockmatrix(z(1, 2, 4)), ValueError, 'block inverse not square')
    h.raises(lambda: g.sln_det_3d(z(1, 2, 2), z(1, 2, 2), z(1, 2, 2), z(1, 1, 1)), ValueError, 'unequal blocks')
    h.raises(lambda: g.sln_det_blockdiagonal(z(2, 2), z(1, 1)), ValueError, 'unequal diagonal blocks')
    h.raises(lambda: g.matrix_append([z(1, 2, 2)] * 3), bad, 'three blocks')
    h.raises(lambda: g.matrix_append([z(1, 2, 2)] * 3 + [z(1, 1, 1)]), bad, 'unequal blocks to assemble')
    h.raises(lambda: g.balanced_slogdet(z(2, 2)), bad, 'determinant of a 2d array')
    h.raises(lambda: g.balanced_slogdet(z(1, 2, 3)), bad, 'determinant of a non-square array')


def entries(h, n, lo, hi, zero=(), nk=1, name='m', scale=()):
    """nonzero entries of both signs: sign pattern fixed by position, magnitude symbolic; scale: powers of two on
    top of some rows and columns (matrices whose entries differ by many orders of magnitude)"""
    M = h.arr(np.zeros((n, n), dtype=int))
    for i in range(n):
        for j in range(n):
            if (i, j) in zero:
                continue
            v = h.pos('%s%d%d' % (name, i, j), lo=lo, hi=hi)
            v = v * h.frac(2) ** (scale[i] - scale[j]) if scale else v
            M[i, j] = -v if (i * 2 + j) % 3 == 1 else v
    return M


def balancing(h, n, lo, hi, zero=(), conv=0.9, default=False, scale=()):
    b = h.mod('matrix_balancing').balance
    M = entries(h, n, lo, hi, zero, scale=scale)
    keep = M.copy()
    R = b(M) if default else b(M, conv)
    h.shape(R, (n, n), 'balanced')
    cycles(h, R.tolist(), keep.tolist(), 'balance')
    top = max([abs(x) for x in scale] or [0])
    pw = [h.frac(2 ** k) if k >= 0 else h.frac(1, 2 ** -k) for k in range(-12 - 2 * top, 13 + 2 * top)]
    for i in range(n):
        for j in range(n):
            h.true(h.Or(*[R[i, j] == keep[i, j] * p for p in pw]), 'power of two %d%d' % (i, j))


def logdet(h, n, lo, hi, how, zero=(), scale=()):
    """log-determinants with the balancing inside"""
    g = h.mod('geometry')
    D = entries(h, n, lo, hi, zero, scale=scale)           # D = 1 - M
    for i in range(n):
        D[i, i] = abs(D[i, i])
    M = h.arr([[(1 if i == j else 0) - D[i, j] for j in range(n)] for i in range(n)])
    d = det(D.tolist())
    h.assume(d != 0)
    if how == 'stack':
        r = g.balanced_slogdet(h.arr([M, M]))
        h.shape(r, (2,), 'log-determinants')
        h.eq(r[1], r[0], 'same matrix, same value')
        r = r[0]
    elif how == 'blocks':
        k = n // 2
        A = [M[None, :k, :k], M[None, :k, k:], M[None, k:, :k], M[None, k:, k:]]
        r = g.sln_det_3d(*A)
        h.shape(r, (1,), 'log-determinants')
        r = r[0]
    else:
        r = g.sln_det_blockdiagonal(M, M)
        r = np.ravel(r)[0] / 2
    h.eq(h.exp(2 * r), d * d, 'ln |det(1-M)|', atol=1e-12)


OBLIGATIONS = []


def add(name, fn, tier='quick', **kw):
    o = {k: kw.pop(k) for k in ('timeout', 'tol', 'points', 'max_paths') if k in kw}
    OBLIGATIONS.append(Obligation(name, fn, kw, tier=tier, points=o.get('points', 2), tol=o.get('tol', 1e-7),
                                  timeout=o.get('timeout', 300), max_paths=o.get('max_paths', 600),
                                  bounds=', '.join('%s=%s' % x for x in kw.items())))


add('dot-2', dot, nk=2, n=2, p=3, q=2)
add('dot-3', dot, nk=1, n=3, p=3, q=4)
for n in (1, 2, 3):
    add('inv-%d' % n, inverse, nk=2 if n < 3 else 1, n=n, block=False)
add('inv-int', inverse, nk=1, n=2, block=True)
add('binv-2', inverse, nk=2, n=2, block=True)
add('binv-4', inverse, nk=1, n=4, block=True)
add('dot-6', dot, nk=3, n=6, p=5, q=7)
add('dot-12', dot, nk=1, n=12, p=12, q=2)
add('large-6', large, n=6, block=False)
add('large-6-block', large, n=6, block=True, low=((4, 1),))
add('large-8-block', large, n=8, block=True)
add('append-6', append, nk=4, n=6)
add('append-13', append, nk=1, n=13)
add('trace-2', trace_dot, nk=2, n=2)
add('trace-4', trace_dot, nk=1, n=4, thin=True)
add('trace-6', trace_dot, nk=1, n=6, thin=True)
add('append-1', append, nk=2, n=1)
add('append-2', append, nk=3, n=2)
add('rejects', rejects)
add('bal-1', balancing, n=1, lo=0.1, hi=8)
add('bal-2', balancing, n=2, lo=0.25, hi=8)
add('bal-2-default', balancing, n=2, lo=0.25, hi=8, default=True)
add('bal-2-tri', balancing, n=2, lo=0.25, hi=8, zero=((1, 0),))
add('bal-3-sparse', balancing, n=3, lo=0.5, hi=4, zero=((0, 2), (2, 0)))
add('bal-3-ring', balancing, n=3, lo=0.5, hi=3, zero=((0, 2), (1, 0), (2, 1)))
add('bal-3-ring-wide', balancing, 'thorough', n=3, lo=0.25, hi=8, zero=((0, 2), (1, 0), (2, 1)), timeout=3000, max_paths=3000)
add('bal-3-sparse-wide', balancing, 'thorough', n=3, lo=0.25, hi=4, zero=((0, 2), (2, 0)), timeout=3000, max_paths=3000)
add('bal-2-wide', balancing, 'thorough', n=2, lo=0.03, hi=32, max_paths=3000)
add('bal-2-far', balancing, n=2, lo=0.5, hi=2, scale=(14, -10))
add('bal-2-far-down', balancing, n=2, lo=0.5, hi=2, scale=(-16, 12))
add('bal-3-far', balancing, n=3, lo=0.75, hi=1.25, zero=((0, 2), (1, 0), (2, 1)), scale=(12, -4, 2))
add('bal-3-mid', balancing, n=3, lo=0.9, hi=1.1, zero=((0, 2), (2, 0)), scale=(0, 11, -11))
add('bal-3-last', balancing, n=3, lo=0.9, hi=1.1, zero=((0, 1), (1, 0)), scale=(1, -2, 12))
add('bal-3-far-down', balancing, 'thorough', n=3, lo=0.5, hi=2, zero=((0, 1), (1, 2), (2, 0)), scale=(-3, 5, -13), timeout=1500)
add('bal-2-huge', balancing, n=2, lo=0.5, hi=2, scale=(60, -60), timeout=600)
add('det-far', logdet, n=2, lo=0.25, hi=4, how='blocks', scale=(15, -9))
add('det-stack', logdet, n=2, lo=0.25, hi=4, how='stack')
add('det-blocks', logdet, n=2, lo=0.25, hi=4, how='blocks')
add('det-diag', logdet, n=2, lo=0.25, hi=4, how='diag')
add('det-diag-1', logdet, n=1, lo=0.25, hi=4, how='diag')
OUTSIDE = ('balancing: entries between the stated magnitudes and sizes up to 3 (the scaling loop is unrolled); '
           'inverses up to size 4; rounding')
