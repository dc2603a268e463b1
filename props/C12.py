"""C12: round-trip blocks at zero frequency."""
import numpy as np

from engine.harness import Obligation
from props.common import Mat, cycles, lorentz, pec, stub_elements


def setup(h, ext, lmax, lss, real=None):
    r1 = h.pos('r1', smp=(0.4, 1.2))
    r2 = h.pos('r2', smp=(0.4, 1.2))
    L = h.pos('L', smp=(2.5, 4))
    if not ext:
        L = h.pos('shift', smp=(0.2, 0.6))
        r2 = h.pos('r2i', smp=(2, 3))
    h.given(L > r1 + r2 if ext else L + r1 < r2)
    if real is None:
        m1, m2, med = (Mat(h, h.pos('n' + x), h.frac(1), name=x) for x in 'abc')
    else:
        mk = lambda x, s: pec(h) if s == 'pec' else lorentz(h, x, s.lower(), s.isupper())[0]
        m1, m2, med = mk('a', real[0]), mk('b', real[1]), mk('c', real[2])
    sc = h.mod('scattering')
    G = h.mod('geometry').SphereSphere(r1, r2, L, m1, m2, med, lmax=lmax, lssmax=lss)
    A = sc.scattering(m1, med).mie_k0(1, lmax, r1)
    B = (sc.scattering(m2, med).mie_k0(1, lss, r2) if ext else sc.scattering(med, m2).mie_internal_k0(1, lss, r2))
    T = lambda m: h.mod('translation').translation(lmax, lss, m, med, L, h.iarr([0]), 1 if ext else 0).trans_ab()
    return G, A, B, T, (r1, r2, L)


def exact(h, A, B, V, pol, m, lmax, lss, geo, ext):
    """limit k->0 (after the similarity (n k)^(l1-l2)) of the polarisation-diagonal block: reflection ~ a (n k r)^(2l+1)
    (exterior, C05) or b (n k r)^-(2l+1) (interior, C06), translation ~ v (n k L)^-(l+l'+1) or (-1)^(l+l') v (n k L)^|l-l'|
    (C10), backwards translation with the sign (-1)^(l+l') (C09)"""
    r1, r2, L = geo
    lo = max(1, m)
    out = []
    for l1 in range(lo, lmax + 1):
        row = []
        for l2 in range(lo, lmax + 1):
            s = 0
            for ls in range(lo, lss + 1):
                a = A[pol, l1 - 1] * B[pol, ls - 1] * h.exp(A[2, l1 - 1] + B[2, ls - 1])
                v = (V[0][l1 - lo, ls - lo] * V[0][l2 - lo, ls - lo]
                     * h.exp(V[1][l1 - lo, ls - lo] + V[1][l2 - lo, ls - lo]))
                if ext:
                    s = s + (-1) ** (l2 + ls) * a * v * r1 ** (2 * l1 + 1) * r2 ** (2 * ls + 1) / L ** (l1 + l2 + 2 * ls + 2)
                elif ls >= max(l1, l2):
                    s = s + (-1) ** (l1 + ls) * a * v * r1 ** (2 * l1 + 1) / r2 ** (2 * ls + 1) * L ** (2 * ls - l1 - l2)
            row.append(s)
        out.append(row)
    return out


def blocks(h, ext, lmax, lss, ms, real=None, three=True):
    if real is None:
        stub_elements(h)
    G, A, B, T, geo = setup(h, ext, lmax, lss, real)
    for m in ms:
        M = G.blockmatrices_k0(m)
        n = lmax - max(1, m) + 1
        V = T(m)
        h.true(len(M) == 2, 'two blocks')
        for pol in (0, 1):
            h.shape(M[pol], (n, n), 'm=%d block %d' % (m, pol))
            cycles(h, M[pol], exact(h, A, B, V, pol, m, lmax, lss, geo, ext), 'm=%d pol %d' % (m, pol), three, atol=1e-30)


def embedded(h, ext, lmax, lss, m):
    """a leading zero wavenumber puts the static blocks first and leaves the others unchanged"""
    stub_elements(h)
    G = setup(h, ext, lmax, lss)[0]
    k = [h.pos('k%d' % i) for i in range(2)]
    E = G.blockmatrices_k0(m)
    F = G.blockmatrices(m, h.arr(k))
    M = G.blockmatrices(m, h.arr([0] + k))
    C = G.blockmatrices_channels(m, h.arr([0] + k))
    for b in range(4):
        h.eq(M[b][1:], F[b], 'finite part %d' % b)
    h.eq(M[0][0], E[0], 'static TE')
    h.eq(M[3][0], E[1], 'static TM')
    for b in (1, 2):
        h.eq(M[b][0], 0 * E[0], 'no static mixing')
    h.eq(C[0] + C[1], M[0], 'channels TE')
    h.eq(C[2] + C[3], M[3], 'channels TM')


def near(h, a, b):
    return a == b if h.sym else abs(a - b) <= 1e-9 * (abs(a) + abs(b)) + 1e-290


def plain_balance(h):
    if h.sym:
        h.mod('matrix_balancing').balance = lambda M, conv=0.9: M.copy()


def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    return sum((-1) ** j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(n))


def lndet1m(h, M, i=None):
    """ln |det(1-M)| for a nested list / array"""
    n = len(M)
    return h.log(h.abs(det([[(1 if a == b else 0) - M[a][b] for b in range(n)] for a in range(n)])))


def msum(h, ext, lmax, real=False):
    """weights and early stop of the static sum, for arbitrary blocks"""
    plain_balance(h)
    stub_elements(h)
    G = setup(h, ext, lmax, lmax)[0]
    prec = h.pos('prec', hi=1, smp=(0.001, 0.5))
    G.precision = prec
    blk = {}
    for m in range(lmax + 1):
        n = lmax - max(1, m) + 1
        if h.sym or not real:
            v = lambda p, i: h.pos('b%d%d%d' % (m, p, i))
            # det(1-M) > 0, as for every passive pair of bodies
            blk[m] = [h.arr([[1 - v(p, 0)]]) if n == 1 else h.arr([[1 - v(p, 0), v(p, 1)], [-v(p, 2), 1 - v(p, 3)]])
                      for p in (0, 1)]
    if h.sym or not real:
        G.blockmatrices_k0 = lambda m: [b.copy() for b in blk[m]]
    S, steps = 0, []
    for m in range(lmax + 1):
        A, B = G.blockmatrices_k0(m)
        t = lndet1m(h, A.tolist()) + lndet1m(h, B.tolist())
        h.eq(np.ravel(G.single_m_k0(m))[0], t, 'single m=%d' % m, atol=1e-14)
        old, S = S, S + (1 if m == 0 else 2) * t
        steps.append((old, S))
    r = np.ravel(G.mSumme_k0())
    h.shape(r, (1,), 'one number')
    ok = [near(h, r[0], S)]
    for old, new in steps[1:-1]:
        if h.sym:
            c = h.Or(abs(abs(old / new) - 1) < prec / 10, abs(abs(new / old) - 1) < prec / 10)
        else:
            c = abs(new - old) <= prec / 9 * max(abs(new), abs(old))
        ok.append(h.And(near(h, r[0], new), c))
    h.true(h.Or(*ok), 'full sum or safe early stop')


OBLIGATIONS = []


def add(name, fn, tier='quick', **kw):
    o = {k: kw.pop(k) for k in ('timeout', 'tol', 'points', 'max_paths') if k in kw}
    OBLIGATIONS.append(Obligation(name, fn, kw, tier=tier, points=o.get('points', 1), tol=o.get('tol', 1e-7),
                                  timeout=o.get('timeout', 300), max_paths=o.get('max_paths', 400),
                                  bounds=', '.join('%s=%s' % x for x in kw.items())))


for e in (1, 0):
    t = 'ext' if e else 'int'
    add('stub-%s-1-2' % t, blocks, ext=e, lmax=1, lss=2, ms=(0, 1))
    add('stub-%s-2-2' % t, blocks, ext=e, lmax=2, lss=2, ms=(2, 0))
    add('stub-%s-2-3' % t, blocks, ext=e, lmax=2, lss=3, ms=(1, 2))
    add('stub-%s-3-2' % t, blocks, ext=e, lmax=3, lss=2, ms=(1,))
    add('stub-%s-3-3' % t, blocks, ext=e, lmax=3, lss=3, ms=(3, 0))
    add('stub-%s-6-6' % t, blocks, ext=e, lmax=6, lss=6, ms=(5, 6))
    add('stub-%s-11-10' % t, blocks, ext=e, lmax=11, lss=10, ms=(10,))
    add('stub-%s-20-21' % t, blocks, ext=e, lmax=20, lss=21, ms=(20,))
    add('stub-%s-1-12' % t, blocks, ext=e, lmax=1, lss=12, ms=(1, 0))
    add('stub-%s-2-18' % t, blocks, ext=e, lmax=2, lss=18, ms=(2,))
    add('stub-%s-7-2' % t, blocks, ext=e, lmax=7, lss=2, ms=(2,))
    add('stub-%s-4-4' % t, blocks, 'thorough', ext=e, lmax=4, lss=4, ms=(1,), timeout=1000)
    add('stub-%s-5-6' % t, blocks, 'thorough', ext=e, lmax=5, lss=6, ms=(2,), timeout=1000)
    for i, spec in enumerate((('pec', 'pec', 'd'), ('d', 'p', 'D'), ('c', 'dc', 'd'), ('p', 'pec', 'd'), ('DP', 'd', 'd'), ('DC', 'P', 'D'))):
        add('real-%s-%s' % (t, '-'.join(spec)), blocks, ext=e, lmax=2 if i == 0 or not e else 1, lss=2, ms=(1, 0), real=spec)
    add('embedded-%s' % t, embedded, ext=e, lmax=2, lss=2, m=1)
    add('embedded-%s-m2' % t, embedded, ext=e, lmax=2, lss=2, m=2)
    add('msum-%s-1' % t, msum, ext=e, lmax=1)
    add('msum-%s-2' % t, msum, ext=e, lmax=2)
    add('msum-%s-real' % t, msum, ext=e, lmax=2, real=True)
OUTSIDE = 'orders above the bounds; layered bodies (not available at zero frequency); rounding'
