"""C11: round-trip block matrices at finite frequency."""
import numpy as np

from engine.harness import Obligation
from props.common import Mat, abstract_bessel, cycles, stub_elements


def world(h, ext, lmax, lss, nk, kind='plain', layer=False):
    """a geometry object and the tables it has to be built from"""
    names = iter('abcdefgh')

    def mt(mu=True):
        x = next(names)
        n, z = h.pos('n' + x, smp=(0.7, 2.0)), h.pos('z' + x, smp=(0.7, 1.6)) if mu else h.frac(1)
        return Mat(h, n / z, n * z, name=x)
    r1 = h.pos('r1', smp=(0.4, 1.2))
    r2 = h.pos('r2', smp=(0.4, 1.2))
    L = h.pos('L', smp=(2.5, 4))
    if not ext:
        L = h.pos('shift', smp=(0.2, 0.6))
        r2 = h.pos('r2i', smp=(2, 3))
    h.given(L > r1 + r2 if ext else L + r1 < r2)
    med = mt(False)
    m1, m2 = mt(), mt()
    ks = h.arr([h.pos('k%d' % j, smp=(0.3, 1.5)) for j in range(nk)])
    sc = h.mod('scattering')
    stc = h.mod('stratified_sphere_scattering').StratifiedMieScattering
    g = h.mod('geometry')
    if kind == 'plain':
        G = g.SphereSphere(r1, r2, L, m1, m2, med, lmax=lmax, lssmax=lss)
        A = sc.scattering(m1, med).mie(ks, 1, lmax, r1)
        B = (sc.scattering(m2, med).mie(ks, 1, lss, r2) if ext
             else sc.scattering(med, m2).mie_internal(ks, 1, lss, r2))
    elif kind == 'strat':
        c1, c2 = mt(), mt()
        q1, q2 = r1 * h.frac(1, 2), r2 * h.frac(2, 3)
        l1, l2, s1, s2 = [c1, m1, med], [c2, m2, med], [q1, r1], [q2, r2]
        G = g.SphereSphere(s1, s2, L, l1, l2, med, lmax=lmax, lssmax=lss)
        A = stc([c1, m1, med], [q1, r1]).mie_stratified(ks, 1, lmax)
        B = stc([c2, m2, med], [q2, r2]).mie_stratified(ks, 1, lss)
    else:
        c1, c2 = mt(), mt()
        q1, q2 = r1 * h.frac(1, 2), r2 * h.frac(2, 3)
        G = g.CoatedSphereSphere(q1, r1, c1, m1, q2, r2, c2, m2, L, med, lmax, lss)
        A = sc.coated_miescattering(c1, m1, med).mie_coated(ks, 1, lmax, q1, r1)
        B = sc.coated_miescattering(c2, m2, med).mie_coated(ks, 1, lss, q2, r2)
    T = lambda m: h.mod('translation').translation(lmax, lss, m, med, L, ks, 1 if ext else 0).trans_ab()
    return G, A, B, T, ks


def exact(h, A, B, V, j, m, lmax, lss):
    """the four blocks, unscaled: rows l1, columns l2; keys (polarisation out, polarisation in)"""
    lo = max(1, m)
    ra, rb = range(lo, lmax + 1), range(lo, lss + 1)
    M = {}
    for P in (0, 1):
        for Q in (0, 1):
            M[P, Q] = []
            for l1 in ra:
                row = []
                for l2 in ra:
                    s = 0
                    for ls in rb:
                        i1, i2, q = l1 - lo, l2 - lo, ls - lo
                        for R in (0, 1):           # polarisation between the bodies
                            va = V[0 if P == R else 2][j, i1, q]
                            vb = V[1 if R == Q else 3][j, i2, q]
                            sc = h.exp(A[2, j, l1 - 1] + B[2, j, ls - 1] + V[4][j, i1, q] + V[4][j, i2, q])
                            s = s + A[P, j, l1 - 1] * va * B[R, j, ls - 1] * vb * sc
                    row.append(s)
                M[P, Q].append(row)
    return M


def big(M, j=None):
    """2n x 2n nested list from blocks [EE, EM, ME, MM] (arrays with leading k axis) or dict"""
    if isinstance(M, dict):
        b = [[M[0, 0], M[0, 1]], [M[1, 0], M[1, 1]]]
    else:
        b = [[M[0][j], M[1][j]], [M[2][j], M[3][j]]]
    n = len(b[0][0])
    return [[b[i // n][k // n][i % n][k % n] for k in range(2 * n)] for i in range(2 * n)]


def blocks(h, ext, lmax, lss, m, nk=1, kind='plain', stub=True, three=True):
    (stub_elements if stub else abstract_bessel)(h)
    G, A, B, T, ks = world(h, ext, lmax, lss, nk, kind)
    V = T(m)
    M = G.blockmatrices(m, ks)
    n = lmax - max(1, m) + 1
    h.true(len(M) == 4, 'four blocks')
    for i in range(4):
        h.shape(M[i], (nk, n, n), 'block %d' % i)
    for j in range(nk):
        if n == 1:          # nothing to rescale
            E = exact(h, A, B, V, j, m, lmax, lss)
            for b, key in enumerate(((0, 0), (0, 1), (1, 0), (1, 1))):
                h.eq(M[b][j, 0, 0], E[key][0][0], 'k%d block %d' % (j, b), atol=1e-300)
            continue
        cycles(h, big(M, j), big(exact(h, A, B, V, j, m, lmax, lss)), 'k%d' % j, three)


def channels(h, ext, lmax, lss, m, nk=1):
    stub_elements(h)
    G, A, B, T, ks = world(h, ext, lmax, lss, nk)
    M = G.blockmatrices(m, ks)
    C = G.blockmatrices_channels(m, ks)
    n = lmax - max(1, m) + 1
    for i in range(8):
        h.shape(C[i], (nk, n, n), 'channel %d' % i)
    for b, (p, q) in enumerate(((0, 1), (4, 5), (6, 7), (2, 3))):
        h.eq(C[p] + C[q], M[b], 'channels of block %d' % b)
    V = T(m)
    lo = max(1, m)
    # each channel is one polarisation between the bodies
    for j in range(nk):
        for ch, P, Q, R in ((0, 0, 0, 0), (1, 0, 0, 1), (2, 1, 1, 0), (3, 1, 1, 1)):
            for a in range(n):
                s = 0
                for q in range(lss - lo + 1):
                    sc = h.exp(A[2, j, a + lo - 1] + B[2, j, q + lo - 1] + 2 * V[4][j, a, q])
                    s = s + (A[P, j, a + lo - 1] * V[0 if P == R else 2][j, a, q] * B[R, j, q + lo - 1]
                             * V[1 if R == Q else 3][j, a, q] * sc)
                h.eq(C[ch][j, a, a], s, 'channel %d l%d k%d' % (ch, a + lo, j), atol=1e-300)


def debug(h, ext, lmax, lss, m, positive=False):
    """debugging variant: polarisation-diagonal blocks, each up to its own diagonal similarity"""
    stub_elements(h, positive)
    G, A, B, T, ks = world(h, ext, lmax, lss, 1)
    D = G.blockmatrices_debug(m, ks)
    E = exact(h, A, B, T(m), 0, m, lmax, lss)
    n = lmax - max(1, m) + 1
    for b, key in ((0, (0, 0)), (3, (1, 1))):
        h.shape(D[b], (1, n, n), 'block %d' % b)
        cycles(h, D[b][0], E[key], 'debug %d' % b)


def with_static(h, ext, lmax, lss, m, nk=1, deb=False):
    """a leading zero wavenumber: channel-resolved and debugging variants agree with the blocks there too"""
    from props import C12
    stub_elements(h, deb)
    G = C12.setup(h, ext, lmax, lss)[0]
    ks = h.arr([0] + [h.pos('k%d' % i) for i in range(nk)])
    M, C = G.blockmatrices(m, ks), G.blockmatrices_channels(m, ks)
    n = lmax - max(1, m) + 1
    for i in range(8):
        h.shape(C[i], (nk + 1, n, n), 'channel %d' % i)
    for b, (p, q) in enumerate(((0, 1), (4, 5), (6, 7), (2, 3))):
        h.eq(C[p] + C[q], M[b], 'channels of block %d' % b)
    for b in (1, 2):
        h.eq(M[b][0], 0 * M[b][0], 'no static mixing %d' % b)
    if not deb:
        return
    D = G.blockmatrices_debug(m, ks)
    for b in (0, 3):
        h.shape(D[b], (nk + 1, n, n), 'debug block %d' % b)
        cycles(h, D[b][0], M[b][0], 'debug static %d' % b)


def spectator(h, ext, lmax, lss, m):
    """a slice does not depend on the other wavenumbers"""
    stub_elements(h)
    G, A, B, T, ks = world(h, ext, lmax, lss, 2)
    M = G.blockmatrices(m, ks)
    for j in (0, 1):
        G2, _, _, _, _ = world(h, ext, lmax, lss, 2)
        S = G2.blockmatrices(m, ks[j:j + 1])
        for b in range(4):
            h.eq(M[b][j], S[b][0], 'slice %d block %d' % (j, b))


def scaling(h, n, lss, nk=1):
    """single_k_scale / dynamic_scaling: adds f(l1)-f(l2) to the logarithms"""
    g = h.mod('geometry')
    M = h.arr([[[[h.real('m%d%d%d%d' % (j, a, b, c), smp=(-3, 3)) for c in range(lss)] for b in range(n)]
                for a in range(n)] for j in range(nk)])
    D = g.dynamic_scaling(M)
    h.shape(D, (nk, n, n, lss), 'scaled')
    for j in range(nk):
        for c in range(lss):
            for a in range(n):
                h.eq(D[j, a, a, c], h.exp(M[j, a, a, c]), 'diagonal %d' % a)
                for b in range(n):
                    h.eq(D[j, a, b, c] * D[j, b, a, c], h.exp(M[j, a, b, c] + M[j, b, a, c]), 'pair %d%d' % (a, b))
                    h.eq(D[j, a, b, c] * h.exp(M[j, a, b, 0]), D[j, a, b, 0] * h.exp(M[j, a, b, c]), 'same factor')
                    for d in range(n):
                        if len({a, b, d}) == 3 and a < b and a < d:
                            h.eq(D[j, a, b, c] * D[j, b, d, c] * D[j, d, a, c],
                                 h.exp(M[j, a, b, c] + M[j, b, d, c] + M[j, d, a, c]), 'triple %d%d%d' % (a, b, d))


OBLIGATIONS = []


def add(name, fn, tier='quick', **kw):
    o = {k: kw.pop(k) for k in ('timeout', 'tol', 'points', 'max_paths') if k in kw}
    OBLIGATIONS.append(Obligation(name, fn, kw, tier=tier, points=o.get('points', 1), tol=o.get('tol', 1e-7),
                                  timeout=o.get('timeout', 300), max_paths=o.get('max_paths', 400),
                                  bounds=', '.join('%s=%s' % x for x in kw.items())))


for e in (1, 0):
    t = 'ext' if e else 'int'
    add('real-%s-1-2-m0' % t, blocks, ext=e, lmax=1, lss=2, m=0, stub=False)
    add('real-%s-1-2-m1' % t, blocks, ext=e, lmax=1, lss=2, m=1, stub=False)
    add('real-%s-2-2-m2' % t, blocks, ext=e, lmax=2, lss=2, m=2, stub=False)
    add('stub-%s-2-2-m0' % t, blocks, ext=e, lmax=2, lss=2, m=0)
    add('stub-%s-2-2-m1' % t, blocks, ext=e, lmax=2, lss=2, m=1)
    add('stub-%s-2-3-m1' % t, blocks, ext=e, lmax=2, lss=3, m=1, three=False)
    add('stub-%s-3-4-m2' % t, blocks, ext=e, lmax=3, lss=4, m=2, three=False)
    add('stub-%s-3-4-m3' % t, blocks, ext=e, lmax=3, lss=4, m=3, nk=2, three=False)
    add('stub-%s-1-1-m1-k2' % t, blocks, ext=e, lmax=1, lss=1, m=1, nk=2)
    add('channels-%s-m0' % t, channels, ext=e, lmax=2, lss=2, m=0)
    add('channels-%s-m1' % t, channels, ext=e, lmax=2, lss=2, m=1)
    add('static-%s-m0' % t, with_static, ext=e, lmax=2, lss=2, m=0)
    add('static-%s-m1' % t, with_static, ext=e, lmax=2, lss=2, m=1)
    add('static-%s-m2' % t, with_static, ext=e, lmax=2, lss=2, m=2, deb=True)
    add('spectator-%s' % t, spectator, ext=e, lmax=2, lss=2, m=1)
    add('debug-%s' % t, debug, ext=e, lmax=2, lss=2, m=2)
    add('debug2-%s' % t, debug, ext=e, lmax=2, lss=1, m=1, positive=True)
    add('stub-%s-3-3-m0' % t, blocks, ext=e, lmax=3, lss=3, m=0)
    add('stub-%s-3-3-m1' % t, blocks, ext=e, lmax=3, lss=3, m=1, three=False)
    add('stub-%s-3-3-m2-k3' % t, blocks, ext=e, lmax=3, lss=3, m=2, nk=3, three=False)
    add('stub-%s-6-6-m5' % t, blocks, ext=e, lmax=6, lss=6, m=5, three=False)
    add('stub-%s-10-11-m10' % t, blocks, ext=e, lmax=10, lss=11, m=10, nk=2, three=False)
    add('stub-%s-21-20-m20' % t, blocks, ext=e, lmax=21, lss=20, m=20, three=False)
    add('stub-%s-1-9-m1' % t, blocks, ext=e, lmax=1, lss=9, m=1, three=False)
    add('stub-%s-1-18-m1' % t, blocks, ext=e, lmax=1, lss=18, m=1, three=False)
    add('stub-%s-2-12-m2' % t, blocks, ext=e, lmax=2, lss=12, m=2, three=False)
    add('stub-%s-5-2-m2' % t, blocks, ext=e, lmax=5, lss=2, m=2, three=False)
    add('stub-%s-4-5-m1' % t, blocks, 'thorough', ext=e, lmax=4, lss=5, m=1, timeout=1500)
    add('stub-%s-5-5-m2' % t, blocks, 'thorough', ext=e, lmax=5, lss=5, m=2, timeout=1500)
for kind in ('strat', 'coat'):
    add(kind + '-m0', blocks, ext=1, lmax=1, lss=2, m=0, kind=kind)
    add(kind + '-m1', blocks, ext=1, lmax=2, lss=2, m=1, kind=kind)
    add(kind + '-m2', blocks, ext=1, lmax=3, lss=2, m=2, kind=kind)
add('scaling-1', scaling, n=1, lss=2)
add('scaling-2', scaling, n=2, lss=2, nk=2)
add('scaling-3', scaling, n=3, lss=2)
add('scaling-5', scaling, n=5, lss=1)
add('scaling-9', scaling, n=9, lss=1)
OUTSIDE = 'orders above the bounds; force flag; interior geometry with layered outer body; rounding'
