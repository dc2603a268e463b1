"""C28: exchange of the bodies and change of the unit of length."""
import numpy as np

from engine.harness import Obligation
from props.C12 import plain_balance
from props.C24 import config, prec
from props.common import Mat, abstract_bessel, pec, stub_elements


def media(h, kinds):
    out = []
    for x, s in zip('abc', kinds):
        if s == 'pec':
            out.append(pec(h))
        else:
            n = h.pos('n' + x, smp=(0.7, 2.0))
            z = h.pos('z' + x, smp=(0.7, 1.6)) if s == 'm' else h.frac(1)
            out.append(Mat(h, n / z, n * z, name=x))
    return out


def radii(h, ext, s=1):
    r1, r2 = h.pos('r1', smp=(0.4, 1.2)), h.pos('r2', smp=(0.4, 1.2))
    L = h.pos('L', smp=(2.5, 4))
    if not ext:
        L = h.pos('shift', smp=(0.2, 0.6))
        r2 = h.pos('r2i', smp=(2, 3))
    h.given(L > r1 + r2 if ext else L + r1 < r2)
    return r1, r2, L


def block(M, j=None):
    """the four blocks as one matrix (nested list)"""
    if j is not None:
        M = [b[j] for b in M]
    n = len(M[0])
    return [[M[0][a][b] for b in range(n)] + [M[1][a][b] for b in range(n)] for a in range(n)] + \
           [[M[2][a][b] for b in range(n)] + [M[3][a][b] for b in range(n)] for a in range(n)]


def mul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B))] for i in range(len(A))]


def trace(A):
    return sum(A[i][i] for i in range(len(A)))


def same_spectrum(h, A, B, powers, tag, atol=0.0):
    P, Q = A, B
    for n in range(1, powers + 1):
        if n > 1:
            P, Q = mul(P, A), mul(Q, B)
        h.eq(trace(P), trace(Q), '%s: trace of power %d' % (tag, n), atol=atol)


def exchange(h, N, m, powers, kinds=None, nk=1):
    """finite frequency; Mie tables abstract (kinds=None) or computed by the code"""
    abstract_bessel(h)
    if kinds is None:
        stub_elements(h, trans=False)
    a, b, c = media(h, kinds or 'mmm')
    r1, r2, L = radii(h, True)
    ks = h.arr([h.pos('k%d' % j, smp=(0.3, 1.5)) for j in range(nk)])
    S = h.mod('geometry').SphereSphere
    G1, G2 = S(r1, r2, L, a, b, c, lmax=N, lssmax=N), S(r2, r1, L, b, a, c, lmax=N, lssmax=N)
    M1, M2 = G1.blockmatrices(m, ks), G2.blockmatrices(m, ks)
    for j in range(nk):
        same_spectrum(h, block(M1, j), block(M2, j), powers, 'm=%d' % m, atol=1e-30)


def exchange_k0(h, N, m, powers, kinds=None):
    if kinds is None:
        stub_elements(h, trans=False)
    a, b, c = media(h, kinds or 'mmm')
    r1, r2, L = radii(h, True)
    S = h.mod('geometry').SphereSphere
    G1, G2 = S(r1, r2, L, a, b, c, lmax=N, lssmax=N), S(r2, r1, L, b, a, c, lmax=N, lssmax=N)
    M1, M2 = G1.blockmatrices_k0(m), G2.blockmatrices_k0(m)
    for pol in (0, 1):
        same_spectrum(h, M1[pol].tolist(), M2[pol].tolist(), powers, 'm=%d pol %d' % (m, pol), atol=1e-30)


def exchange_channels(h, N, m):
    """exchange of each pair of polarisations on its own"""
    abstract_bessel(h)
    stub_elements(h, trans=False)
    a, b, c = media(h, 'mmm')
    r1, r2, L = radii(h, True)
    ks = h.arr([h.pos('k0', smp=(0.3, 1.5))])
    S = h.mod('geometry').SphereSphere
    G1, G2 = S(r1, r2, L, a, b, c, lmax=N, lssmax=N), S(r2, r1, L, b, a, c, lmax=N, lssmax=N)
    M1, M2 = G1.blockmatrices_channels(m, ks), G2.blockmatrices_channels(m, ks)
    tr = lambda M: trace(M[0].tolist())
    # M = [EE via TE, EE via TM, MM via TE, MM via TM, ...]
    h.eq(tr(M1[0]), tr(M2[0]), 'TE on both bodies', atol=1e-30)
    h.eq(tr(M1[3]), tr(M2[3]), 'TM on both bodies', atol=1e-30)
    h.eq(tr(M1[1]), tr(M2[2]), 'TE on one, TM on the other', atol=1e-30)
    h.eq(tr(M1[2]), tr(M2[1]), 'TM on one, TE on the other', atol=1e-30)


def scale(h, N, lss, m, ext, kinds):
    """the same bodies measured in another unit"""
    abstract_bessel(h)
    a, b, c = media(h, kinds)
    r1, r2, L = radii(h, ext)
    s = h.pos('s', smp=(0.3, 3))
    k = h.pos('k', smp=(0.3, 1.5))
    S = h.mod('geometry').SphereSphere
    G1 = S(r1, r2, L, a, b, c, lmax=N, lssmax=lss)
    G2 = S(s * r1, s * r2, s * L, a, b, c, lmax=N, lssmax=lss)
    M1, M2 = G1.blockmatrices(m, h.arr([k])), G2.blockmatrices(m, h.arr([k / s]))
    for i, t in enumerate(('EE', 'EM', 'ME', 'MM')):
        h.eq(M2[i], M1[i], 'm=%d block %s' % (m, t), atol=1e-30)


def scale_k0(h, N, lss, m, ext, kinds):
    a, b, c = media(h, kinds)
    r1, r2, L = radii(h, ext)
    s = h.pos('s', smp=(0.3, 3))
    S = h.mod('geometry').SphereSphere
    G1 = S(r1, r2, L, a, b, c, lmax=N, lssmax=lss)
    G2 = S(s * r1, s * r2, s * L, a, b, c, lmax=N, lssmax=lss)
    M1, M2 = G1.blockmatrices_k0(m), G2.blockmatrices_k0(m)
    for i, t in enumerate(('TE', 'TM')):
        h.eq(M2[i], M1[i], 'm=%d block %s' % (m, t), atol=1e-30)


def lmax(h, ext, far=False):
    gm = h.mod('geometry')
    r1, r2, L, g = config(h, ext, far=far)
    h.given(g >= 30 * r1 if far else g < 30 * r1)
    s = h.pos('f', smp=(0.3, 3))
    p = prec(h)
    off = h.integer('off', 0, 5)
    h.eq(gm.get_lmax(s * r1, s * r2, s * L, p, off), gm.get_lmax(r1, r2, L, p, off), 'truncation')


def energy(h, N, kinds, what):
    """the sum over m of the logarithms"""
    plain_balance(h)
    abstract_bessel(h)
    if kinds is None:
        stub_elements(h, trans=False)
    a, b, c = media(h, kinds or 'mmm')
    r1, r2, L = radii(h, True)
    k = h.pos('k', smp=(0.3, 1.5))
    S = h.mod('geometry').SphereSphere
    G1 = S(r1, r2, L, a, b, c, lmax=N, lssmax=N, precision=1e-12)
    if what == 'exchange':
        G2, k2 = S(r2, r1, L, b, a, c, lmax=N, lssmax=N, precision=1e-12), k
    else:
        s = h.pos('s', smp=(0.3, 3))
        G2, k2 = S(s * r1, s * r2, s * L, a, b, c, lmax=N, lssmax=N, precision=1e-12), k / s
    h.eq(G2.mSum_oneRoundtrip(h.arr([k2])), G1.mSum_oneRoundtrip(h.arr([k])), 'single round trip', atol=1e-30)


OBLIGATIONS = []


def add(name, fn, tier='quick', **kw):
    o = {x: kw.pop(x) for x in list(kw) if x in ('timeout', 'query_ms', 'max_paths', 'tol', 'points')}
    OBLIGATIONS.append(Obligation(name, fn, kw, tier=tier, **o))


for m in (0, 1):
    add('exchange_1_m%d' % m, exchange, N=1, m=m, powers=2)
for m in (0, 1, 2):
    add('exchange_2_m%d' % m, exchange, N=2, m=m, powers=2 if m < 2 else 3)
    add('exchange_k0_2_m%d' % m, exchange_k0, N=2, m=m, powers=3)
    add('channels_2_m%d' % m, exchange_channels, N=2, m=m)
for m in (0, 1, 2, 3):
    add('exchange_3_m%d' % m, exchange, N=3, m=m, powers=1)
    add('exchange_k0_3_m%d' % m, exchange_k0, N=3, m=m, powers=2)
add('exchange_nk2', exchange, N=1, m=1, powers=2, nk=2)
for kinds in (('m', 'm', 'm'), ('pec', 'm', 'm'), ('m', 'pec', 'm')):
    add('exchange_real_%s' % '_'.join(kinds), exchange, N=1, m=1, powers=1, kinds=kinds)
    for m in (0, 1):
        add('exchange_k0_real_%s_m%d' % ('_'.join(kinds), m), exchange_k0, N=2, m=m, powers=2, kinds=kinds)
for ext in (1, 0):
    e = 'ext' if ext else 'int'
    for kinds in (('m', 'm', 'm'), ('pec', 'm', 'm'), ('m', 'pec', 'm'), ('pec', 'pec', 'm')):
        t = '%s_%s' % (e, '_'.join(kinds))
        for m in (0, 1, 2):
            small = m == 1 and kinds[1] == 'm'
            add('scale_%s_m%d' % (t, m), scale, N=1 if small else 2, lss=2 if small or not ext else 3, m=m, ext=ext,
                kinds=kinds)
            if small:
                add('scale_%s_m%d_2' % (t, m), scale, tier='thorough', N=2, lss=2, m=m, ext=ext, kinds=kinds, timeout=800)
        for m in (0, 1):
            add('scale_k0_%s_m%d' % (t, m), scale_k0, N=2, lss=3, m=m, ext=ext, kinds=kinds)
    add('lmax_' + e, lmax, ext=ext)
    if ext:
        add('lmax_far', lmax, ext=ext, far=True)
for kinds, t in ((None, 'any'),):
    add('energy_exchange_%s' % t, energy, N=2, kinds=kinds, what='exchange')
for kinds in (('m', 'm', 'm'), ('pec', 'pec', 'm')):
    add('energy_scale_%s' % '_'.join(kinds), energy, N=2 if kinds[0] == 'pec' else 1, kinds=kinds, what='scale')
for m in (0, 1):
    add('exchange_2c_m%d' % m, exchange, tier='thorough', N=2, m=m, powers=3, timeout=800)
    add('exchange_4_m%d' % m, exchange, tier='thorough', N=4, m=m, powers=1, timeout=800)
    add('scale_3_m%d' % m, scale, tier='thorough', N=3, lss=3, m=m, ext=1, kinds=('m', 'm', 'm'), timeout=800)
OUTSIDE = ('truncation orders above 4, different truncation on the two sides, higher powers of the round trip than stated, '
           'dispersive materials in the scaling part, floating-point rounding')
HOW = """Two geometry objects are built from the same symbolic bodies, once exchanged and once measured in another unit of length
(symbolic factor), and their round-trip blocks are computed by the real code with symbolic radii, distance,
wavenumber, permittivities and permeabilities (Bessel functions are arbitrary positive functions of their argument,
equal for equal arguments).  For the exchange, traces of powers of the whole round-trip matrix agree (the Mie tables
are arbitrary real numbers there, since their correctness is C03-C06); for the scaling, every block agrees."""
