"""C22: leading-order proximity-force module against the full one."""
from engine.harness import Obligation
from props import C20
from props.C20 import World, POSITIVE


class Both:
    def __init__(self, h, pecs=''):
        self.w = World(h, pecs)
        a, b, m = self.w.mats
        self.P = self.w.P
        self.R = h.mod('raw_PFA').SphereSpherePFA(a, b, m)


def integrands(h, pecs):
    b = Both(h, pecs)
    q, kn, L = h.pos('q', smp=(0.1, 2)), h.pos('kn', smp=(0.1, 2)), h.pos('L', smp=(0.2, 1))
    for n in ('roundTrips', 'pressureRoundTrips'):
        x, y = getattr(b.P, n)(q, kn, L), getattr(b.R, n)(q, kn, L)
        h.true(len(x) == len(y) == 2, n + ' resolved into polarisations')
        for i in (0, 1):
            h.eq(x[i], y[i], '%s %s' % (n, ('TE', 'TM')[i]))


def uses(h, P, tag=''):
    """replace the plane-plane energies by arbitrary functions (they are compared on their own)"""
    if not h.sym:
        return
    from engine.sym import uf

    P.planeplaneFreeEnergy = lambda T, L, n0_shielding=False: (
        uf('e0', L) if not hasattr(T, 'op') and T == 0 else
        uf('ht%d' % bool(n0_shielding), L) if not hasattr(T, 'op') and T == h.inf else
        uf('pp%d' % bool(n0_shielding), T, L))
    P.planeplane_e0 = lambda L, n0_shielding=False: uf('e0', L)
    P.planeplaneFreeEnergyHT = lambda L, n0_shielding=False: uf('ht%d' % bool(n0_shielding), L)


def first(v):
    import numpy as np
    return np.ravel(v)[0] if np.shape(v) else v


def force(h, ext, T, shielded, swap=False):
    b = Both(h)
    uses(h, b.P)
    uses(h, b.R)
    s, x, L = h.pos('s', smp=(0.3, 1)), h.pos('x', smp=(1, 2)), h.pos('L', smp=(0.2, 0.9))
    big = s + x
    if not ext:
        h.given(L < x)
    d = s + big + L if ext else big - s - L
    # both modules keep every Matsubara term that contributes more than e^-40
    t = h.pos('T', smp=(6, 12)) if T is None else T
    if T == 'inf':
        t = h.inf
    r1, r2 = (big, s) if swap else (s, big)
    f = b.P.spheresphereForce(r1, r2, t, d, shielded)
    g = b.R.spheresphereForce(r1, r2, t, L, shielded, ext)
    h.eq(first(f), first(g), 'force', tol=1e-5, atol=1e-13)
    # leading-order energy: half the gap times the force
    e = b.R.spheresphereEnergy(r1, r2, t, L, shielded, ext)
    h.eq(first(e), first(g) * L / 2, 'leading-order energy is L/2 times the force', tol=1e-6, atol=1e-13)
    h.eq(first(b.R.spheresphereForce(r2, r1, t, L, shielded, ext)), first(g), 'order of the spheres', tol=1e-6, atol=1e-13)


def defaults(h):
    """without further arguments: separated spheres, no shielding"""
    b = Both(h)
    uses(h, b.R)
    s, x, L, T = h.pos('s', smp=(0.3, 1)), h.pos('x', smp=(0.3, 1)), h.pos('L', smp=(0.3, 1)), h.pos('T', smp=(20, 30))
    for n in ('spheresphereForce', 'spheresphereEnergy'):
        f = getattr(b.R, n)
        h.eq(f(s, x, T, L), f(s, x, T, L, False, True), n + ' defaults')


def terms(h, n, shielded, zero):
    """get_f_matsubaras: unweighted terms, argument untouched, a leading zero allowed"""
    b = Both(h)
    w = b.w
    L, T = h.pos('L', smp=(0.5, 2)), h.pos('T')
    ks = [h.pos('k%d' % j, smp=(0.2, 2)) for j in range(n)]
    if zero:
        ks[0] = h.frac(0)
    arr = h.arr(ks)
    v, seen = w.asked(lambda: b.R.get_f_matsubaras(T, L, arr, shielded))
    h.shape(v, (n,), 'terms')
    for j in range(n):
        k = ks[j]
        if zero and j == 0:
            small = [x for x in seen if not hasattr(x, 'op') and x <= C20.TINY]
            h.true(len(small) == 1, 'one stand-in for zero')
            k = h.num(repr(float(small[0])))
        o = h.frac(0) if j == 0 and shielded else w.term(w.energy, k, L)
        C20.near(h, v[j], o, 'term %d' % j)
    for j in range(n):
        h.true(arr[j] == ks[j], 'wavenumbers untouched')


OBLIGATIONS = [Obligation('integrands-%s' % (p or 'none'), integrands, {'pecs': p}, points=2, split_log=True)
               for p in ('', 'a', 'b', 'ab')]
for N in (0, 1, 2, 5, 12, 30, 100):
    for what in ('energy', 'pressure'):
        for sh in (False, True):
            OBLIGATIONS.append(Obligation('%s-%d%s' % (what, N, '-shielded' if sh else ''), C20.matsubara,
                                          {'N': N, 'what': what, 'shielded': sh, 'modname': 'raw_PFA', 'cut': 100}, points=1,
                                          tier='quick' if N < 100 or not sh else 'thorough', timeout=400,
                                          bounds='%d positive Matsubara terms' % N, **POSITIVE))
for sh in (False, True):
    t = '-shielded' if sh else ''
    for p in ('', 'ab'):
        OBLIGATIONS.append(Obligation('zero-%s%s' % (p or 'none', t), C20.zero_temperature,
                                      {'pecs': p, 'shielded': sh, 'modname': 'raw_PFA'}, points=1, quad_nodes=2, **POSITIVE))
        OBLIGATIONS.append(Obligation('high-%s%s' % (p or 'none', t), C20.high_temperature,
                                      {'pecs': p, 'shielded': sh, 'modname': 'raw_PFA'}, points=1, quad_nodes=2, **POSITIVE))
    for z in (False, True):
        OBLIGATIONS.append(Obligation('terms%s%s' % ('-zero' if z else '', t), terms, {'n': 3, 'shielded': sh, 'zero': z},
                                      points=1, **POSITIVE))
    for ext in (True, False):
        for T, n in ((None, 'T'), (0, 'T0'), ('inf', 'HT')):
            if T == 0 and sh:
                continue
            for sw in (False, True):
                OBLIGATIONS.append(Obligation('force-%s-%s%s%s' % ('ext' if ext else 'int', n, '-swap' if sw else '', t), force,
                                              {'ext': ext, 'T': T, 'shielded': sh, 'swap': sw}, points=1))
for n, o in enumerate(C20.HISTORIES):
    OBLIGATIONS.append(Obligation('history-%d' % n, C20.history, {'order': o, 'modname': 'raw_PFA', 'cut': 100}, points=1,
                                  bounds='%d questions, two temperatures, two distances' % len(o.split()), **POSITIVE))
OBLIGATIONS.append(Obligation('defaults', defaults, {}, points=1))
ASSUMPTIONS = C20.ASSUMPTIONS
OUTSIDE = ('quadrature error; rounding; the two modules keep different numbers of negligible Matsubara terms '
           '(frequencies below 20/L and 100/L); raw_PFA.planeplaneFreeEnergy at infinite temperature')
