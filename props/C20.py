"""C20: Lifshitz formula for two plates."""
import numpy as np

from engine.harness import Obligation
from props.common import FMat, pec

TINY = 1e-8


class World:
    """two plates and a medium with arbitrary (positive) dispersive response, remembering the
    wavenumbers at which the medium is asked"""

    def __init__(self, h, pecs='', same=False, modname='PFA', exchange=False):
        self.h = h
        self.seen = []
        self.sc = h.mod('scattering')
        if h.sym:
            self.abstract_fresnel()
        self.mats = [self.mat('a') if 'a' not in pecs else pec(h), self.mat('b') if 'b' not in pecs else pec(h),
                     self.mat('m', True)]
        a, b, m = self.mats
        self.P = h.mod(modname).SphereSpherePFA(*((b, a, m) if exchange else (a, b, m)))

    def mat(self, name, record=False):
        h = self.h

        def val(kind, par):
            def f(k):
                if record and kind == 'e':
                    self.note(k)
                if h.sym:
                    from engine.sym import uf
                    return uf('+%s%s' % (kind, name), k)
                return 1 + par / (1 + k * k)
            return f
        from engine.harness import hashed
        return FMat(h, val('e', hashed('e' + name, 0.5, 8)), val('m', hashed('m' + name, 0.1, 1)))

    def abstract_fresnel(self):
        """Fresnel coefficients (decided by C19) become arbitrary numbers between -1 and 1, one per
        interface, parallel wavenumber and frequency"""
        h, me = self.h, self
        from engine.sym import uf
        names = lambda s: '-'.join('abm'[[x is m for m in me.mats].index(True)] for x in (s.mat1, s.mat2))

        def fresnel(s, kperp, kn):
            if np.shape(kn) != ():
                vs = [fresnel(s, kperp, x) for x in np.ravel(kn)]
                return tuple(h.arr([v[i] for v in vs]).reshape(np.shape(kn)) for i in (0, 1))
            out = []
            for pol in ('te', 'tm'):
                n = names(s)
                flip = n[0] == 'm'
                r = uf('r%s_%s' % (pol, n[::-1] if flip else n), kperp, kn)
                h.given(r > -1)
                h.given(r < 1)
                out.append(-r if flip else r)
            return tuple(out)
        self.sc.scattering.fresnel = fresnel

    def note(self, k):
        if hasattr(k, 'args') and k.op == 'c':
            k = k.args[0]
        for x in self.seen:
            if x is k or (not hasattr(k, 'op') and not hasattr(x, 'op') and x == k):
                return
        self.seen.append(k)

    def amplitudes(self, q, kn, L):
        """(r1 r2 exp(-2 kappa L)) for both polarisations and kappa"""
        h = self.h
        a, b, m = self.mats
        r1, r2 = self.sc.scattering(a, m).fresnel(q, kn), self.sc.scattering(b, m).fresnel(q, kn)
        kap = h.sqrt(q * q + m.e(kn) * m.m(kn) * kn * kn)
        E = h.exp(-2 * kap * L)
        return r1[0] * r2[0] * E, r1[1] * r2[1] * E, kap

    def energy(self, q, kn, L):
        te, tm, kap = self.amplitudes(q, kn, L)
        return self.h.log(1 - te) + self.h.log(1 - tm)

    def pressure(self, q, kn, L):
        te, tm, kap = self.amplitudes(q, kn, L)
        return -2 * kap * te / (1 - te) - 2 * kap * tm / (1 - tm)

    def term(self, f, kn, L, pol=None):
        h = self.h
        return h.quad(lambda q: q / (2 * h.pi) * f(q, kn, L), 0, h.inf)

    def asked(self, f):
        """wavenumbers the code looked at while f ran"""
        self.seen = []
        v = f()
        s, self.seen = self.seen, []
        return v, s


def integrands(h, pecs, array=False):
    w = World(h, pecs)
    P = w.P
    q, kn, L = h.pos('q', smp=(0.1, 2)), h.pos('kn', smp=(0.1, 2)), h.pos('L', smp=(0.2, 1))
    arg = h.arr([kn]) if array else kn
    te, tm, kap = w.amplitudes(q, kn, L)
    h.eq(P.roundTrip(q, arg, L), h.log(1 - te) + h.log(1 - tm), 'energy integrand')
    a, b = P.roundTrips(q, arg, L)
    h.eq(a, h.log(1 - te), 'TE energy integrand')
    h.eq(b, h.log(1 - tm), 'TM energy integrand')
    # minus the derivative of log(1 - c exp(-2 kappa L)) with respect to L
    pa, pb = -2 * kap * te / (1 - te), -2 * kap * tm / (1 - tm)
    h.eq(P.pressureRoundTrip(q, kn, L), pa + pb, 'pressure integrand')
    c, d = P.pressureRoundTrips(q, kn, L)
    h.eq(c, pa, 'TE pressure integrand')
    h.eq(d, pb, 'TM pressure integrand')


def tl(h, N, const=20):
    """temperature and separation with exactly N positive Matsubara terms below the cutoff const/L"""
    T, L = h.pos('T', smp=(0.5, 8)), h.pos('L', smp=(0.5, 4))
    if not h.sym and not (T * L * (N + 1) > const >= T * L * N):
        # a concrete sample: put T L in the middle of the window
        T = const / ((N + h.frac(1, 2)) * L)
    h.given(T * L * (N + 1) > const)
    if N:
        h.given(T * L * N <= const)
    return T, L


def split(h, seen, label, shielded=False):
    """(stand-in for the zero frequency, number of positive frequencies looked at); a shielded zero-frequency term
    need not be looked at"""
    small = [k for k in seen if not hasattr(k, 'op') and k <= TINY]
    h.true(len(small) == 1 or (shielded and not small), label + ': one stand-in for zero frequency')
    return (small or [0])[0], len(seen) - len(small)


def matsubara(h, N, what, pecs='', shielded=False, modname='PFA', cut=20):
    w = World(h, pecs, modname=modname)
    T, L = tl(h, N, cut)
    if what == 'energy':
        f, g = w.P.planeplaneFreeEnergy, w.energy
    else:
        f, g = w.P.planeplanePressure, w.pressure
    v, seen = w.asked(lambda: f(T, L, shielded) if shielded else f(T, L))
    k0, n = split(h, seen, what, shielded)
    h.true(n >= N, what + ': every Matsubara frequency below %d/L is included' % cut)
    tot = h.frac(0) if shielded else w.term(g, h.num(repr(float(k0))) if h.sym else k0, L) / 2
    for j in range(1, n + 1):
        tot = tot + w.term(g, j * T, L)
    near(h, v, T * tot, what + ' is the Matsubara sum', T)


def near(h, v, o, label, unit=1, tol=1e-6):
    """equality of integrals; concretely up to the error quad is allowed (1e-8 absolute, far better in practice)"""
    if h.sym:
        return h.eq(v, o, label)
    small = abs(float(o)) < 1e-7
    h.eq(v, o, label, tol=1e-2 if small else tol, atol=0.0 if small else 1e-9 * float(unit))


def zero_temperature(h, pecs, shielded, modname='PFA'):
    w = World(h, pecs, modname=modname)
    L = h.pos('L', smp=(0.5, 2))
    v = w.P.planeplaneFreeEnergy(0, L, shielded)
    o = h.quad(lambda k: w.term(w.energy, k, L), 0 if h.sym else 1e-20, h.inf)
    near(h, v, o, 'zero temperature: integral over all frequencies', tol=1e-5)
    near(h, w.P.planeplane_e0(L), o, 'planeplane_e0', tol=1e-5)


def high_temperature(h, pecs, shielded, modname='PFA'):
    w = World(h, pecs, modname=modname)
    L = h.pos('L', smp=(0.5, 2))
    if modname == 'PFA':
        v, seen = w.asked(lambda: w.P.planeplaneFreeEnergy(h.inf, L, shielded))
    else:
        v, seen = w.asked(lambda: w.P.planeplaneFreeEnergyHT(L, shielded))
    k0, n = split(h, seen, 'HT', shielded)
    h.true(n == 0, 'only the zero-frequency term')
    o = h.frac(0) if shielded else w.term(w.energy, h.num(repr(float(k0))) if h.sym else k0, L) / 2
    h.true(int(np.prod(np.shape(v))) == 1, 'one number')
    near(h, np.ravel(v)[0], o, 'high temperature: half the zero-frequency term', tol=1e-5)


def terms(h, n, shielded, first):
    """get_f_matsubaras: one row per polarisation, one column per wavenumber"""
    w = World(h)
    L, T = h.pos('L', smp=(0.5, 2)), h.pos('T')
    ks = [h.pos('k%d' % j, smp=(0.2, 2)) for j in range(n)]
    arr = h.arr(ks)
    v = w.P.get_f_matsubaras(T, L, arr, shielded)
    h.shape(v, (2, n), 'terms')
    for p, name in enumerate(('TE', 'TM')):
        for j in range(n):
            o = w.term(lambda q, k, x: h.log(1 - w.amplitudes(q, k, x)[p]), ks[j], L)
            if j == 0:
                o = h.frac(0) if shielded else o / 2
            near(h, v[p, j], o, '%s term %d' % (name, j))
    for j in range(n):
        h.true(arr[j] == ks[j], 'wavenumbers untouched')


def history(h, order, modname='PFA', cut=20):
    """many questions to the same object: every answer depends only on the question"""
    w = World(h, modname=modname)
    Ts = [h.pos('T%d' % i, smp=(2, 4)) for i in range(2)]
    Ls = [h.pos('L%d' % i, smp=(2, 4)) for i in range(2)]
    scale = h.frac(cut, 10)
    Ts = [t * scale for t in Ts] if cut != 20 else Ts
    for T in Ts:
        for L in Ls:
            if h.sym:
                h.given(T * L * 2 > cut)
                h.given(T * L <= cut)
    if not h.sym:
        Ls = [L / max(Ls) for L in Ls]
        Ls = [h.frac(3, 4) + L / 8 for L in Ls]          # in (3/4, 7/8)
        Ts = [cut * (h.frac(7, 10) + (T - int(T)) * h.frac(2, 10)) / h.frac(7, 8) for T in Ts]

    def sum_(g, T, L, shielded, seen, label):
        k0, n = split(h, seen, label, shielded)
        n = max(n, 1)                                   # at least the first frequency has to be included
        tot = h.frac(0) if shielded else w.term(g, h.num(repr(float(k0))) if h.sym else k0, L) / 2
        for j in range(1, n + 1):
            tot = tot + w.term(g, j * T, L)
        return T * tot

    known = {}

    def looked(key, seen):
        """answers may be remembered: what was looked at when the same question came before counts too"""
        for x in seen:
            if not any(x is y or (not hasattr(x, 'op') and not hasattr(y, 'op') and x == y) for y in known.setdefault(key, [])):
                known[key].append(x)
        old = known.get(key, [])
        small = lambda xs: [x for x in xs if not hasattr(x, 'op') and x <= TINY]
        return old if small(old) else old + next(filter(None, (small(v) for k, v in known.items() if k[0] == key[0])), [])

    def finite(what, i, j, shielded):
        T, L = Ts[i], Ls[j]
        f, g = (w.P.planeplaneFreeEnergy, w.energy) if what == 'F' else (w.P.planeplanePressure, w.pressure)
        v, seen = w.asked(lambda: f(T, L, shielded))
        return v, sum_(g, T, L, shielded, looked((what, i, j), seen), what), T

    for n, q in enumerate(order.split()):
        what, arg, shielded = q[0], q[1:].rstrip('s'), q.endswith('s')
        label = 'question %d (%s)' % (n, q)
        if what in 'FP':
            v, o, unit = finite(what, int(arg[0]), int(arg[1]), shielded)
            near(h, v, o, label, unit)
        elif what == '0':
            L = Ls[int(arg)]
            o = h.quad(lambda k: w.term(w.energy, k, L), 0 if h.sym else 1e-20, h.inf)
            near(h, w.P.planeplaneFreeEnergy(0, L, shielded), o, label, tol=1e-5)
        elif what == 'H':
            L = Ls[int(arg)]
            v, seen = w.asked(lambda: w.P.planeplaneFreeEnergy(h.inf, L, shielded) if modname == 'PFA'
                              else w.P.planeplaneFreeEnergyHT(L, shielded))
            k0, m = split(h, looked(('H', L), seen), label, shielded)
            o = h.frac(0) if shielded else w.term(w.energy, h.num(repr(float(k0))) if h.sym else k0, L) / 2
            near(h, np.ravel(v)[0], o, label, tol=1e-5)


HISTORIES = ('F00 F00s F00 P00 P00s F01 F10 F11s F00', 'P01s P01 F01s F01 P11 P10s P00', 'H0 H0s H1 F00 01 00 F01s H0s H0',
             '00 00s 01 H1s F11 P11s F11s P11')

# the arguments of the logarithms are shown positive by the integrands-* obligations
POSITIVE = dict(split_log='assume', overrides=lambda loader: loader.symnp.total_math())

OBLIGATIONS = [Obligation('integrands-%s%s' % (p or 'none', '-arr' if a else ''), integrands, {'pecs': p, 'array': a}, points=2, split_log=True)
               for p in ('', 'a', 'b', 'ab') for a in (False, True)]
for N in (0, 1, 2, 3, 6, 12, 25, 60, 120, 400):
    for what in ('energy', 'pressure'):
        for sh in (False, True) if N < 100 else (False,):
            OBLIGATIONS.append(Obligation('%s-%d%s' % (what, N, '-shielded' if sh else ''), matsubara,
                                          {'N': N, 'what': what, 'shielded': sh}, points=1, **POSITIVE,
                                          tier='quick' if N < 400 else 'thorough', timeout=400,
                                          bounds='%d positive Matsubara terms, 1 quadrature node' % N))
for sh in (False, True):
    for p in ('', 'ab'):
        OBLIGATIONS.append(Obligation('zero-%s%s' % (p or 'none', '-shielded' if sh else ''), zero_temperature,
                                      {'pecs': p, 'shielded': sh}, points=1, **POSITIVE, quad_nodes=2))
        OBLIGATIONS.append(Obligation('high-%s%s' % (p or 'none', '-shielded' if sh else ''), high_temperature,
                                      {'pecs': p, 'shielded': sh}, points=1, **POSITIVE, quad_nodes=2))
    OBLIGATIONS.append(Obligation('terms%s' % ('-shielded' if sh else ''), terms, {'n': 3, 'shielded': sh, 'first': 0},
                                  points=1, **POSITIVE))
for n, o in enumerate(HISTORIES):
    OBLIGATIONS.append(Obligation('history-%d' % n, history, {'order': o}, points=1, **POSITIVE,
                                  bounds='%d questions, two temperatures, two distances' % len(o.split())))
for p in ('a', 'b', 'ab'):
    OBLIGATIONS.append(Obligation('energy-pec-' + p, matsubara, {'N': 1, 'what': 'energy', 'pecs': p}, points=1, **POSITIVE))
    OBLIGATIONS.append(Obligation('pressure-pec-' + p, matsubara, {'N': 1, 'what': 'pressure', 'pecs': p}, points=1, **POSITIVE))
ASSUMPTIONS = ['quadrature is an arbitrary positive linear functional with symbolic nodes in the interval '
               '(a lower limit up to 1e-8 is read as 0)', 'Fresnel coefficients are arbitrary in (-1,1) here (C19 decides them)']
OUTSIDE = 'error of the numerical quadrature; truncation error of the Matsubara sum; rounding'
