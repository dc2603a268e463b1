"""independent oracles (closed forms) and stand-ins, usable on symbolic and on concrete values"""
from fractions import Fraction
from math import factorial

import numpy as np


def k_poly(x, l):
    """theta-like polynomial: k_l(x) = (pi/2) e^-x / x * k_poly"""
    s = 0
    for j in range(l + 1):
        c = Fraction(factorial(l + j), factorial(j) * factorial(l - j) * 2 ** j)
        s = s + (c if hasattr(x, 'op') else float(c)) / x ** j
    return s


def lnk_exact(h, x, l):
    return h.log(h.pi / 2) - x - h.log(x) + h.log(k_poly(x, l))


def i_parts(x, l):
    """2 x i_l(x) = A(x) e^x + B(x) e^-x, A = sum (-1)^j c_j/x^j, B = (-1)^(l+1) sum c_j/x^j"""
    a = b = 0
    for j in range(l + 1):
        c = Fraction(factorial(l + j), factorial(j) * factorial(l - j) * 2 ** j)
        c = c if hasattr(x, 'op') else float(c)
        a = a + (-1) ** j * c / x ** j
        b = b + c / x ** j
    return a, (-1) ** (l + 1) * b


def i_exact(h, x, l):
    """i_l(x) in closed form (symbolic) or by mpmath (concrete)"""
    if h.sym:
        a, b = i_parts(x, l)
        return (a * h.exp(x) + b * h.exp(-x)) / (2 * x)
    import mpmath as mp
    with mp.workdps(40):
        return float(mp.sqrt(mp.pi / (2 * mp.mpf(float(x)))) * mp.besseli(l + mp.mpf(1) / 2, float(x)))


def bi(h, l, x):
    """regular modified spherical Bessel function; symbolic mode: an abstract positive function"""
    if h.sym:
        from engine.sym import uf
        return uf('+bi%d' % int(l), x)
    return i_exact(h, x, l)


def bk(h, l, x):
    if h.sym:
        from engine.sym import uf
        return uf('+bk%d' % int(l), x)
    import mpmath as mp
    with mp.workdps(40):
        return float(mp.sqrt(mp.pi / (2 * mp.mpf(float(x)))) * mp.besselk(l + mp.mpf(1) / 2, float(x)))


def abstract_bessel(h):
    """symbolic mode: the logarithmic Bessel tables (decided on their own by C01 and C02) become
    tables of abstract positive functions of their argument; concrete mode: the real ones"""
    if not h.sym:
        return
    b = h.mod('bessel_sk')
    from engine.sym import mk_log

    def table(f, x, lmax):
        x = np.atleast_1d(x)
        out = np.empty((len(x), lmax + 1), dtype=object)
        for i in range(len(x)):
            for l in range(lmax + 1):
                out[i, l] = mk_log(f(h, l, x[i]))
        return out

    def lnknu(x, lmax):
        return table(bk, x, lmax)

    def lniknu(x, lmax):
        return table(bi, x, lmax), table(bk, x, lmax)

    def fnu(x, nu):
        l = Fraction(nu.args[0]) if hasattr(nu, 'op') else Fraction(nu)
        l = l - Fraction(1, 2)
        assert l.denominator == 1
        out = np.empty(len(x), dtype=object)
        for i in range(len(x)):
            out[i] = bi(h, int(l), x[i]) / bi(h, int(l) + 1, x[i])
        return out
    b.lnknu, b.lniknu, b.fnu = lnknu, lniknu, fnu


class Mat:
    """a material with arbitrary constant response (per wavenumber if arrays are given)"""
    is_perfect_conductor = False
    is_sigma_finite = True
    is_dielectric = True
    is_magnetic = True
    name = 'arbitrary'

    def __init__(self, h, eps, mu, calls=None, **kw):
        self.h, self.e, self.m = h, eps, mu
        self.e_properties = []
        self.b_properties = ()
        self.__dict__.update(kw)

    def _val(self, v, k):
        if np.shape(k) == ():
            return v
        out = self.h.arr([v] * int(np.prod(np.shape(k))) if not isinstance(v, (list, tuple))
                         else list(v)[:np.shape(k)[0]])
        return out.reshape(np.shape(k))

    def epsilon(self, k):
        return self._val(self.e, k)

    def mu(self, k):
        return self._val(self.m, k)


class FMat(Mat):
    """dispersive material: eps and mu are functions of k"""

    def epsilon(self, k):
        if np.shape(k) == ():
            return self.e(k)
        return self.h.arr([self.e(x) for x in np.ravel(k)]).reshape(np.shape(k))

    def mu(self, k):
        if np.shape(k) == ():
            return self.m(k)
        return self.h.arr([self.m(x) for x in np.ravel(k)]).reshape(np.shape(k))


def mat(h, name, mu=True, **kw):
    """material with symbolic eps>0, mu>0, parametrised so that the refractive index is a variable"""
    n = h.pos('n_' + name, smp=(0.5, 3.0))
    z = h.pos('z_' + name, smp=(0.5, 2.0)) if mu else 1
    return Mat(h, n * n if not mu else n / z, n * z if mu else h.arr([1])[0], n=n, **kw)


def pec(h):
    return h.mod('materials').PerfectConductor


def dI(h, l, x):
    """d/dx [x i_l(x)] / i_l(x)"""
    return -l + x * bi(h, l - 1, x) / bi(h, l, x)


def dK(h, l, x):
    """d/dx [x k_l(x)] / k_l(x)"""
    return -l - x * bk(h, l - 1, x) / bk(h, l, x)


def mie_oracle(h, l, x_i, x_e, p_i, p_e, inside=False):
    """amplitude T of the scattered wave from continuity of f and (x f)'/p at the surface
    (p = mu for TE, eps for TM); None stands for a perfect conductor, p is then 'TE'/'TM'"""
    if not inside:
        I, K = bi(h, l, x_e), bk(h, l, x_e)
        if x_i is None:
            return -I / K if p_e == 'TE' else -(I * dI(h, l, x_e)) / (K * dK(h, l, x_e))
        D = dI(h, l, x_i)
        # p_i (I dI + T K dK) = p_e (I + T K) D
        return -I * (p_e * D - p_i * dI(h, l, x_e)) / (K * (p_e * D - p_i * dK(h, l, x_e)))
    I, K = bi(h, l, x_i), bk(h, l, x_i)
    if x_e is None:
        return -K / I if p_i == 'TE' else -(K * dK(h, l, x_i)) / (I * dI(h, l, x_i))
    D = dK(h, l, x_e)
    # p_e (K dK + T I dI) = p_i (K + T I) D
    return -K * (p_e * dK(h, l, x_i) - p_i * D) / (I * (p_e * dI(h, l, x_i) - p_i * D))


def amplitude(h, m, pol, j, a, l, inside=False):
    """physical amplitude from the scaled coefficient (sign and pi convention removed)"""
    c = m[pol, j, a] * h.exp(m[2, j, a])
    return (-1) ** (l + 1) * (c * h.pi / 2 if inside else c * 2 / h.pi)


def dblfac(n):
    r = 1
    while n > 1:
        r *= n
        n -= 2
    return r


UNIT = '2.998e14'      # c / micron


def lorentz(h, name, spec, magnetic=False, smith=False):
    """a real material object with symbolic parameters.  spec: one letter per oscillator
    (d: resonance, c: damped free carriers, p: undamped free carriers).
    Returns (material, static eps or None, plasma frequency in 1/micron or None, static mu)."""
    mt = h.mod('materials')
    u = h.num(UNIT)
    props, eps0, w2 = [], h.frac(1), 0
    for i, c in enumerate(spec):
        w = h.pos('w%s%d' % (name, i), smp=(0.5, 3))
        wr = h.pos('r%s%d' % (name, i), smp=(0.5, 3)) if c == 'd' else None
        g = h.pos('g%s%d' % (name, i), smp=(0.1, 1)) if c in 'cd' else None
        props.append((w * u, wr * u if wr is not None else 0, g * u if g is not None else 0))
        if c == 'd':
            eps0 = eps0 + w * w / (wr * wr)
        elif c == 'p':
            w2 = w2 + w * w
    bp, mu0 = (), h.frac(1)
    if magnetic:
        mu0 = h.pos('mu' + name, smp=(0.5, 3))
        bp = (mu0, h.pos('wm' + name, smp=(0.5, 3)) * u)
    M = (mt.LorentzSmithMaterial if smith else mt.LorentzMaterial)(props, bp)
    return M, eps0 if set(spec) <= {'d'} else None, h.sqrt(w2) if 'p' in spec else None, mu0


def stub_elements(h, positive=False, trans=True):
    """symbolic mode: reflection and translation tables (decided on their own by C03-C10) become tables of free
    real numbers, one per (bodies, radius, wavenumber, order, polarisation); concrete mode: the real ones"""
    if not h.sym:
        return
    sc, tr = h.mod('scattering'), h.mod('translation')

    def v(kind, *key):
        name = '%s[%s]' % (kind, ','.join(str(x) for x in key))
        return h.pos(name, smp=(0.1, 1)) if positive else h.real(name, smp=(-1, 1))

    def val(x):
        return str(x)

    class scattering:
        def __init__(self, mat1, mat2):
            self.mat1, self.mat2 = mat1, mat2

        def _tab(self, kind, k, lmin, lmax, R):
            out = np.empty((3, len(k), lmax - lmin + 1), dtype=object)
            for i in np.ndindex(out.shape):
                p, j, a = i
                out[i] = v(kind, self.mat1.name, self.mat2.name, val(R), val(k[j]), 'EMs'[p], a + lmin)
            return out

        def mie(self, k, lmin, lmax, R):
            return self._tab('mie', k, lmin, lmax, R)

        def mie_internal(self, k, lmin, lmax, R):
            return self._tab('mint', k, lmin, lmax, R)

        def mie_k0(self, lmin, lmax, R):
            return self._tab('mie', [0], lmin, lmax, R)[:, 0]

        def mie_internal_k0(self, lmin, lmax, R):
            return self._tab('mint', [0], lmin, lmax, R)[:, 0]

    class coated_miescattering(scattering):
        def __init__(self, mat1, mat2, mat3):
            self.mat1, self.mat2, self.mat3 = mat1, mat2, mat3

        def mie_coated(self, k, lmin, lmax, ri, ra):
            return self._tab('coat:%s:%s' % (self.mat3.name, val(ri)), k, lmin, lmax, ra)

    class translation:
        def __init__(self, lmax, lssmax, m, material, L, k, ext_flag, forceFlag=0):
            assert not forceFlag
            self.a = (lmax, lssmax, m, material, L, k, ext_flag)
            self.lmin = max(1, m)

        def trans_ab(self):
            lmax, lss, m, med, L, k, ext = self.a
            ext = 'x' if ext else 'i'
            lo = self.lmin
            if len(k) == 1 and not hasattr(k[0], 'op') and k[0] == 0:
                one = np.empty((lmax - lo + 1, lss - lo + 1), dtype=object)
                two = one.copy()
                for a, b in np.ndindex(one.shape):
                    one[a, b] = v('t0s' + ext, m, a + lo, b + lo)
                    two[a, b] = v('t0l' + ext, m, a + lo, b + lo)
                return [one, two]
            out = []
            for n in range(5):
                t = np.empty((len(k), lmax - lo + 1, lss - lo + 1), dtype=object)
                for j, a, b in np.ndindex(t.shape):
                    t[j, a, b] = h.frac(0) if m == 0 and n in (2, 3) else v(
                        'tr%s%d' % (ext, n), med.name, val(L), val(k[j]), m, a + lo, b + lo)
                out.append(t)
            return out
    sc.scattering, sc.coated_miescattering = scattering, coated_miescattering
    if trans:
        tr.translation = translation
    st = h.mod('stratified_sphere_scattering')

    class StratifiedMieScattering(scattering):
        def __init__(self, mat_list, r_list):
            assert isinstance(mat_list, list) and isinstance(r_list, list)
            self.ml, self.rl = list(mat_list), list(r_list)
            self.mat1, self.mat2 = mat_list[0], mat_list[1]

        def mie_stratified(self, k, lmin, lmax):
            return self._tab('strat:%s:%s' % ('/'.join(m.name for m in self.ml), '/'.join(val(r) for r in self.rl)),
                             k, lmin, lmax, self.rl[-1])
    st.StratifiedMieScattering = StratifiedMieScattering


def cycles(h, A, Bm, tag, three=True, atol=0.0):
    """A and Bm are diagonally similar: all cyclic products of length 1, 2, 3 agree"""
    n = len(A)
    for i in range(n):
        h.eq(A[i][i], Bm[i][i], '%s diagonal %d' % (tag, i), atol=atol)
        for j in range(i + 1, n):
            h.eq(A[i][j] * A[j][i], Bm[i][j] * Bm[j][i], '%s 2-cycle %d%d' % (tag, i, j), atol=atol * atol)
            for k in range(i + 1, n):
                if three and k != j:
                    h.eq(A[i][j] * A[j][k] * A[k][i], Bm[i][j] * Bm[j][k] * Bm[k][i],
                         '%s 3-cycle %d%d%d' % (tag, i, j, k), atol=atol ** 3)
