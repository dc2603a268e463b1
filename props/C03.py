"""C03: Mie coefficients at finite imaginary frequency solve the boundary conditions."""
from engine.harness import Obligation
from props.common import FMat, Mat, abstract_bessel, amplitude, mie_oracle, pec


def media(h, name, nk):
    n = [h.pos('n%s%d' % (name, j), smp=(0.6, 3.0)) for j in range(nk)]
    z = [h.pos('z%s%d' % (name, j), smp=(0.6, 2.0)) for j in range(nk)]
    return n, Mat(h, [a / b for a, b in zip(n, z)], [a * b for a, b in zip(n, z)])


def coefficients(h, kind, lmin, lmax, nk=2):
    abstract_bessel(h)
    sc = h.mod('scattering')
    R = h.pos('R', smp=(0.4, 2))
    k = [h.pos('k%d' % j, smp=(0.3, 2)) for j in range(nk)]
    ka = h.arr(k)
    inside = kind.startswith('in')
    ni, mi = media(h, 'i', nk)
    ne, me = media(h, 'e', nk)
    if kind == 'ext':
        m = sc.scattering(mi, me).mie(ka, lmin, lmax, R)
    elif kind == 'int':
        m = sc.scattering(mi, me).mie_internal(ka, lmin, lmax, R)
    elif kind == 'extpec':
        m = sc.scattering(pec(h), me).mie(ka, lmin, lmax, R)
    elif kind == 'inpec':
        m = sc.scattering(mi, pec(h)).mie_internal(ka, lmin, lmax, R)
    h.shape(m, (3, nk, lmax - lmin + 1), 'Mie array')
    for j in range(nk):
        xi, xe = k[j] * R * ni[j], k[j] * R * ne[j]
        if kind == 'extpec':
            xi = None
        if kind == 'inpec':
            xe = None
        for l in range(lmin, lmax + 1):
            for pol, name in ((0, 'TE'), (1, 'TM')):
                pi = (mi.m if pol == 0 else mi.e)[j]
                pe = (me.m if pol == 0 else me.e)[j]
                if kind == 'extpec':
                    pe = name
                if kind == 'inpec':
                    pi = name
                h.eq(amplitude(h, m, pol, j, l - lmin, l, inside),
                     mie_oracle(h, l, xi, xe, pi, pe, inside),
                     '%s %s l=%d k%d' % (kind, name, l, j), atol=1e-13)


def predefined(h, a, b, l):
    """the real material classes end to end (per-wavenumber response, no cross-talk)"""
    abstract_bessel(h)
    sc, mt = h.mod('scattering'), h.mod('materials')
    A, Bm = getattr(mt, a), getattr(mt, b)
    R = h.pos('R', smp=(0.4, 2))
    k = [h.pos('k%d' % j, smp=(0.3, 2)) for j in range(2)]
    m = sc.scattering(A, Bm).mie(h.arr(k), 1, l, R)
    for j in range(2):
        kj = h.arr([k[j]])
        eb, mb = Bm.epsilon(kj)[0], Bm.mu(kj)[0]
        xe = k[j] * R * h.sqrt(eb * mb)
        for pol, name in ((0, 'TE'), (1, 'TM')):
            if A.is_perfect_conductor:
                o = mie_oracle(h, l, None, xe, None, name)
            else:
                ea, ma = A.epsilon(kj)[0], A.mu(kj)[0]
                o = mie_oracle(h, l, k[j] * R * h.sqrt(ea * ma), xe, ma if pol == 0 else ea,
                               mb if pol == 0 else eb)
            h.eq(amplitude(h, m, pol, j, l - 1, l), o, '%s in %s %s k%d' % (a, b, name, j), atol=1e-13)


def history(h, kind, order):
    """one object, many questions (wavenumber arrays refilled in place, radii, orders, scattering from inside and from
    outside): every answer is that of the boundary-value problem asked"""
    abstract_bessel(h)
    sc = h.mod('scattering')
    ks = [h.pos('k%d' % j, smp=(0.3, 2)) for j in range(3)]
    Rs = [h.pos('R%d' % j, smp=(0.4, 2)) for j in range(2)]

    def mat(name):
        n = [h.pos('n%s%d' % (name, j), smp=(0.6, 3.0)) for j in range(3)]
        z = [h.pos('z%s%d' % (name, j), smp=(0.6, 2.0)) for j in range(3)]
        at = lambda k: [i for i, x in enumerate(ks) if x is k or (not h.sym and x == k)][0]
        return n, z, FMat(h, lambda k: n[at(k)] / z[at(k)], lambda k: n[at(k)] * z[at(k)])
    ni, zi, mi = mat('i')
    ne, ze, me = mat('e')
    A = {'d': lambda: sc.scattering(mi, me), 'pec': lambda: sc.scattering(pec(h), me),
         'cav': lambda: sc.scattering(mi, pec(h))}[kind]()
    arr = {}
    for c, q in enumerate(order.split()):
        how, ix, lmin, lmax, r = q.split(',')
        ix, lmin, lmax, r = [int(x) for x in ix], int(lmin), int(lmax), int(r)
        a = arr.setdefault(len(ix), h.arr([ks[i] for i in ix]))
        for j, i in enumerate(ix):
            a[j] = ks[i]
        inside = how == 'i'
        m = (A.mie_internal if inside else A.mie)(a, lmin, lmax, Rs[r])
        h.shape(m, (3, len(ix), lmax - lmin + 1), 'answer %d' % c)
        for j, i in enumerate(ix):
            xi, xe = ks[i] * Rs[r] * ni[i], ks[i] * Rs[r] * ne[i]
            for l in range(lmin, lmax + 1):
                for pol, name in ((0, 'TE'), (1, 'TM')):
                    p, e = (ni[i] * zi[i], ne[i] * ze[i]) if pol == 0 else (ni[i] / zi[i], ne[i] / ze[i])
                    o = (mie_oracle(h, l, None, xe, p, name) if kind == 'pec' else
                         mie_oracle(h, l, xi, None, name, e, True) if kind == 'cav' else mie_oracle(h, l, xi, xe, p, e, inside))
                    h.eq(amplitude(h, m, pol, j, l - lmin, l, inside), o, 'answer %d %s l=%d k%d' % (c, name, l, i), atol=1e-13)
        for x in h.np.ndindex(*m.shape):
            m[x] = h.frac(0)


OBLIGATIONS = [Obligation('%s-%d-%d' % (kd, a, b), coefficients, {'kind': kd, 'lmin': a, 'lmax': b},
                          bounds='orders %d..%d, 2 wavenumbers, arbitrary eps, mu, R' % (a, b),
                          tier='quick' if b < 70 else 'thorough')
               for kd in ('ext', 'int', 'extpec', 'inpec')
               for a, b in ((1, 1), (1, 3), (2, 4), (3, 3), (1, 8), (9, 12), (25, 26), (60, 60), (1, 70), (150, 150))]
OBLIGATIONS += [Obligation('pre-%s-%s' % (a, b), predefined, {'a': a, 'b': b, 'l': 2},
                           bounds='l=2, 2 wavenumbers') for a, b in
                (('Gold', 'Vacuum'), ('PerfectConductor', 'Ethanol'), ('Gold_magnetic', 'Polystyrene'),
                 ('MercurySmith', 'Ethanol'))]
OBLIGATIONS += [Obligation('history-' + kd, history, {'kind': kd, 'order': o}, bounds='%d questions' % len(o.split()))
                for kd, o in (('d', 'e,01,1,2,0 e,01,1,2,0 e,20,1,2,0 e,01,1,2,1 i,01,1,2,1 e,01,2,2,1 e,0,1,3,0 i,0,1,3,0 e,01,1,1,0 e,1,1,3,0'),
                              ('pec', 'e,01,1,2,0 e,20,1,2,0 e,01,1,2,1 e,01,2,2,1 e,0,1,3,0 e,2,1,3,0'),
                              ('cav', 'i,01,1,2,0 i,20,1,2,0 i,01,1,2,1 i,01,2,2,1 i,0,1,3,0 i,2,1,3,0'))]
ASSUMPTIONS = ['the Bessel tables are abstract positive functions of their argument here; C01/C02 decide them',
               'exact real arithmetic']
