"""C19: Fresnel coefficients of a plane interface."""
from engine.harness import Obligation
from props.common import FMat, pec


def media(h, name, kn):
    e = h.pos('e' + name, smp=(0.5, 6))
    m = h.pos('m' + name, smp=(0.5, 3))
    return e, m, FMat(h, lambda k: e, lambda k: m)


def as_scalar(x):
    return x.reshape(-1)[0] if hasattr(x, 'reshape') and getattr(x, 'shape', None) not in (None, ()) else x


def interface(h, zero_perp=False, array=False):
    sc = h.mod('scattering')
    kn = h.pos('kn', smp=(0.1, 3))
    q = h.frac(0) if zero_perp else h.pos('q', smp=(0.1, 3))
    eP, mP, A = media(h, 'P', kn)
    eM, mM, Bm = media(h, 'M', kn)
    arg = h.arr([kn]) if array else kn
    rte, rtm = sc.scattering(A, Bm).fresnel(q, arg)
    te, tm = as_scalar(rte), as_scalar(rtm)
    # decay constants on both sides
    sP = h.sqrt(q * q + eP * mP * kn * kn)
    sM = h.sqrt(q * q + eM * mM * kn * kn)
    # tangential fields continuous: 1 + r = t and (s/p)(1 - r) = (s'/p') t with p = mu (TE) or eps (TM)
    h.eq((sM / mM) * (1 - te), (sP / mP) * (1 + te), 'TE interface condition')
    h.eq((sM / eM) * (1 - tm), (sP / eP) * (1 + tm), 'TM interface condition')
    for r, n in ((te, 'TE'), (tm, 'TM')):
        h.lt(h.frac(-1), r, n + ' > -1')
        h.lt(r, h.frac(1), n + ' < 1')
    # exchange of the media
    bte, btm = sc.scattering(Bm, A).fresnel(q, arg)
    h.eq(as_scalar(bte), -te, 'TE changes sign when the media are exchanged', atol=1e-14)
    h.eq(as_scalar(btm), -tm, 'TM changes sign when the media are exchanged', atol=1e-14)
    # duality
    dA = FMat(h, lambda k: mP, lambda k: eP)
    dB = FMat(h, lambda k: mM, lambda k: eM)
    dte, dtm = sc.scattering(dA, dB).fresnel(q, arg)
    h.eq(as_scalar(dte), tm, 'duality TE', atol=1e-14)
    h.eq(as_scalar(dtm), te, 'duality TM', atol=1e-14)


def identical(h):
    sc = h.mod('scattering')
    kn, q = h.pos('kn'), h.pos('q')
    e, m, A = media(h, 'P', kn)
    te, tm = sc.scattering(A, A).fresnel(q, kn)
    h.eq(te, h.frac(0), 'TE vanishes')
    h.eq(tm, h.frac(0), 'TM vanishes')


def signs(h):
    """non-magnetic media: TM positive and TE negative exactly when the plate is denser"""
    sc = h.mod('scattering')
    kn, q = h.pos('kn'), h.pos('q')
    eM, d = h.pos('eM', smp=(0.5, 3)), h.pos('d', smp=(0.1, 3))
    one = h.frac(1)
    A = FMat(h, lambda k: eM + d, lambda k: one)
    Bm = FMat(h, lambda k: eM, lambda k: one)
    te, tm = sc.scattering(A, Bm).fresnel(q, kn)
    h.lt(te, h.frac(0), 'TE negative')
    h.lt(h.frac(0), tm, 'TM positive')
    h.le(-te, tm, 'TM reflects at least as much as TE')


def grow(h):
    """more permittivity: closer to the perfect conductor in both polarisations"""
    sc = h.mod('scattering')
    kn, q = h.pos('kn'), h.pos('q')
    e, d, eM = h.pos('e', smp=(0.5, 3)), h.pos('d', smp=(0.1, 3)), h.pos('eM', smp=(0.5, 3))
    one = h.frac(1)
    Bm = FMat(h, lambda k: eM, lambda k: one)
    a = sc.scattering(FMat(h, lambda k: e, lambda k: one), Bm).fresnel(q, kn)
    b = sc.scattering(FMat(h, lambda k: e + d, lambda k: one), Bm).fresnel(q, kn)
    h.lt(b[0], a[0], 'TE decreases with the permittivity')


def conductor(h):
    sc = h.mod('scattering')
    kn, q = h.pos('kn'), h.pos('q')
    eM, mM, Bm = media(h, 'M', kn)
    P = pec(h)
    te, tm = sc.scattering(P, Bm).fresnel(q, kn)
    h.eq(te, h.frac(-1), 'TE = -1')
    h.eq(tm, h.frac(1), 'TM = +1')
    # and these are the limits: the distance to them is at most of order of 1/sqrt(eps)
    e = h.pos('e', smp=(5, 100))
    A = FMat(h, lambda k: e, lambda k: h.frac(1))
    a, b = sc.scattering(A, Bm).fresnel(q, kn)
    sM = h.sqrt(q * q + eM * mM * kn * kn)
    h.le(mM * h.sqrt(q * q + e * kn * kn) * (a + 1), 2 * sM, 'TE tends to -1')
    h.le(e * sM * (1 - b), 2 * eM * h.sqrt(q * q + e * kn * kn), 'TM tends to +1')


def dispersion(h, nk):
    """several wavenumbers at once: each coefficient uses the response at its own wavenumber"""
    from props.common import Mat
    sc = h.mod('scattering')
    q = h.pos('q', smp=(0.1, 3))
    ks = [h.pos('k%d' % i, smp=(0.1, 3)) for i in range(nk)]
    t = {n: [h.pos('%s%d' % (n, i), smp=(0.5, 4)) for i in range(nk)] for n in ('eP', 'mP', 'eM', 'mM')}
    A, Bm = Mat(h, t['eP'], t['mP']), Mat(h, t['eM'], t['mM'])
    te, tm = sc.scattering(A, Bm).fresnel(q, h.arr(ks))
    h.shape(te, (nk,), 'TE')
    h.shape(tm, (nk,), 'TM')
    for i, k in enumerate(ks):
        eP, mP, eM, mM = (t[n][i] for n in ('eP', 'mP', 'eM', 'mM'))
        sP = h.sqrt(q * q + eP * mP * k * k)
        sM = h.sqrt(q * q + eM * mM * k * k)
        h.eq((sM / mM) * (1 - te[i]), (sP / mP) * (1 + te[i]), 'TE interface condition %d' % i)
        h.eq((sM / eM) * (1 - tm[i]), (sP / eP) * (1 + tm[i]), 'TM interface condition %d' % i)


def history(h):
    """one interface asked for several parallel wavenumbers and frequencies, scalar and array, in any order"""
    sc = h.mod('scattering')
    qs = [h.pos('q%d' % i, smp=(0.1, 3)) for i in range(2)]
    ks = [h.pos('k%d' % i, smp=(0.1, 3)) for i in range(2)]
    t = {n: [h.pos('%s%d' % (n, i), smp=(0.5, 4)) for i in range(2)] for n in ('eP', 'mP', 'eM', 'mM')}
    at = lambda k: 0 if (k is ks[0] or (not h.sym and k == ks[0])) else 1
    A = FMat(h, lambda k: t['eP'][at(k)], lambda k: t['mP'][at(k)])
    Bm = FMat(h, lambda k: t['eM'][at(k)], lambda k: t['mM'][at(k)])
    S = sc.scattering(A, Bm)
    a = h.arr([ks[0]])
    for n, (i, j, arr) in enumerate(((0, 0, 0), (0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 1, 1), (1, 1, 1), (1, 0, 1), (1, 1, 0), (0, 0, 0))):
        q, k = qs[i], ks[j]
        a[0] = k
        te, tm = S.fresnel(q, a if arr else k)
        te, tm = as_scalar(te), as_scalar(tm)
        eP, mP, eM, mM = (t[x][j] for x in ('eP', 'mP', 'eM', 'mM'))
        sP, sM = h.sqrt(q * q + eP * mP * k * k), h.sqrt(q * q + eM * mM * k * k)
        h.eq((sM / mM) * (1 - te), (sP / mP) * (1 + te), 'TE interface condition, question %d' % n)
        h.eq((sM / eM) * (1 - tm), (sP / eP) * (1 + tm), 'TM interface condition, question %d' % n)


OBLIGATIONS = [Obligation('history', history, {}, points=1, bounds='ten questions'),
               Obligation('interface', interface, {}, points=2),
               Obligation('interface-normal', interface, {'zero_perp': True}, points=2),
               Obligation('interface-array', interface, {'array': True}, points=2),
               Obligation('identical', identical, {}, points=2),
               Obligation('signs', signs, {}, points=2),
               Obligation('grow', grow, {}, points=2),
               Obligation('conductor', conductor, {}, points=2),
               Obligation('dispersion', dispersion, {'nk': 3}, points=1)]
OUTSIDE = 'floating-point rounding; kn = 0'
