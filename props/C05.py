"""C05: static Mie coefficients are the k->0 limit of the finite-frequency ones."""
from engine.harness import Obligation
from props.common import Mat, abstract_bessel, bi, bk, dI, dK, dblfac, lorentz, pec


def static(h, spec, magnetic, lmin, lmax, medspec='d', medmag=False, smith=False):
    abstract_bessel(h)
    sc = h.mod('scattering')
    R = h.pos('R', smp=(0.4, 2))
    if spec == 'pec':
        A, ea, wa, ma = pec(h), None, None, h.frac(1)
    else:
        A, ea, wa, ma = lorentz(h, 'a', spec, magnetic, smith)
    M, em, _, mm = lorentz(h, 'm', medspec, medmag)
    r = sc.scattering(A, M).mie_k0(lmin, lmax, R)
    h.shape(r, (3, lmax - lmin + 1), 'static Mie array')
    for l in range(lmin, lmax + 1):
        te, tm, ln = r[0, l - lmin], r[1, l - lmin], r[2, l - lmin]
        f = (-1) ** l * h.exp(ln) * dblfac(2 * l + 1) * dblfac(2 * l - 1)
        if spec == 'pec':
            D = None
        elif wa is not None:
            D = dI(h, l, wa * R * h.sqrt(ma))
        else:
            D = l + 1
        tex = 1 if D is None else (mm * D - ma * (l + 1)) / (mm * D + ma * l)
        tmx = h.frac(-(l + 1), l) if ea is None else (l + 1) * (em - ea) / (em * (l + 1) + ea * l)
        h.eq(te * f, tex, 'TE l=%d' % l, atol=1e-12)
        h.eq(tm * f, tmx, 'TM l=%d' % l, atol=1e-12)
    if not h.sym:
        # the same statement against the finite-frequency code at a very small wavenumber
        k = 1e-5
        n = (em * mm) ** 0.5
        q = sc.scattering(A, M).mie(h.arr([k]), lmin, lmax, R)
        for l in range(lmin, lmax + 1):
            s = h.np.exp(q[2, 0, l - lmin] - (2 * l + 1) * h.np.log(n * k * R) - r[2, l - lmin])
            h.eq(q[0, 0, l - lmin] * s, r[0, l - lmin], 'finite TE -> static l=%d' % l, tol=5e-3, atol=1e-3)
            h.eq(q[1, 0, l - lmin] * s, r[1, l - lmin], 'finite TM -> static l=%d' % l, tol=5e-3, atol=1e-3)


def history(h, spec, order):
    """one object asked for several radii and ranges of orders, in any order; answers overwritten by the caller"""
    abstract_bessel(h)
    sc = h.mod('scattering')
    Rs = [h.pos('R%d' % i, smp=(0.4, 2)) for i in range(2)]
    if spec == 'pec':
        A, ea, wa, ma = pec(h), None, None, h.frac(1)
    else:
        A, ea, wa, ma = lorentz(h, 'a', spec, True, False)
    M, em, _, mm = lorentz(h, 'm', 'd', True)
    S = sc.scattering(A, M)

    def exact(l, R):
        if spec == 'pec':
            D = None
        elif wa is not None:
            D = dI(h, l, wa * R * h.sqrt(ma))
        else:
            D = l + 1
        tex = 1 if D is None else (mm * D - ma * (l + 1)) / (mm * D + ma * l)
        tmx = h.frac(-(l + 1), l) if ea is None else (l + 1) * (em - ea) / (em * (l + 1) + ea * l)
        return tex, tmx
    for c, q in enumerate(order.split()):
        lmin, lmax, R = [int(x) for x in q.split(',')]
        r = S.mie_k0(lmin, lmax, Rs[R])
        h.shape(r, (3, lmax - lmin + 1), 'answer %d' % c)
        for l in range(lmin, lmax + 1):
            ln = r[2, l - lmin]
            f = (-1) ** l * h.exp(ln) * dblfac(2 * l + 1) * dblfac(2 * l - 1)
            for pol in (0, 1):
                h.eq(r[pol, l - lmin] * f, exact(l, Rs[R])[pol], 'answer %d %s l=%d' % (c, ('TE', 'TM')[pol], l), atol=1e-12)
        for x in h.np.ndindex(*r.shape):
            r[x] = h.frac(0)


def limit(h, kind, l, pol):
    """finite-frequency code vs static code, Bessel functions within delta of their leading
    small-argument behaviour: the difference is O(delta)"""
    abstract_bessel(h)
    sc = h.mod('scattering')
    R, k = h.pos('R', smp=(0.4, 2)), h.pos('k', smp=(1e-4, 2e-4))
    d = h.pos('delta', hi=0.01, smp=(0.005, 0.01))
    ni, ne = h.pos('ni', smp=(1, 3)), h.pos('ne', smp=(1, 3))
    pi, pe = h.pos('pi', smp=(0.5, 2)), h.pos('pe', smp=(0.5, 2))
    mk = lambda n, p: Mat(h, n * n / p, p) if pol == 0 else Mat(h, p, n * n / p)
    A = pec(h) if kind == 'pec' else mk(ni, pi)
    M = mk(ne, pe)
    x = k * R * ne
    De, Ke = dI(h, l, x), -dK(h, l, x)
    if h.sym:
        h.given(De >= l + 1)
        h.given(De <= (l + 1) * (1 + d))
        h.given(Ke >= l)
        h.given(Ke <= l * (1 + d))
        if kind != 'pec':
            Di = dI(h, l, k * R * ni)
            h.given(Di >= l + 1)
            h.given(Di <= (l + 1) * (1 + d))
    q = sc.scattering(A, M).mie(h.arr([k]), l, l, R)
    r = sc.scattering(A, M).mie_k0(l, l, R)
    # the common factor: i/k / x^(2l+1) -> 1/((2l+1)!!(2l-1)!!) 2/pi
    f = h.pi / 2 * dblfac(2 * l + 1) * dblfac(2 * l - 1)
    if not h.sym:
        h.eq(h.np.exp(q[2, 0, 0]) / x ** (2 * l + 1) * f, 1, 'scaling factor', tol=1e-3)
    h.eq(h.exp(r[2, 0]) * f, h.pi / 2, 'static common factor')
    a, b = q[pol, 0, 0] * 2 / h.pi, r[pol, 0] * dblfac(2 * l + 1) * dblfac(2 * l - 1) * h.exp(r[2, 0])
    h.le(a - b, 6 * (l + 1) * d, 'above')
    h.le(b - a, 6 * (l + 1) * d, 'below')


def refuse(h):
    sc = h.mod('scattering')
    R = h.pos('R', smp=(0.4, 2))
    A = lorentz(h, 'a', 'd')[0]
    for sp in ('p', 'c', 'dp', 'cd'):
        M = lorentz(h, 'm' + sp, sp)[0]
        h.raises(lambda: sc.scattering(A, M).mie_k0(1, 2, R), NotImplementedError, 'conducting medium refused')


OBLIGATIONS = []
for name, kw in [('pec', dict(spec='pec', magnetic=False)), ('diel', dict(spec='d', magnetic=False)),
                 ('diel2', dict(spec='dd', magnetic=False)), ('dielmag', dict(spec='d', magnetic=True)),
                 ('vacuum', dict(spec='', magnetic=False)), ('vacmag', dict(spec='', magnetic=True)),
                 ('drude', dict(spec='c', magnetic=False)), ('drudemag', dict(spec='c', magnetic=True)),
                 ('drude-d', dict(spec='dc', magnetic=True)), ('smith', dict(spec='c', magnetic=False, smith=True)),
                 ('plasma', dict(spec='p', magnetic=False)), ('plasmamag', dict(spec='p', magnetic=True)),
                 ('plasma-d', dict(spec='dp', magnetic=False)), ('plasma-d2', dict(spec='pd', magnetic=True)),
                 ('plasma2', dict(spec='pp', magnetic=False))]:
    for a, b in ((1, 3), (2, 3)):
        for mm in (False, True):
            OBLIGATIONS.append(Obligation('%s-%d-%d%s' % (name, a, b, '-magmed' if mm else ''), static,
                                          dict(kw, lmin=a, lmax=b, medmag=mm, medspec='d' if not mm else 'dd'),
                                          bounds='orders %d..%d' % (a, b), points=1))
    for a, b in ((1, 8), (10, 12), (30, 30), (1, 20), (60, 60)):
        OBLIGATIONS.append(Obligation('%s-%d-%d' % (name, a, b), static, dict(kw, lmin=a, lmax=b),
                                      tier='quick' if (a, b) in ((1, 8), (30, 30)) else 'thorough', points=1,
                                      bounds='orders %d..%d' % (a, b)))
OBLIGATIONS += [Obligation('limit-%s-%d-%d' % (kd, l, pol), limit, {'kind': kd, 'l': l, 'pol': pol}, bounds='l=%d' % l)
                for kd in ('diel', 'pec') for l in (1, 2) for pol in (0, 1)]
OBLIGATIONS += [Obligation('history-' + s, history, {'spec': s, 'order': '1,2,0 1,2,0 1,2,1 2,2,0 1,3,0 2,3,1 1,2,0 3,3,0 3,3,1 1,1,1'}, points=1,
                           bounds='ten questions, two radii, orders up to 3') for s in ('pec', 'd', 'c', 'p', 'dp')]
OBLIGATIONS += [Obligation('refuse', refuse)]
ASSUMPTIONS = ['i_l(x) ~ x^l/(2l+1)!!, k_l(x) ~ (pi/2)(2l-1)!!/x^(l+1) (leading behaviour of the Bessel functions); '
               'obligations "limit" bound the distance of the finite-frequency code from the static code for all '
               'relative deviations delta <= 1/100 from that behaviour', 'exact real arithmetic']
