"""C04: symmetries and limits of the Mie coefficients."""
from engine.harness import Obligation
from props.common import Mat, abstract_bessel, bi, dI, dK, pec


def setup(h):
    abstract_bessel(h)
    sc = h.mod('scattering')
    R = h.pos('R', smp=(0.4, 2))
    k = [h.pos('k%d' % j, smp=(0.3, 2)) for j in range(2)]
    return sc, R, k


def medium(h, name, mu=True):
    n = h.pos('n' + name, smp=(0.6, 3.0))
    z = h.pos('z' + name, smp=(0.6, 2.0)) if mu else 1
    return n, Mat(h, n / z, n * z) if mu else Mat(h, n * n, h.arr([1])[0])


def solve(s, inside, k, lmin, lmax, R):
    return s.mie_internal(k, lmin, lmax, R) if inside else s.mie(k, lmin, lmax, R)


def transparent(h, inside, lmax):
    sc, R, k = setup(h)
    n, m = medium(h, 'i')
    m2 = Mat(h, m.e, m.m)
    r = solve(sc.scattering(m, m2), inside, h.arr(k), 1, lmax, R)
    for j in range(2):
        for l in range(lmax):
            for pol in (0, 1):
                h.eq(r[pol, j, l], 0 * R, 'no contrast, no scattering', atol=1e-9)


def duality(h, inside, lmax):
    sc, R, k = setup(h)
    _, a = medium(h, 'i')
    _, b = medium(h, 'e')
    r = solve(sc.scattering(a, b), inside, h.arr(k), 1, lmax, R)
    d = solve(sc.scattering(Mat(h, a.m, a.e), Mat(h, b.m, b.e)), inside, h.arr(k), 1, lmax, R)
    h.eq(r[0], d[1], 'TE of dual = TM')
    h.eq(r[1], d[0], 'TM of dual = TE')
    h.eq(r[2], d[2], 'scaling')


def scale(h, inside, lmax):
    sc, R, k = setup(h)
    s = h.pos('s', smp=(0.5, 2))
    _, a = medium(h, 'i')
    _, b = medium(h, 'e')
    q = sc.scattering(a, b)
    r = solve(q, inside, h.arr(k), 1, lmax, R)
    t = solve(q, inside, h.arr([x * s for x in k]), 1, lmax, R / s)
    h.eq(r, t, 'depends on k R only')
    if not inside:
        q = sc.scattering(pec(h), b)
    else:
        q = sc.scattering(a, pec(h))
    r = solve(q, inside, h.arr(k), 1, lmax, R)
    t = solve(q, inside, h.arr([x * s for x in k]), 1, lmax, R / s)
    h.eq(r, t, 'perfect conductor: depends on k R only')


def lmin_slice(h, inside, lmin, lmax):
    sc, R, k = setup(h)
    _, a = medium(h, 'i')
    _, b = medium(h, 'e')
    for q in (sc.scattering(a, b), sc.scattering(a, pec(h)) if inside else sc.scattering(pec(h), b)):
        r = solve(q, inside, h.arr(k), 1, lmax, R)
        t = solve(q, inside, h.arr(k), lmin, lmax, R)
        h.shape(t, (3, 2, lmax - lmin + 1), 'lmin')
        h.eq(r[:, :, lmin - 1:], t, 'lmin only slices')


def signs(h, l):
    """non-magnetic sphere: sign of the coefficients follows the contrast; denominators positive.
    Facts about i_l used: x i_(l-1)/i_l increases, and dI/x^2 decreases, with x."""
    sc, R, k = setup(h)
    ni, a = medium(h, 'i', False)
    ne, b = medium(h, 'e', False)
    x = k[0] * R
    Di, De = dI(h, l, x * ni), dI(h, l, x * ne)
    h.given(Di > l + 1)
    h.given(De > l + 1)
    r = sc.scattering(a, b).mie(h.arr(k[:1]), l, l, R)
    te, tm = (-1) ** l * r[0, 0, 0], (-1) ** l * r[1, 0, 0]
    if h.sym:
        h.given(h.Implies(ni > ne, h.And(Di > De, Di * ne * ne < De * ni * ni)))
        h.given(h.Implies(ni < ne, h.And(Di < De, Di * ne * ne > De * ni * ni)))
    h.true(h.Implies(ni > ne, h.And(te >= 0, tm <= 0)), 'denser sphere: TE and TM sign')
    h.true(h.Implies(ni < ne, h.And(te <= 0, tm >= 0)), 'lighter sphere: TE and TM sign')
    h.le(te, h.pi / 2, 'TE below the perfect conductor')
    h.le(-(h.pi / 2) * De / -dK(h, l, x * ne), tm, 'TM below the perfect conductor')


def pec_limit(h, l):
    """|coefficient - perfect conductor| <= delta * pi/2 once the sphere is dense enough"""
    sc, R, k = setup(h)
    ni, a = medium(h, 'i', False)
    ne, b = medium(h, 'e')
    d = h.pos('delta', smp=(0.01, 0.1))
    x = k[0] * R
    Di, De, Ke = dI(h, l, x * ni), dI(h, l, x * ne), -dK(h, l, x * ne)
    h.given(De > l + 1)
    if h.sym:
        h.given(Di >= x * ni - l)              # i_(l-1) >= i_l
        h.given(Di <= x * ni + l + 1)
        h.given(Di > 0)
    eps_e, mu_e = b.e, b.m
    h.assume((x * ni - l) * mu_e * d >= De + Ke)
    h.assume(ni * ni * Ke * Ke * d >= eps_e * (x * ni + l + 1) * (Ke + De))
    r = sc.scattering(a, b).mie(h.arr(k[:1]), l, l, R)
    p = sc.scattering(pec(h), b).mie(h.arr(k[:1]), l, l, R)
    h.eq(r[2], p[2], 'same scaling')
    for pol in (0, 1):
        diff = (r[pol, 0, 0] - p[pol, 0, 0]) * 2 / h.pi
        h.le(diff, d, 'pol %d above' % pol)
        h.le(-d, diff, 'pol %d below' % pol)


def witness_pec():
    return [{'R': 1.0, 'k0': 1.0, 'k1': 1.0, 'nk0': 1, 'ni': 4000.0, 'ne': 1.2, 'ze': 1.1, 'delta': 0.05}]


OBLIGATIONS = []
for ins in (False, True):
    t = 'int' if ins else 'ext'
    OBLIGATIONS += [Obligation('transparent-' + t, transparent, {'inside': ins, 'lmax': 8}, bounds='l<=8'),
                    Obligation('duality-' + t, duality, {'inside': ins, 'lmax': 8}, bounds='l<=8'),
                    Obligation('scale-' + t, scale, {'inside': ins, 'lmax': 8}, bounds='l<=8'),
                    Obligation('lmin-%s-2' % t, lmin_slice, {'inside': ins, 'lmin': 2, 'lmax': 8}, bounds='l<=8'),
                    Obligation('lmin-%s-4' % t, lmin_slice, {'inside': ins, 'lmin': 4, 'lmax': 4}, bounds='l=4')]
OBLIGATIONS += [Obligation('signs-%d' % l, signs, {'l': l}, bounds='l=%d' % l) for l in (1, 2, 3, 5, 8, 15, 30)]
OBLIGATIONS += [Obligation('pec-limit-%d' % l, pec_limit, {'l': l}, bounds='l=%d' % l, witness=witness_pec())
                for l in (1, 2, 3, 5, 12)]
ASSUMPTIONS = ['Bessel tables abstract (C01/C02); monotonicity facts about x i_(l-1)/i_l are assumed, not derived',
               'exact real arithmetic']
