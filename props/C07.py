"""C07: coated and stratified spheres."""
from engine.harness import Obligation
from props.common import Mat, abstract_bessel, amplitude, bi, bk, dI, dK, mie_oracle, pec


def medium(h, name, mu=True):
    n = h.pos('n' + name, smp=(0.7, 2.0))
    if not mu:
        return Mat(h, n * n, h.arr([1])[0], n=n)
    z = h.pos('z' + name, smp=(0.7, 1.6))
    return Mat(h, n / z, n * z, n=n)


def layered(h, l, pol, k, mats, radii):
    """T of the layered sphere: propagate the logarithmic derivative outwards"""
    p = [None if m.is_perfect_conductor else (m.m if pol == 0 else m.e) for m in mats]
    name = 'TE' if pol == 0 else 'TM'
    if p[0] is None:
        T = mie_oracle(h, l, None, k * radii[0] * mats[1].n, None, name)
    else:
        T = mie_oracle(h, l, k * radii[0] * mats[0].n, k * radii[0] * mats[1].n, p[0], p[1])
    for i in range(1, len(radii)):
        x, y = k * radii[i] * mats[i].n, k * radii[i] * mats[i + 1].n
        I, K = bi(h, l, x), bk(h, l, x)
        num = I * dI(h, l, x) + T * K * dK(h, l, x)
        den = I + T * K
        pi, pe = p[i], p[i + 1]
        T = -bi(h, l, y) * (pe * num - pi * dI(h, l, y) * den) / (
            bk(h, l, y) * (pe * num - pi * dK(h, l, y) * den))
    return T


def step(h, l, pol, k, r, inner, outer, T):
    """one more interface at radius r: T is the amplitude of everything inside, placed in the inner medium"""
    x, y = k * r * inner.n, k * r * outer.n
    pi, pe = (inner.m, outer.m) if pol == 0 else (inner.e, outer.e)
    a = bi(h, l, x) + T * bk(h, l, x)
    b = bi(h, l, x) * dI(h, l, x) + T * bk(h, l, x) * dK(h, l, x)
    return -bi(h, l, y) * (pe * b - pi * dI(h, l, y) * a) / (bk(h, l, y) * (pe * b - pi * dK(h, l, y) * a))


def radii(h, n):
    r = [h.pos('r0', smp=(0.4, 0.8))]
    for i in range(1, n):
        r.append(r[-1] + h.pos('d%d' % i, smp=(0.1, 0.5)))
    return r


def compare(h, m, l, lmin, k, mats, rs, tag):
    for j in range(len(k)):
        for pol in (0, 1):
            h.eq(amplitude(h, m, pol, j, l - lmin, l), layered(h, l, pol, k[j], mats, rs),
                 '%s pol %d l=%d k%d' % (tag, pol, l, j), atol=1e-13)


def solve(h, how, core, coat, rest, ka, lmin, lmax, rs):
    mats = [core, coat] + rest
    if how == 'coated':
        c = h.mod('scattering').coated_miescattering(core, coat, rest[0])
        return c.mie_coated(ka, lmin, lmax, rs[0], rs[1])
    return h.mod('stratified_sphere_scattering').StratifiedMieScattering(mats, rs).mie_stratified(ka, lmin, lmax)


def general(h, how, layers, lmin, lmax, core='m', nk=1, mu=True):
    abstract_bessel(h)
    k = [h.pos('k%d' % j, smp=(0.4, 1.5)) for j in range(nk)]
    mats = [pec(h) if core == 'pec' else medium(h, 'c', mu)] + [medium(h, '%d' % i, mu) for i in range(layers)]
    rs = radii(h, layers)
    r = solve(h, how, mats[0], mats[1], mats[2:], h.arr(k), lmin, lmax, list(rs))
    h.shape(r, (3, nk, lmax - lmin + 1), 'coefficients')
    for l in range(lmin, lmax + 1):
        compare(h, r, l, lmin, k, mats, rs, how)


def simple(h, core, med, ka, lmin, lmax, R):
    return h.mod('scattering').scattering(core, med).mie(ka, lmin, lmax, R)


def same(h, a, b, lmin, lmax, tag):
    for j in range(a.shape[1]):
        for l in range(lmin, lmax + 1):
            for pol in (0, 1):
                h.eq(amplitude(h, a, pol, j, l - lmin, l), amplitude(h, b, pol, j, l - lmin, l),
                     '%s pol %d l=%d' % (tag, pol, l), atol=1e-13)


def reductions(h, how, which, lmin, lmax, clone):
    """which: core (coating = core material), medium (coating = medium), with equal objects or
    distinct objects of the same response"""
    abstract_bessel(h)
    ka = h.arr([h.pos('k%d' % j, smp=(0.4, 1.5)) for j in range(2)])
    core, med = medium(h, 'c'), medium(h, 'm')
    cp = lambda m: Mat(h, m.e, m.m, n=m.n) if clone else m
    rs = radii(h, 2)
    coat = cp(core if which == 'core' else med)
    r = solve(h, how, core, coat, [med], ka, lmin, lmax, list(rs))
    s = simple(h, core, med, ka, lmin, lmax, rs[1] if which == 'core' else rs[0])
    same(h, r, s, lmin, lmax, 'coating of the %s' % which)


def merge(h, which, clone, lmax):
    """two adjacent equal layers = one layer (stratified, three radii)"""
    abstract_bessel(h)
    ka = h.arr([h.pos('k0', smp=(0.4, 1.5))])
    core, coat, med = medium(h, 'c'), medium(h, 's'), medium(h, 'm')
    cp = lambda m: Mat(h, m.e, m.m, n=m.n) if clone else m
    rs = radii(h, 3)
    S = h.mod('stratified_sphere_scattering').StratifiedMieScattering
    if which == 'core':
        r = S([core, cp(core), coat, med], list(rs)).mie_stratified(ka, 1, lmax)
        s = S([core, coat, med], [rs[1], rs[2]]).mie_stratified(ka, 1, lmax)
    elif which == 'coat':
        r = S([core, coat, cp(coat), med], list(rs)).mie_stratified(ka, 1, lmax)
        s = S([core, coat, med], [rs[0], rs[2]]).mie_stratified(ka, 1, lmax)
    elif which == 'medium':
        r = S([core, coat, cp(med), med], list(rs)).mie_stratified(ka, 1, lmax)
        s = S([core, coat, med], [rs[0], rs[1]]).mie_stratified(ka, 1, lmax)
    else:       # all outer layers are the medium
        r = S([core, cp(med), cp(med), med], list(rs)).mie_stratified(ka, 1, lmax)
        s = simple(h, core, med, ka, 1, lmax, rs[0])
    same(h, r, s, 1, lmax, 'merged ' + which)


def outermost(h, layers, lmin, lmax, core='m', nk=1, mu=True, last=None):
    """the outermost interface of a sphere with many layers: the amplitude follows from that of the sphere without
    it, placed in the outermost layer's material, whatever that amplitude is"""
    abstract_bessel(h)
    k = [h.pos('k%d' % j, smp=(0.4, 1.5)) for j in range(nk)]
    mats = [pec(h) if core == 'pec' else medium(h, 'c', mu)] + [medium(h, '%d' % i, mu) for i in range(layers)]
    rs = radii(h, layers)
    if last == 'core':
        mats[-1] = mats[0]
    elif last == 'coat':
        mats[-1] = mats[1]
    S = h.mod('stratified_sphere_scattering').StratifiedMieScattering
    full = S(list(mats), list(rs)).mie_stratified(h.arr(k), lmin, lmax)
    part = S(list(mats[:-1]), list(rs[:-1])).mie_stratified(h.arr(k), lmin, lmax)
    h.shape(full, (3, nk, lmax - lmin + 1), 'coefficients')
    full, g = h.generalize(part[:2], full, part)
    for j in range(nk):
        for l in range(lmin, lmax + 1):
            for pol in (0, 1):
                T = amplitude(h, g, pol, j, l - lmin, l)
                h.eq(amplitude(h, full, pol, j, l - lmin, l), step(h, l, pol, k[j], rs[-1], mats[-2], mats[-1], T),
                     'outermost interface pol %d l=%d k%d' % (pol, l, j), atol=1e-13)


def many(h, pattern, lmax, clone):
    """adjacent equal layers count as one, however many there are: pattern names the material of every region"""
    abstract_bessel(h)
    ka = h.arr([h.pos('k0', smp=(0.4, 1.5))])
    mats = {c: medium(h, c, False) for c in sorted(set(pattern))}
    cp = lambda m: Mat(h, m.e, m.m, n=m.n) if clone else m
    rs = radii(h, len(pattern) - 1)
    S = h.mod('stratified_sphere_scattering').StratifiedMieScattering
    r = S([cp(mats[c]) for c in pattern], list(rs)).mie_stratified(ka, 1, lmax)
    keep = [i for i in range(len(rs)) if pattern[i] != pattern[i + 1]]
    s = S([mats[pattern[i]] for i in keep] + [mats[pattern[-1]]], [rs[i] for i in keep]).mie_stratified(ka, 1, lmax)
    same(h, r, s, 1, lmax, 'layers ' + pattern)


def bare(h, lmin, lmax):
    abstract_bessel(h)
    ka = h.arr([h.pos('k%d' % j, smp=(0.4, 1.5)) for j in range(2)])
    core, med = medium(h, 'c'), medium(h, 'm')
    R = h.pos('R', smp=(0.4, 1))
    S = h.mod('stratified_sphere_scattering').StratifiedMieScattering
    h.eq(S([core, med], [R]).mie_stratified(ka, lmin, lmax), simple(h, core, med, ka, lmin, lmax, R), 'bare sphere')


def untouched(h, tail):
    """arguments keep their contents and repeated calls agree"""
    abstract_bessel(h)
    ka = h.arr([h.pos('k0', smp=(0.4, 1.5))])
    core, coat, med = medium(h, 'c', False), medium(h, 's', False), medium(h, 'm', False)
    mats = {'plain': [core, coat, med], 'medium': [core, coat, med, med], 'two': [core, med, med, med],
            'short': [core, med, med]}[tail]
    rs = radii(h, len(mats) - 1)
    m1, r1 = list(mats), list(rs)
    S = h.mod('stratified_sphere_scattering').StratifiedMieScattering(m1, r1)
    a = S.mie_stratified(ka, 1, 2)
    h.true(len(m1) == len(mats) and all(x is y for x, y in zip(m1, mats)), 'material list unchanged')
    h.true(len(r1) == len(rs), 'radius list unchanged')
    for x, y in zip(r1, rs):
        h.eq(x, y, 'radius unchanged')
    b = S.mie_stratified(ka, 1, 2)
    h.eq(a, b, 'second call agrees')
    c = h.mod('stratified_sphere_scattering').StratifiedMieScattering(m1, r1).mie_stratified(ka, 1, 2)
    h.eq(a, c, 'new object agrees')


OBLIGATIONS = []
for how in ('coated', 'strat'):
    OBLIGATIONS += [Obligation('%s-%d-%d-%s' % (how, a, b, c), general,
                               {'how': how, 'layers': 2, 'lmin': a, 'lmax': b, 'core': c, 'nk': n},
                               bounds='one coating, orders %d..%d, %d wavenumber(s)' % (a, b, n))
                    for a, b, c, n in ((1, 1, 'm', 2), (1, 3, 'm', 1), (2, 3, 'm', 1), (1, 2, 'pec', 1), (3, 3, 'pec', 2), (6, 6, 'm', 2), (12, 12, 'm', 1), (25, 25, 'm', 1), (10, 10, 'pec', 1))]
    OBLIGATIONS += [Obligation('%s-is-%s-%s' % (how, w, 'clone' if c else 'same'), reductions,
                               {'how': how, 'which': w, 'lmin': 1, 'lmax': 2, 'clone': c}, bounds='orders 1..2')
                    for w in ('core', 'medium') for c in (False, True)]
OBLIGATIONS += [Obligation('layers-3-l%d%s' % (l, t), general, {'how': 'strat', 'layers': 3, 'lmin': l, 'lmax': l, 'mu': m,
                                                          'core': c}, bounds='two coatings, l=%d' % l)
                for l, t, m, c in ((1, '', False, 'm'), (2, '', False, 'm'), (2, '-pec', True, 'pec'), (6, '', False, 'm'), (12, '-pec', False, 'pec'), (1, '-mu', True, 'm'))]
OBLIGATIONS += [Obligation('outer-%d-%d-%d%s%s' % (n, a, b, '-pec' if c == 'pec' else '', '-' + t if t else ''), outermost,
                           {'layers': n, 'lmin': a, 'lmax': b, 'core': c, 'nk': q, 'last': t},
                           bounds='%d coatings, orders %d..%d, %d wavenumber(s)' % (n - 1, a, b, q))
                for n, a, b, c, q, t in ((2, 1, 2, 'm', 1, None), (3, 1, 2, 'm', 2, None), (4, 1, 2, 'm', 1, None),
                                         (4, 2, 3, 'pec', 1, None), (5, 1, 1, 'm', 1, None), (6, 1, 1, 'pec', 2, None),
                                         (8, 2, 2, 'm', 1, None), (4, 9, 9, 'm', 1, None), (12, 1, 1, 'm', 1, None),
                                         (3, 1, 2, 'm', 1, 'core'), (4, 1, 1, 'm', 1, 'coat'), (5, 1, 1, 'm', 1, 'core'), (4, 1, 6, 'm', 2, None), (5, 1, 4, 'pec', 2, None), (3, 50, 50, 'm', 1, None),
                                         (20, 1, 2, 'm', 1, None), (16, 3, 3, 'pec', 1, 'coat'))]
OBLIGATIONS += [Obligation('many-%s-%s' % (w, 'clone' if c else 'same'), many, {'pattern': w, 'clone': c, 'lmax': 1},
                           bounds='%d coatings, order 1' % (len(w) - 2))
                for w, c in (('cccsm', False), ('cccsm', True), ('csmmm', False), ('csmmm', True), ('csmmmmm', False),
                             ('ccccccm', False), ('ccccccm', True), ('cmmmmmm', False))]
OBLIGATIONS += [Obligation('merge-%s-%s' % (w, 'clone' if c else 'same'), merge, {'which': w, 'clone': c, 'lmax': 2},
                           bounds='two coatings, orders 1..2')
                for w in ('core', 'coat', 'medium', 'all') for c in (False, True)]
OBLIGATIONS += [Obligation('bare', bare, {'lmin': 1, 'lmax': 3}, bounds='orders 1..3'),
                Obligation('bare-2', bare, {'lmin': 2, 'lmax': 3}, bounds='orders 2..3')]
OBLIGATIONS += [Obligation('untouched-' + t, untouched, {'tail': t}, bounds='orders 1..2')
                for t in ('plain', 'medium', 'two', 'short')]
ASSUMPTIONS = ['Bessel tables abstract (C01/C02)', 'exact real arithmetic',
               'perfect conductors only as the core']
