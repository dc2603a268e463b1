"""C29: exchange of electric and magnetic response, and change of the background medium."""
import numpy as np

from engine.harness import Obligation
from props.C07 import radii as shells
from props.C12 import plain_balance
from props.C28 import block, radii, same_spectrum
from props.common import FMat, Mat, abstract_bessel, amplitude, pec


def body(h, x, disp=None):
    """arbitrary response; disp: list of wavenumbers at which it takes independent values"""
    n = h.pos('n' + x, smp=(0.7, 2.0))
    z = h.pos('z' + x, smp=(0.7, 1.6))
    if disp is None:
        return n / z, n * z
    more = [(n, z)] + [(h.pos('n%s%d' % (x, i), smp=(0.7, 2.0)), h.pos('z%s%d' % (x, i), smp=(0.7, 1.6)))
                       for i in range(1, len(disp))]
    return [a / b for a, b in more], [a * b for a, b in more]


def make(h, em):
    if em is None:
        return pec(h)
    return Mat(h, em[0], em[1])


def dual(em):
    return None if em is None else (em[1], em[0])


def over(a, b):
    if isinstance(a, list):
        return [x / y for x, y in zip(a, b)]
    return a / b


def relative(h, ems):
    """(bodies in vacuum with the contrasts, index of the medium)"""
    e, m = ems[-1]
    out = [None if b is None else (over(b[0], e), over(b[1], m)) for b in ems[:-1]]
    one = [h.frac(1)] * len(e) if isinstance(e, list) else h.frac(1)
    n = [h.sqrt(x * y) for x, y in zip(e, m)] if isinstance(e, list) else h.sqrt(e * m)
    return out + [(one, one)], n


def ks(h, n=2):
    return [h.pos('k%d' % j, smp=(0.3, 1.5)) for j in range(n)]


def times(n, k):
    return [a * b for a, b in zip(n, k)] if isinstance(n, list) else [n * x for x in k]


# -- single sphere ------------------------------------------------------------
def coefficients(h, which, ems, k, lmin, lmax, rs):
    mats = [make(h, e) for e in ems]
    sc = h.mod('scattering')
    ka = h.arr(k)
    if which == 'mie':
        return sc.scattering(*mats).mie(ka, lmin, lmax, rs[0])
    if which == 'internal':     # the reference medium is inside
        return sc.scattering(mats[1], mats[0]).mie_internal(ka, lmin, lmax, rs[0])
    if which == 'coated':
        return sc.coated_miescattering(*mats).mie_coated(ka, lmin, lmax, rs[0], rs[1])
    return h.mod('stratified_sphere_scattering').StratifiedMieScattering(mats, list(rs)).mie_stratified(ka, lmin, lmax)


LAYERS = {'mie': 1, 'internal': 1, 'coated': 2, 'strat2': 2, 'strat3': 3}


def value(h, which, c, pol, j, l, lmin):
    if which == 'internal':
        return c[pol, j, l - lmin] * h.exp(c[2, j, l - lmin])
    return amplitude(h, c, pol, j, l - lmin, l)


def sphere(h, which, what, lmin, lmax, core='m'):
    abstract_bessel(h)
    nl = LAYERS[which]
    k = ks(h, 2 if nl == 1 else 1)
    disp = k if nl == 1 else None
    ems = [body(h, 'abcd'[i], disp) for i in range(nl)] + [body(h, 'm', disp)]
    if core == 'pec':
        ems[0] = None
    rs = shells(h, nl)
    a = coefficients(h, which, ems, k, lmin, lmax, rs)
    if what == 'dual':
        b = coefficients(h, which, [dual(e) for e in ems], k, lmin, lmax, rs)
    else:
        rel, n = relative(h, ems)
        b = coefficients(h, which, rel, times(n, k), lmin, lmax, rs)
    for j in range(len(k)):
        for l in range(lmin, lmax + 1):
            for pol in (0, 1):
                q = 1 - pol if what == 'dual' else pol
                h.eq(value(h, which, b, q, j, l, lmin), value(h, which, a, pol, j, l, lmin),
                     '%s pol %d l=%d k%d' % (what, pol, l, j), atol=1e-13)


def static(h, interior, what, lmin, lmax, pc=False):
    em, ee = body(h, 'm'), None if pc else body(h, 'a')
    R = h.pos('R', smp=(0.4, 1.2))

    def get(a, m):
        s = h.mod('scattering').scattering(make(h, m), make(h, a)) if interior else \
            h.mod('scattering').scattering(make(h, a), make(h, m))
        return s.mie_internal_k0(lmin, lmax, R) if interior else s.mie_k0(lmin, lmax, R)
    a = get(ee, em)
    b = get(dual(ee), dual(em)) if what == 'dual' else get(*relative(h, [ee, em])[0])
    for l in range(lmin, lmax + 1):
        for pol in (0, 1):
            q = 1 - pol if what == 'dual' else pol
            h.eq(b[q, l - lmin] * h.exp(b[2, l - lmin]), a[pol, l - lmin] * h.exp(a[2, l - lmin]),
                 '%s pol %d l=%d' % (what, pol, l))


# -- plates --------------------------------------------------------------------
def fresnel(h, what, array=False):
    ems = [body(h, 'a'), body(h, 'm')]
    q, k = h.pos('q', smp=(0.1, 2)), h.pos('k0', smp=(0.1, 2))
    f = lambda e, x: h.mod('scattering').scattering(*[make(h, y) for y in e]).fresnel(q, h.arr([x]) if array else x)
    a = f(ems, k)
    if what == 'dual':
        b = f([dual(e) for e in ems], k)[::-1]
    else:
        rel, n = relative(h, ems)
        b = f(rel, n * k)
    for p, t in enumerate(('TE', 'TM')):
        h.eq(np.ravel(b[p])[0] if array else b[p], np.ravel(a[p])[0] if array else a[p], '%s %s' % (what, t))


def plates(h, what, modname, pecs=''):
    ems = [None if x in pecs else body(h, x) for x in 'ab'] + [body(h, 'm')]
    q, k, L = h.pos('q', smp=(0.1, 2)), h.pos('k0', smp=(0.1, 2)), h.pos('L', smp=(0.2, 1))
    P = lambda e: h.mod(modname).SphereSpherePFA(*[make(h, y) for y in e])
    A = P(ems)
    if what == 'dual':
        Bb, kb = P([dual(e) for e in ems]), k
    else:
        rel, n = relative(h, ems)
        Bb, kb = P(rel), n * k
    for name in ('roundTrips', 'pressureRoundTrips'):
        a, b = getattr(A, name)(q, k, L), getattr(Bb, name)(q, kb, L)
        if what == 'dual':
            b = b[::-1]
        for p, t in enumerate(('TE', 'TM')):
            h.eq(b[p], a[p], '%s %s %s' % (what, name, t))


# -- translation and round trip ----------------------------------------------------
def shift(h, what, lmax, lss, m, ext):
    abstract_bessel(h)
    em = body(h, 'm')
    L, k = h.pos('L', smp=(0.5, 2)), ks(h, 1)
    T = lambda e, x: h.mod('translation').translation(lmax, lss, m, make(h, e), L, h.arr(x), ext).trans_ab()
    a = T(em, k)
    if what == 'dual':
        b = T(dual(em), k)
    else:
        rel, n = relative(h, [em])
        b = T(rel[0], [n * k[0]])
    for i in range(4):
        h.eq([[b[i][0, x, y] * h.exp(b[4][0, x, y]) for y in range(a[i].shape[2])] for x in range(a[i].shape[1])],
             [[a[i][0, x, y] * h.exp(a[4][0, x, y]) for y in range(a[i].shape[2])] for x in range(a[i].shape[1])],
             '%s table %d' % (what, i), atol=1e-14)


def geometries(h, ext, kinds, what, N, lss):
    r1, r2, L = radii(h, ext)
    ems = [None if s == 'pec' else body(h, x) for x, s in zip('ab', kinds)] + [body(h, 'm')]
    S = h.mod('geometry').SphereSphere
    G = lambda e: S(r1, r2, L, *[make(h, x) for x in e], lmax=N, lssmax=lss, precision=1e-12)
    if what == 'dual':
        return G(ems), G([dual(e) for e in ems]), h.frac(1)
    rel, n = relative(h, ems)
    return G(ems), G(rel), n


def trip(h, what, ext, kinds, N, lss, m):
    abstract_bessel(h)
    A, Bb, n = geometries(h, ext, kinds, what, N, lss)
    k = h.pos('k0', smp=(0.3, 1.5))
    a, b = A.blockmatrices(m, h.arr([k])), Bb.blockmatrices(m, h.arr([n * k]))
    if what == 'dual':
        h.eq(b[3], a[0], 'electric block becomes the magnetic one', atol=1e-30)
        h.eq(b[0], a[3], 'magnetic block becomes the electric one', atol=1e-30)
        for x in range(len(a[1][0])):
            for y in range(len(a[1][0])):
                h.eq(b[1][0][x][y] * b[2][0][y][x], a[1][0][y][x] * a[2][0][x][y], 'mixing', atol=1e-30)
        if len(a[0][0]) == 1:
            same_spectrum(h, block(b, 0), block(a, 0), 2, 'round trip', atol=1e-30)
    else:
        for i, t in enumerate(('EE', 'EM', 'ME', 'MM')):
            h.eq(b[i], a[i], 'block ' + t, atol=1e-30)


def trip_k0(h, what, ext, kinds, N, lss, m):
    A, Bb, n = geometries(h, ext, kinds, what, N, lss)
    a, b = A.blockmatrices_k0(m), Bb.blockmatrices_k0(m)
    for i, t in enumerate(('TE', 'TM')):
        h.eq(b[1 - i if what == 'dual' else i], a[i], 'block ' + t, atol=1e-30)


def energy(h, what, kinds, N):
    """the sum over m of one round trip"""
    plain_balance(h)
    abstract_bessel(h)
    A, Bb, n = geometries(h, True, kinds, what, N, N)
    k = h.pos('k0', smp=(0.3, 1.5))
    h.eq(Bb.mSum_oneRoundtrip(h.arr([n * k])), A.mSum_oneRoundtrip(h.arr([k])), 'single round trip', atol=1e-30)


OBLIGATIONS = []


def add(name, fn, tier='quick', **kw):
    o = {x: kw.pop(x) for x in list(kw) if x in ('timeout', 'query_ms', 'max_paths', 'tol', 'points', 'split_log', 'bounds')}
    OBLIGATIONS.append(Obligation(name, fn, kw, tier=tier, **o))


for what in ('dual', 'relative'):
    for lmin, lmax in ((1, 3), (3, 3)):
        for which in ('mie', 'internal'):
            add('%s_%s_%d_%d' % (what, which, lmin, lmax), sphere, which=which, what=what, lmin=lmin, lmax=lmax)
    add('%s_coated' % what, sphere, which='coated', what=what, lmin=1, lmax=2)
    add('%s_strat2' % what, sphere, which='strat2', what=what, lmin=1, lmax=2)
    add('%s_strat3' % what, sphere, which='strat3', what=what, lmin=1, lmax=1)
    for interior in (False, True):
        add('%s_static_%s' % (what, 'int' if interior else 'ext'), static, interior=interior, what=what, lmin=1, lmax=4)
    add('%s_fresnel' % what, fresnel, what=what)
    add('%s_fresnel_arr' % what, fresnel, what=what, array=True)
    for mod in ('PFA', 'raw_PFA'):
        add('%s_plates_%s' % (what, mod), plates, what=what, modname=mod, split_log=True)
    for ext in (0, 1):
        for lmax, lss, m in ((2, 3, 0), (2, 3, 1), (3, 3, 2)):
            add('%s_shift_%s_%d%d_m%d' % (what, 'ext' if ext else 'int', lmax, lss, m), shift, what=what, lmax=lmax, lss=lss,
                m=m, ext=ext)
for which in ('mie', 'internal', 'coated', 'strat2'):
    if which != 'internal':
        add('relative_%s_pec' % which, sphere, which=which, what='relative', lmin=1, lmax=2, core='pec')
for interior in (False, True):
    add('relative_static_%s_pec' % ('int' if interior else 'ext'), static, interior=interior, what='relative', lmin=1, lmax=4,
        pc=True)
for p in ('a', 'b', 'ab'):
    for mod in ('PFA', 'raw_PFA'):
        add('relative_plates_%s_%s' % (mod, p), plates, what='relative', modname=mod, pecs=p, split_log=True)
for ext in (1, 0):
    e = 'ext' if ext else 'int'
    for what, kk in (('dual', (('m', 'm'),)), ('relative', (('m', 'm'), ('pec', 'm'), ('m', 'pec')))):
        for kinds in kk:
            t = '%s_trip_%s_%s' % (what, e, '_'.join(kinds))
            for m in (0, 1):
                add('%s_m%d' % (t, m), trip, what=what, ext=ext, kinds=kinds, N=1, lss=2, m=m)
                add('%s_k0_m%d' % (t, m), trip_k0, what=what, ext=ext, kinds=kinds, N=2, lss=3, m=m)
            add('%s_m2' % t, trip, what=what, ext=ext, kinds=kinds, N=2, lss=2, m=2)
for what in ('dual', 'relative'):
    add('%s_energy' % what, energy, what=what, kinds=('m', 'm'), N=1)
ASSUMPTIONS = ['Bessel functions are arbitrary positive functions of their argument, equal for equal arguments']
OUTSIDE = ('free carriers at zero frequency and perfect conductors in the exchange of electric and magnetic response, more than '
           'three shells, orders above the bounds, floating-point rounding')
HOW = """The same symbolic bodies are given to the real code twice: with permittivity and permeability exchanged everywhere, or with
all responses divided by those of the medium and the wavenumber multiplied by its index.  Mie tables (finite, static,
interior, coated, stratified), Fresnel coefficients, round-trip integrands of both proximity-force modules,
translation tables and round-trip blocks of the two runs are compared for all values of radii, distances,
wavenumbers, permittivities and permeabilities."""
