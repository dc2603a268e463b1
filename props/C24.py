"""C24: automatic truncation."""
from engine.harness import Obligation
from props.common import pec


def is_int(h, x):
    if not h.sym:
        import numpy as np
        return isinstance(x, (int, np.integer)) and not isinstance(x, bool)
    from engine.sym import S, is_int_valued
    return is_int_valued(x) if isinstance(x, S) else isinstance(x, int)


def config(h, ext, sx='', far=False):
    """smaller radius s, larger one b, centre distance d with gap g"""
    s, x = h.pos('s', smp=(0.5, 1.5)), h.pos('x', smp=(0.1, 1))
    g = h.pos('g' + sx, smp=(0.1, 2) if not far else (60, 80))
    b = s + x
    if not ext:
        b = b + g + h.pos('y', smp=(0.1, 1))
    return s, b, (s + b + g if ext else b - s - g), g


def prec(h, name='v'):
    """an arbitrary precision below one: p = 10^(-100 v / 33), v > 0"""
    v = h.pos(name, smp=(0.1, 2) if name == 'v' else (2, 4))
    return h.exp(-v * h.frac(100, 33) * h.log(h.frac(10)))


def lmax_basic(h, ext, far=False):
    gm = h.mod('geometry')
    s, b, d, g = config(h, ext, far=far)
    if far:
        h.given(g >= 30 * s)
    else:
        h.given(g < 30 * s)
    p = prec(h)
    off = h.integer('off', -3, 20)
    n = gm.get_lmax(s, b, d, p, off)
    h.true(is_int(h, n), 'lmax is an integer')
    h.le(1, n, 'lmax >= 1')
    h.eq(gm.get_lmax(b, s, d, p, off), n, 'order of the spheres')
    if not far:
        h.le(off, n, 'the offset is included')
        j = h.integer('j', 1, 5)
        o1 = h.integer('o1', 1, 20)
        h.eq(gm.get_lmax(s, b, d, p, o1 + j), gm.get_lmax(s, b, d, p, o1) + j, 'the offset is added on top')


def lmax_precision(h, ext):
    gm = h.mod('geometry')
    s, b, d, g = config(h, ext)
    p = prec(h)
    off = h.integer('off', 0, 10)
    h.given(h.pos('v2', smp=(2, 4)) > h.pos('v', smp=(0.1, 2)))
    q = prec(h, 'v2')        # a smaller (better) precision
    h.le(gm.get_lmax(s, b, d, p, off), gm.get_lmax(s, b, d, q, off), 'more precision never means fewer orders')


def lmax_gap(h, ext):
    gm = h.mod('geometry')
    s, x = h.pos('s', smp=(0.5, 1.5)), h.pos('x', smp=(0.1, 1))
    g, e = h.pos('g', smp=(0.1, 1)), h.pos('e', smp=(0.1, 2))
    p = prec(h)
    off = h.integer('off', 1, 10)
    if ext:
        b = s + x
        d1, d2 = s + b + g, s + b + g + e
    else:
        b = s + x + g + e
        d1, d2 = x + e, x
    h.le(gm.get_lmax(s, b, d2, p, off), gm.get_lmax(s, b, d1, p, off), 'a smaller gap never means fewer orders')


def lmax_scale(h, ext):
    gm = h.mod('geometry')
    s, b, d, g = config(h, ext)
    p = prec(h)
    c = h.pos('c', smp=(0.5, 3))
    off = h.integer('off', 1, 10)
    h.eq(gm.get_lmax(s * c, b * c, d * c, p, off), gm.get_lmax(s, b, d, p, off), 'independent of the unit of length')


def make(h, r1, r2, d, **kw):
    gm, mt = h.mod('geometry'), h.mod('materials')
    return gm.SphereSphere(r1, r2, d, mt.Gold, mt.Gold, mt.Vacuum, **kw)


def sphere(h, ext, layered):
    gm, mt = h.mod('geometry'), h.mod('materials')
    s, b, d, g = config(h, ext)
    p = prec(h)
    off = h.integer('off', 1, 10)
    i1, i2 = s * h.frac(1, 2), b * h.frac(1, 3)
    A, Bb = ([i1, s], [i2, b]) if layered else (s, b)
    mA = [mt.Gold, mt.Silver] if layered else mt.Gold
    G = gm.SphereSphere(A, Bb, d, mA, mA, mt.Vacuum, l_offset=off, precision=p)
    want = gm.get_lmax(s, b, d, p, off)
    h.eq(G.lmax, want, 'automatic lmax follows outer radii, distance, precision and offset')
    h.true(is_int(h, G.lmax) and is_int(h, G.lssmax), 'integers')
    h.le(G.lmax, G.lssmax, 'lssmax >= lmax')
    h.lt(b * want - s, G.lssmax * s, 'lssmax is the scaled order, rounded down (1)')
    h.le(G.lssmax * s, b * want, 'lssmax is the scaled order, rounded down (2)')
    H = gm.SphereSphere(Bb, A, d, mA, mA, mt.Vacuum, l_offset=off, precision=p)
    h.eq(H.lmax, G.lmax, 'order of the spheres (lmax)')
    h.eq(H.lssmax, G.lssmax, 'order of the spheres (lssmax)')
    for X in (G, H):
        h.true(bool(X.ext_flag) == bool(ext), 'exterior or interior')
        h.true(X.L == d, 'distance kept')
    # explicit values win
    n, m = h.integer('n', 1, 30), h.integer('m', 1, 40)
    for kw in ({'lmax': n, 'lssmax': m}, {'lmax': n}, {'lssmax': m}):
        X = gm.SphereSphere(A, Bb, d, mA, mA, mt.Vacuum, l_offset=off, precision=p, **kw)
        h.eq(X.lmax, n if 'lmax' in kw else want, 'explicit lmax')
        if 'lssmax' in kw:
            h.eq(X.lssmax, m, 'explicit lssmax')
        else:
            h.lt(b * n - s, X.lssmax * s, 'automatic lssmax for explicit lmax (1)')
            h.le(X.lssmax * s, b * n, 'automatic lssmax for explicit lmax (2)')
        h.true(bool(X.ext_flag) == bool(ext), 'exterior or interior')
    h.eq(G.precision, p, 'precision kept')


def evaluation(h):
    gm, mt = h.mod('geometry'), h.mod('materials')
    s, b, d, g = config(h, True)
    h.raises(lambda: make(h, s, b, d, lmax=1, evaluation='det'), ValueError, 'unknown kind of evaluation')


def coated(h, ext):
    gm, mt = h.mod('geometry'), h.mod('materials')
    s, b, d, g = config(h, ext)
    n, m = h.integer('n', 1, 30), h.integer('m', 1, 40)
    G = gm.CoatedSphereSphere(s * h.frac(1, 2), s, mt.Gold, mt.Silver, b * h.frac(1, 2), b, mt.Gold, mt.Silver, d, mt.Vacuum, n, m)
    h.eq(G.lmax, n, 'explicit lmax')
    h.eq(G.lssmax, m, 'explicit lssmax')
    h.true(bool(G.ext_flag) == bool(ext), 'exterior or interior follows the outer radii')


def thermo(h, a, b, d, dT, n, layered=False, nmax='automatic'):
    gm, th, mt = h.mod('geometry'), h.mod('thermodynamics'), h.mod('materials')
    m = [mt.Gold, mt.Silver] if layered else mt.Gold
    A, Bb = ([a * h.frac(1, 2), a], [b * h.frac(1, 2), b]) if layered else (a, b)
    G = gm.SphereSphere(A, Bb, d, m, m, mt.Vacuum, lmax=n, lssmax=n)
    f = th.finiteT(dT, nmax, dT, G)
    return f.nmax


def matsubara(h, ext, layered=False):
    s, b, d, g = config(h, ext)
    dT = h.pos('dT', smp=(0.2, 1))
    n = h.integer('n', 1, 40)
    v = thermo(h, s, b, d, dT, n, layered)
    h.true(is_int(h, v), 'nmax is an integer')
    h.le(1, v, 'nmax >= 1')
    h.eq(thermo(h, b, s, d, dT, n, layered), v, 'order of the spheres')
    if layered:
        h.eq(thermo(h, s, b, d, dT, n), v, 'outer radii decide')
    k = h.integer('k', 1, 200)
    h.eq(thermo(h, s, b, d, dT, n, layered, k), k, 'explicit nmax')


def matsubara_precision(h, ext):
    s, b, d, g = config(h, ext)
    dT = h.pos('dT', smp=(0.2, 1))
    # (any number of orders >= 1, not only integers)
    n, j = h.pos('n', lo=1, smp=(1, 40)), h.pos('j', smp=(0.5, 10))
    h.le(thermo(h, s, b, d, dT, n), thermo(h, s, b, d, dT, n + j), 'more orders never mean fewer frequencies')


OBLIGATIONS = []
for e, t in ((True, 'ext'), (False, 'int')):
    def add(n, f, **p):
        OBLIGATIONS.append(Obligation('%s-%s' % (n, t), f, dict(ext=e, **p), points=2, timeout=300, max_paths=300))
    add('lmax', lmax_basic)
    add('lmax-far', lmax_basic, far=True)
    add('precision', lmax_precision)
    add('gap', lmax_gap)
    add('scale', lmax_scale)
    add('sphere', sphere, layered=False)
    add('layered', sphere, layered=True)
    add('coated', coated)
    add('matsubara', matsubara)
    add('matsubara-layered', matsubara, layered=True)
    add('matsubara-orders', matsubara_precision)
OBLIGATIONS.append(Obligation('evaluation', evaluation, {}, points=1))
OUTSIDE = 'touching spheres; whether the truncation is accurate enough; rounding at integer boundaries'
