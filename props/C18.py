"""C18: classification of materials from their oscillator parameters."""
from engine.harness import Obligation
from props.C17 import TABLE


def zero(h, x):
    return x == 0


def flags(h, n, smith=False, two=False):
    """n oscillators with arbitrary non-negative parameters: every pattern of vanishing strength,
    resonance and damping is one symbolic case"""
    mt = h.mod('materials')
    props = [tuple(h.real(c + str(i), lo=0, smp=(-1.0, 1.5)) for c in 'wrg') for i in range(n)]
    if not h.sym:
        props = [tuple(max(x, 0) for x in p) for p in props]
    kind = list if two else tuple
    M = (mt.LorentzSmithMaterial if smith else mt.LorentzMaterial)([kind(p) for p in props], ())
    static = [h.And(h.Not(zero(h, w)), zero(h, r)) for w, r, g in props]
    free = [h.And(s, zero(h, g)) for s, (w, r, g) in zip(static, props)]
    dielectric = h.Not(h.Or(*static)) if n else True
    finite = h.Not(h.Or(*free)) if n else True
    for obj, what in ((M, 'material'), (None, 'function')):
        d = M.is_dielectric if obj else mt.is_dielectric([kind(p) for p in props])
        s = M.is_sigma_finite if obj else mt.is_sigma_finite([kind(p) for p in props])
        h.true(dielectric if d else h.Not(dielectric), '%s: dielectric flag' % what)
        h.true(finite if s else h.Not(finite), '%s: finite conductivity flag' % what)
        h.true(bool(s) or not d, '%s: a dielectric has no undamped carriers' % what)
    h.true(not M.is_perfect_conductor, 'not a perfect conductor')
    h.true(not M.is_magnetic, 'non-magnetic without magnetic parameters')


def order(h, n):
    """the flags do not depend on the order of the oscillators"""
    mt = h.mod('materials')
    props = [tuple(h.real(c + str(i), lo=0, smp=(-1.0, 1.5)) for c in 'wrg') for i in range(n)]
    if not h.sym:
        props = [tuple(max(x, 0) for x in p) for p in props]
    a, b = props, props[::-1]
    h.true(bool(mt.is_dielectric(a)) == bool(mt.is_dielectric(b)), 'dielectric flag')
    h.true(bool(mt.is_sigma_finite(a)) == bool(mt.is_sigma_finite(b)), 'conductivity flag')


def static(h, spec):
    """a dielectric has a finite static permittivity: 1 + sum wP^2/wR^2 is approached and never exceeded"""
    from props.common import lorentz
    M, eps0, wp, mu0 = lorentz(h, 'a', spec)
    k = h.pos('k', smp=(0.01, 3))
    e = M.epsilon(h.arr([k]))[0]
    if M.is_dielectric:
        h.le(e, eps0, 'permittivity bounded by its static value')
        h.true(eps0 is not None, 'static permittivity finite')
        z = M.epsilon(h.iarr([0]))[0]
        h.eq(z, eps0, 'static permittivity')
    else:
        h.true(eps0 is None, 'static permittivity diverges')
        # faster than any bound: eps k >= wP^2/(k + gamma) for one carrier type
        h.true(e > 1, 'conducting')


def magnetic(h):
    mt = h.mod('materials')
    mu0 = h.real('mu0', lo=0, smp=(-1, 2))
    if not h.sym:
        mu0 = max(mu0, 0)
    wm = h.pos('wm')
    for cls in (mt.LorentzMaterial, mt.LorentzSmithMaterial):
        M = cls([(h.pos('w'), 0, h.pos('g'))], (mu0, wm))
        h.true(h.Not(zero(h, mu0)) if M.is_magnetic else zero(h, mu0), 'magnetic flag')
        h.true(not cls([(h.pos('w'), 0, h.pos('g'))], ()).is_magnetic, 'no magnetic parameters')


def predefined(h):
    mt = h.mod('materials')
    for n, osc in sorted(TABLE.items()):
        M = getattr(mt, n)
        d = all(o[1] != 0 for o in osc)
        f = all(o[2] != 0 for o in osc if o[1] == 0)
        h.true(bool(M.is_dielectric) == d, n + ' dielectric flag')
        h.true(bool(M.is_sigma_finite) == f, n + ' conductivity flag')
        h.true(bool(M.is_magnetic) == (n == 'Gold_magnetic'), n + ' magnetic flag')
        h.true(not M.is_perfect_conductor, n + ' perfect conductor flag')
        h.true(M.name == n, n + ' name')
    P = mt.PerfectConductor
    h.true(P.is_perfect_conductor and not P.is_sigma_finite and not P.is_magnetic, 'perfect conductor flags')
    # every material of the module is classified consistently with its own parameters
    for n in sorted(vars(mt)):
        M = getattr(mt, n)
        if isinstance(M, (mt.LorentzMaterial, mt.LorentzSmithMaterial)):
            osc = [o for o in M.e_properties if not o[0] == 0]
            h.true(bool(M.is_dielectric) == all(not o[1] == 0 for o in osc), n + ' consistent dielectric flag')
            h.true(bool(M.is_sigma_finite) == all(not o[2] == 0 for o in osc if o[1] == 0),
                   n + ' consistent conductivity flag')


OBLIGATIONS = [Obligation('flags-%d%s%s' % (n, '-smith' if sm else '', '-lists' if two else ''), flags,
                          {'n': n, 'smith': sm, 'two': two}, points=3,
                          tier='quick' if n < 3 or not sm else 'thorough', timeout=600,
                          max_paths=4000, bounds='%d oscillators, non-negative parameters' % n)
               for n, sm, two in ((0, False, False), (1, False, False), (2, False, False), (3, False, False), (1, True, False),
                                  (2, True, False), (2, False, True))]
OBLIGATIONS += [Obligation('order-%d' % n, order, {'n': n}, points=3, max_paths=4000,
                           bounds='%d oscillators' % n) for n in (2, 3)]
OBLIGATIONS += [Obligation('static-%s' % s, static, {'spec': s}, points=1) for s in ('d', 'dd', 'c', 'p', 'dc', 'dp', 'pc', 'ddd')]
OBLIGATIONS += [Obligation('magnetic', magnetic, {}, points=3), Obligation('predefined', predefined, {}, points=1)]
OUTSIDE = 'negative oscillator parameters; more than three oscillators of arbitrary parameters'
