"""C21: proximity-force approximation for two spheres."""
from engine.harness import Obligation
from props.C20 import World


def config(h, case):
    """radii a, b in the order they are passed, centre distance d"""
    s = h.pos('s', smp=(0.3, 1.5))          # smaller (or equal) radius
    if case.startswith('ext'):
        x = h.pos('x', smp=(0.1, 2))
        big = s + x if case != 'ext-equal' else s
        d = h.pos('d', smp=(4, 8))
        h.given(d > s + big)
    else:
        x = h.pos('x', smp=(1.0, 3))
        big = s + x
        d = h.pos('d', smp=(0.1, 0.9))
        h.given(d < x)
    swap = case.endswith('swap')
    a, b = (big, s) if swap else (s, big)
    return a, b, s, big, d


def gap(h, s, big, d, rho, ext):
    zs, zb = h.sqrt(s * s - rho * rho), h.sqrt(big * big - rho * rho)
    return d - zs - zb if ext else zb - d - zs


def stub(h, P):
    """plane-plane free energy (decided by C20) as an arbitrary function of temperature, gap and shielding"""
    if not h.sym:
        return P.planeplaneFreeEnergy
    from engine.sym import uf

    def pp(T, L, n0_shielding=False):
        return uf('pp%d' % bool(n0_shielding), T, L)
    P.planeplaneFreeEnergy = pp
    return pp


def distance(h, case):
    w = World(h)
    a, b, s, big, d = config(h, case)
    ext = case.startswith('ext')
    t = h.pos('t', smp=(0.05, 5))
    rho = s * t / (1 + t)                    # anywhere on the disc of the smaller sphere
    g = w.P.distance(a, b, d, rho)
    h.eq(g, gap(h, s, big, d, rho, ext), 'gap between the facing surfaces')
    g0 = w.P.distance(a, b, d, h.frac(0))
    h.eq(g0, d - a - b if ext else big - s - d, 'gap at closest approach')
    h.lt(h.frac(0), g0, 'positive gap')
    h.eq(w.P.distance(b, a, d, rho), g, 'order of the spheres does not matter')


def energy(h, case, shielded):
    w = World(h)
    P = w.P
    a, b, s, big, d = config(h, case)
    ext = case.startswith('ext')
    T = h.pos('T', smp=(25, 40) if ext else (25, 40))
    pp = stub(h, P)
    v = P.spheresphereEnergy(a, b, T, d, shielded) if shielded else P.spheresphereEnergy(a, b, T, d)
    o = h.quad(lambda rho: 2 * h.pi * rho * pp(T, gap(h, s, big, d, rho, ext), shielded), 0, s)
    h.eq(v, o, 'energy integrates the local plane-plane energy', tol=1e-4, atol=1e-12)
    h.eq(P.spheresphereEnergy(b, a, T, d, shielded), v, 'order of the spheres does not matter', tol=1e-4, atol=1e-12)


def force(h, case, shielded):
    w = World(h)
    P = w.P
    a, b, s, big, d = config(h, case)
    ext = case.startswith('ext')
    T = h.pos('T', smp=(5, 10))
    pp = stub(h, P)
    v = P.spheresphereForce(a, b, T, d, shielded) if shielded else P.spheresphereForce(a, b, T, d)
    reff = s * big / (s + big) if ext else s * big / (big - s)
    o = 2 * h.pi * reff * pp(T, gap(h, s, big, d, h.frac(0), ext), shielded)
    h.eq(v, o, 'force is 2 pi R_eff times the plane-plane energy', tol=1e-4, atol=1e-13)
    h.eq(P.spheresphereForce(b, a, T, d, shielded), v, 'order of the spheres does not matter', tol=1e-4, atol=1e-13)


def history(h, order):
    """one object asked for several pairs of spheres, distances and temperatures"""
    w = World(h)
    P = w.P
    s, x, y = h.pos('s', smp=(0.3, 0.6)), h.pos('x', smp=(1, 1.5)), h.pos('y', smp=(1, 1.5))
    e, i = h.pos('e', smp=(1, 2)), h.pos('i', hi=1, strict=True, smp=(0.2, 0.5))
    T = [h.pos('T0', smp=(35, 45)), h.pos('T1', smp=(55, 75))]
    pp = stub(h, P)
    bodies = {'a': (s, s + x), 'b': (s, s + x + y), 'c': (s + x, s + x + y), 'd': (s, s)}
    for n, q in enumerate(order.split()):
        what, pair, ext, t, shielded = q[0], q[1], q[2] == 'e', int(q[3]), q.endswith('s')
        sm, big = bodies[pair.lower()]
        d = sm + big + e if ext else (big - sm) * i
        a, b = (big, sm) if pair.isupper() else (sm, big)
        label = 'question %d (%s)' % (n, q)
        if what == 'F':
            reff = sm * big / (sm + big) if ext else sm * big / (big - sm)
            h.eq(P.spheresphereForce(a, b, T[t], d, shielded), 2 * h.pi * reff * pp(T[t], gap(h, sm, big, d, h.frac(0), ext), shielded),
                 label, tol=1e-4, atol=1e-13)
        elif what == 'E':
            o = h.quad(lambda rho: 2 * h.pi * rho * pp(T[t], gap(h, sm, big, d, rho, ext), shielded), 0, sm)
            h.eq(P.spheresphereEnergy(a, b, T[t], d, shielded), o, label, tol=1e-4, atol=1e-12)
        else:
            rho = sm / 2
            h.eq(P.distance(a, b, d, rho), gap(h, sm, big, d, rho, ext), label)


def exchange(h):
    """exchanging the plates' materials leaves the integrands unchanged"""
    q, kn, L = h.pos('q', smp=(0.1, 2)), h.pos('kn', smp=(0.1, 2)), h.pos('L', smp=(0.2, 1))
    w = World(h)
    a, b, m = w.mats
    Q = h.mod('PFA').SphereSpherePFA(b, a, m)
    for n in ('roundTrip', 'roundTrips', 'pressureRoundTrip', 'pressureRoundTrips'):
        x, y = getattr(w.P, n)(q, kn, L), getattr(Q, n)(q, kn, L)
        for i, (u, v) in enumerate(zip(x, y) if isinstance(x, tuple) else [(x, y)]):
            h.eq(u, v, '%s %d' % (n, i))


CASES = ('ext', 'ext-equal', 'ext-swap', 'int', 'int-swap')
OBLIGATIONS = [Obligation('distance-' + c, distance, {'case': c}, points=2) for c in CASES]
for c in CASES:
    for sh in (False, True):
        t = '-shielded' if sh else ''
        OBLIGATIONS.append(Obligation('energy-%s%s' % (c, t), energy, {'case': c, 'shielded': sh}, points=1, quad_nodes=2))
        OBLIGATIONS.append(Obligation('force-%s%s' % (c, t), force, {'case': c, 'shielded': sh}, points=1))
OBLIGATIONS += [Obligation('history-%d' % n, history, {'order': o}, points=1, bounds='%d questions, four pairs of spheres' % len(o.split()))
                for n, o in enumerate(('Fae0 Fae0s Fbe0 FAe0 Fae1 Fai0 FBi0s Fde0 Fce1 Fae0', 'Eae0 Ebe0 Eae1 Eae0s EAi0 Eae0',
                                       'Dae0 Dai0 DAe0 Dbe0 Fbi0 Dbi0 Ece0 Dce0 Dci0 Dde0'))]
OBLIGATIONS.append(Obligation('exchange', exchange, {}, points=2, split_log=True))
ASSUMPTIONS = ['the plane-plane free energy is an arbitrary function of temperature, gap and shielding here (C20)',
               'quadrature is an arbitrary positive linear functional on the interval']
OUTSIDE = 'overlapping or touching spheres; quadrature error; rounding'
