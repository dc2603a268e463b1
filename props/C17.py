"""C17: material response functions."""
from engine.harness import Obligation
from props.common import UNIT

# published oscillator parameters (wP, wR, gamma) in rad/s
TABLE = {
    'Gold': [('1.37e16', 0, '5.77e13')], 'Gold_Bimonte': [('1.37e16', 0, '5.32e13')],
    'Gold_plasma': [('1.37e16', 0, 0)], 'Gold_plasma_wp1': [('1.37e16', 0, 0)],
    'Gold_plasma_wp01': [('1.37e15', 0, 0)], 'Gold_plasma_wp10': [('1.37e17', 0, 0)],
    'Gold_magnetic': [('1.37e16', 0, '5.77e13')], 'Silver': [('1.46e16', 0, '3.46e13')],
    'Silver_plasma': [('1.46e16', 0, 0)], 'SiC': [('7e14', 0, '1.5e14')], 'SiC_plasma': [('7e14', 0, 0)],
    'Mercury': [('5.4e15', 0, '2.5e14')], 'Mercury_plasma': [('5.4e15', 0, 0)],
    'MercurySmith': [('1.98e16', 0, '1.647e15')], 'MercurySmith_plasma': [('1.98e16', 0, 0)],
    'Vacuum': [], 'Artificial': [('1e18', 0, 0)],
    'Water': [('4.16e13', '3.48e13', 0), ('4.16e12', '1.33e12', 0), ('1.10e13', '7.49e12', 0),
              ('1.14e14', '1.56e14', 0), ('9.00e15', '1.44e16', 0), ('1.63e16', '3.18e16', 0),
              ('1.48e16', '4.01e16', 0)],
    'AlternEth': [('2.41e12', '2.46e12', 0), ('8.35e12', '6.56e12', 0), ('6.37e13', '1.70e14', 0),
                  ('3.70e15', '1.04e16', 0), ('1.49e16', '2.31e16', 0), ('1.17e16', '2.37e16', 0),
                  ('1.77e16', '6.65e16', 0)],
    'Ptfe': [('4.40e10', '4.56e11', 0), ('1.56e12', '1.15e13', 0), ('3.15e13', '8.46e13', 0),
             ('6.41e13', '1.91e14', 0), ('4.50e15', '1.02e16', 0), ('1.87e16', '2.83e16', 0),
             ('2.08e16', '6.40e16', 0), ('2.32e16', '1.18e17', 0)],
    'Bromobenzene': [('1.78e12', '7.63e12', 0), ('6.37e12', '4.69e13', 0), ('3.68e13', '1.69e14', 0),
                     ('7.48e15', '1.03e16', 0), ('1.62e16', '2.02e16', 0), ('1.79e16', '3.65e16', 0),
                     ('1.46e16', '1.52e17', 0)],
    'Altern1Ps': [('1.67e11', '1.52e12', 0), ('2.97e12', '2.01e13', 0), ('7.89e14', '5.89e15', 0),
                  ('3.48e13', '1.99e14', 0), ('5.01e15', '9.10e15', 0), ('1.22e16', '1.55e16', 0),
                  ('1.63e16', '2.86e16', 0), ('1.42e16', '7.82e16', 0)],
    'Altern2Ps': [('3.17e13', '1.79e14', 0), ('1.48e11', '1.37e12', 0), ('2.66e12', '1.81e13', 0),
                  ('2.27e14', '2.37e15', 0), ('5.03e15', '9.30e15', 0), ('1.24e16', '1.53e16', 0),
                  ('1.98e16', '3.07e16', 0), ('1.52e16', '1.04e17', 0)],
    'Silicon': [('5.53e13', '6.24e13', 0), ('7.67e13', '1.70e14', 0), ('1.10e14', '1.70e14', 0),
                ('1.06e14', '1.69e14', 0), ('4.93e15', '2.20e16', 0), ('2.34e16', '2.58e16', 0),
                ('5.76e15', '1.24e16', 0), ('3.26e16', '1.39e17', 0)],
    # strengths given as eps contribution * wR^2
    'Ethanol': [('23.84**', '6.6e14', '0.1e13'), ('0.852**', '1.14e16', '0.1e13')],
    'Polystyrene': [('0.2*', '5.54e14', 0), ('1.56*', '1.35e16', 0)],
    'modifiedWater': [('8e11', '1e11', 0)],
}
TABLE['modifiedWater'] = TABLE['modifiedWater'] + TABLE['Water']


def oscillators(h, spec):
    """(wP, wR, gamma) as multiples of c/micron; symbolic, letters: d resonance with damping, u resonance
    without damping, c damped carriers, p undamped carriers, 0 nothing"""
    out = []
    for i, c in enumerate(spec):
        w = h.pos('w%d' % i, smp=(0.5, 30)) if c != '0' else h.frac(0)
        r = h.pos('r%d' % i, smp=(0.5, 30)) if c in 'du' else h.frac(0)
        g = h.pos('g%d' % i, smp=(0.05, 3)) if c in 'dc' else h.frac(0)
        out.append((w, r, g))
    return out


def eps_oracle(h, osc, k, smith=False):
    e = h.frac(1)
    for w, r, g in osc:
        if smith:
            e = e + w * w / (k * (k + g)) * (1 - h.frac(49, 100) * g / (k + g))
        else:
            e = e + w * w / (r * r + k * k + g * k)
    return e


def response(h, spec, magnetic, smith, shape):
    mt = h.mod('materials')
    u = h.num(UNIT)
    osc = oscillators(h, spec)
    props = [(w * u, r * u, g * u) for w, r, g in osc]
    bp = ()
    mu0 = h.pos('mu0', smp=(0.3, 4)) if magnetic else h.frac(1)
    wm = h.pos('wm', smp=(0.3, 4)) if magnetic else None
    if magnetic:
        bp = (mu0, wm * u)
    before = [tuple(p) for p in props]
    M = (mt.LorentzSmithMaterial if smith else mt.LorentzMaterial)(props, bp)
    n = 1
    for s in shape:
        n *= s
    ks = [h.pos('k%d' % j, smp=(0.05, 20)) for j in range(n)]
    h.eq(M.omega_norm, u, 'frequency unit', tol=1e-12)
    k = h.arr(ks).reshape(shape) if shape else ks[0]
    for rep in range(2):
        w = ' (call %d)' % rep
        e = M.epsilon(k)
        mu = M.mu(k) if shape or not smith else None
        h.shape(e, shape, 'epsilon' + w)
        if mu is not None:
            h.shape(mu, shape, 'mu' + w)
        for j, ix in enumerate(h.np.ndindex(*shape) if shape else [None]):
            kk = ks[j]
            ev = e[ix] if shape else e
            h.eq(ev, eps_oracle(h, osc, kk, smith), 'epsilon(k%d)%s' % (j, w))
            h.le(h.frac(1), ev, 'epsilon(k%d) >= 1%s' % (j, w))
            if mu is not None:
                mv = mu[ix] if shape else mu
                o = h.frac(1) + (mu0 - 1) / (1 + kk / wm) if magnetic else h.frac(1)
                h.eq(mv, o, 'mu(k%d)%s' % (j, w))
                if magnetic:
                    h.true(h.Implies(mu0 >= 1, mv >= 1), 'mu(k%d) >= 1 for mu0 >= 1%s' % (j, w))
                    h.true(mv > 0, 'mu(k%d) > 0%s' % (j, w))
    if shape:
        for j, ix in enumerate(h.np.ndindex(*shape)):
            h.true(k[ix] == ks[j], 'k%d untouched' % j)
    h.true(len(M.e_properties) == len(before), 'oscillator list untouched')
    for a, b in zip(M.e_properties, before):
        for x, y in zip(a, b):
            h.eq(x, y, 'oscillator parameters untouched')


def monotone(h, spec, magnetic, smith):
    mt = h.mod('materials')
    u = h.num(UNIT)
    osc = oscillators(h, spec)
    mu0 = h.pos('mu0', lo=1, smp=(1, 4)) if magnetic else None
    bp = (mu0, h.pos('wm', smp=(0.3, 4)) * u) if magnetic else ()
    M = (mt.LorentzSmithMaterial if smith else mt.LorentzMaterial)([(w * u, r * u, g * u) for w, r, g in osc], bp)
    k = h.pos('k', smp=(0.05, 10))
    d = h.pos('dk', smp=(0.05, 10))
    ka = h.arr([k, k + d])
    e = M.epsilon(ka)
    h.lt(e[1], e[0], 'epsilon decreases')
    mu = M.mu(ka)
    h.le(mu[1], mu[0], 'mu does not increase for mu0 >= 1')


def history(h, spec, magnetic, smith):
    """what a material answers depends on nothing but the wavenumbers it is given now: arrays refilled in place,
    other arrays, scalars and other materials asked in between, answers overwritten by the caller"""
    mt = h.mod('materials')
    u = h.num(UNIT)
    C = mt.LorentzSmithMaterial if smith else mt.LorentzMaterial

    def make(tag):
        osc = [(w, r, g) for w, r, g in oscillators(h, spec)] if not tag else [
            (h.pos(tag + 'w%d' % i, smp=(0.5, 30)), h.frac(0) if smith else h.pos(tag + 'r%d' % i, smp=(0.5, 30)), h.frac(0))
            for i in range(len(spec))]
        mu0, wm = h.pos(tag + 'mu0', smp=(0.3, 4)), h.pos(tag + 'wm', smp=(0.3, 4))
        M = C([(w * u, r * u, g * u) for w, r, g in osc], (mu0, wm * u) if magnetic else ())
        return M, osc, mu0, wm

    def ask(which, k, ks, label):
        M, osc, mu0, wm = which
        e, mu = M.epsilon(k), M.mu(k) if len(ks) > 1 or not smith else None
        at = lambda a, j: a[j] if len(ks) > 1 else a
        for j, kk in enumerate(ks):
            h.eq(at(e, j), eps_oracle(h, osc, kk, smith), 'epsilon(%s, %d)' % (label, j))
            if mu is not None:
                h.eq(at(mu, j), h.frac(1) + (mu0 - 1) / (1 + kk / wm) if magnetic else h.frac(1), 'mu(%s, %d)' % (label, j))
        if len(ks) > 1:
            for j in range(len(ks)):
                e[j] = h.frac(0)
                mu[j] = h.frac(0)
        return e, mu
    A, B = make(''), make('o')
    x = [h.pos('x%d' % j, smp=(0.05, 20)) for j in range(6)]
    k = h.arr(x[:2])
    ask(A, k, x[:2], 'first')
    ask(A, k, x[:2], 'again')
    ask(B, k, x[:2], 'other material')
    k[0], k[1] = x[2], x[3]
    ask(A, k, x[2:4], 'refilled')
    k[1] = x[0]
    ask(A, k, [x[2], x[0]], 'one entry changed')
    k2 = h.arr(x[4:6])
    ask(A, k2, x[4:6], 'another array')
    ask(A, x[0], [x[0]], 'scalar')
    ask(A, x[1], [x[1]], 'another scalar')
    ask(B, k2, x[4:6], 'other material later')
    ask(A, k, [x[2], x[0]], 'back')


def literal(h, w, wr):
    if isinstance(w, str) and w.endswith('**'):
        return h.num(w[:-2]) * h.num(wr) * h.num(wr)          # strength^2 = f wR^2
    if isinstance(w, str) and w.endswith('*'):
        return (h.num(w[:-1]) * h.num(wr)) * (h.num(w[:-1]) * h.num(wr))
    return h.num(w) * h.num(w)


def predefined(h, names):
    mt = h.mod('materials')
    u = h.num(UNIT)
    k = h.pos('k', smp=(0.05, 10))
    for n in names:
        M = getattr(mt, n)
        e = h.frac(1)
        for w, wr, g in TABLE[n]:
            w2, r, gg = literal(h, w, wr) / (u * u), h.num(wr) / u, h.num(g) / u
            if n == 'MercurySmith':
                e = e + w2 / (k * (k + gg)) * (1 - h.frac(49, 100) * gg / (k + gg))
            else:
                e = e + w2 / (r * r + k * k + gg * k)
        ka = h.arr([k])
        h.eq(M.epsilon(ka)[0], e, n + ' epsilon', tol=1e-12)
        m = h.frac(1)
        if n == 'Gold_magnetic':
            m = 1 + h.frac(3) / (1 + k * u / h.num('1e9'))
        h.eq(M.mu(ka)[0], m, n + ' mu', tol=1e-12)
        h.true(not M.is_perfect_conductor, n + ' is not a perfect conductor')


def conductor(h):
    mt = h.mod('materials')
    P = mt.PerfectConductor
    k = h.arr([h.pos('k%d' % i) for i in range(3)])
    m = P.mu(k)
    h.shape(m, (3,), 'mu')
    for i in range(3):
        h.eq(m[i], h.frac(1), 'mu is 1')
    h.true(P.is_perfect_conductor, 'perfect conductor')
    h.raises(lambda: P.epsilon(k), NotImplementedError, 'a perfect conductor has no permittivity')


def unit(h):
    """the wavenumber unit follows the length normalisation"""
    mt = h.mod('materials')
    l = h.pos('l', smp=(0.1, 3))
    h.eq(mt.Material(l).omega_norm, h.num('2.998e8') / l, 'omega_norm = c / l', tol=1e-12)


OBLIGATIONS = []
for smith, specs in ((False, ('', 'd', 'u', 'c', 'p', '0', 'dc', 'pd', 'cp', 'dud', 'cup', 'dcdu')), (True, ('c', 'p'))):
    for s in specs:
        for mag in (False, True):
            for sh in ((2,), (), (2, 2)):
                if sh == (2, 2) and len(s) > 1:
                    continue
                OBLIGATIONS.append(Obligation('%s-%s-%s-%s' % ('smith' if smith else 'lorentz', s or 'none', 'mag' if mag else 'nomag',
                                                              'x'.join(map(str, sh)) or 'scalar'),
                                              response, {'spec': s, 'magnetic': mag, 'smith': smith, 'shape': sh},
                                              bounds='%d oscillators, k of shape %s' % (len(s), sh), points=1))
for smith, specs in ((False, ('d', 'u', 'c', 'p', 'dc', 'ud', 'pc')), (True, ('p',))):
    for s in specs:
        OBLIGATIONS.append(Obligation('monotone-%s-%s' % ('smith' if smith else 'lorentz', s), monotone,
                                      {'spec': s, 'magnetic': True, 'smith': smith}, points=1,
                                      bounds='%d oscillators, two wavenumbers' % len(s)))
for smith, specs in ((False, ('d', 'c', 'pu')), (True, ('c',))):
    for s in specs:
        for mag in (False, True):
            OBLIGATIONS.append(Obligation('history-%s-%s%s' % ('smith' if smith else 'lorentz', s, '-mag' if mag else ''), history,
                                          {'spec': s, 'magnetic': mag, 'smith': smith}, points=1,
                                          bounds='two materials, ten questions'))
ns = sorted(TABLE)
for i in range(0, len(ns), 6):
    OBLIGATIONS.append(Obligation('predefined-%d' % (i // 6), predefined, {'names': ns[i:i + 6]}, points=1))
OBLIGATIONS += [Obligation('conductor', conductor, {}, points=1), Obligation('unit', unit, {}, points=1)]
OUTSIDE = 'lists of more than four symbolic oscillators; floating-point rounding; k = 0 (C05, C06)'
