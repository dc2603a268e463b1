"""C23: Matsubara sums, entropy and zero-temperature energy."""
import numpy as np

from engine.harness import Obligation, hashed


def geometry(h, cls='SphereSphere', lists=False):
    """a geometry whose integrands are arbitrary functions of the wavenumber; remembers what was asked"""
    gm = h.mod('geometry')
    calls = []

    def f(name):
        def g(k):
            k = np.asarray(k)
            if k.ndim != 1 or len(k) == 0:
                raise ValueError('wavenumbers must be a non-empty 1-d array')
            out = []
            for x in k.tolist() if k.dtype != object else list(k):
                z = x.args[0] if hasattr(x, 'op') and x.op == 'c' else x
                small = not hasattr(z, 'op') and z <= 1e-8
                if not hasattr(z, 'op') and z == 0:
                    raise ZeroDivisionError('static wavenumber given to the dynamic evaluation')
                calls.append((name, 'static' if small else x))
                out.append(value(h, name, 'static' if small else x))
            return h.arr(out)
        return g

    class G(getattr(gm, cls)):
        def __init__(self):
            self.r1, self.r2, self.L, self.lmax, self.lssmax = h.frac(1), h.frac(2), h.frac(4), 3, 3
            self.mat1 = self.mat2 = self.mat3 = [object()] if lists else object()
            self.mSumme, self.mSum_trace_dot, self.mSum_oneRoundtrip = f('E'), f('F'), f('R')

        def mSumme_k0(self):
            calls.append(('K0', 'static'))
            return h.arr([value(h, 'K0', 'static')])
    return G(), calls


def value(h, name, x):
    if isinstance(x, str):
        return h.real('%s0' % name, smp=(-3, -1))
    if h.sym:
        from engine.sym import uf
        return uf('int' + name, x)
    return -np.exp(-float(x)) * (1 + hashed(name, 0, 1))


def terms(h, kind, static, dT, nmax):
    return [value(h, static, 'static') / 2] + [value(h, kind, n * dT) for n in range(1, nmax + 1)]


def setup(h, nmax, steps, analytic, cls='SphereSphere', lists=False, one=False, kw=None):
    G, calls = geometry(h, cls, lists)
    th = h.mod('thermodynamics')
    dT = h.pos('dT', smp=(0.2, 1))
    c = th.oneRoundtrip if one else th.finiteT
    args = {} if one else {'analytic_n0': analytic}
    f = c(dT, nmax, dT * steps, G, **args)
    return f, calls, dT


def energies(h, nmax, steps, analytic, cls='SphereSphere', lists=False, one=False):
    f, calls, dT = setup(h, nmax, steps, analytic, cls, lists, one)
    kind = 'R' if one else 'E'
    static = kind if (not analytic or lists or one or cls != 'SphereSphere') else 'K0'
    F = f.free_energy()
    t = terms(h, kind, static, dT, nmax)
    h.shape(F, (steps,), 'free energy')
    for i in range(1, steps + 1):
        h.eq(F[i - 1], i * dT * sum(t[::i], h.frac(0)), 'free energy at %d dT' % i)
    want = [(static, 'static')] + [(kind, n * dT) for n in range(1, nmax + 1)]
    h.true(len(calls) == len(want), 'every term computed once')
    for (a, x), (b, y) in zip(calls, want):
        h.true(a == b, 'kind of term')
        if isinstance(x, str) or isinstance(y, str):
            h.true(x == y if isinstance(x, str) and isinstance(y, str) else False, 'static term first')
        else:
            h.eq(x, y, 'wavenumbers in order')
    n = len(calls)
    G = f.free_energy()
    h.true(len(calls) == n, 'terms are not computed again')
    for i in range(steps):
        h.eq(F[i], G[i], 'asking again')


def entropy_oracle(h, F, dT):
    n = len(F)
    S = [-(F[1] - F[0]) / dT] + [-(F[i + 1] - F[i - 1]) / (2 * dT) for i in range(1, n - 1)] + [-(F[-1] - F[-2]) / dT]
    return S


def history(h, seq, nmax, steps, analytic=True):
    """any order of requests gives the documented numbers"""
    f, calls, dT = setup(h, nmax, steps, analytic)
    tE = terms(h, 'E', 'K0' if analytic else 'E', dT, nmax)
    tF = terms(h, 'F', 'F', dT, nmax)
    FE = [i * dT * sum(tE[::i], h.frac(0)) for i in range(1, steps + 1)]
    FF = [i * dT * sum(tF[::i], h.frac(0)) for i in range(1, steps + 1)]
    for j, op in enumerate(seq):
        w = ' (request %d)' % j
        if op == 'F':
            v, o, n = f.free_energy(), FE, 'free energy'
        elif op == 'S':
            v, o, n = f.entropy(), entropy_oracle(h, FE, dT), 'entropy'
        elif op == 'P':
            v, o, n = f.force(), FF, 'force'
        elif op == '0':
            v = f.e0()
            I = h.quad(lambda x: value(h, 'E', x), 0, h.inf)
            h.eq(v[0][0], I, 'T=0 energy' + w)
            continue
        h.shape(v, (steps,), n + w)
        for i in range(steps):
            h.eq(v[i], o[i], '%s at %d dT%s' % (n, i + 1, w))


def zero(h, a, b):
    f, calls, dT = setup(h, 5, 2, True)
    lo = h.pos('a', smp=(0.1, 1)) if a else 0
    hi = {None: None, 'inf': h.inf, 'b': h.pos('b', smp=(2, 3))}[b]
    v = f.e0(lo, hi) if a or b != 'inf' else f.e0()
    h.shape(v, (1, 2), 'value and error')
    top = 5 * dT if hi is None else hi
    h.eq(v[0][0], h.quad(lambda x: value(h, 'E', x), lo, top), 'integral of the same integrand')


def slices(h, nmin, nmax, step):
    th = h.mod('thermodynamics')
    a, b = h.integer('nmin', 0, nmin), h.integer('nmax', 0, nmax)
    h.given(b >= a)
    s = h.integer('step', 1, step)
    if not h.sym and b < a:
        return
    a, b, s = int(a), int(b), int(s)
    seen = []

    def func(x):
        h.true(1 <= len(x) <= s, 'slices no longer than asked for')
        seen.extend(int(y) for y in x)
        return h.arr([h.real('v%d' % int(y)) for y in x])
    v = th.slicewise_eval(func, a, b, s)
    h.true(seen == list(range(a, b + 1)), 'every integer once, in order')
    h.shape(v, (b - a + 1,), 'result')
    for i, n in enumerate(range(a, b + 1)):
        h.eq(v[i], h.real('v%d' % n), 'value %d' % n)


def slice_errors(h):
    th = h.mod('thermodynamics')
    s = h.integer('step', -5, 0)
    h.raises(lambda: th.slicewise_eval(lambda x: x, 0, 3, s), ValueError, 'non-positive slice length')
    h.raises(lambda: th.slicewise_eval(lambda x: x, 0, 3, 'many'), ValueError, 'slice length must be a number')


def independent_of_slices(h, nmax, step, nmin):
    f, calls, dT = setup(h, nmax, 1, True)
    t = terms(h, 'E', 'K0', dT, nmax)
    v = f.get_f_matsubaras(nmin, step)
    h.shape(v, (nmax - nmin + 1,), 'terms')
    for n in range(nmin, nmax + 1):
        h.eq(v[n - nmin], t[n], 'term %d, slices of %d' % (n, step))


def arguments(h):
    G, calls = geometry(h)
    th = h.mod('thermodynamics')
    dT = h.pos('dT', smp=(0.2, 1))
    h.raises(lambda: th.finiteT(dT, 3, dT, G, True, -1), ValueError, 'negative number of processes')
    h.raises(lambda: th.finiteT(dT, 3, dT, G, True, 1.5), ValueError, 'number of processes must be an integer')
    h.raises(lambda: th.finiteT(dT, 3, dT, G, True, 2).free_energy(), NotImplementedError, 'parallel evaluation')

    class Other:
        mat1 = mat2 = None
    h.raises(lambda: th.finiteT(dT, 3, dT, Other()), TypeError, 'only sphere-sphere geometries')
    f = th.finiteT(dT, 7, dT * 3, G)
    h.true(f.nmax == 7 and f.maxstep == 3, 'explicit settings kept')
    h.true(f.analytic_n0 is True, 'analytic static term by default')


def grid(h, steps):
    """the last temperature is present although the quotient of two rounded temperatures may lie just beside an integer"""
    G, calls = geometry(h)
    th = h.mod('thermodynamics')
    dT = h.pos('dT', smp=(0.2, 1))
    e = h.pos('e', hi=2, smp=(0.1, 1.9)) - 1
    f = th.finiteT(dT, 1, dT * steps * (1 + e * h.frac(1, 2 ** 50)), G)
    h.shape(f.free_energy(), (steps,), 'number of temperatures')


def why(e):
    return '' if e is None else ' [%s: %s]' % (type(e).__name__, str(e)[:120])


def real_force(h):
    """force() with a real geometry"""
    gm, th, mt = h.mod('geometry'), h.mod('thermodynamics'), h.mod('materials')
    G = gm.SphereSphere(h.frac(1), h.frac(1), h.frac(3), mt.PerfectConductor, mt.PerfectConductor, mt.Vacuum, 1, 0, 1)
    f = th.finiteT(h.frac(1), 1, h.frac(1), G)
    v, e = h.try_(f.force)
    h.true(e is None, 'force is available' + why(e))


def real_convergence(h):
    gm, th, mt = h.mod('geometry'), h.mod('thermodynamics'), h.mod('materials')
    G = gm.SphereSphere(h.frac(1), h.frac(1), h.frac(3), mt.PerfectConductor, mt.PerfectConductor, mt.Vacuum, 1, 0, 1)
    f = th.finiteT(h.frac(1), 1, h.frac(1), G)
    v, e = h.try_(lambda: f.l_konvergenz(h.frac(1), h.frac(1), h.frac(3), mt.PerfectConductor, mt.PerfectConductor,
                                         mt.Vacuum, 1, 2, 1, 2))
    h.true(e is None, 'convergence measure is available' + why(e))


OBLIGATIONS = []


def add(name, fn, tier='quick', **p):
    OBLIGATIONS.append(Obligation(name, fn, p, points=1, tier=tier))


for steps in (1, 2, 3, 6, 7, 10, 30, 100):
    add('grid-%d' % steps, grid, steps=steps)
for an in (True, False):
    a = 'analytic' if an else 'numeric'
    for nmax, steps in ((0, 1), (1, 1), (1, 3), (4, 3), (7, 9), (12, 5), (49, 3), (50, 2), (51, 2), (103, 4)):
        add('energy-%s-%d-%d' % (a, nmax, steps), energies, nmax=nmax, steps=steps, analytic=an)
    add('energy-%s-200-20' % a, energies, 'thorough', nmax=200, steps=20, analytic=an)
    for s in ('FF', 'SF', 'F0S', 'S0FS', 'PF', 'PSF', 'FPSFP', '0PF', 'SPS'):
        add('history-%s-%s' % (a, s), history, seq=s, nmax=4, steps=3, analytic=an)
    add('history-%s-long' % a, history, seq='FSP', nmax=53, steps=4, analytic=an)
add('energy-layered', energies, nmax=3, steps=2, analytic=True, lists=True)
add('energy-coated', energies, nmax=3, steps=2, analytic=True, cls='CoatedSphereSphere')
for nmax, steps in ((1, 1), (5, 3), (52, 2)):
    add('one-%d' % nmax, energies, nmax=nmax, steps=steps, analytic=True, one=True)
for n, (x, y) in enumerate(((0, 'inf'), (1, 'inf'), (0, None), (1, 'b'))):
    add('zero-%d' % n, zero, a=x, b=y)
OBLIGATIONS.append(Obligation('slices', slices, {'nmin': 3, 'nmax': 6, 'step': 5}, points=2, max_paths=2000,
                              bounds='nmin<=3, nmax<=6, slice length<=5'))
OBLIGATIONS.append(Obligation('slices-wide', slices, {'nmin': 4, 'nmax': 12, 'step': 8}, points=2, max_paths=5000, timeout=900,
                              tier='thorough', bounds='nmin<=4, nmax<=12, slice length<=8'))
add('slice-errors', slice_errors)
for step in (1, 2, 3, 5, 50):
    for nmin in (0, 1, 2):
        add('independent-%d-%d' % (step, nmin), independent_of_slices, nmax=5, step=step, nmin=nmin)
add('arguments', arguments)
add('force', real_force)
add('convergence', real_convergence)
ASSUMPTIONS = ['the integrands of the geometry are arbitrary functions of the wavenumber (C11-C16 decide them)',
               'quadrature is an arbitrary positive linear functional']
OUTSIDE = 'F_tempcorr; quadrature error; rounding; more Matsubara terms than the bounds'
