"""C16: results do not depend on the history of calls.

A geometry object is driven through a sequence of calls; after each call the answer is compared with the answer of a
fresh object.  Wavenumbers, radii, responses and all reflection/translation tables are symbolic; the sequences are
enumerated (all orders of m for one wavenumber array, changes of the array in one element / in length / in place,
static before, between and after)."""
import itertools

import numpy as np

from engine.harness import Obligation
from props.common import Mat, stub_elements
from props.C12 import plain_balance


def build(h, kind, ext, lmax, lss, trace=False):
    r1 = h.pos('r1', smp=(0.4, 1.2))
    r2 = h.pos('r2', smp=(0.4, 1.2))
    L = h.pos('L', smp=(2.5, 4))
    if not ext:
        L = h.pos('shift', smp=(0.2, 0.6))
        r2 = h.pos('r2i', smp=(2, 3))
    h.given(L > r1 + r2 if ext else L + r1 < r2)
    mt = {x: Mat(h, h.pos('e' + x, smp=(1.5, 5)), h.frac(1), name=x) for x in 'abcde'}
    g = h.mod('geometry')
    kw = {'evaluation': 'trace'} if trace else {}
    half = h.frac(1, 2)
    if kind == 'plain':
        return lambda: g.SphereSphere(r1, r2, L, mt['a'], mt['b'], mt['c'], lmax=lmax, lssmax=lss, **kw)
    if kind == 'strat':
        return lambda: g.SphereSphere([r1 * half, r1], [r2 * half, r2], L, [mt['d'], mt['a'], mt['c']],
                                      [mt['e'], mt['b'], mt['c']], mt['c'], lmax=lmax, lssmax=lss, **kw)
    return lambda: g.CoatedSphereSphere(r1 * half, r1, mt['d'], mt['a'], r2 * half, r2, mt['e'], mt['b'], L, mt['c'],
                                        lmax, lss)


def flat(x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [x]


def same(h, a, b, label):
    a, b = flat(a), flat(b)
    h.true(len(a) == len(b), label + ': number of tables')
    for i, (x, y) in enumerate(zip(a, b)):
        h.eq(x, y, '%s table %d' % (label, i), tol=1e-12)


def arrays(h):
    k = [h.pos('k%d' % i, smp=(0.2 + 0.4 * i, 0.5 + 0.4 * i)) for i in range(4)]
    for i in range(3):
        h.given(k[i] < k[i + 1])
    return {'A': [k[0], k[1]], 'B': [k[0], k[2]], 'C': [k[1], k[0]], 'D': [k[3], k[1]], 'one': [k[0]], 'two': [k[1]],
            'three': [k[0], k[1], k[2]], 'zA': [0, k[0], k[1]], 'zB': [0, k[0], k[2]]}


def run(h, G, op, ks):
    """op: ('el', m, array) | ('bm', m, array) | ('ch', m, array) | ('k0', m) | ('el0', m) | ('sum', array) | ('sum0',)"""
    if op[0] == 'el':
        return G.roundTrip_elements(op[1], h.arr(ks[op[2]]))
    if op[0] == 'bm':
        return G.blockmatrices(op[1], h.arr(ks[op[2]]))
    if op[0] == 'ch':
        return G.blockmatrices_channels(op[1], h.arr(ks[op[2]]))
    if op[0] == 'k0':
        return G.blockmatrices_k0(op[1])
    if op[0] == 'el0':
        return G.roundTrip_elements_k0(op[1], h.iarr([0]))
    if op[0] == 'one':
        return G.single_m(op[1], h.arr(ks[op[2]]))
    if op[0] == 'sum':
        return G.mSumme(h.arr(ks[op[1]]))
    if op[0] == 'tr':
        return G.mSum_oneRoundtrip(h.arr(ks[op[1]]))
    return G.mSumme_k0()


def history(h, seqs, kind='plain', ext=1, lmax=2, lss=2):
    plain_balance(h)
    stub_elements(h)
    mk = build(h, kind, ext, lmax, lss)
    ks = arrays(h)
    fresh = {}
    for s, seq in enumerate(seqs):
        G = mk()
        for i, op in enumerate(seq):
            got = run(h, G, op, ks)
            if op not in fresh:
                fresh[op] = run(h, mk(), op, ks)
            same(h, got, fresh[op], 'sequence %d step %d %s' % (s, i, op))


def sums(h, seqs, lmax=1, kind='plain', ext=1):
    """energies; symbolic mode: round-trip blocks free per (m, wavenumbers) but taken from the object's own tables"""
    history(h, seqs, kind, ext, lmax, lmax)


def energies(h, seqs, lmax=2, prec=0):
    """energies of one object with arbitrary blocks against those of fresh objects with the same blocks; prec: 0
    (all projections are summed) or huge (stops after m=1)"""
    from props import C13
    plain_balance(h)
    stub_elements(h)
    ks = arrays(h)
    keys = {str(k): str(i) for n in ('A', 'B', 'C', 'D') for i, k in enumerate(ks[n])}
    for i, k in enumerate([ks['A'][0], ks['A'][1], ks['B'][1], ks['D'][0]]):
        keys[str(k)] = str(i)
    keys.update({'0': 'z', '0.0': 'z'})

    def mk():
        G = C13.geometry(h, lmax)
        G.precision = prec
        C13.blocks(h, G, lmax, keys)
        return G

    def call(G, op):
        a = h.arr(ks[op[-1]]) if op[-1] in ks else None
        return {'sum': lambda: G.mSumme(a), 'sum0': lambda: np.ravel(G.mSumme_k0()), 'single': lambda: G.single_m(op[1], a),
                'tr': lambda: G.mSum_oneRoundtrip(a), 'rt': lambda: G.mSum_roundtrips(a, 2), 'super': lambda: G.supermatrix(op[1], a),
                's0': lambda: np.ravel(G.single_m_k0(op[1]))}[op[0]]()
    fresh = {}
    for s, seq in enumerate(seqs):
        G = mk()
        for i, op in enumerate(seq):
            got = call(G, op)
            if op not in fresh:
                fresh[op] = call(mk(), op)
            same(h, got, fresh[op], 'sequence %d step %d %s' % (s, i, op))


def in_place(h, kind='plain', m=1):
    """the caller reuses its wavenumber array; arrays handed in are not modified"""
    stub_elements(h)
    mk = build(h, kind, 1, 2, 2)
    ks = arrays(h)
    G = mk()
    a = h.arr(ks['A'])
    first = G.roundTrip_elements(m, a)
    h.eq(a, h.arr(ks['A']), 'array untouched')
    G.blockmatrices(m, a)
    h.eq(a, h.arr(ks['A']), 'array untouched by blockmatrices')
    a[1] = ks['B'][1]
    got = G.roundTrip_elements(m, a)
    same(h, got, mk().roundTrip_elements(m, h.arr(ks['B'])), 'array changed in place')
    if kind == 'plain':
        z = h.arr([0] + ks['A'])
        G.blockmatrices(m, z)
        h.eq(z[1:], h.arr(ks['A']), 'array with leading zero untouched')
    if kind == 'strat':
        h.true(len(G.mat1) == 3 and len(G.r1) == 2 and len(G.mat2) == 3 and len(G.r2) == 2, 'layer lists untouched')


def independent(h):
    """two objects do not share state"""
    stub_elements(h)
    mk = build(h, 'plain', 1, 2, 2)
    ks = arrays(h)
    G, H = mk(), mk()
    H.r1 = h.pos('s1', smp=(0.3, 0.5))
    fresh = mk()
    fresh.r1 = H.r1
    a = G.roundTrip_elements(1, h.arr(ks['A']))
    G.blockmatrices_k0(1)
    b = H.roundTrip_elements(1, h.arr(ks['A']))
    same(h, b, fresh.roundTrip_elements(1, h.arr(ks['A'])), 'second object')
    same(h, H.roundTrip_elements_k0(1, h.iarr([0])), fresh.roundTrip_elements_k0(1, h.iarr([0])), 'second object, static')


OBLIGATIONS = []


def add(name, fn, tier='quick', **kw):
    o = {k: kw.pop(k) for k in ('timeout', 'tol', 'points', 'max_paths') if k in kw}
    OBLIGATIONS.append(Obligation(name, fn, kw, tier=tier, points=o.get('points', 1), tol=o.get('tol', 1e-9),
                                  timeout=o.get('timeout', 300), max_paths=o.get('max_paths', 400),
                                  bounds=', '.join('%s=%s' % x for x in kw.items())[:1500]))


perms = list(itertools.permutations((0, 1, 2)))
EL = [[('el', m, 'A') for m in p] for p in perms] + [[('el', m, 'A') for m in p[:1] * 2 + p[1:]] for p in perms[:2]]
CH = [[('el', 2, 'A'), ('el', 2, 'B'), ('el', 1, 'A'), ('el', 2, 'C'), ('el', 0, 'D'), ('el', 2, 'one'), ('el', 2, 'three')],
      [('el', 1, 'one'), ('el', 1, 'two'), ('el', 2, 'one'), ('el', 0, 'A'), ('el', 1, 'C'), ('el', 2, 'A')],
      [('el', 0, 'three'), ('el', 2, 'A'), ('el', 1, 'three'), ('el', 1, 'B')]]
ST = [[('el0', m) for m in p] for p in perms]
BM = [[('bm', 2, 'one'), ('bm', 1, 'one'), ('bm', 2, 'two'), ('bm', 1, 'one')],
      [('k0', 2), ('bm', 2, 'one'), ('k0', 1), ('bm', 1, 'one'), ('k0', 2)],
      [('bm', 2, 'A'), ('bm', 2, 'zA'), ('bm', 2, 'zB'), ('ch', 2, 'zA'), ('bm', 2, 'A')]]
K0 = [[('k0', 2), ('k0', 1), ('k0', 0)], [('k0', 1), ('k0', 2)], [('k0', 0), ('k0', 2), ('k0', 0)]]
for e in (1, 0):
    t = 'ext' if e else 'int'
    add('elements-%s' % t, history, ext=e, seqs=EL)
    add('arrays-%s' % t, history, ext=e, seqs=CH)
    add('static-%s' % t, history, ext=e, seqs=ST)
    add('static-%s-3' % t, history, ext=e, seqs=[[('el0', 3), ('el0', 1), ('el0', 2), ('el0', 0)], [('el0', 2), ('el0', 3)]], lmax=3, lss=4)
    add('elements-%s-3' % t, history, ext=e, seqs=[[('el', 3, 'A'), ('el', 1, 'A'), ('el', 2, 'B'), ('el', 3, 'B')]], lmax=3, lss=4)
    add('blocks-%s' % t, history, ext=e, seqs=BM[:1], lmax=2, lss=2)
    add('blocks-mixed-%s' % t, history, ext=e, seqs=BM[1:2], lmax=2, lss=2)
    add('blocks-zero-%s' % t, history, ext=e, seqs=BM[2:], lmax=2, lss=2)
    add('blocks-static-%s' % t, history, ext=e, seqs=K0)
for kind in ('strat', 'coat'):
    add('elements-' + kind, history, kind=kind, seqs=EL)
    add('arrays-' + kind, history, kind=kind, seqs=CH)
    add('blocks-' + kind, history, kind=kind, seqs=BM[:1])
for kind in ('plain', 'strat', 'coat'):
    add('in-place-' + kind, in_place, kind=kind, m=2)
EN = [[('sum', 'A'), ('sum', 'B'), ('sum', 'A'), ('sum', 'one'), ('sum', 'C')],
      [('sum0',), ('sum', 'zA'), ('sum', 'A'), ('sum0',), ('sum', 'zB'), ('sum', 'B'), ('sum0',)],
      [('rt', 'one'), ('sum', 'one'), ('rt', 'two'), ('sum', 'one'), ('sum', 'two'), ('rt', 'one')],
      [('super', 1, 'A'), ('single', 1, 'A'), ('super', 0, 'B'), ('single', 2, 'B'), ('s0', 1), ('single', 0, 'A'), ('s0', 2), ('s0', 1)]]
for i, s in enumerate(EN):
    add('energies-%d' % i, energies, seqs=[s], prec=0)
LONG = [[('el', m, a) for a in ('A', 'B', 'A', 'C', 'D', 'one', 'two', 'one', 'three', 'A', 'B') for m in (2, 0)],
        [('el', m, a) for m in (0, 1, 2) for a in ('A', 'B', 'C', 'D', 'A', 'D', 'C', 'B')]]
for e in (1, 0):
    for i, s in enumerate(LONG):
        add('long-%s-%d' % ('ext' if e else 'int', i), history, ext=e, seqs=[s])
    add('long-mixed-%s' % ('ext' if e else 'int'), history, ext=e, seqs=[
        [(o, m) + ((a,) if o == 'el' else ()) for m in (2, 0, 1) for a in ('A', 'B', 'A') for o in ('el', 'el0')]])
add('independent', independent)
add('trace', history, lmax=1, lss=1, seqs=[[('tr', 'A'), ('tr', 'one'), ('tr', 'B'), ('tr', 'A')]])
OUTSIDE = 'longer sequences than listed, orders above 4; calls that fail half-way; rounding'
