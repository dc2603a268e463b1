"""C27: tabulated optical data."""
from engine.harness import Obligation


def table(h, n):
    """increasing table of arbitrary positive permittivities (written as a distorted Drude law so that concrete
    samples can be fitted)"""
    xs = [h.pos('t0', smp=(0.8, 1.2))]
    for i in range(1, n):
        xs.append(xs[-1] + h.pos('t%d' % i, smp=(0.5, 1)))
    w, g = h.pos('w', smp=(2, 3)), h.pos('g', smp=(0.5, 1))
    ys = [drude(h, x, w, g) + h.real('e%d' % i, smp=(-0.05, 0.05)) for i, x in enumerate(xs)]
    return xs, ys


def drude(h, x, w, g):
    return 1 + w * w / (x * x + x * g)


def fitted(h, f, xs, ys):
    if h.sym:
        from engine import symnp
        return symnp.curve_fit(f, h.arr(xs), h.arr(ys))[0]
    from scipy.optimize import curve_fit
    return curve_fit(f, h.arr(xs), h.arr(ys))[0]


def grid(h, xs, low, mid, high):
    """frequencies: `low` below the table, one per entry of `mid` in that cell, `high` above"""
    out = []
    for i in range(low):
        out.append(h.pos('l%d' % i, smp=(0.1 + 0.2 * i, 0.2 + 0.2 * i)))
    for i in range(low - 1):
        h.given(out[i] < out[i + 1])
    if low:
        h.given(out[-1] < xs[0])
    n = len(xs)
    for i, c in enumerate(mid):
        t = h.pos('m%d' % i, hi=1, strict=True, smp=(0.05 + 0.2 * i, 0.2 + 0.2 * i))     # position within the cell
        t_ = xs[c] + t * (xs[c + 1] - xs[c])
        if i and mid[i - 1] == c:
            h.given(prev < t)
        prev = t
        out.append(t_)
    v = xs[-1]
    for i in range(high):
        v = v + h.pos('u%d' % i, smp=(0.2, 1))
        out.append(v)
    return out


def line(xs, ys, c, t):
    return ys[c] + (ys[c + 1] - ys[c]) * (t - xs[c]) / (xs[c + 1] - xs[c])


def whole(h, n, low, mid, high):
    dm = h.mod('data_inter_extrapolation')
    xs, ys = table(h, n)
    om = grid(h, xs, low, mid, high)
    X, Y, O = h.arr(xs), h.arr(ys), h.arr(om)
    D = dm.data_interp_extrap(X, Y)
    r = D.get_drude_data(O)
    h.shape(r, (len(om),), 'one value per frequency')
    a, b = fitted(h, D.epsilon_drude, xs, ys)
    for i in range(low):
        h.eq(r[i], drude(h, om[i], a, b), 'fitted Drude law below the table', tol=1e-6)
    for i, c in enumerate(mid):
        h.eq(r[low + i], line(xs, ys, c, om[low + i]), 'linear interpolation inside the table', tol=1e-9)
    for i in range(low + len(mid), len(om)):
        h.eq(r[i], drude(h, om[i], a, b), 'fitted Drude law above the table', tol=1e-6)
    h.eq(X, xs, 'table unchanged')
    h.eq(Y, ys, 'table unchanged')
    h.eq(O, om, 'frequencies unchanged')
    h.eq(D.get_drude_data(O), r, 'asking again gives the same', atol=1e-12)


def history(h):
    """two tables, several frequency arrays each, in any order"""
    dm = h.mod('data_inter_extrapolation')
    xs, ys = table(h, 3)
    ws = [x + h.frac(1, 8) for x in xs]
    zs = [y + h.frac(1, 16) for y in ys]
    D, E = dm.data_interp_extrap(h.arr(xs), h.arr(ys)), dm.data_interp_extrap(h.arr(ws), h.arr(zs))
    lo = [h.pos('l%d' % i, smp=(0.1 + 0.2 * i, 0.2 + 0.2 * i)) for i in range(2)]
    h.given(lo[0] < lo[1])
    h.given(lo[1] < xs[0])
    t = h.pos('m', hi=h.frac(1, 2), strict=True, smp=(0.05, 0.45))
    up = h.pos('u', smp=(0.2, 1))
    a, b = fitted(h, D.epsilon_drude, xs, ys)
    c, d = fitted(h, E.epsilon_drude, ws, zs)
    for n, (obj, tx, ty, p, q, cell, low) in enumerate(((D, xs, ys, a, b, 0, 0), (E, ws, zs, c, d, 0, 0), (D, xs, ys, a, b, 1, 0), (D, xs, ys, a, b, 0, 1),
                                                        (E, ws, zs, c, d, 1, 1), (D, xs, ys, a, b, 0, 0))):
        mid = tx[cell] + t * (tx[cell + 1] - tx[cell])
        om = [lo[low], mid, tx[-1] + up]
        r = obj.get_drude_data(h.arr(om))
        h.shape(r, (3,), 'one value per frequency')
        h.eq(r[0], drude(h, om[0], p, q), 'question %d: below' % n, tol=1e-6)
        h.eq(r[1], line(tx, ty, cell, mid), 'question %d: inside' % n, tol=1e-9)
        h.eq(r[2], drude(h, om[2], p, q), 'question %d: above' % n, tol=1e-6)
        for i in range(3):
            r[i] = h.frac(0)


def parts(h, n, low, mid, high):
    dm = h.mod('data_inter_extrapolation')
    xs, ys = table(h, n)
    om = grid(h, xs, low, mid, high)
    D = dm.data_interp_extrap(h.arr(xs), h.arr(ys))
    v, b = D.interpolate(h.arr(om))
    h.shape(v, (len(mid),), 'the frequencies inside')
    for i, c in enumerate(mid):
        h.eq(v[i], line(xs, ys, c, om[low + i]), 'linear interpolation inside the table', tol=1e-9)
    h.eq(b[0], om[low], 'first frequency inside')
    h.eq(b[1], om[low + len(mid) - 1], 'last frequency inside')


def law(h):
    dm = h.mod('data_inter_extrapolation')
    xs, ys = table(h, 3)
    D = dm.data_interp_extrap(h.arr(xs), h.arr(ys))
    w, wp, g = h.pos('o', smp=(0.5, 3)), h.pos('wp', smp=(0.5, 3)), h.pos('gam', smp=(0, 3))
    h.eq(D.epsilon_drude(w, wp, g), drude(h, w, wp, g), 'Drude law')
    o2 = h.pos('o2', smp=(0.5, 3))
    e = D.epsilon_drude(h.arr([w, o2]), wp, g)
    h.eq(e, [drude(h, w, wp, g), drude(h, o2, wp, g)], 'Drude law, arrays')
    f = D.fit(D.epsilon_drude, h.arr([w, o2]))
    a, b = fitted(h, D.epsilon_drude, xs, ys)
    h.eq(f, [drude(h, w, a, b), drude(h, o2, a, b)], 'fitted law', tol=1e-6)

    def other(x, p, q):
        return p / x + q
    f = D.fit(other, h.arr([w, o2]))
    a, b = fitted(h, other, xs, ys)
    h.eq(f, [a / w + b, a / o2 + b], 'any two-parameter law can be fitted', tol=1e-6)


def single(h, scalar):
    dm = h.mod('data_inter_extrapolation')
    xs, ys = table(h, 3)
    D = dm.data_interp_extrap(h.arr(xs), h.arr(ys))
    c = h.num('3e14')
    if scalar:
        w = h.num('1.25')
        arg = w if h.sym else 1.25
        if h.sym:
            arg = w
    else:
        w = h.pos('o', smp=(0.5, 3))
        arg = h.arr([w])
    r = D.get_drude_data(arg)
    h.shape(r, (1,), 'one value')
    h.eq(r[0], drude(h, w, h.num('1.4e16') / c, h.num('5.3e13') / c), 'a single frequency: Drude law of gold')


def conversion(h, n):
    mc = h.mod('materials_converter')
    cs = [(h.pos('C%d' % i, smp=(0.1, 2)), h.pos('E%d' % i, smp=(0.1, 20))) for i in range(n)]
    given = [[a, b] for a, b in cs]
    out = mc.transform(given)
    h.eq(len(out), n, 'one oscillator per entry')
    r = h.num('1.602176634e-19') / h.num('1.054571817e-34')
    for i, (a, b) in enumerate(cs):
        h.eq(out[i][0] * out[i][0], a * out[i][1] * out[i][1], 'strength C means wP^2 = C wR^2', tol=1e-9)
        h.lt(0, out[i][0], 'positive plasma frequency')
        h.lt(out[i][1], r * b * h.num('1.0001'), 'electronvolts to rad/s')
        h.lt(r * b * h.num('0.9999'), out[i][1], 'electronvolts to rad/s')
    for i in range(n):
        h.eq(given[i][0], cs[i][0], 'the given list is unchanged')
        h.eq(given[i][1], cs[i][1], 'the given list is unchanged')


OBLIGATIONS = []
for n, low, mid, high in ((3, 1, (0,), 1), (3, 2, (0, 1), 1), (3, 1, (1, 1), 2), (4, 0, (0, 2), 1), (4, 1, (1,), 0),
                          (4, 2, (0, 1, 2), 2), (4, 1, (0, 0, 2), 1), (3, 2, (0,), 3), (3, 3, (0, 0, 1), 1),
                          (5, 2, (0, 1, 2, 3), 4), (6, 1, (2, 4), 2)):
    nm = '%d_%d_%s_%d' % (n, low, ''.join(map(str, mid)), high)
    OBLIGATIONS += [Obligation('whole_' + nm, whole, dict(n=n, low=low, mid=mid, high=high)),
                    Obligation('parts_' + nm, parts, dict(n=n, low=low, mid=mid, high=high))]
OBLIGATIONS += [Obligation('history', history, {}, points=1, bounds='two tables, six questions'), Obligation('law', law, {}), Obligation('single_array', single, dict(scalar=False)),
                Obligation('single_scalar', single, dict(scalar=True)),
                Obligation('conversion_1', conversion, dict(n=1)), Obligation('conversion_3', conversion, dict(n=3))]
for n, low, mid, high in ((5, 3, (0, 1, 1, 3), 3), (5, 2, (3, 3, 3), 1), (8, 4, (0, 0, 3, 5, 6), 6)):
    nm = '%d_%d_%s_%d' % (n, low, ''.join(map(str, mid)), high)
    OBLIGATIONS.append(Obligation('whole_' + nm, whole, dict(n=n, low=low, mid=mid, high=high), tier='thorough'))
OUTSIDE = ('tables of more than 6 points, frequencies exactly on the edges of the table, unsorted frequencies, the quality of '
           'the least-squares fit (its parameters are arbitrary functions of the table), floating-point rounding')
HOW = """The table (abscissae and values), every requested frequency and the parameters the fit returns are symbolic: the fit is an
uninterpreted function of the model law and of the whole table, so fitting something else or evaluating it with
other parameters is seen.  Which cell of the table a frequency lies in is enumerated; the result is compared entry
by entry with the straight line through the cell or the Drude law.  The converter of oscillator strengths is
executed on symbolic lists."""
