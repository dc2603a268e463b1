"""Decision procedure: DAG -> canonical rational form over atoms -> z3.

exp/log/sqrt are handled by their algebra (exp(a+b)=exp(a)exp(b), exp(log u)=u for u>0,
log of products, w=sqrt(u): w>=0, w*w=u); what remains is polynomial arithmetic over real
atoms, decided by z3 (nlsat).  Exponential/logarithm atoms additionally get the lemma
instances 1+t<=e^t, Pade bounds and log b<=b-1 when the purely algebraic query is not
already unsat.
"""
import math
import random
import sys
import time
from fractions import Fraction
from functools import reduce

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402

from .sym import S, B, const, lift, b_not, Unsupported  # noqa: E402

MAXTERMS = 60000


class TooBig(Unsupported):
    pass


class Atom:
    __slots__ = ('i', 'kind', 'data', 'pos', 'nonneg', 'name', 'integer')

    def __init__(self, i, kind, data, pos=False, nonneg=False, name=None, integer=False):
        self.i, self.kind, self.data = i, kind, data
        self.pos, self.nonneg = pos, nonneg or pos
        self.name = name or '%s!%d' % (kind, i)
        self.integer = integer


class R:
    """num / prod(den): num = {mono: Fraction} (Laurent), den = {polykey: exp>0}"""
    __slots__ = ('num', 'den', '_k')

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (tuple(sorted(self.num.items())), tuple(sorted(self.den.items())))
        return self._k

    def is_const(self):
        return not self.den and (not self.num or (len(self.num) == 1 and () in self.num))

    def cval(self):
        return self.num.get((), Fraction(0))


def _mono_raw(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        s = d.get(a, 0) + e
        if s:
            d[a] = s
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def primes(n):
    """prime factorisation {p: e} of a positive integer (trial division; big leftovers kept)"""
    out = {}
    p = 2
    while p * p <= n and p < 100000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1 if p == 2 else 2
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


class Prover:
    def __init__(self, assumptions=(), timeout_ms=20000):
        self.atoms = []
        self.akey = {}
        self.polys = {}
        self.zv = {}
        self.cache = {}
        self.gcache = {}
        self.keep = []         # nodes whose ids are cache keys
        self.assumptions = list(assumptions)
        self.timeout_ms = timeout_ms
        self.stats = {'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'solver_s': 0.0}
        self.signcache = {}
        self.floororder = {}
        self._insign = False
        self.feascache = {}
        self.domain = {}       # side conditions met while encoding (description -> count)

    # -- atoms --------------------------------------------------------------
    def atom(self, kind, key, data, **kw):
        k = (kind, key)
        a = self.akey.get(k)
        if a is None:
            a = Atom(len(self.atoms), kind, data, **kw)
            self.atoms.append(a)
            self.akey[k] = a
        return a

    # -- polynomial arithmetic ---------------------------------------------
    def polykey(self, p):
        k = tuple(sorted(p.items()))
        self.polys.setdefault(k, p)
        return k

    def _needs_reduce(self, m):
        for a, e in m:
            at = self.atoms[a]
            if at.kind == 'root' and not 0 <= e < at.data[1]:
                return True
        return False

    def _reduce_term(self, m, c):
        """-> (coef, mono, [(polykey, exp)])"""
        extra = []
        d = dict(m)
        again = True
        while again:
            again = False
            for a in list(d):
                at = self.atoms[a]
                if at.kind != 'root' or a not in d:
                    continue
                e = d[a]
                q = at.data[1]
                if 0 <= e < q:
                    continue
                k, r = divmod(e, q)
                if r:
                    d[a] = r
                else:
                    d.pop(a)
                bk, bv = at.data[0]
                if bk == 'prime':
                    c = c * Fraction(bv) ** k
                elif bk == 'atom':
                    s = d.get(bv, 0) + k
                    if s:
                        d[bv] = s
                    else:
                        d.pop(bv, None)
                    again = True
                else:
                    extra.append((bv, k))
        return c, tuple(sorted(d.items())), extra

    def pmul(self, p, q):
        """product of two polynomials -> R (roots reduced)"""
        if len(p) * len(q) > MAXTERMS * 50:
            raise TooBig("polynomial product too large")
        out = {}
        extras = []
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = _mono_raw(m1, m2)
                c = c1 * c2
                if self._needs_reduce(m):
                    c, m, ex = self._reduce_term(m, c)
                    if ex:
                        extras.append((c, m, ex))
                        continue
                s = out.get(m, 0) + c
                if s:
                    out[m] = s
                else:
                    out.pop(m, None)
        if len(out) > MAXTERMS:
            raise TooBig("polynomial with %d terms" % len(out))
        r = R(out)
        # group extras by factor list
        groups = {}
        for c, m, ex in extras:
            g = groups.setdefault(tuple(sorted(ex)), {})
            s = g.get(m, 0) + c
            if s:
                g[m] = s
            else:
                g.pop(m, None)
        for ex, g in groups.items():
            t = R(g)
            for pk, k in ex:
                if k > 0:
                    for _ in range(k):
                        t = self.rmul(t, R(dict(self.polys[pk])))
                else:
                    t = self.rmul(t, R({(): Fraction(1)}, {pk: -k}))
            r = self.radd(r, t)
        return r

    def rmul(self, a, b):
        if not a.num or not b.num:
            return R({})
        r = self.pmul(a.num, b.num)
        den = dict(r.den)
        for d in (a.den, b.den):
            for k, e in d.items():
                den[k] = den.get(k, 0) + e
        if den:
            return self.cancel(R(r.num, den))
        return r

    def cancel(self, r):
        """cancel denominators equal (up to monomial/constant) to the numerator polynomial"""
        if not r.den or len(r.num) < 2:
            return r
        c, m, pk = self.content(r.num)
        if pk in r.den:
            den = dict(r.den)
            den[pk] -= 1
            if not den[pk]:
                del den[pk]
            return R({m: c}, den)
        return r

    def radd(self, a, b):
        if not a.num:
            return b
        if not b.num:
            return a
        if a.den == b.den:
            out = dict(a.num)
            for m, c in b.num.items():
                s = out.get(m, 0) + c
                if s:
                    out[m] = s
                else:
                    out.pop(m, None)
            if not out:
                return R({})
            return self.cancel(R(out, dict(a.den))) if a.den else R(out)
        den = dict(a.den)
        for k, e in b.den.items():
            den[k] = max(den.get(k, 0), e)
        an, bn = R(a.num), R(b.num)
        for k, e in den.items():
            for _ in range(e - a.den.get(k, 0)):
                an = self.rmul(an, R(dict(self.polys[k])))
            for _ in range(e - b.den.get(k, 0)):
                bn = self.rmul(bn, R(dict(self.polys[k])))
        if an.den or bn.den:      # produced by root reduction
            s = self.radd(an, bn)
        else:
            s = self.radd(R(an.num), R(bn.num))
        if not s.num:
            return R({})
        nd = dict(den)
        for k, e in s.den.items():
            nd[k] = nd.get(k, 0) + e
        return self.cancel(R(s.num, nd))

    def rscale(self, a, c):
        if c == 0:
            return R({})
        return R({m: v * c for m, v in a.num.items()}, dict(a.den))

    def content(self, p):
        """p = coef * mono * primitive(key)   (primitive: leading coefficient 1, no mono content)"""
        ms = list(p)
        if len(ms) == 1:
            return p[ms[0]], ms[0], None
        common = None
        for m in ms:
            d = dict(m)
            if common is None:
                common = d
            else:
                new = {}
                for a in set(common) | set(d):
                    e = min(common.get(a, 0), d.get(a, 0))
                    if e:
                        new[a] = e
                common = new
        g = tuple(sorted(common.items()))
        inv = tuple((a, -e) for a, e in g)
        q = {_mono_raw(m, inv): c for m, c in p.items()}
        lead = min(q)
        c0 = q[lead]
        q = {m: c / c0 for m, c in q.items()}
        return c0, g, self.polykey(q)

    def rinv(self, a):
        if not a.num:
            raise ZeroDivisionError("inverse of an expression that is identically zero")
        c, m, pk = self.content(a.num)
        num = {tuple((x, -e) for x, e in m): 1 / c}
        if self._needs_reduce(next(iter(num))):
            mm = next(iter(num))
            r = self.pmul({mm: num[mm]}, {(): Fraction(1)})
        else:
            r = R(num)
        if pk is not None:
            r = R(r.num, {**r.den, pk: r.den.get(pk, 0) + 1})
        for k, e in a.den.items():
            for _ in range(e):
                r = self.rmul(r, R(dict(self.polys[k])))
        return r

    def rpow(self, a, n):
        if n < 0:
            return self.rpow(self.rinv(a), -n)
        out = R({(): Fraction(1)})
        base = a
        while n:
            if n & 1:
                out = self.rmul(out, base)
            n >>= 1
            if n:
                base = self.rmul(base, base)
        return out

    # -- signs --------------------------------------------------------------
    def quick_sign(self, p):
        """1 / -1 if all terms obviously have that sign, else 0"""
        sg = 0
        for m, c in p.items():
            for a, e in m:
                at = self.atoms[a]
                if not (at.pos or (e % 2 == 0 and (at.nonneg and False))):
                    return 0
            s = 1 if c > 0 else -1
            if sg and s != sg:
                return 0
            sg = s
        return sg

    def poly_sign(self, p):
        s = self.quick_sign(p)
        if s:
            return s
        k = self.polykey(p)
        if k in self.signcache:
            return self.signcache[k]
        if self._insign:
            return 0
        self._insign = True
        try:
            z = self.zpoly(p)
            res = 0
            base = [self.zbool(x) for x in self.assumptions]
            if self._check(base + [z <= 0], lemmas=True, to=4000) == 'unsat':
                res = 1
            elif self._check(base + [z >= 0], lemmas=True, to=4000) == 'unsat':
                res = -1
        finally:
            self._insign = False
        self.signcache[k] = res
        return res

    def r_sign(self, r):
        s = self.poly_sign(r.num)
        for k, e in r.den.items():
            if e % 2:
                s *= self.poly_sign(self.polys[k])
        return s

    # -- factorisation for log / fractional powers --------------------------
    def factor(self, r):
        """|r| = prod base^e; bases ('prime',p), ('atom',i), ('poly',key).  Returns dict and
        the list of bases whose sign is not known to be positive."""
        out = {}

        def put(b, e):
            s = out.get(b, 0) + e
            if s:
                out[b] = s
            else:
                out.pop(b, None)
        if not r.num:
            raise ValueError("log/sqrt of an expression that is identically zero")
        c, m, pk = self.content(r.num)
        c = abs(c)
        for p, e in primes(c.numerator).items():
            put(('prime', p), Fraction(e))
        for p, e in primes(c.denominator).items():
            put(('prime', p), Fraction(-e))

        def put_atom(a, e):
            at = self.atoms[a]
            if at.kind == 'root':
                b = at.data[0]
                if b[0] == 'atom':
                    put_atom(b[1], Fraction(e, at.data[1]))
                else:
                    put(b, Fraction(e, at.data[1]))
            else:
                put(('atom', a), Fraction(e))
        for a, e in m:
            put_atom(a, Fraction(e))
        if pk is not None:
            put(('poly', pk), Fraction(1))
        for k, e in r.den.items():
            put(('poly', k), Fraction(-e))
        return out

    def base_r(self, b):
        if b[0] == 'prime':
            return R({(): Fraction(b[1])})
        if b[0] == 'atom':
            return R({((b[1], 1),): Fraction(1)})
        return R(dict(self.polys[b[1]]))

    def base_sign(self, b):
        if b[0] == 'prime':
            return 1
        if b[0] == 'atom':
            if self.atoms[b[1]].pos:
                return 1
            return self.poly_sign({((b[1], 1),): Fraction(1)})
        return self.poly_sign(self.polys[b[1]])

    def abs_base(self, b, lone):
        """canonical positive base for |b|; lone: the argument is assumed positive and every
        other factor is, so b itself is"""
        s = self.base_sign(b)
        if s == -1 and b[0] == 'poly':
            neg = {m: -c for m, c in self.polys[b[1]].items()}
            return ('poly', self.polykey(neg))
        if s == 1 or (s == 0 and lone):
            if s == 0:
                self.domain['argument of log/sqrt assumed positive'] = \
                    self.domain.get('argument of log/sqrt assumed positive', 0) + 1
            return b
        a = self.abs_r(self.base_r(b))
        m = next(iter(a.num))
        return ('atom', m[0][0])

    def base_pow(self, b, e):
        e = Fraction(e)
        if e.denominator == 1:
            return self.rpow(self.base_r(b), int(e))
        q = e.denominator
        w = self.atom('root', (b, q), (b, q), nonneg=True,
                      pos=(b[0] == 'prime' or (b[0] == 'atom' and self.atoms[b[1]].pos)
                           or (b[0] == 'poly' and self.quick_sign(self.polys[b[1]]) == 1)))
        return self.rpow(R({((w.i, 1),): Fraction(1)}), int(e.numerator))

    def frac_pow(self, r, e):
        f = self.factor(r)
        unk = [b for b in f if self.base_sign(b) != 1]
        out = R({(): Fraction(1)})
        for b, c in f.items():
            x = c * e
            if b in unk:
                if c.denominator == 1 and c.numerator % 2 == 0 and x.denominator == 1:
                    bb = self.abs_base(b, False)
                else:
                    bb = self.abs_base(b, len(unk) == 1)
                out = self.rmul(out, self.base_pow(bb, x))
            else:
                out = self.rmul(out, self.base_pow(b, x))
        return out

    split_log = False

    def factors_of(self, n, e=1):
        """syntactic multiplicative factors of an expression"""
        if n.op == '*':
            return self.factors_of(n.args[0], e) + self.factors_of(n.args[1], e)
        if n.op == '/':
            return self.factors_of(n.args[0], e) + self.factors_of(n.args[1], -e)
        return [(n, e)]

    def log_r(self, r, fs=None):
        if fs is not None:
            # log(u v) = log|u| + log|v|
            f = {}
            for n, e in fs:
                for b, c in self.factor(self.cache[id(n)]).items():
                    f[b] = f.get(b, 0) + c * e
                    if not f[b]:
                        del f[b]
        else:
            f = self.factor(r)
        if self.split_log == 'assume':
            # every factor of an argument of log was shown positive elsewhere
            unk = []
            self.domain['argument of log assumed positive'] = \
                self.domain.get('argument of log assumed positive', 0) + 1
        else:
            unk = [b for b in f if self.base_sign(b) != 1]
        out = R({})
        for b, c in f.items():
            if b[0] == 'atom' and self.atoms[b[1]].kind == 'exp':
                t = self.atoms[b[1]].data
                out = self.radd(out, self.rscale(t, c))
                continue
            bb = self.abs_base(b, len(unk) == 1) if b in unk else b
            a = self.atom('log', bb, bb)
            out = self.radd(out, R({((a.i, 1),): c}))
        return out

    @staticmethod
    def pdivmod(num, div):
        """quotient and remainder of polynomials (lexicographic order); None when exponents are negative"""
        if any(e < 0 for p in (num, div) for m in p for _, e in m):
            return None
        ats = sorted({a for p in (num, div) for m in p for a, _ in m})

        def key(m):
            d = dict(m)
            return tuple(d.get(a, 0) for a in ats)
        lead = max(div, key=key)
        lk, lc = dict(lead), div[lead]
        work, quo, rem = dict(num), {}, {}
        for _ in range(400):
            if not work:
                return quo, rem
            m = max(work, key=key)
            d = dict(m)
            if all(d.get(a, 0) >= e for a, e in lk.items()):
                q = tuple(sorted((a, d.get(a, 0) - lk.get(a, 0)) for a in d if d.get(a, 0) != lk.get(a, 0)))
                c = work[m] / lc
                quo[q] = quo.get(q, 0) + c
                for n, v in div.items():
                    k = _mono_raw(q, n)
                    w = work.get(k, 0) - c * v
                    if w:
                        work[k] = w
                    else:
                        work.pop(k, None)
            else:
                rem[m] = work.pop(m)
        return None

    def exp_r(self, r):
        out = R({(): Fraction(1)})
        if len(r.den) == 1 and list(r.den.values()) == [1]:
            d = self.pdivmod(r.num, self.polys[next(iter(r.den))])
            if d is not None and d[0]:
                out = self.exp_r(R(d[0]))
                r = R(d[1], dict(r.den))
        for m, c in r.num.items():
            if not r.den and len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == 'log':
                out = self.rmul(out, self.base_pow(self.atoms[m[0][0]].data, c))
                continue
            t = R({m: Fraction(1)}, dict(r.den))
            a = self.atom('exp', t.key(), t, pos=True)
            out = self.rmul(out, self.base_pow(('atom', a.i), c))
        return out

    def abs_r(self, r):
        if not r.num:
            return r
        if r.is_const():
            return R({(): abs(r.cval())})
        s = self.r_sign(r)
        if s == 1:
            return r
        if s == -1:
            return self.rscale(r, Fraction(-1))
        k = min(r.key(), self.rscale(r, Fraction(-1)).key())
        a = self.atom('abs', k, r, nonneg=True)
        return R({((a.i, 1),): Fraction(1)})

    # -- translation --------------------------------------------------------
    def r(self, n):
        got = self.cache.get(id(n))
        if got is not None:
            return got
        # iterative post-order
        stack = [n]
        while stack:
            x = stack[-1]
            if id(x) in self.cache:
                stack.pop()
                continue
            todo = [y for y in x.args if isinstance(y, S) and id(y) not in self.cache]
            if todo:
                stack.extend(todo)
                continue
            self.cache[id(x)] = self._r1(x)
            stack.pop()
        return self.cache[id(n)]

    def _r1(self, x):
        op, a = x.op, x.args
        if op == 'c':
            return R({(): a[0]}) if a[0] else R({})
        if op == 'v':
            at = self.atom('v', a[0], x, pos=a[2], name=a[0], integer=(a[1] == 'I'))
            return R({((at.i, 1),): Fraction(1)})
        if op == '+':
            return self.radd(self.cache[id(a[0])], self.cache[id(a[1])])
        if op == '*':
            u, v = self.cache[id(a[0])], self.cache[id(a[1])]
            if u.is_const():
                return self.rscale(v, u.cval())
            if v.is_const():
                return self.rscale(u, v.cval())
            return self.rmul(u, v)
        if op == '/':
            u, v = self.cache[id(a[0])], self.cache[id(a[1])]
            return self.rmul(u, self.rinv(v))
        if op == '^':
            u = self.cache[id(a[0])]
            if a[1].denominator == 1:
                return self.rpow(u, int(a[1]))
            if not u.num:
                return R({})
            return self.frac_pow(u, a[1])
        if op == 'exp':
            return self.exp_r(self.cache[id(a[0])])
        if op == 'log':
            fs = self.factors_of(a[0]) if self.split_log else []
            return self.log_r(self.cache[id(a[0])], fs if len(fs) > 1 else None)
        if op == 'abs':
            return self.abs_r(self.cache[id(a[0])])
        if op == 'floor':
            u = self.cache[id(a[0])]
            if u.is_const():
                return R({(): Fraction(math.floor(u.cval()))}) if math.floor(u.cval()) else R({})
            # pull out integer constants and integer-valued monomials
            whole = {}
            rest = {}
            for m, c in u.num.items():
                if not u.den and c.denominator == 1 and \
                        all(self.atoms[i].integer and e > 0 for i, e in m):
                    whole[m] = c
                else:
                    rest[m] = c
            if not rest:
                return R(whole)
            u2 = R(rest, dict(u.den))
            at = self.atom('floor', u2.key(), u2, integer=True)
            return self.radd(R(whole), R({((at.i, 1),): Fraction(1)}))
        if op == 'ite':
            at = self.atom('ite', (id(a[0]), self.cache[id(a[1])].key(), self.cache[id(a[2])].key()),
                           (a[0], self.cache[id(a[1])], self.cache[id(a[2])]))
            return R({((at.i, 1),): Fraction(1)})
        if op == 'uf':
            args = [self.cache[id(y)] if isinstance(y, S) else y for y in a[1:]]
            at = self.atom('uf', (a[0],) + tuple(y.key() if isinstance(y, R) else y for y in args),
                           (a[0], args), pos=a[0].startswith('+'))
            return R({((at.i, 1),): Fraction(1)})
        raise Unsupported("op " + op)

    # -- z3 -----------------------------------------------------------------
    def zatom(self, i):
        z = self.zv.get(i)
        if z is None:
            at = self.atoms[i]
            if at.integer:
                z = z3.ToReal(z3.Int('a%d' % i))
            else:
                z = z3.Real('a%d' % i)
            self.zv[i] = z
        self.used.add(i)
        return z

    used = set()

    def zpoly(self, p, mult=()):
        """z3 term for a Laurent polynomial multiplied by its positive-square clearing monomial:
        only used where the sign / zero of p matters, so negative exponents are cleared by
        multiplying with atom^(2k) (atoms assumed nonzero)"""
        neg = {}
        for m in p:
            for a, e in m:
                if e < 0:
                    neg[a] = max(neg.get(a, 0), -e)
        shift = []
        for a, e in neg.items():
            if not self.atoms[a].pos and e % 2:
                e += 1
            shift.append((a, e))
            self.nonzero.add(a)
        shift = tuple(sorted(shift))
        terms = []
        for m, c in p.items():
            m = _mono_raw(m, shift)
            fs = []
            for a, e in m:
                z = self.zatom(a)
                fs.append(z if e == 1 else z ** e)
            t = z3.RealVal(str(c))
            if fs:
                pr = reduce(lambda x, y: x * y, fs)
                t = pr if c == 1 else t * pr
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    nonzero = set()

    def zratio(self, r):
        """exact z3 term for r (with z3 division) -- used in lemma instances"""
        terms = []
        for m, c in r.num.items():
            t = z3.RealVal(str(c))
            for a, e in m:
                z = self.zatom(a)
                if e > 0:
                    t = t * (z if e == 1 else z ** e)
                else:
                    self.nonzero.add(a)
                    t = t / (z if e == -1 else z ** (-e))
            terms.append(t)
        num = z3.Sum(terms) if terms else z3.RealVal(0)
        for k, e in r.den.items():
            d = self.zpoly_exact(self.polys[k])
            self.dens.add(k)
            for _ in range(e):
                num = num / d
        return num

    def zpoly_exact(self, p):
        return self.zratio(R(p))

    dens = set()

    # -- sums kept apart by denominator -------------------------------------
    def groups(self, n):
        """expression as a sum of parts with different denominators {denominator: R}; products with one part are
        distributed, everything else is brought over a common denominator by r()"""
        got = self.gcache.get(id(n))
        if got is not None:
            return got
        stack = [n]
        while stack:
            x = stack[-1]
            if id(x) in self.gcache:
                stack.pop()
                continue
            if id(x) in self.cache or x.op not in ('+', '*', '/'):
                self.gcache[id(x)] = self._part(self.r(x))
                stack.pop()
                continue
            kids = x.args if x.op != '/' else x.args[:1]
            todo = [y for y in kids if id(y) not in self.gcache]
            if todo:
                stack.extend(todo)
                continue
            gs = [self.gcache[id(y)] for y in kids]
            if x.op == '+':
                out = dict(gs[0])
                for k, v in gs[1].items():
                    self._merge(out, k, v)
            else:
                if x.op == '/':
                    gs.append(self._part(self.rinv(self.r(x.args[1]))))
                gs.sort(key=len)
                out = {}
                if not gs[0]:
                    pass
                elif len(gs[0]) == 1 and len(gs[1]) <= 400:
                    (one,) = gs[0].values()
                    for v in gs[1].values():
                        w = self.rscale(v, one.cval()) if one.is_const() else self.rmul(one, v)
                        self._merge(out, self._den(w), w)
                else:
                    out = self._part(self.r(x))
            self.gcache[id(x)] = out
            self.keep.append(x)
            stack.pop()
        return self.gcache[id(n)]

    @staticmethod
    def _den(r):
        return tuple(sorted(r.den.items()))

    def _part(self, r):
        return {self._den(r): r} if r.num else {}

    def _merge(self, out, k, v):
        if k in out:
            v = self.radd(out.pop(k), v)
            if not v.num:
                return
            k = self._den(v)
            if k in out:
                return self._merge(out, k, v)
        if v.num:
            out[k] = v

    def difference(self, a, b):
        """a - b in canonical form; parts that agree cancel before a common denominator is formed"""
        if a is b:
            return R({})
        out = dict(self.groups(a))
        for k, v in self.groups(b).items():
            self._merge(out, k, self.rscale(v, Fraction(-1)))
        d = R({})
        for v in sorted(out.values(), key=lambda v: len(v.num)):
            d = self.radd(d, v)
        return d

    def zcmp(self, op, a, b):
        d = self.difference(a, b) if op == 'eq' else self.r(a - b if a is not b else const(0))
        odd = [k for k, e in d.den.items() if e % 2]
        sd = {k: self.quick_sign(self.polys[k]) if self.plain else 0 for k in d.den}
        for k in d.den:
            if not sd[k]:
                self.dens.add(k)
        num = d.num
        if len(num) == 1 and self.plain:
            (m, c), = num.items()
            if all(self.atoms[a].pos for a, _ in m):      # obvious sign: no atoms needed
                num = {(): Fraction(1 if c > 0 else -1)}
        p = self.zpoly(num)
        if op == 'eq':
            return p == 0
        for k in odd:
            p = p * sd[k] if sd[k] else p * self.zpoly(self.polys[k])
        return p < 0 if op == 'lt' else p <= 0

    def zbool(self, b):
        if isinstance(b, bool):
            return z3.BoolVal(b)
        if not isinstance(b, B):
            return z3.BoolVal(bool(b))
        op, a = b.op, b.args
        if op in ('lt', 'le', 'eq'):
            return self.zcmp(op, *a)
        if op == 'not':
            return z3.Not(self.zbool(a[0]))
        if op == 'and':
            return z3.And([self.zbool(x) for x in a])
        if op == 'or':
            return z3.Or([self.zbool(x) for x in a])
        if op == 'bv':
            return z3.Bool('b_' + a[0])
        raise Unsupported("bool op " + op)

    def side(self, lemmas):
        """defining constraints of all used atoms (closure)"""
        out = []
        done = set()
        dden = set()
        nz = set()
        while True:
            new = self.used - done
            newd = self.dens - dden
            if not new and not newd and not (self.nonzero - nz):
                break
            for i in sorted(new):
                done.add(i)
                at = self.atoms[i]
                z = self.zatom(i)
                if at.pos:
                    out.append(z > 0)
                elif at.nonneg:
                    out.append(z >= 0)
                if at.kind == 'v' and at.name == '#pi':
                    out += [z > z3.RealVal('3.14159265358979'), z < z3.RealVal('3.14159265358980')]
                elif at.kind == 'root':
                    b, q = at.data
                    if b[0] == 'prime':
                        out.append(z ** q == b[1])
                    elif b[0] == 'atom':
                        out.append(z ** q == self.zatom(b[1]))
                    else:
                        out.append(z ** q == self.zpoly_exact(self.polys[b[1]]))
                elif at.kind == 'abs':
                    u = self.zratio(at.data)
                    out.append(z3.Or(z3.And(u >= 0, z == u), z3.And(u <= 0, z == -u)))
                elif at.kind == 'floor':
                    u = self.zratio(at.data)
                    out += [z <= u, u < z + 1]
                elif at.kind == 'ite':
                    c, u, v = at.data
                    cz = self.zbool(c)
                    out.append(z3.And(z3.Implies(cz, z == self.zratio(u)),
                                      z3.Implies(z3.Not(cz), z == self.zratio(v))))
                elif at.kind == 'uf':
                    for j in list(done):
                        bt = self.atoms[j]
                        if j != i and bt.kind == 'uf' and bt.data[0] == at.data[0] \
                                and len(bt.data[1]) == len(at.data[1]):
                            eqs = []
                            ok = True
                            for u, v in zip(at.data[1], bt.data[1]):
                                if isinstance(u, R) and isinstance(v, R):
                                    if u.key() != v.key():
                                        eqs.append(self.zratio(u) == self.zratio(v))
                                elif u != v:
                                    ok = False
                            if ok:
                                out.append(z3.Implies(z3.And(eqs) if eqs else z3.BoolVal(True),
                                                      z == self.zatom(j)))
                elif at.kind == 'exp' and lemmas:
                    t = self.zratio(at.data)
                    out += [z >= 1 + t,
                            z3.Implies(t > 0, z3.And(z > 1 + t + t * t / 2, z * (2 - t) < 2 + t)),
                            z3.Implies(t < 0, z3.And(z < 1, z * (2 - t) > 2 + t)),
                            z3.Implies(t == 0, z == 1)]
                elif at.kind == 'log' and lemmas:
                    b = at.data
                    u = z3.RealVal(b[1]) if b[0] == 'prime' else (
                        self.zatom(b[1]) if b[0] == 'atom' else self.zpoly_exact(self.polys[b[1]]))
                    out += [u > 0, z <= u - 1, z * u >= u - 1,
                            z3.Implies(u == 1, z == 0)]
                    if b[0] == 'prime':
                        lo = Fraction(math.log(b[1])) - Fraction(1, 10 ** 12)
                        out += [z > z3.RealVal(str(lo)),
                                z < z3.RealVal(str(lo + Fraction(2, 10 ** 12)))]
            for k in sorted(newd):
                dden.add(k)
                out.append(self.zpoly(self.polys[k]) != 0)
            for a in sorted(self.nonzero - nz):
                nz.add(a)
                if not self.atoms[a].pos:
                    out.append(self.zatom(a) != 0)
        if lemmas:
            out += self.mono_lemmas(done)
        out += self.floor_lemmas(done)
        return out

    def order_floors(self):
        """order the arguments of the floors of the last query by real arithmetic alone"""
        xs = [i for i in sorted(self.used) if self.atoms[i].kind == 'floor']
        new = False
        if len(xs) > 4:
            return False
        for n, i in enumerate(xs):
            for j in xs[n + 1:]:
                if (i, j) in self.floororder:
                    continue
                d = self.radd(self.atoms[j].data, self.rscale(self.atoms[i].data, Fraction(-1)))
                m = self.last_model
                s = self.floororder[(i, j)] = self.r_sign(d) if d.num else 0
                self.last_model = m
                new = new or bool(s)
        return new

    def floor_lemmas(self, done):
        """floor is monotone: linear facts for pairs whose arguments are ordered by their form"""
        out = []
        xs = [i for i in sorted(done) if self.atoms[i].kind == 'floor']
        if len(xs) > 4:
            return out
        for n, i in enumerate(xs):
            for j in xs[n + 1:]:
                d = self.radd(self.atoms[j].data, self.rscale(self.atoms[i].data, Fraction(-1)))
                if not d.num:
                    continue
                s = self.quick_sign(d.num)
                for k, e in d.den.items():
                    if e % 2:
                        s *= self.quick_sign(self.polys[k])
                s = s or self.floororder.get((i, j), 0)
                if s:
                    x, y = self.zatom(i), self.zatom(j)
                    out.append(x <= y if s > 0 else y <= x)
        return out

    def mono_lemmas(self, done):
        """monotonicity between pairs of exp atoms / log atoms"""
        out = []
        for kind in ('exp', 'log'):
            xs = [i for i in sorted(done) if self.atoms[i].kind == kind]
            if len(xs) > 6:
                continue
            for n, i in enumerate(xs):
                for j in xs[n + 1:]:
                    a, b = self.atoms[i], self.atoms[j]
                    if kind == 'exp':
                        u, v = self.zratio(a.data), self.zratio(b.data)
                    else:
                        def arg(d):
                            return z3.RealVal(d[1]) if d[0] == 'prime' else (
                                self.zatom(d[1]) if d[0] == 'atom'
                                else self.zpoly_exact(self.polys[d[1]]))
                        u, v = arg(a.data), arg(b.data)
                    x, y = self.zatom(i), self.zatom(j)
                    out += [z3.Implies(u < v, x < y), z3.Implies(u > v, x > y),
                            z3.Implies(u == v, x == y)]
        return out

    def _fresh_use(self):
        self.used = set()
        self.nonzero = set()
        self.dens = set()

    def _check(self, conds, lemmas, to=None, want_model=False):
        """conds: z3 terms already built (self.used is up to date)"""
        side = self.side(lemmas)
        self.stats['queries'] += 1
        t0 = time.time()
        res, model = 'unknown', None
        to = to or self.timeout_ms
        ints = any(self.atoms[i].integer for i in self.used)
        strategies = []
        if not ints:
            strategies.append(lambda: z3.SolverFor('QF_NRA'))
        strategies.append(lambda: z3.Solver())
        for mk in strategies:
            s = mk()
            s.set('timeout', max(int(to / len(strategies)), 500))
            s.add(side)
            s.add(conds)
            r = s.check()
            if r == z3.unsat:
                res = 'unsat'
                break
            if r == z3.sat:
                res = 'sat'
                model = s.model()
                break
        self.stats['solver_s'] += time.time() - t0
        self.stats[res] += 1
        self.last_model = model
        return res

    last_model = None

    plain = True           # denominators of obvious sign are replaced by that sign

    def check(self, conds, want_model=False, to=None):
        to = to or self.timeout_ms
        for plain, t in ((True, to // 5), (False, to // 2), (True, to)):
            self.plain = plain
            try:
                r = self.check1(conds, t)
            finally:
                self.plain = True
            if r != 'unknown':
                break
        return r

    def check1(self, conds, to=None):
        """satisfiability of a list of B under exact algebra (+ lemmas if needed)"""
        self._fresh_use()
        zs = [self.zbool(c) for c in conds]
        used, nzr, dn = set(self.used), set(self.nonzero), set(self.dens)
        r = self._check(zs, lemmas=False, to=to)
        if r == 'unsat':
            return r
        self.used, self.nonzero, self.dens = set(used), set(nzr), set(dn)
        # closure over definitions may reach exp/log atoms
        self.side(False)
        if any(self.atoms[i].kind in ('exp', 'log') for i in self.used):
            self.used, self.nonzero, self.dens = used, nzr, dn
            m0 = self.last_model
            r2 = self._check(zs, lemmas=True, to=to)
            if r2 == 'unknown' and r == 'sat':
                self.last_model = m0
                return 'sat'
            return r2
        return r

    def quick_truth(self, c):
        """True / False when the sign of a comparison is obvious from its form, else None"""
        if not isinstance(c, B):
            return bool(c)
        if c.op == 'not':
            v = self.quick_truth(c.args[0])
            return None if v is None else not v
        if c.op not in ('lt', 'le'):
            return None
        try:
            a, b = c.args
            # integer k: k <= floor(u) iff k <= u; floor(u) < k iff u < k
            if c.op == 'le' and b.op == 'floor' and a.op == 'c' and a.args[0].denominator == 1:
                b = b.args[0]
            elif c.op == 'lt' and a.op == 'floor' and b.op == 'c' and b.args[0].denominator == 1:
                a = a.args[0]
            d = self.radd(self.r(b), self.rscale(self.r(a), Fraction(-1)))
        except (TooBig, ZeroDivisionError, ValueError, Unsupported):
            return None
        if not d.num:
            return c.op == 'le'
        s = self.quick_sign(d.num)
        for k, e in d.den.items():
            if e % 2:
                s *= self.quick_sign(self.polys[k])
        return None if s == 0 else s > 0

    def feasible(self, conds):
        key = tuple(id(c) if isinstance(c, B) else c for c in conds)
        if key in self.feascache:
            return self.feascache[key]
        v = self.check(conds, to=5000) != 'unsat'
        self.feascache[key] = v
        return v

    def some_value(self, conds, s):
        """an integer value s can take, or None"""
        v = z3.Int('val!')
        self._fresh_use()
        zs = [self.zbool(c) for c in conds]
        zs.append(self.zratio(self.r(s)) == z3.ToReal(v))
        side = self.side(True)
        sol = z3.Solver()
        sol.set('timeout', 10000)
        sol.add(side)
        sol.add(zs)
        self.stats['queries'] += 1
        r = sol.check()
        if r == z3.unsat:
            return None
        if r != z3.sat:
            raise Unsupported("cannot concretize %r" % s)
        return sol.model().eval(v, model_completion=True).as_long()

    def model_env(self, model):
        """values of the 'v' atoms in a z3 model, as floats"""
        env = {}
        for i, at in enumerate(self.atoms):
            if at.kind != 'v' or at.name == '#pi' or i not in self.zv:
                continue
            val = model.eval(self.zv[i], model_completion=False)
            if z3.is_rational_value(val):
                env[at.name] = float(val.as_fraction())
            elif z3.is_algebraic_value(val):
                env[at.name] = float(val.approx(20).as_fraction())
        return env

    def prove(self, assumptions, claim, to=None):
        """-> ('proved', None) | ('cex', env) | ('unknown', None)"""
        r = self.check(list(assumptions) + [b_not(claim)], to=to)
        if r != 'unsat' and self.order_floors():
            r = self.check(list(assumptions) + [b_not(claim)], to=to)
        if r == 'unsat':
            return 'proved', None
        if r == 'sat':
            return 'cex', self.model_env(self.last_model)
        return 'unknown', None


# -- numeric evaluation (mpmath), for validation and counterexample search ----

def uf_value(name):
    """numeric meaning of the known special-function symbols"""
    import mpmath as mp
    if name.startswith('+bi'):
        l = int(name[3:])
        return lambda x: mp.sqrt(mp.pi / (2 * x)) * mp.besseli(l + mp.mpf(1) / 2, x)
    if name.startswith('+bk'):
        l = int(name[3:])
        return lambda x: mp.sqrt(mp.pi / (2 * x)) * mp.besselk(l + mp.mpf(1) / 2, x)
    raise Unsupported('no numeric meaning for ' + name)


def evalf(n, env, ufs=None, prec=60):
    import mpmath
    mp = mpmath.mp
    cache = {}

    def go(root):
        stack = [root]
        while stack:
            x = stack[-1]
            if id(x) in cache:
                stack.pop()
                continue
            todo = [y for y in x.args if isinstance(y, S) and id(y) not in cache]
            if x.op == 'ite':
                c = evalb(x.args[0], env, ufs, prec)
                br = x.args[1] if c else x.args[2]
                if id(br) not in cache:
                    stack.append(br)
                    continue
                cache[id(x)] = cache[id(br)]
                stack.pop()
                continue
            if todo:
                stack.extend(todo)
                continue
            cache[id(x)] = one(x)
            stack.pop()
        return cache[id(root)]

    def one(x):
        op, a = x.op, x.args
        if op == 'c':
            return mp.mpf(a[0].numerator) / a[0].denominator
        if op == 'v':
            if a[0] == '#pi':
                return +mp.pi
            return mp.mpf(env[a[0]])
        v = [cache[id(y)] for y in a if isinstance(y, S)]
        if op == '+':
            return v[0] + v[1]
        if op == '*':
            return v[0] * v[1]
        if op == '/':
            return v[0] / v[1]
        if op == '^':
            return v[0] ** (mp.mpf(a[1].numerator) / a[1].denominator if a[1].denominator != 1
                            else int(a[1]))
        if op == 'exp':
            return mp.exp(v[0])
        if op == 'log':
            return mp.log(v[0])
        if op == 'abs':
            return abs(v[0])
        if op == 'floor':
            return mp.floor(v[0])
        if op == 'uf':
            fn = ufs[a[0]] if ufs and a[0] in ufs else uf_value(a[0])
            return fn(*[cache[id(y)] if isinstance(y, S) else y for y in a[1:]])
        raise Unsupported(op)
    with mpmath.workdps(prec):
        return go(n)


def evalb(b, env, ufs=None, prec=60):
    if not isinstance(b, B):
        return bool(b)
    op, a = b.op, b.args
    if op == 'not':
        return not evalb(a[0], env, ufs, prec)
    if op == 'and':
        return all(evalb(x, env, ufs, prec) for x in a)
    if op == 'or':
        return any(evalb(x, env, ufs, prec) for x in a)
    if op == 'bv':
        return bool(env.get(a[0], False))
    x, y = evalf(a[0], env, ufs, prec), evalf(a[1], env, ufs, prec)
    return {'lt': x < y, 'le': x <= y, 'eq': abs(x - y) <= 1e-25 * (abs(x) + abs(y))}[op]


def variables(nodes):
    """all variable nodes occurring in S/B nodes"""
    out = {}
    seen = set()
    stack = list(nodes)
    while stack:
        x = stack.pop()
        if not isinstance(x, (S, B)) or id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, S) and x.op == 'v':
            if x.args[0] != '#pi':
                out[x.args[0]] = x
            continue
        stack.extend(y for y in x.args if isinstance(y, (S, B)))
    return out
