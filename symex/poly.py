"""Sparse multivariate polynomials over Q and fractions of them with factored
denominators.  Generators are integers (indices into a GenTable).  A generator
may carry a reduction rule  g**2 -> Poly  (square roots, sin**2 = 1 - cos**2).
"""
from fractions import Fraction


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class GenTable(object):
    """Registry of generators (symbolic variables and derived atoms)."""

    def __init__(self):
        self.names = []
        self.kinds = []      # 'var','int','sqrt','cos','sin','angle','log10','pow10','pi','atom'
        self.info = []
        self.rule = {}       # gen -> Poly for gen**2
        self.memo = {}
        self.holo = set()
        self.memo['pi'] = self.new('pi', 'pi')   # always generator 0

    def new(self, name, kind, info=None):
        self.names.append(name)
        self.kinds.append(kind)
        self.info.append(info)
        return len(self.names) - 1


TABLE = [GenTable()]


def table():
    return TABLE[0]


def reset_table():
    TABLE[0] = GenTable()
    return TABLE[0]


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        va, ea = a[i]
        vb, eb = b[j]
        if va == vb:
            out.append((va, ea + eb))
            i += 1
            j += 1
        elif va < vb:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    if i < la:
        out.extend(a[i:])
    if j < lb:
        out.extend(b[j:])
    return tuple(out)


class PolyTooBig(Exception):
    pass


MAXTERMS = 60000


class Poly(object):
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    @staticmethod
    def const(c):
        c = _norm(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def gen(g):
        return Poly({((g, 1),): 1})

    def is_zero(self):
        return not self.t

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def const_value(self):
        return self.t.get((), 0)

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __add__(self, o):
        if len(self.t) < len(o.t):
            self, o = o, self
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = _norm(v)
            else:
                del t[m]
        return Poly(t)

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        if not k:
            return Poly({})
        if k == 1:
            return self
        return Poly({m: _norm(c * k) for m, c in self.t.items()})

    def __mul__(self, o):
        a, b = self.t, o.t
        if not a or not b:
            return Poly({})
        if len(a) == 1 and () in a:
            return o.scale(a[()])
        if len(b) == 1 and () in b:
            return self.scale(b[()])
        rules = table().rule
        t = {}
        need = []
        for ma, ca in a.items():
            for mb, cb in b.items():
                m = _mono_mul(ma, mb)
                t[m] = t.get(m, 0) + ca * cb
            if len(t) > MAXTERMS:
                raise PolyTooBig()
        t = {m: _norm(c) for m, c in t.items() if c}
        if rules:
            return _reduce(t, rules)
        return Poly(t)

    def gens(self):
        s = set()
        for m in self.t:
            for g, _ in m:
                s.add(g)
        return s

    def lead(self):
        """(mono, coeff) leading in a graded-lex order."""
        m = max(self.t, key=_order)
        return m, self.t[m]

    def monic(self):
        """Return (poly, scale) with self == poly*scale and poly monic."""
        m, c = self.lead()
        if c == 1:
            return self, 1
        inv = Fraction(1) / c
        return self.scale(inv), c

    def exact_div(self, d):
        """Return q with self == q*d or None (bounded effort)."""
        if self.is_zero():
            return self
        if d.is_const():
            return self.scale(Fraction(1) / d.const_value())
        if len(self.t) > 4000 or len(d.t) > 400:
            return None
        if not d.gens() <= self.gens():
            return None
        rules = table().rule
        if any(g in rules for g in d.gens()):
            return None
        dm, dc = d.lead()
        dme = dict(dm)
        rem = dict(self.t)
        q = {}
        import heapq
        steps = 0
        while rem:
            m = max(rem, key=_order)
            c = rem[m]
            me = dict(m)
            for g, e in dme.items():
                if me.get(g, 0) < e:
                    return None
                me[g] -= e
            qm = tuple(sorted((g, e) for g, e in me.items() if e))
            qc = _norm(Fraction(c) / dc)
            q[qm] = qc
            for mm, cc in d.t.items():
                k = _mono_mul(qm, mm)
                v = rem.get(k, 0) - qc * cc
                if v:
                    rem[k] = _norm(v)
                else:
                    rem.pop(k, None)
            steps += 1
            if steps > 3000 or len(rem) > 8000:
                return None
        return Poly(q)

    def eval(self, env):
        s = Fraction(0)
        for m, c in self.t.items():
            v = c
            for g, e in m:
                v = v * env[g] ** e
            s += v
        return s

    def __repr__(self):
        if not self.t:
            return "0"
        names = table().names
        out = []
        for m, c in list(self.t.items())[:12]:
            f = "*".join("%s%s" % (names[g], "^%d" % e if e > 1 else "")
                         for g, e in m)
            out.append("%s%s%s" % (c, "*" if f else "", f))
        if len(self.t) > 12:
            out.append("...")
        return " + ".join(out)


def _order(m):
    return (sum(e for _, e in m), tuple((-g, e) for g, e in m))


def _reduce(t, rules):
    """Apply g**2 -> rule until no rule applies."""
    todo = None
    for m in t:
        for g, e in m:
            if e > 1 and g in rules:
                todo = m
                break
        if todo is not None:
            break
    if todo is None:
        return Poly(t)
    good = {}
    acc = Poly({})
    for m, c in t.items():
        extra = None
        for g, e in m:
            if e > 1 and g in rules:
                extra = (g, e)
                break
        if extra is None:
            good[m] = good.get(m, 0) + c
        else:
            g, e = extra
            rest = tuple(x for x in m if x[0] != g)
            if e % 2:
                rest = _mono_mul(rest, ((g, 1),))
            base = Poly({rest: c})
            r = rules[g]
            for _ in range(e // 2):
                base = base * r
            acc = acc + base
    good = {m: c for m, c in good.items() if c}
    return Poly(good) + acc


ZERO = Poly({})
ONE = Poly({(): 1})


class Frac(object):
    """num / prod(f**e for f,e in den), factors monic non-constant polys."""
    __slots__ = ("num", "den", "_key")

    def __init__(self, num, den=()):
        self.num = num
        self.den = den          # tuple of (Poly, exp) sorted by hash
        self._key = None

    @staticmethod
    def const(c):
        return Frac(Poly.const(c))

    @staticmethod
    def gen(g):
        return Frac(Poly.gen(g))

    def is_const(self):
        return not self.den and self.num.is_const()

    def is_zero(self):
        return self.num.is_zero()

    def const_value(self):
        return self.num.const_value()

    def key(self):
        if self._key is None:
            self._key = (self.num, frozenset(self.den))
        return self._key

    def same(self, o):
        return self.key() == o.key()

    def den_poly(self):
        p = ONE
        for f, e in self.den:
            for _ in range(e):
                p = p * f
        return p

    def __neg__(self):
        return Frac(-self.num, self.den)

    def __add__(self, o):
        if self.num.is_zero():
            return o
        if o.num.is_zero():
            return self
        if self.den == o.den:
            return Frac(self.num + o.num, self.den).cancel()
        da, db = dict(self.den), dict(o.den)
        if da == db:
            return Frac(self.num + o.num, self.den).cancel()
        l = dict(da)
        for f, e in db.items():
            if l.get(f, 0) < e:
                l[f] = e
        na, nb = self.num, o.num
        for f, e in l.items():
            for _ in range(e - da.get(f, 0)):
                na = na * f
            for _ in range(e - db.get(f, 0)):
                nb = nb * f
        return Frac(na + nb, tuple(l.items())).cancel()

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if self.num.is_zero() or o.num.is_zero():
            return Frac(ZERO)
        if not self.den and not o.den:
            return Frac(self.num * o.num)
        # cancel crosswise
        na, nb = self.num, o.num
        da, db = dict(self.den), dict(o.den)
        na, db = _cancel_into(na, db)
        nb, da = _cancel_into(nb, da)
        for f, e in db.items():
            da[f] = da.get(f, 0) + e
        return Frac(na * nb, tuple(da.items()))

    def inv(self):
        if self.num.is_zero():
            raise ZeroDivisionError
        num = self.den_poly()
        if self.num.is_const():
            return Frac(num.scale(Fraction(1) / self.num.const_value()))
        f, s = self.num.monic()
        # pull out a monomial content so that monomials become factors
        den = {}
        common = None
        for m in f.t:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {g: min(e, d.get(g, 0)) for g, e in common.items()
                          if d.get(g, 0)}
            if not common:
                break
        if common and len(f.t) >= 1:
            cm = tuple(sorted(common.items()))
            q = {}
            for m, c in f.t.items():
                d = dict(m)
                for g, e in common.items():
                    d[g] -= e
                q[tuple(sorted((g, e) for g, e in d.items() if e))] = c
            for g, e in cm:
                den[Poly.gen(g)] = e
            rest = Poly(q)
            if not rest.is_const():
                rest, s2 = rest.monic()
                s = s * s2
                den[rest] = den.get(rest, 0) + 1
            else:
                s = s * rest.const_value()
        else:
            den[f] = 1
        num = num.scale(Fraction(1) / s)
        # rationalise pure square-root generators with constant radicand
        rules = table().rule
        for p in list(den):
            if len(p.t) == 1:
                (m, c), = p.t.items()
                if len(m) == 1 and m[0][1] == 1 and m[0][0] in rules and \
                        rules[m[0][0]].is_const():
                    e = den.pop(p)
                    r = rules[m[0][0]].const_value()
                    for _ in range(e):
                        num = (num * p).scale(Fraction(1) / r)
        out = Frac(num, tuple(den.items()))
        return out.cancel()

    def cancel(self):
        if not self.den:
            return self
        if self.num.is_zero():
            return Frac(ZERO)
        n, d = _cancel_into(self.num, dict(self.den))
        return Frac(n, tuple(d.items()))

    def gens(self):
        s = self.num.gens()
        for f, _ in self.den:
            s |= f.gens()
        return s

    def eval(self, env):
        d = Fraction(1)
        for f, e in self.den:
            d *= f.eval(env) ** e
        return self.num.eval(env) / d

    def __repr__(self):
        if not self.den:
            return repr(self.num)
        return "(%r)/(%s)" % (self.num, " * ".join(
            "(%r)%s" % (f, "^%d" % e if e > 1 else "") for f, e in self.den))


def _cancel_into(n, den):
    if not den or n.is_const():
        return n, den
    out = {}
    for f, e in den.items():
        while e > 0:
            q = n.exact_div(f)
            if q is None:
                break
            n = q
            e -= 1
        if e:
            out[f] = e
    return n, out
