"""Symbolic scalars, path conditions, the solver interface and the explorer."""
import math
import random
import time
from fractions import Fraction

import z3

from . import poly
from .poly import Poly, Frac, ZERO, ONE, table

z3.set_param("memory_max_size", 3500)


class Unsupported(Exception):
    """The encoding cannot follow the code here (engine limitation)."""


class PathAbort(BaseException):
    """The current path is infeasible or cut by an assumption."""


class PathBudget(BaseException):
    pass


# --------------------------------------------------------------- formulas
# True/False | ('lt', Frac) | ('le', Frac) | ('eq', Frac) | ('and', fs)
# | ('or', fs) | ('not', f) | ('bv', gen)   -- boolean variable as gen==1

def f_not(f):
    if f is True:
        return False
    if f is False:
        return True
    if f[0] == 'not':
        return f[1]
    if f[0] == 'lt':
        return ('le', -f[1])
    if f[0] == 'le':
        return ('lt', -f[1])
    return ('not', f)


def f_and(*fs):
    out = []
    for f in fs:
        if f is False:
            return False
        if f is True:
            continue
        if f[0] == 'and':
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ('and', tuple(out))


def f_or(*fs):
    return f_not(f_and(*[f_not(f) for f in fs]))


def f_atom(op, fr):
    if fr.is_const():
        v = fr.const_value()
        return v < 0 if op == 'lt' else v <= 0 if op == 'le' else v == 0
    if op == 'eq':
        if fr.num.is_const():
            return fr.num.is_zero()
        # the denominator is non-zero by assumption; sign-normalise
        n, _ = fr.num.monic()
        return ('eq', Frac(n))
    return (op, fr)


def f_gens(f, acc=None):
    if acc is None:
        acc = set()
    if f is True or f is False:
        return acc
    if f[0] in ('lt', 'le', 'eq'):
        acc |= f[1].gens()
    elif f[0] in ('and', 'or'):
        for g in f[1]:
            f_gens(g, acc)
    elif f[0] == 'not':
        f_gens(f[1], acc)
    elif f[0] == 'ident':
        acc |= f[1].gens()
        acc |= f[2].gens()
    return acc


def f_eval(f, env):
    if f is True or f is False:
        return f
    k = f[0]
    if k == 'not':
        return not f_eval(f[1], env)
    if k == 'and':
        return all(f_eval(g, env) for g in f[1])
    if k == 'or':
        return any(f_eval(g, env) for g in f[1])
    if k == 'ident':
        return abs(f[1].eval(env) - f[2].eval(env)) < 1e-9
    try:
        v = f[1].eval(env)
    except ZeroDivisionError:
        return False
    if k == 'lt':
        return v < 0
    if k == 'le':
        return v <= 0
    if isinstance(v, float):
        return abs(v) < 1e-12
    return v == 0


# ------------------------------------------------------------------ engine

class Engine(object):
    def __init__(self, query_timeout_ms=8000, max_paths=100000):
        self.query_timeout = query_timeout_ms
        self.stats = dict(queries=0, solver_time=0.0, unknown=0, sat=0,
                          unsat=0, paths=0, infeasible=0)
        self.cache = {}
        self.begin([])

    # -- path life cycle
    def begin(self, prefix):
        poly.reset_table()
        self.prefix = list(prefix)
        self.trace = []
        self.pc = []
        self.pcset = set()
        self.alternatives = []
        self.choices = {}
        self.vars = {}           # name -> (gen(s), kind)
        self.varorder = []
        self.z3vars = {}
        self.z3cache = {}
        self.defs = {0: _PIDEF}  # gen -> formula over its definition
        self.tags = {}
        self.itags = {}
        self.fresh = 0
        self.assumed_nonzero = []
        self.notes = []
        self.deadline = None
        self.allow_tags = False
        self.sign_forks = 0
        self.tag_exp = 30
        self.spectra = {}        # matrix -> what is known about it
        self.conc = {}

    # -- z3 translation
    def zvar(self, g):
        v = self.z3vars.get(g)
        if v is None:
            t = table()
            if t.kinds[g] == 'int':
                v = z3.ToReal(z3.Int("i%d" % g))
            else:
                v = z3.Real("r%d" % g)
            self.z3vars[g] = v
        return v

    def zpoly(self, p):
        v = self.z3cache.get(p)
        if v is not None:
            return v
        terms = []
        for m, c in p.t.items():
            fs = []
            for g, e in m:
                fs.extend([self.zvar(g)] * e)
            if c != 1 or not fs:
                c = Fraction(c)
                cv = z3.Q(c.numerator, c.denominator)
                fs.insert(0, cv)
            terms.append(fs[0] if len(fs) == 1 else z3.Product(fs))
        if not terms:
            v = z3.RealVal(0)
        elif len(terms) == 1:
            v = terms[0]
        else:
            v = z3.Sum(terms)
        self.z3cache[p] = v
        return v

    def zform(self, f):
        if f is True:
            return z3.BoolVal(True)
        if f is False:
            return z3.BoolVal(False)
        k = f[0]
        if k == 'not':
            return z3.Not(self.zform(f[1]))
        if k == 'and':
            return z3.And(*[self.zform(g) for g in f[1]])
        if k == 'or':
            return z3.Or(*[self.zform(g) for g in f[1]])
        if k == 'ident':
            # a == b, cross-multiplied but not expanded by us
            a, b = f[1], f[2]
            rules = table().rule
            if any(g in rules for g in f_gens(f)):
                # generators with g*g -> polynomial: expand and reduce
                try:
                    l, r = a.num, b.num
                    for q, e in b.den:
                        for _ in range(e):
                            l = l * q
                    for q, e in a.den:
                        for _ in range(e):
                            r = r * q
                    return self.zpoly(l - r) == 0
                except poly.PolyTooBig:
                    pass
            l = self.zpoly(a.num)
            for q, e in b.den:
                for _ in range(e):
                    l = l * self.zpoly(q)
            r = self.zpoly(b.num)
            for q, e in a.den:
                for _ in range(e):
                    r = r * self.zpoly(q)
            return l == r
        fr = f[1]
        n = self.zpoly(fr.num)
        if k == 'eq':
            return n == 0
        for q, e in fr.den:
            if e % 2:
                n = n * self.zpoly(q)
        return n < 0 if k == 'lt' else n <= 0

    # -- queries
    def closure(self, f):
        gens = f_gens(f)
        todo = [(g, f_gens(g)) for g in self.pc]
        fs = []
        donedefs = set()
        changed = True
        while changed:
            changed = False
            for g in list(gens):
                if g in self.defs and g not in donedefs:
                    donedefs.add(g)
                    d = self.defs[g]
                    fs.append(d)
                    gens |= f_gens(d)
                    changed = True
            rest = []
            for g, gg in todo:
                if gg & gens:
                    fs.append(g)
                    if not gg <= gens:
                        gens |= gg
                    changed = True
                else:
                    rest.append((g, gg))
            todo = rest
        return fs, gens

    def query(self, f, want_model=False, timeout=None):
        """Is pc and f satisfiable?  'sat' | 'unsat' | 'unknown'."""
        if f is False:
            return 'unsat'
        fs, gens = self.closure(f)
        self.stats['queries'] += 1
        t0 = time.time()
        ints = any(table().kinds[g] == 'int' for g in gens)
        allf = fs + [f]
        nonlin = any(_nonlinear(x) for x in allf)
        zs = [self.zform(x) for x in allf]
        to = timeout or self.query_timeout
        res = z3.unknown
        s = None
        if not nonlin or ints:
            s = z3.Solver()
            s.set("timeout", to)
            s.add(*zs)
            res = s.check()
        if res == z3.unknown and nonlin:
            # 1. som-simplify: decides polynomial identities
            if f is not True and f[0] in ('not',) and \
                    f[1][0] in ('eq', 'ident'):
                try:
                    z = z3.simplify(zs[-1], som=True, local_ctx=False)
                    if z3.is_false(z):
                        res = z3.unsat
                except z3.Z3Exception:
                    pass
            if res == z3.unknown:
                s = z3.SolverFor("QF_NRA")
                s.set("timeout", to)
                s.add(*zs)
                try:
                    res = s.check()
                except z3.Z3Exception:
                    res = z3.unknown
        self.stats['solver_time'] += time.time() - t0
        r = 'sat' if res == z3.sat else 'unsat' if res == z3.unsat else 'unknown'
        self.stats[r] += 1
        if want_model:
            return r, (s.model() if r == 'sat' else None)
        return r

    # -- branching
    def add(self, f):
        if f is True:
            return
        if f is False:
            raise PathAbort()
        if f[0] == 'and':
            for g in f[1]:
                self.add(g)
            return
        if f in self.pcset:
            return
        self.pcset.add(f)
        self.pc.append(f)

    def assume(self, f):
        if f is True:
            return
        if f is False:
            raise PathAbort()
        if f in self.pcset:
            return
        self.add(f)

    def decide(self, f):
        if f is True or f is False:
            return f
        if f in self.pcset:
            return True
        nf = f_not(f)
        if nf in self.pcset:
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            self.add(f if d else nf)
            return bool(d)
        rt = self.query(f)
        if rt == 'unsat':
            d, both = 0, False
        else:
            rf = self.query(nf)
            d, both = 1, rf != 'unsat'
        if both:
            self.alternatives.append(self.trace[:] + [0])
        self.trace.append(d)
        self.add(f if d else nf)
        return bool(d)

    def choose(self, name, options):
        """Exhaustive fork over a finite structural domain."""
        options = list(options)
        if name in self.choices:
            v = self.choices[name]
            if v[0] < len(options):
                return options[v[0]]
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = 0
            for k in range(len(options) - 1, 0, -1):
                self.alternatives.append(self.trace[:] + [k])
        self.trace.append(d)
        if d >= len(options):
            raise PathAbort()
        self.choices[name] = (d, options[d])
        return options[d]

    # -- variables
    def newvar(self, name, kind='var'):
        g = table().new(name, kind)
        self.vars[name] = g
        self.varorder.append(name)
        return g

    # -- models
    def guess_model(self, rng, tries=40, wide=False):
        names = self.varorder
        t = table()
        for k in range(tries):
            env = {}
            for n in names:
                g = self.vars[n]
                if t.kinds[g] == 'int':
                    env[g] = Fraction(rng.randint(-3, 6))
                    if wide and k < tries // 2:
                        env[g] = Fraction(rng.randint(
                            0, 10 ** rng.randint(1, 6) - 1))
                else:
                    env[g] = Fraction(rng.choice(
                        [-7, -5, -3, -2, -1, 1, 2, 3, 5, 7, 11, 13]),
                        rng.choice([1, 2, 3, 4, 5, 8, 10]))
                    if k % 3 == 2:
                        env[g] = abs(env[g])
            if self.env_ok(env):
                return {n: env[self.vars[n]] for n in names}
        return None

    def env_ok(self, env):
        env = dict(env)
        if not self.complete_env(env):
            return False
        try:
            return all(f_eval(f, env) for f in self.pc)
        except (ZeroDivisionError, KeyError, OverflowError, ValueError):
            return False

    def complete_env(self, env):
        """Evaluate derived generators (floats) from input variables."""
        return self.complete_env_for(env, None)

    def complete_env_for(self, env, gens):
        t = table()
        if gens is not None:
            todo, need = list(gens), set()
            while todo:
                g = todo.pop()
                if g in need or g in env:
                    continue
                need.add(g)
                i = t.info[g]
                for f in (i if isinstance(i, tuple) else (i,)):
                    if isinstance(f, (Frac, Poly)):
                        todo.extend(f.gens())
            gens = sorted(need)
        for g in (range(len(t.names)) if gens is None else gens):
            if g in env:
                continue
            k, info = t.kinds[g], t.info[g]
            try:
                if k == 'sqrt':
                    v = info.eval(env)
                    r = None
                    if isinstance(v, Fraction) and v >= 0:
                        n = math.isqrt(v.numerator)
                        d = math.isqrt(v.denominator)
                        if n * n == v.numerator and d * d == v.denominator:
                            r = Fraction(n, d)
                    env[g] = r if r is not None else math.sqrt(v)
                elif k == 'cos':
                    env[g] = math.cos(info.eval(env))
                elif k == 'sin':
                    env[g] = math.sin(info.eval(env))
                elif k == 'angle':
                    env[g] = math.atan2(info[1].eval(env), info[0].eval(env))
                elif k == 'log10':
                    env[g] = math.log10(info.eval(env))
                elif k == 'pow10':
                    env[g] = 10.0 ** float(info.eval(env))
                elif k == 'pi':
                    env[g] = math.pi
                elif k == 'floor':
                    env[g] = Fraction(math.floor(info.eval(env)))
                else:
                    return False
            except (ValueError, ZeroDivisionError, OverflowError, TypeError):
                return False
        return True

    def solver_model(self, extra=True, timeout=None):
        """A model of pc (and extra); values for the input variables."""
        f = extra
        fs = list(self.pc)
        gens = set()
        for x in fs:
            f_gens(x, gens)
        f_gens(f, gens)
        done = set()
        while True:
            new = [g for g in gens if g in self.defs and g not in done]
            if not new:
                break
            for g in new:
                done.add(g)
                fs.append(self.defs[g])
                f_gens(self.defs[g], gens)
        if f is not True:
            fs.append(f)
        zs = [self.zform(x) for x in fs]
        nonlin = any(_nonlinear(x) for x in fs)
        ints = any(table().kinds[g] == 'int' for g in gens)
        t0 = time.time()
        self.stats['queries'] += 1
        s = z3.SolverFor("QF_NRA") if nonlin and not ints else z3.Solver()
        s.set("timeout", timeout or self.query_timeout)
        s.add(*zs)
        try:
            res = s.check()
        except z3.Z3Exception:
            res = z3.unknown
        self.stats['solver_time'] += time.time() - t0
        if res != z3.sat:
            self.stats['unsat' if res == z3.unsat else 'unknown'] += 1
            return None, ('unsat' if res == z3.unsat else 'unknown')
        self.stats['sat'] += 1
        m = s.model()
        out = {}
        for n in self.varorder:
            g = self.vars[n]
            v = m.eval(self.zvar(g), model_completion=True)
            out[n] = _zval(v)
        return out, 'sat'


def _zval(v):
    v = z3.simplify(v)
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    try:
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    except Exception:
        return Fraction(0)


def _nonlinear(f):
    if f is True or f is False:
        return False
    k = f[0]
    if k == 'not':
        return _nonlinear(f[1])
    if k in ('and', 'or'):
        return any(_nonlinear(g) for g in f[1])
    if k == 'ident':
        return True
    fr = f[1]
    if fr.den and k != 'eq':
        return True
    for m in fr.num.t:
        if sum(e for _, e in m) > 1:
            return True
    return False


ENG = [None]


def eng():
    return ENG[0]


# ---------------------------------------------------------------- SymBool

class SymBool(object):
    __slots__ = ("f",)
    __hash__ = None

    def __init__(self, f):
        self.f = f

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __bool__(self):
        return eng().decide(self.f)

    def __and__(self, o):
        o = as_formula(o)
        if o is None:
            return NotImplemented
        return mkbool(f_and(self.f, o))
    __rand__ = __and__

    def __or__(self, o):
        o = as_formula(o)
        if o is None:
            return NotImplemented
        return mkbool(f_or(self.f, o))
    __ror__ = __or__

    def __xor__(self, o):
        o = as_formula(o)
        if o is None:
            return NotImplemented
        return mkbool(f_or(f_and(self.f, f_not(o)), f_and(f_not(self.f), o)))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(f_not(self.f))

    def __eq__(self, o):
        o = as_formula(o)
        if o is None:
            return NotImplemented
        return ~(self ^ SymBool(o) if o not in (True, False) else
                 SymBool(self.f) ^ o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else (not r if isinstance(r, bool)
                                              else ~r)

    def __repr__(self):
        return "SymBool(%r)" % (self.f,)

    def _num(self):
        return SymNum('i', Frac.const(1 if bool(self) else 0))

    def __add__(self, o):
        return self._num() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o
    __rmul__ = __mul__

    @property
    def dtype(self):
        import numpy
        return numpy.dtype(bool)

    def any(self):
        return self

    def all(self):
        return self


def mkbool(f):
    if f is True or f is False:
        return f
    return SymBool(f)


def as_formula(o):
    import numpy
    if isinstance(o, SymBool):
        return o.f
    if isinstance(o, (bool, numpy.bool_)):
        return bool(o)
    if isinstance(o, numpy.ndarray):
        return None
    if isinstance(o, int) and o in (0, 1):
        return bool(o)
    return None


# ----------------------------------------------------------------- lifting

_PI = math.pi


def pi_num():
    return SymNum('f', Frac(Poly.gen(0)))


_PIDEF = ('and', (
    ('lt', Frac(Poly.const(Fraction("3.14159265358979")) - Poly.gen(0))),
    ('lt', Frac(Poly.gen(0) - Poly.const(Fraction("3.14159265358980"))))))


_liftcache = {}


def lift_float(x):
    """Exact value meant by a float literal or a float computed from
    literals: a short rational if one rounds to x, else its decimal repr."""
    r = _liftcache.get(x)
    if r is None:
        r = _lift_float(x)
        _liftcache[x] = r
    k, v = r
    if k == 'q':
        return SymNum('f', Frac.const(v))
    if k == 'pi':
        return pi_num() * SymNum('f', Frac.const(v))
    if k == 'sqrt':
        return SymNum('f', Frac.const(v)).sqrt()
    return SymNum('f', None, special=v)


def _lift_float(x):
    if x != x:
        return 's', 'nan'
    if x in (float('inf'), float('-inf')):
        return 's', 'inf' if x > 0 else '-inf'
    if x == int(x) and abs(x) < 2 ** 53:
        return 'q', Fraction(int(x))
    d = Fraction(repr(x))
    if len(repr(x).lower().split('e')[0].strip('-').replace('.', '')) < 14:
        return 'q', d
    q = Fraction(x).limit_denominator(100000)
    if q and abs(float(q) - x) <= 2 * math.ulp(x):
        return 'q', q
    q = Fraction(x / _PI).limit_denominator(2000)
    if q and abs(float(q) * _PI - x) <= 2 * math.ulp(x):
        return 'pi', q
    return 'q', d


def lift(x):
    """Python/NumPy scalar -> SymNum (or None)."""
    import numpy
    if isinstance(x, SymNum):
        return x
    if isinstance(x, SymBool):
        return x._num()
    if isinstance(x, (bool, numpy.bool_)):
        return SymNum('i', Frac.const(int(x)))
    if isinstance(x, (int, numpy.integer)):
        return SymNum('i', Frac.const(int(x)))
    if isinstance(x, (float, numpy.floating)):
        x = float(x)
        e = eng()
        if e is not None and x in e.tags:
            return e.tags[x]
        if e is not None and -x in e.tags:
            return -e.tags[-x]
        return lift_float(x)
    if isinstance(x, (complex, numpy.complexfloating)):
        x = complex(x)
        re, im = lift(x.real), lift(x.imag)
        if re.special or im.special:
            return SymNum('c', None, special='nan')
        return SymNum('c', re.re, im.re)
    if isinstance(x, Fraction):
        return SymNum('f', Frac.const(x))
    if isinstance(x, numpy.ndarray) and x.ndim == 0:
        return lift(x[()])
    return None


_RANK = {'b': 0, 'i': 1, 'f': 2, 'c': 3}
FZERO = Frac(ZERO)


def kmax(a, b):
    return a if _RANK[a] >= _RANK[b] else b


def _is_array(o):
    import numpy
    return isinstance(o, numpy.ndarray)


class SymNum(object):
    """A real/complex/integer number as exact symbolic value."""
    __slots__ = ("kind", "re", "im", "special")

    def __init__(self, kind, re, im=None, special=None):
        self.kind = kind
        self.re = re
        self.im = im
        self.special = special

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # -- helpers
    @property
    def imag_(self):
        return self.im if self.im is not None else FZERO

    def is_const(self):
        return self.special is None and self.re.is_const() and \
            (self.im is None or self.im.is_const())

    def holo(self):
        h = table().holo
        if not h:
            return False
        g = set(self.re.gens())
        if self.im is not None:
            g |= self.im.gens()
        return bool(g & h)

    # what numpy scalars offer
    @property
    def flat(self):
        return [self]

    def noholo(self, what):
        if self.kind == 'c' and self.holo():
            raise Unsupported("%s of a holomorphic-mode value" % what)

    def cast(self, kind):
        if kind == self.kind:
            return self
        if self.special:
            if kind == 'i':
                raise ValueError("cannot convert float NaN to integer")
            return SymNum(kind, None, special=self.special)
        if kind == 'c':
            return SymNum('c', self.re, self.im)
        if kind == 'f':
            if self.kind == 'c':
                if self.holo():
                    e = eng()
                    e.fresh += 1
                    e.notes.append("complex value cast to real")
                    g = table().new("lost%d" % e.fresh, 'lost')
                    return SymNum('f', Frac.gen(g))
            return SymNum('f', self.re)
        if kind == 'i':
            return SymNum('f', self.re).trunc()
        if kind == 'b':
            return self != 0
        raise Unsupported("cast to %s" % kind)

    def _bin(self, o):
        if _is_array(o):
            return None
        return lift(o)

    # -- arithmetic
    def __add__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        k = kmax(self.kind, o.kind)
        if self.special or o.special:
            return _special_add(k, self, o)
        im = None
        if k == 'c':
            im = self.imag_ + o.imag_
        return SymNum(k, self.re + o.re, im)
    __radd__ = __add__

    def __neg__(self):
        if self.special:
            return SymNum(self.kind, None, special={
                'inf': '-inf', '-inf': 'inf'}.get(self.special, 'nan'))
        return SymNum(self.kind, -self.re,
                      None if self.im is None else -self.im)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        k = kmax(self.kind, o.kind)
        if self.special or o.special:
            return _special_mul(k, self, o)
        if k != 'c':
            return SymNum(k, self.re * o.re)
        a, b = self.re, self.imag_
        c, d = o.re, o.imag_
        if b.is_zero():
            if d.is_zero():
                return SymNum(k, a * c, FZERO)
            return SymNum(k, a * c, a * d)
        if d.is_zero():
            return SymNum(k, a * c, b * c)
        return SymNum(k, a * c - b * d, a * d + b * c)
    __rmul__ = __mul__

    def inverse(self):
        k = kmax(self.kind, 'f')
        if self.special:
            if self.special == 'nan':
                return SymNum(k, None, special='nan')
            return SymNum(k, FZERO)
        if self.im is None or self.im.is_zero():
            nonzero(self.re)
            if self.re.is_zero():
                return SymNum(k, None, special='nan')
            return SymNum(k, self.re.inv(), FZERO if k == 'c' else None)
        d = self.re * self.re + self.im * self.im
        nonzero(d)
        di = d.inv()
        return SymNum(k, self.re * di, -(self.im * di))

    def __truediv__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return self * o.inverse()

    def __rtruediv__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return o * self.inverse()

    def __pow__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        if o.special or self.special:
            return SymNum('f', None, special='nan')
        if o.is_const() and (o.im is None or o.im.is_zero()):
            e = Fraction(o.re.const_value())
            k = kmax(self.kind, o.kind)
            if e.denominator == 1:
                n = int(e)
                if n < 0:
                    if k == 'i':
                        raise ValueError("Integers to negative integer "
                                         "powers are not allowed.")
                    return (self ** SymNum('i', Frac.const(-n))
                            ).inverse().cast(k)
                out = SymNum(k, Frac.const(1)).cast(k)
                for _ in range(n):
                    out = out * self
                return out.cast(k)
            if e.denominator == 2:
                r = self.sqrt()
                n = e.numerator
                out = r
                if n < 0:
                    r = r.inverse()
                    out = r
                    n = -n
                for _ in range(n - 1):
                    out = out * r
                return out.cast(kmax(k, 'f')) if k != 'c' else out
        if self.is_const() and self.re.is_const() and \
                self.re.const_value() == 10 and self.kind != 'c':
            return o.pow10()
        raise Unsupported("general power")

    def __rpow__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return o ** self

    def __floordiv__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        r = (self / o).floor()
        return r.cast(kmax(self.kind, o.kind))

    def __rfloordiv__(self, o):
        return lift(o) // self

    def __mod__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return self - (self // o) * o

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return lift(o) % self

    def __abs__(self):
        if self.special:
            return SymNum('f', None, special=self.special.strip('-'))
        if self.kind != 'c':
            if self.re.is_const():
                return SymNum(self.kind, Frac.const(
                    abs(self.re.const_value())))
            if known_nonneg(self.re):
                return self
            if eng().decide(f_atom('lt', self.re)):
                return -self
            return self
        self.noholo("abs")
        if self.imag_.is_zero():
            return abs(SymNum('f', self.re))
        d = self.re * self.re + self.im * self.im
        return SymNum('f', frac_sqrt(d, nonneg=True))

    # -- parts
    @property
    def real(self):
        if self.kind == 'c':
            if self.special:
                return SymNum('f', None, special=self.special)
            self.noholo("real part")
            return SymNum('f', self.re)
        return self

    @property
    def imag(self):
        if self.kind == 'c':
            if self.special:
                return SymNum('f', None, special=self.special)
            self.noholo("imaginary part")
            return SymNum('f', self.imag_)
        return SymNum(self.kind, FZERO)

    def conjugate(self):
        if self.kind != 'c' or self.special:
            return self
        self.noholo("conjugate")
        return SymNum('c', self.re, -self.imag_)
    conj = conjugate

    # -- functions
    def sqrt(self):
        if self.special:
            return self
        if self.kind == 'c':
            if self.imag_.is_zero() and not self.holo():
                if known_nonneg(self.re) or \
                        not eng().decide(f_atom('lt', self.re)):
                    return SymNum('c', frac_sqrt(self.re), FZERO)
                return SymNum('c', FZERO, frac_sqrt(-self.re))
            # principal root: r = sqrt((|z|+re)/2), i = sgn(im) sqrt(...)
            self.noholo("sqrt")
            m = abs(self).re
            half = Frac.const(Fraction(1, 2))
            r = frac_sqrt((m + self.re) * half, nonneg=True)
            i = frac_sqrt((m - self.re) * half, nonneg=True)
            if eng().decide(f_atom('lt', self.im)):
                i = -i
            return SymNum('c', r, i)
        if self.re.is_const():
            if self.re.const_value() < 0:
                return SymNum('f', None, special='nan')
        elif not known_nonneg(self.re):
            if eng().decide(f_atom('lt', self.re)):
                return SymNum('f', None, special='nan')
        return SymNum('f', frac_sqrt(self.re))

    def exp(self):
        if self.special:
            raise Unsupported("exp of special")
        if self.kind != 'c' and not self.re.is_zero():
            raise Unsupported("real exponential")
        if not self.re.is_zero():
            raise Unsupported("exp with real part")
        c, s = cos_sin(self.imag_)
        return SymNum('c', c, s)

    def cos(self):
        return SymNum('f', cos_sin(self.re)[0])

    def sin(self):
        return SymNum('f', cos_sin(self.re)[1])

    def log10(self):
        if self.special:
            return self
        if self.kind == 'c':
            raise Unsupported("complex log10")
        if self.re.is_const():
            v = Fraction(self.re.const_value())
            if v == 0:
                return SymNum('f', None, special='-inf')
            if v < 0:
                return SymNum('f', None, special='nan')
        else:
            if eng().decide(f_atom('eq', self.re)):
                return SymNum('f', None, special='-inf')
            if not known_nonneg(self.re) and \
                    eng().decide(f_atom('lt', self.re)):
                return SymNum('f', None, special='nan')
        return SymNum('f', frac_log10(self.re))

    def pow10(self):
        return SymNum('f', frac_pow10(self.re))

    def arctan2(self, o):
        # self = y, o = x
        o = lift(o)
        return angle_of(o, self)

    def angle(self):
        return angle_of(self.real, self.imag)

    def floor(self):
        if self.special:
            return self
        if self.kind == 'i':
            return self
        if self.re.is_const():
            return SymNum('f', Frac.const(math.floor(self.re.const_value())))
        t = table()
        k = _floor_of_log(self.re)
        if k is not None:
            return SymNum('f', Frac.const(k))
        key = ('floor', self.re.key())
        g = t.memo.get(key)
        if g is None:
            g = t.new('floor%d' % len(t.names), 'int')
            t.kinds[g] = 'int'
            t.memo[key] = g
            k = Frac.gen(g)
            eng().defs[g] = f_and(('le', k - self.re),
                                  ('lt', self.re - k - Frac.const(1)))
            t.info[g] = self.re
        return SymNum('f', Frac.gen(g))

    def ceil(self):
        return -((-self).floor())

    def trunc(self):
        if self.re.is_const():
            return SymNum('i', Frac.const(int(self.re.const_value())))
        if eng().decide(f_atom('lt', self.re)):
            r = self.ceil()
        else:
            r = self.floor()
        return SymNum('i', r.re)

    def rint(self):
        if self.re.is_const():
            return SymNum('f', Frac.const(round(Fraction(
                self.re.const_value()))))
        raise Unsupported("rint")

    def sign(self):
        if eng().decide(f_atom('lt', self.re)):
            return SymNum(self.kind, Frac.const(-1))
        if eng().decide(f_atom('eq', self.re)):
            return SymNum(self.kind, FZERO)
        return SymNum(self.kind, Frac.const(1))

    # -- comparison
    def _cmp(self, o, op):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        if self.special or o.special:
            return _special_cmp(self, o, op)
        if self.kind == 'c' or o.kind == 'c':
            if op == 'eq':
                self_im, o_im = self.imag_, o.imag_
                return mkbool(f_and(f_atom('eq', self.re - o.re),
                                    f_atom('eq', self_im - o_im)))
            # numpy orders complex lexicographically
            self.noholo("ordering")
            o.noholo("ordering")
            d = self.re - o.re
            di = self.imag_ - o.imag_
            return mkbool(f_or(f_atom('lt', d),
                               f_and(f_atom('eq', d), f_atom(op, di))))
        d = self.re - o.re
        if op != 'eq':
            angle_lemma(d)
        return mkbool(f_atom(op, d))

    def __eq__(self, o):
        r = self._cmp(o, 'eq')
        if r is NotImplemented:
            return False if not _is_array(o) else NotImplemented
        return r

    def __ne__(self, o):
        r = self._cmp(o, 'eq')
        if r is NotImplemented:
            return True if not _is_array(o) else NotImplemented
        return (not r) if isinstance(r, bool) else ~r

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return o._cmp(self, 'lt')

    def __ge__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return o._cmp(self, 'le')

    def __hash__(self):
        if self.is_const() and (self.im is None or self.im.is_zero()):
            return 7
        return 7

    def __bool__(self):
        r = self != 0
        return bool(r)

    # -- conversions
    def __index__(self):
        if self.kind != 'i':
            raise TypeError("'%s' object cannot be interpreted as an integer"
                            % type(self).__name__)
        return concretise_int(self)

    def __int__(self):
        return concretise_int(self.trunc() if self.kind != 'i' else self)

    def __float__(self):
        if self.kind == 'c':
            raise TypeError("can't convert complex to float")
        if not self.is_const() and not eng().allow_tags:
            raise Unsupported("symbolic value handed to C code as a float")
        return tag_of(self)

    def __complex__(self):
        raise Unsupported("__complex__ on symbolic value")

    def __round__(self, n=None):
        raise Unsupported("round")

    def __format__(self, spec):
        if not spec:
            return str(self)
        return format(tag_of(self), spec)

    def __repr__(self):
        if self.special:
            return self.special
        if self.is_const() and (self.im is None or self.im.is_zero()):
            v = Fraction(self.re.const_value())
            if self.kind == 'i':
                return str(int(v))
            if self.kind == 'f':
                return repr(float(v))
        e = eng()
        if self.kind == 'f' and e is not None and e.allow_tags:
            return repr(tag_of(self))
        return "Sym[%s](%r%s)" % (self.kind, self.re, "" if self.im is None
                                  else ", %r" % self.im)
    __str__ = __repr__

    # -- numpy-scalar look-alike
    @property
    def dtype(self):
        import numpy
        return numpy.dtype({'i': 'int64', 'f': 'float64',
                            'c': 'complex128'}[self.kind])
    shape = ()
    ndim = 0
    size = 1

    def __getitem__(self, i):
        if i == () or i is Ellipsis:
            return self
        raise IndexError("invalid index to scalar variable.")

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def astype(self, dt):
        import numpy
        return self.cast(numpy.dtype(dt).kind)

    def is_integer(self):
        return bool(self.floor() == self)


def _special_add(k, a, b):
    s = {x.special for x in (a, b)} - {None}
    if 'nan' in s or len(s) == 2:
        return SymNum(k, None, special='nan')
    return SymNum(k, None, special=s.pop())


def _special_mul(k, a, b):
    if a.special == 'nan' or b.special == 'nan' or k == 'c':
        return SymNum(k, None, special='nan')
    sg = 1
    for x in (a, b):
        if x.special:
            if x.special == '-inf':
                sg = -sg
        else:
            c = x.sign()
            v = c.re.const_value()
            if v == 0:
                return SymNum(k, None, special='nan')
            sg *= v
    return SymNum(k, None, special='inf' if sg > 0 else '-inf')


def _special_cmp(a, b, op):
    def val(x):
        if x.special == 'nan':
            return float('nan')
        if x.special:
            return float(x.special)
        return 0.0
    x, y = val(a), val(b)
    return x < y if op == 'lt' else x <= y if op == 'le' else x == y


def nonzero(fr):
    """Record the assumption that a divisor is non-zero; if it can be zero
    the code would produce inf/nan there, outside every stated property."""
    if fr.is_const():
        return
    f = f_not(f_atom('eq', fr))
    if f is False:
        return
    e = eng()
    if f not in e.pcset:
        e.assumed_nonzero.append(f)
        e.assume(f)


def known_nonneg(fr):
    """Cheap syntactic test, then a solver query."""
    if fr.is_const():
        return fr.const_value() >= 0
    t = table()

    def pos_poly(p):
        for m, c in p.t.items():
            if c < 0:
                return False
            for g, e in m:
                if e % 2 and not (t.kinds[g] in ('sqrt', 'pow10', 'pi')
                                  or g in POSG()):
                    return False
        return True
    if pos_poly(fr.num) and all(e % 2 == 0 or pos_poly(f)
                                for f, e in fr.den):
        return True
    key = ('nn', fr.key(), len(eng().pc))
    c = t.memo.get(key)
    if c is None:
        c = eng().query(f_atom('lt', fr), timeout=1500) == 'unsat'
        t.memo[key] = c
    return c


def POSG():
    return table().memo.setdefault('posgens', set())


def _squarefree(n):
    """n = s*s*r with r squarefree (trial division, bounded)."""
    s, r, p = 1, 1, 2
    while p * p <= n and p < 100000:
        k = 0
        while n % p == 0:
            n //= p
            k += 1
        s *= p ** (k // 2)
        if k % 2:
            r *= p
        p += 1
    q = math.isqrt(n)
    if q * q == n:
        s *= q
    else:
        r *= n
    return s, r


def frac_sqrt(fr, nonneg=False):
    """sqrt of a (known non-negative) fraction."""
    t = table()
    num = fr.num
    out = Frac.const(1)
    for f, e in fr.den:
        for _ in range(e // 2):
            out = out * Frac(f)
        if e % 2:
            num = num * f
            out = out * Frac(f)
    # out holds prod f**ceil(e/2); result = sqrt(num)/|out|
    root = poly_sqrt(num)
    if out.is_const():
        return root * out.inv() if not fr.den else root
    den = out
    if not known_nonneg(den):
        if eng().decide(f_atom('lt', den)):
            den = -den
    return root * den.inv()


def poly_sqrt(p):
    t = table()
    if p.is_zero():
        return FZERO
    # rational content
    from math import gcd
    cs = [Fraction(c) for c in p.t.values()]
    L = 1
    for c in cs:
        L = L * c.denominator // gcd(L, c.denominator)
    G = 0
    for c in cs:
        G = gcd(G, int(c * L))
    content = Fraction(G, L)
    prim = p.scale(1 / content)
    n = content.numerator * content.denominator
    s, r = _squarefree(n)
    scale = Fraction(s, content.denominator)
    # monomial content with even exponents
    common = None
    for m in prim.t:
        d = dict(m)
        common = d if common is None else {
            g: min(e, d[g]) for g, e in common.items() if g in d}
        if not common:
            break
    outf = Frac.const(scale)
    if common:
        pull = {}
        for g, e in common.items():
            if e >= 2:
                pull[g] = e // 2
        if pull:
            q = {}
            for m, c in prim.t.items():
                d = dict(m)
                for g, e in pull.items():
                    d[g] -= 2 * e
                q[tuple(sorted((g, e) for g, e in d.items() if e))] = c
            prim = Poly(q)
            for g, e in pull.items():
                a = Frac.gen(g)
                if e % 2:
                    if not known_nonneg(a):
                        if eng().decide(f_atom('lt', a)):
                            a = -a
                for _ in range(e):
                    outf = outf * a
    if prim.is_const():
        # p was const * square
        c = Fraction(prim.const_value()) * r
        if c < 0:
            raise Unsupported("sqrt of negative")
        n2 = c.numerator * c.denominator
        s2, r2 = _squarefree(n2)
        outf = outf * Frac.const(Fraction(s2, c.denominator))
        if r2 == 1:
            return outf
        return outf * Frac.gen(_sqrt_gen(Poly.const(r2)))
    # perfect square polynomial?
    sq = _perfect_square(prim)
    if sq is not None:
        a = Frac(sq)
        if not known_nonneg(a):
            if eng().decide(f_atom('lt', a)):
                a = -a
        if r != 1:
            a = a * Frac.gen(_sqrt_gen(Poly.const(r)))
        return outf * a
    # split sqrt(r)*sqrt(prim): keep r inside as its own generator
    out = outf * Frac.gen(_sqrt_gen(prim))
    if r != 1:
        out = out * Frac.gen(_sqrt_gen(Poly.const(r)))
    return out


def _perfect_square(p):
    """Return q with q*q == p, or None (small polynomials only)."""
    if len(p.t) > 60:
        return None
    rules = table().rule
    if any(g in rules for g in p.gens()):
        return None
    m, c = p.lead()
    if c < 0:
        return None
    c = Fraction(c)
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n != c.numerator or d * d != c.denominator:
        return None
    if any(e % 2 for _, e in m):
        return None
    lead = Poly({tuple((g, e // 2) for g, e in m): poly._norm(Fraction(n, d))})
    q = lead
    for _ in range(40):
        rem = p - q * q
        if rem.is_zero():
            return q
        rm, rc = rem.lead()
        lm, lc = lead.lead()
        me = dict(rm)
        for g, e in lm:
            if me.get(g, 0) < e:
                return None
            me[g] -= e
        t = Poly({tuple(sorted((g, e) for g, e in me.items() if e)):
                  poly._norm(Fraction(rc) / (2 * lc))})
        q = q + t
    return None


def _sqrt_gen(p):
    t = table()
    key = ('sqrt', p)
    g = t.memo.get(key)
    if g is None:
        g = t.new('sqrt%d' % len(t.names), 'sqrt', Frac(p))
        t.memo[key] = g
        t.rule[g] = p
        G = Frac.gen(g)
        # stated without the rewriting rule: g*g = p
        eng().defs[g] = ('and', (('eq', Frac(Poly({((g, 2),): 1}) - p)),
                                 ('le', -G)))
    return g


_CS_CONST = {  # theta/pi mod 2 -> (cos, sin) with (rational, sqrt-radicand)
}


def _const_cs(q):
    """cos, sin of q*pi for q a multiple of 1/6 or 1/4, else None."""
    q = q % 2
    s2 = lambda: Frac.gen(_sqrt_gen(Poly.const(2))) * Frac.const(
        Fraction(1, 2))
    s3 = lambda: Frac.gen(_sqrt_gen(Poly.const(3))) * Frac.const(
        Fraction(1, 2))
    h = lambda: Frac.const(Fraction(1, 2))
    one, zero = (lambda: Frac.const(1)), (lambda: FZERO)
    base = {Fraction(0): (one, zero), Fraction(1, 6): (s3, h),
            Fraction(1, 4): (s2, s2), Fraction(1, 3): (h, s3),
            Fraction(1, 2): (zero, one)}
    quad, r = divmod(q, Fraction(1, 2))
    if r not in base:
        return None
    c, s = base[r][0](), base[r][1]()
    for _ in range(int(quad)):
        c, s = -s, c
    return c, s


def cos_sin(th):
    """(cos, sin) of the fraction th as Fracs."""
    t = table()
    if th.is_zero():
        return Frac.const(1), FZERO
    if th.den:
        return _cs_atom(th, Fraction(1))
    C, S = Frac.const(1), FZERO
    for m, c in th.num.t.items():
        a, b = _cs_mono(m, Fraction(c))
        C, S = C * a - S * b, C * b + S * a
    return C, S


def _cs_mono(m, c):
    t = table()
    if len(m) == 1 and m[0][1] == 1:
        g = m[0][0]
        if t.kinds[g] == 'pi':
            r = _const_cs(c)
            if r is not None:
                return r
        if t.kinds[g] == 'angle' and (c.denominator == 1 or
                                      c.denominator == 2):
            x, y, mod = t.info[g]
            im = mod.inv()
            a, b = x * im, y * im
            if c.denominator == 2:
                # half angle of a principal value: cos(phi/2) >= 0
                half = Frac.const(Fraction(1, 2))
                if eng().decide(f_and(f_atom('eq', y), f_atom('lt', x))):
                    a, b = FZERO, Frac.const(1)
                else:
                    ca = frac_sqrt((Frac.const(1) + a) * half, nonneg=True)
                    a, b = ca, b * half * ca.inv()
                n = c.numerator
            else:
                n = int(c)
            return _cs_pow(a, b, n)
    return _cs_atom(Frac(Poly({m: 1})), c)


def _cs_pow(a, b, n):
    if n < 0:
        a, b, n = a, -b, -n
    C, S = Frac.const(1), FZERO
    for _ in range(n):
        C, S = C * a - S * b, C * b + S * a
    return C, S


def _cs_atom(fr, c):
    t = table()
    key = ('cs', fr.key())
    base = t.memo.get(key)
    if base is None:
        unit = abs(c)
        th = fr * Frac.const(unit)
        gc = t.new('cos%d' % len(t.names), 'cos', th)
        gs = t.new('sin%d' % len(t.names), 'sin', th)
        t.rule[gs] = ONE - Poly({((gc, 2),): 1})
        d = ('eq', Frac(Poly({((gs, 2),): 1, ((gc, 2),): 1, (): -1})))
        eng().defs[gc] = d
        eng().defs[gs] = d
        base = (unit, gc, gs)
        t.memo[key] = base
    unit, gc, gs = base
    n = c / unit
    if n.denominator != 1 or abs(n) > 8:
        # refine: use an independent pair (sound, less precise)
        key2 = ('cs', fr.key(), abs(c))
        b2 = t.memo.get(key2)
        if b2 is None:
            th = fr * Frac.const(abs(c))
            gc = t.new('cos%d' % len(t.names), 'cos', th)
            gs = t.new('sin%d' % len(t.names), 'sin', th)
            t.rule[gs] = ONE - Poly({((gc, 2),): 1})
            d = ('eq', Frac(Poly({((gs, 2),): 1, ((gc, 2),): 1, (): -1})))
            eng().defs[gc] = d
            eng().defs[gs] = d
            b2 = (abs(c), gc, gs)
            t.memo[key2] = b2
        unit, gc, gs = b2
        n = c / unit
    return _cs_pow(Frac.gen(gc), Frac.gen(gs), int(n))


def angle_of(x, y):
    """atan2(y, x) of SymNums: principal value in (-pi, pi]."""
    if x.special or y.special:
        return SymNum('f', None, special='nan')
    t = table()
    X, Y = x.re, y.re
    pi = pi_num().re
    if Y.is_zero():
        if X.is_const():
            neg = X.const_value() < 0
        else:
            neg = False if known_nonneg(X) else eng().decide(f_atom('lt', X))
        return SymNum('f', pi if neg else FZERO)
    if X.is_zero():
        half = Frac.const(Fraction(1, 2))
        if eng().decide(f_atom('eq', Y)):
            return SymNum('f', FZERO)
        return SymNum('f', -(pi * half) if eng().decide(f_atom('lt', Y))
                      else pi * half)
    key = ('angle', X.key(), Y.key())
    g = t.memo.get(key)
    if g is None:
        d = X * X + Y * Y
        nonzero(d)
        mod = frac_sqrt(d, nonneg=True)
        g = t.new('ang%d' % len(t.names), 'angle', (X, Y, mod))
        t.memo[key] = g
        G = Frac.gen(g)
        hpi = pi * Frac.const(Fraction(1, 2))
        # range, and sign information linking the value to the point
        eng().defs[g] = f_and(
            ('lt', -G - pi), ('le', G - pi),
            f_or(f_not(f_atom('lt', Y)), ('lt', G)),       # y<0  => phi<0
            f_or(f_atom('le', Y), f_and(('lt', -G), ('lt', G - pi))),
            f_or(f_not(f_atom('eq', Y)), ('eq', G), ('eq', G - pi)),
            f_or(f_not(f_and(f_atom('eq', Y), f_atom('lt', -X))),
                 ('eq', G)),
            f_or(f_not(f_and(f_atom('eq', Y), f_atom('lt', X))),
                 ('eq', G - pi)),
            # quarter turns: |phi| < pi/2 <=> x > 0
            f_or(f_not(f_atom('lt', -X)),
                 f_and(('lt', G - hpi), ('lt', -G - hpi))),
            f_or(f_not(f_atom('lt', X)), ('lt', hpi - G), ('lt', G + hpi)),
            f_or(f_not(f_atom('eq', X)), ('eq', G - hpi), ('eq', G + hpi)))
    return SymNum('f', Frac.gen(g))


def angle_lemma(d):
    """When two angles are compared: their order is that of the points."""
    t = table()
    gs = [g for g in d.gens() if t.kinds[g] == 'angle']
    if len(gs) != 2:
        return
    a, b = sorted(gs)
    key = ('angles', a, b)
    if t.memo.get(key):
        return
    t.memo[key] = True
    (x1, y1, _), (x2, y2, _) = t.info[a], t.info[b]
    A, B = Frac.gen(a), Frac.gen(b)
    cross = x1 * y2 - y1 * x2
    dot = x1 * x2 + y1 * y2
    same = f_or(f_and(f_atom('le', -y1), f_atom('le', -y2)),
                f_and(f_atom('lt', y1), f_atom('lt', y2)))
    eng().add(f_or(f_not(same), f_atom('le', cross), ('lt', A - B)))
    eng().add(f_or(f_not(same), f_atom('le', -cross), ('lt', B - A)))
    eng().add(f_or(f_not(f_atom('eq', cross)), f_atom('le', dot),
                   ('eq', A - B)))


def approx(x):
    """Value (float) of an expression without input variables."""
    if not isinstance(x, SymNum):
        return x
    if x.special:
        return float(x.special)
    env = {}
    if not eng().complete_env_for(env, x.re.gens()):
        raise Unsupported("value of an expression with variables")
    return float(x.re.eval(env))


def frac_log10(fr):
    t = table()
    # log10 of a product of monomial * powers of ten where recognisable
    if not fr.den and len(fr.num.t) == 1:
        (m, c), = fr.num.t.items()
        c = Fraction(c)
        out = FZERO
        k = _pow10_exp(c)
        if k is not None:
            ok = True
            for g, e in m:
                if t.kinds[g] == 'pow10':
                    out = out + t.info[g] * Frac.const(e)
                elif t.kinds[g] == 'sqrt' or g in POSG():
                    out = out + Frac.gen(_log_gen(Frac.gen(g))) * \
                        Frac.const(e)
                elif len(m) == 1 and e == 1:
                    out = out + Frac.gen(_log_gen(Frac.gen(g)))
                else:
                    ok = False
            if ok:
                return out + Frac.const(k)
    return Frac.gen(_log_gen(fr))


def _pow10_exp(c):
    if c <= 0:
        return None
    k = 0
    while c.denominator != 1 and k > -40:
        c *= 10
        k -= 1
    while c > 1 and c.denominator == 1 and c.numerator % 10 == 0:
        c /= 10
        k += 1
    return k if c == 1 else None


def _floor_of_log(fr):
    """floor(log10(y) + k): the decade of y is found by forking."""
    t = table()
    if fr.den or not 1 <= len(fr.num.t) <= 2:
        return None
    g, k = None, 0
    for m, c in fr.num.t.items():
        if not m and Fraction(c).denominator == 1:
            k = int(c)
        elif len(m) == 1 and m[0][1] == 1 and c == 1 and \
                t.kinds[m[0][0]] == 'log10':
            g = m[0][0]
        else:
            return None
    if g is None:
        return None
    e, y = eng(), t.info[g]
    key = ('decade', g)
    if key in e.conc:
        return e.conc[key] + k
    lo, hi = -64, 64                # 10**lo <= y < 10**hi
    if e.decide(('lt', y - Frac.const(Fraction(10) ** lo))) or \
            not e.decide(('lt', y - Frac.const(Fraction(10) ** hi))):
        raise Unsupported("decade out of range")
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if e.decide(('lt', y - Frac.const(Fraction(10) ** mid))):
            hi = mid
        else:
            lo = mid
    e.conc[key] = lo
    return lo + k


def _log_gen(fr):
    t = table()
    key = ('log10', fr.key())
    g = t.memo.get(key)
    if g is None:
        # logs of square roots: log10(sqrt(r)) = log10(r)/2 kept symbolic
        g = t.new('log%d' % len(t.names), 'log10', fr)
        t.memo[key] = g
        G = Frac.gen(g)
        one = Frac.const(1)
        eng().defs[g] = f_and(
            f_or(f_not(f_atom('lt', fr - one)), ('lt', G)),
            f_or(f_atom('le', fr - one), ('lt', -G)),
            f_or(f_not(f_atom('eq', fr - one)), ('eq', G)))
    return g


def frac_pow10(e):
    t = table()
    if e.is_const():
        v = Fraction(e.const_value())
        if v.denominator == 1 and abs(v) < 400:
            return Frac.const(Fraction(10) ** int(v))
        if v.denominator == 2:
            return frac_sqrt(Frac.const(Fraction(10) ** int(2 * v)))
    if not e.den:
        # split off log terms with integer coefficients and the constant
        out = Frac.const(1)
        rest = {}
        for m, c in e.num.t.items():
            c = Fraction(c)
            if len(m) == 1 and m[0][1] == 1 and \
                    t.kinds[m[0][0]] == 'log10' and c.denominator == 1:
                base = t.info[m[0][0]]
                n = int(c)
                if n < 0:
                    base = base.inv()
                    n = -n
                for _ in range(n):
                    out = out * base
            elif len(m) == 1 and m[0][1] == 1 and \
                    t.kinds[m[0][0]] == 'log10' and c.denominator == 2:
                base = frac_sqrt(t.info[m[0][0]])
                n = c.numerator
                if n < 0:
                    base = base.inv()
                    n = -n
                for _ in range(n):
                    out = out * base
            elif m == () and c.denominator == 1 and abs(c) < 400:
                out = out * Frac.const(Fraction(10) ** int(c))
            else:
                rest[m] = poly._norm(c)
        if not rest:
            return out
        return out * Frac.gen(_pow_gen(Frac(Poly(rest))))
    return Frac.gen(_pow_gen(e))


def _pow_gen(e):
    t = table()
    key = ('pow10', e.key())
    g = t.memo.get(key)
    if g is None:
        g = t.new('pow%d' % len(t.names), 'pow10', e)
        t.memo[key] = g
        G = Frac.gen(g)
        one = Frac.const(1)
        eng().defs[g] = f_and(
            ('lt', -G),
            f_or(f_not(f_atom('lt', e)), ('lt', G - one)),
            f_or(f_atom('le', e), ('lt', one - G)))
    return g


def concretise_int(x):
    """Fork over all feasible values of an integer term."""
    if x.re.is_const():
        v = x.re.const_value()
        return int(v)
    e = eng()
    key = x.re.key()
    if key in e.conc:
        return e.conc[key]
    neg = e.decide(f_atom('lt', x.re))
    for v in range(-1, -14, -1) if neg else range(0, 14):
        if e.decide(f_atom('eq', x.re - Frac.const(v))):
            e.conc[key] = v
            return v
    raise Unsupported("integer out of concretisation range")


def tag_int(x):
    """A unique integer standing for a symbolic integer in text."""
    e = eng()
    key = ('itag', x.re.key())
    t = table()
    v = t.memo.get(key)
    if v is None:
        neg = False
        if e.sign_forks > 0:
            e.sign_forks -= 1
            neg = e.decide(f_atom('lt', x.re))
        v = 7130000000 + len(e.itags)
        e.itags[v] = -x if neg else x
        if neg:
            v = -v
        t.memo[key] = v
    return v


def untag_int(v):
    e = eng()
    return -e.itags[-v] if v < 0 else e.itags[v]


def tag_of(x):
    """A unique float standing for a symbolic real in text and C code."""
    if x.special:
        return float(x.special)
    if x.is_const():
        v = x.re.const_value()
        f = float(v)
        l = lift_float(f)
        return f
    e = eng()
    key = ('tag', x.re.key())
    t = table()
    f = t.memo.get(key)
    if f is None:
        n = len(e.tags) + 1
        neg = False
        if e.sign_forks > 0:
            e.sign_forks -= 1
            neg = e.decide(f_atom('lt', x.re))
        f = float("%d.%05d1234567e+%d" % (1 + n % 9, n % 100000,
                                           e.tag_exp))
        e.tags[f] = -x if neg else x
        if neg:
            f = -f
        t.memo[key] = f
    return f
