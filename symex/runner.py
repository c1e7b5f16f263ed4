"""Harness contexts (symbolic and concrete), path exploration, replay."""
import json
import math
import os
import random
import signal
import sys
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np

from . import core, poly, symnp, loader
from .core import (Engine, PathAbort, SymBool, SymNum, Unsupported, as_formula,
                   f_and, f_atom, f_eval, f_not, lift, mkbool)
from .poly import Frac, PolyTooBig

WORLD = [None]


def world():
    if WORLD[0] is None:
        core.ENG[0] = core.ENG[0] or Engine()
        WORLD[0] = loader.SymWorld()
    return WORLD[0]


class CheckFailed(BaseException):
    def __init__(self, label, formula=None, detail=''):
        BaseException.__init__(self, label)
        self.label = label
        self.formula = formula
        self.detail = detail


class AssumeFailed(BaseException):
    pass


class Base(object):
    def mods(self, *names):
        return [self.mod(n) for n in names]

    def raises(self, label, exc, fn, *a, **k):
        """fn must raise exc."""
        try:
            fn(*a, **k)
        except exc:
            self.check(label, True)
            return
        self.check(label, False, detail="no exception raised")

    def rarray(self, name, shape, **kw):
        return self._arr(name, shape, lambda n: self.real(n, **kw), 'f')

    def carray(self, name, shape, **kw):
        return self._arr(name, shape, lambda n: self.cplx(n, **kw), 'c')

    def iarray(self, name, shape, lo, hi):
        return self._arr(name, shape, lambda n: self.int(n, lo, hi), 'i')

    def barray(self, name, shape):
        return self._arr(name, shape, lambda n: self.bool(n), 'b')

    def kinds(self, name, shape, kind, **kw):
        if kind == 'c':
            return self.carray(name, shape, **kw)
        kw.pop('holo', None)
        if kind == 'f':
            return self.rarray(name, shape, **kw)
        if kind == 'i':
            return self.iarray(name, shape, -4, 5)
        return self.barray(name, shape)


def _flat(x):
    return "_".join(str(i) for i in x)


class SymCtx(Base):
    sym = True
    scale = 1.0

    def __init__(self, engine, tier):
        self.e = engine
        self.tier = tier
        self.np = symnp.NP
        self.nchecks = 0
        self.labels = []
        self.obls = []

    def mod(self, name):
        return world().load(name)

    def _var(self, name, kind='var'):
        if name in self.e.vars:
            g = self.e.vars[name]
        else:
            g = self.e.newvar(name, kind)
        return g

    def real(self, name, pos=False, nonneg=False, nonzero=False, lo=None,
             hi=None):
        g = self._var(name)
        f = Frac.gen(g)
        x = SymNum('f', f)
        if pos:
            core.POSG().add(g)
            self.e.assume(f_atom('lt', -f))
        if nonneg:
            self.e.assume(f_atom('le', -f))
        if nonzero:
            self.e.assume(f_not(f_atom('eq', f)))
        if lo is not None:
            self.e.assume(f_atom('le', Frac.const(Fraction(lo)) - f))
        if hi is not None:
            self.e.assume(f_atom('le', f - Frac.const(Fraction(hi))))
        return x

    def cplx(self, name, holo=False, nonzero=False):
        if holo:
            g = self._var(name + '.re')
            poly.table().holo.add(g)
            if nonzero:
                self.e.assume(f_not(f_atom('eq', Frac.gen(g))))
            return SymNum('c', Frac.gen(g))
        a, b = self._var(name + '.re'), self._var(name + '.im')
        x = SymNum('c', Frac.gen(a), Frac.gen(b))
        if nonzero:
            self.e.assume(f_not(f_and(f_atom('eq', x.re),
                                      f_atom('eq', x.im))))
        return x

    def int(self, name, lo, hi):
        g = self._var(name, 'int')
        f = Frac.gen(g)
        self.e.assume(f_atom('le', Frac.const(lo) - f))
        self.e.assume(f_atom('le', f - Frac.const(hi)))
        return SymNum('i', f)

    def bool(self, name):
        g = self._var(name, 'int')
        f = Frac.gen(g)
        self.e.assume(f_atom('le', -f))
        self.e.assume(f_atom('le', f - Frac.const(1)))
        return mkbool(f_atom('eq', f - Frac.const(1)))

    def choice(self, name, options):
        return self.e.choose(name, options)

    def string(self, name, maxlen, alphabet=None, minlen=0):
        from . import symstr
        n = self.e.choose(name + '.len', list(range(minlen, maxlen + 1)))
        return symstr.fresh(self, name, n, alphabet)

    def _arr(self, name, shape, mk, kind):
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = mk("%s_%s" % (name, _flat(i)))
        if kind == 'b':
            return symnp.demote(out.view(symnp._ODT['b']), 'b')
        return symnp._mk(out, kind)

    def assume(self, cond):
        if isinstance(cond, np.ndarray):
            for c in symnp.base(cond).reshape(-1):
                self.assume(c)
            return
        f = as_formula(cond)
        if f is None:
            f = bool(cond)
        self.e.assume(f)

    # decide a condition now (used by oracles written in the harness)
    def truth(self, cond):
        return bool(cond)

    def check(self, label, cond, detail=''):
        self.nchecks += 1
        if isinstance(cond, np.ndarray):
            cs = [as_formula(c) for c in symnp.base(cond).reshape(-1)]
            f = f_and(*[bool(c) if c is None else c for c in cs])
        else:
            f = as_formula(cond)
            if f is None:
                f = bool(cond)
        self._decide(label, f, detail)

    def _decide(self, label, f, detail=''):
        self.labels.append(label)
        if f is True:
            self.e.stats['trivial'] = self.e.stats.get('trivial', 0) + 1
            return
        if f is False:
            raise CheckFailed(label, False, detail)
        if f in self.e.pcset:
            return
        fs = f[1] if f[0] == 'and' else (f,)
        for g in fs:
            r = self.e.query(f_not(g))
            if r == 'unsat':
                self.e.stats['discharged'] = \
                    self.e.stats.get('discharged', 0) + 1
                continue
            if r == 'unknown':
                raise CheckFailed(label, g, 'unknown ' + detail)
            raise CheckFailed(label, g, detail)

    def eq(self, label, a, b, tol=None):
        self.nchecks += 1
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a, b = symnp.asarr(a), symnp.asarr(b)
            if a.shape != b.shape:
                raise CheckFailed(label, False, "shape %r != %r" % (a.shape,
                                                                   b.shape))
            pairs = list(zip(symnp.base(a).reshape(-1),
                             symnp.base(b).reshape(-1)))
        elif isinstance(a, (list, tuple)):
            if not isinstance(b, (list, tuple)) or len(a) != len(b):
                raise CheckFailed(label, False, "length")
            for x, y in zip(a, b):
                self.eq(label, x, y)
            return
        else:
            pairs = [(a, b)]
        fs = []
        for x, y in pairs:
            if isinstance(x, (SymBool, bool, np.bool_)) and \
                    isinstance(y, (SymBool, bool, np.bool_)):
                fx, fy = as_formula(x), as_formula(y)
                fs.append(core.f_or(f_and(fx, fy), f_and(f_not(fx),
                                                         f_not(fy))))
                continue
            u, v = lift(x), lift(y)
            if u is None or v is None:
                r = (x == y)
                fs.append(as_formula(r) if as_formula(r) is not None
                          else bool(r))
                continue
            if u.special or v.special:
                fs.append(u.special == v.special)
                continue
            for p, q in ((u.re, v.re), (u.imag_, v.imag_)):
                if p.is_const() and q.is_const():
                    fs.append(p.const_value() == q.const_value())
                else:
                    fs.append(('ident', p, q))
        if any(f is False for f in fs):
            raise CheckFailed(label, False, "values differ")
        self._decide(label, f_and(*fs))

    def same(self, label, a, b):
        """Exact (discrete) equality."""
        self.nchecks += 1
        self.labels.append(label)
        r = (a == b)
        if isinstance(r, (SymBool,)):
            self._decide(label, r.f)
            return
        if isinstance(r, np.ndarray):
            r = r.all()
        if not bool(r):
            raise CheckFailed(label, False, "%.200r != %.200r" % (a, b))

    def note(self, s):
        self.e.notes.append(s)

    def text_values(self, signs=2, plain=False):
        """Numbers may be written to text: each becomes a unique number
        text.  The first `signs` written have the sign of the value (a
        fork), the others are written without one.  plain: without
        exponent."""
        self.e.allow_tags = True
        self.e.tag_exp = 9 if plain else 30
        self.e.sign_forks = signs

    def pickled(self, x, protocol):
        """x through pickle; symbolic values, types of arrays and the
        classes of the symbolic modules are passed as they are"""
        import io
        import pickle
        kept = []

        class P(pickle.Pickler):
            def persistent_id(self, obj):
                if isinstance(obj, (SymNum, SymBool, type, np.dtype)) or (
                        callable(obj) and getattr(
                            obj, '__module__', '') != 'numpy.core.multiarray'
                        and hasattr(obj, '__qualname__')):
                    kept.append(obj)
                    return str(len(kept) - 1)

        class U(pickle.Unpickler):
            def persistent_load(self, k):
                return kept[int(k)]
        f = io.BytesIO()
        P(f, protocol).dump(x)
        f.seek(0)
        return U(f).load()

    def number(self, text):
        """the number a text stands for"""
        from .loader import sx_float
        return sx_float(float, text)


class ConcCtx(Base):
    sym = False

    def __init__(self, values, choices, tier, rng=None):
        self.values = values
        self.choices = choices
        self.tier = tier
        self.np = np
        self.rng = rng or random.Random(7)
        self.nchecks = 0
        self.labels = []
        self.used = {}
        self.floor = HELD_FLOOR
        self.scale = 1.0

    def mod(self, name):
        import importlib
        return importlib.import_module(name)

    def _val(self, name, default=None):
        if name in self.values:
            v = self.values[name]
        else:
            v = Fraction(self.rng.choice([-3, -2, -1, 1, 2, 3]),
                         self.rng.choice([1, 2, 4])) if default is None \
                else default
        self.used[name] = v
        return v

    def real(self, name, pos=False, nonneg=False, nonzero=False, lo=None,
             hi=None):
        v = float(self._val(name))
        if (pos and not v > 0) or (nonneg and v < 0) or \
                (nonzero and v == 0) or (lo is not None and v < lo) or \
                (hi is not None and v > hi):
            raise AssumeFailed()
        return v

    def cplx(self, name, holo=False, nonzero=False):
        re = float(self._val(name + '.re'))
        im = float(self._val(name + '.im', default=Fraction(0)
                             if not self.values.get('__holo_im__') else None))
        if nonzero and re == 0 and im == 0:
            raise AssumeFailed()
        return complex(re, im)

    def int(self, name, lo, hi):
        v = int(self._val(name, Fraction(self.rng.randint(lo, hi))))
        if not lo <= v <= hi:
            raise AssumeFailed()
        return v

    def bool(self, name):
        return bool(int(self._val(name, Fraction(self.rng.randint(0, 1)))))

    def choice(self, name, options):
        options = list(options)
        if name in self.choices:
            i = self.choices[name]
            if i < len(options):
                return options[i]
            raise AssumeFailed()
        i = self.rng.randrange(len(options))
        self.choices[name] = i
        return options[i]

    def string(self, name, maxlen, alphabet=None, minlen=0):
        n = self.choice(name + '.len', list(range(minlen, maxlen + 1)))
        out = []
        for i in range(n):
            v = self._val("%s.c%d" % (name, i), Fraction(97))
            out.append(chr(int(v)))
        return "".join(out)

    def _arr(self, name, shape, mk, kind):
        dt = {'f': float, 'c': complex, 'i': int, 'b': bool}[kind]
        out = np.empty(shape, dtype=dt)
        for i in np.ndindex(*out.shape):
            out[i] = mk("%s_%s" % (name, _flat(i)))
        return out

    def assume(self, cond):
        if not np.all(cond):
            raise AssumeFailed()

    def truth(self, c):
        return bool(c)

    def check(self, label, cond, detail=''):
        self.nchecks += 1
        self.labels.append(label)
        if not np.all(cond):
            raise CheckFailed(label, None, detail)

    def eq(self, label, a, b, tol=None):
        self.nchecks += 1
        self.labels.append(label)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                raise CheckFailed(label, None, "length")
            for x, y in zip(a, b):
                self.eq(label, x, y, tol)
            return
        A, B = (np.array(float(x) if isinstance(x, Fraction) else x)
                for x in (a, b))
        if A.shape != B.shape:
            raise CheckFailed(label, None, "shape %r != %r" % (A.shape,
                                                              B.shape))
        if A.size == 0:
            return
        if A.dtype.kind not in 'bifcu' or B.dtype.kind not in 'bifcu':
            if not np.all(A == B):
                raise CheckFailed(label, None, "%r != %r" % (A, B))
            return
        A, B = A.astype(complex), B.astype(complex)
        if np.any(~np.isfinite(A)) or np.any(~np.isfinite(B)):
            if np.array_equal(A, B, equal_nan=True):
                return
            raise CheckFailed(label, None, "non-finite %r != %r" % (A, B))
        tol = tol or 1e-6
        s = max(np.abs(A).max(), np.abs(B).max())
        d = np.abs(A - B).max()
        if d > tol * s and d > self.floor * self.scale:
            raise CheckFailed(label, None, "%.400r != %.400r" % (A, B))

    def same(self, label, a, b):
        self.nchecks += 1
        self.labels.append(label)
        r = (a == b)
        if isinstance(r, np.ndarray):
            r = r.all()
        if not r:
            raise CheckFailed(label, None, "%.200r != %.200r" % (a, b))

    def note(self, s):
        pass

    def text_values(self, signs=2, plain=False):
        pass

    def pickled(self, x, protocol):
        import pickle
        return pickle.loads(pickle.dumps(x, protocol))

    def number(self, text):
        return float(text)


# absolute rounding allowance of a replay, times the size of the quantities a
# harness compares (c.scale)
HELD_FLOOR = 1e-9


# ------------------------------------------------------------- harness

class H(object):
    def __init__(self, name, fn, bounds, tier='quick', params=None,
                 max_paths=None, timeout_ms=None, exact=False):
        self.name = name
        # no rounding is involved: a failure at one point is a failure
        self.exact = exact
        self.fn = fn
        self.bounds = bounds
        self.tier = tier
        self.params = params or {}
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms


class Hang(BaseException):
    pass


class cpu_limit(object):
    """Raise Hang after so many seconds of processor time."""

    def __init__(self, seconds):
        self.s = seconds

    def _alarm(self, *a):
        raise Hang()

    def __enter__(self):
        try:
            signal.signal(signal.SIGPROF, self._alarm)
            signal.setitimer(signal.ITIMER_PROF, self.s)
        except ValueError:      # not the main thread
            pass

    def __exit__(self, *a):
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
        except ValueError:
            pass


REPLAY_LIMIT = 40


def replay(h, values, choices, tier, rng=None):
    """Run the harness on the real code.  -> (status, label, detail, ctx)"""
    ctx = ConcCtx(dict(values), dict(choices), tier, rng)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                with cpu_limit(REPLAY_LIMIT):
                    h.fn(ctx, **h.params)
    except Hang:
        return ('raise', 'does not finish', "no result after %d s" %
                REPLAY_LIMIT, ctx)
    except AssumeFailed:
        return 'assume', None, '', ctx
    except CheckFailed as e:
        return 'fail', e.label, e.detail, ctx
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/hftools/' in f.filename]
        loc = ""
        if where:
            loc = " at %s:%d" % (os.path.relpath(where[-1].filename,
                                                 loader.REPO),
                                 where[-1].lineno)
        return 'raise', 'raises ' + type(e).__name__, "%s%s" % (e, loc), ctx
    return 'ok', None, '', ctx


def choice_idx(engine):
    return {k: v[0] for k, v in engine.choices.items()}


def _perturb(values, rng, k):
    out = {}
    for n, v in values.items():
        if isinstance(v, Fraction) and v.denominator != 1:
            out[n] = v + Fraction(rng.randint(-9, 9), 1000)
        else:
            out[n] = v
    return out


def explore(h, tier, prefixes, max_paths, time_limit, seed, fnset=None,
            profile_paths=int(os.environ.get("HFV_PROFILE", "2"))):
    """Explore from the given decision prefixes.  Returns a result dict."""
    e = core.ENG[0]
    if e is None:
        e = core.ENG[0] = Engine()
    e.query_timeout = h.timeout_ms or (8000 if tier == 'quick' else 30000)
    e.stats = dict(queries=0, solver_time=0.0, unknown=0, sat=0, unsat=0)
    world()
    t0 = time.time()
    work = list(prefixes)
    res = dict(paths=0, ok=0, infeasible=0, inconclusive=[], violations=[],
               left=[], replays=0, checks=0, fns=set(), samples=[],
               assumed=0, labels=set(), notes=set())
    rng = random.Random(seed)
    while work:
        if res['paths'] >= max_paths or time.time() - t0 > time_limit:
            break
        prefix = work.pop()
        e.begin(prefix)
        e.allow_tags = False
        ctx = SymCtx(e, tier)
        fns = res['fns']
        prof = res['paths'] < profile_paths

        def tracer(frame, event, arg):
            if event == 'call':
                fn = frame.f_code.co_filename
                if '/hftools/' in fn:
                    fns.add("%s:%s" % (fn.split('/hftools/', 1)[1],
                                       frame.f_code.co_qualname))
        status, label, formula, detail = 'ok', None, None, ''
        tpath = time.time()
        try:
            if prof:
                sys.setprofile(tracer)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    with cpu_limit(100 if tier == 'quick' else 400):
                        h.fn(ctx, **h.params)
            finally:
                if prof:
                    sys.setprofile(None)
        except Hang:
            status, detail = 'unsupported', 'path exceeded its time limit'
        except PathAbort:
            status = 'infeasible'
        except CheckFailed as x:
            status, label, formula, detail = ('fail', x.label, x.formula,
                                              x.detail)
        except (Unsupported, PolyTooBig, RecursionError,
                NotImplementedError) as x:
            status, detail = 'unsupported', "%s: %s%s" % (
                type(x).__name__, x, _where(x))
        except Exception as x:
            status, label = 'raise', 'raises ' + type(x).__name__
            detail = "%s%s" % (x, _where(x))
        for alt in e.alternatives:
            work.append(alt)
        res['paths'] += 1
        if status == 'infeasible':
            res['infeasible'] += 1
            continue
        res['checks'] += ctx.nchecks
        res['labels'].update(ctx.labels)
        res['assumed'] += len(e.assumed_nonzero)
        res['notes'].update(e.notes)
        ch = choice_idx(e)
        if status == 'ok':
            # concrete replay at a point of this path
            m = e.guess_model(rng)
            if m is None:
                m, why = e.solver_model(timeout=3000)
                if m is None and why == 'unsat':
                    res['infeasible'] += 1
                    continue
            if m is None:
                res['ok'] += 1
                res['notes'].add("no model for a replay of some path")
                continue
            st, lab, det, c2 = replay(h, m, ch, tier, rng)
            res['replays'] += 1
            if st in ('fail', 'raise'):
                # rounding at a tie is not a violation: other points of the
                # same path have to fail too
                again = []
                for k in range(4):
                    m2 = _perturb(m, rng, 1) if k % 2 else e.guess_model(rng)
                    if m2 is not None and m2 != m:
                        again.append(replay(h, m2, ch, tier, rng)[0])
                again = [x for x in again if x != 'assume']
                if all(x in ('fail', 'raise') for x in again):
                    res['violations'].append(_viol(
                        h, m, ch, lab, det, 'concrete replay of a path '
                        'the solver model satisfies'))
                    continue
            res['ok'] += 1
            if len(res['samples']) < 3:
                res['samples'].append(dict(
                    harness=h.name, choices=_show_choices(e),
                    model={k: str(v) for k, v in list(m.items())[:24]},
                    path_conditions=len(e.pc), checks=ctx.nchecks,
                    decisions=len(e.trace)))
            continue
        # candidate counterexample or engine limit: replay on the real code
        models = []
        if status == 'fail' and formula not in (None, False):
            neg = f_not(formula)
            for k in range(6 if h.exact else 3):
                m = e.guess_model(rng, wide=k > 1)
                if m is not None:
                    models.append(m)
            m, why = e.solver_model(neg)
            if m is not None:
                models.insert(0, m)
            elif why == 'unsat':
                # the sliced query said sat/unknown, the full one unsat
                if 'unknown' not in detail:
                    res['infeasible'] += 1
                else:
                    res['ok'] += 1
                continue
        else:
            for k in range(4):
                m = e.guess_model(rng, wide=k > 1)
                if m is not None:
                    models.append(m)
            if not models:
                m, why = e.solver_model()
                if m is not None:
                    models.append(m)
                    # solvers answer with border points
                    models += [_scaled(m, f) for f in SCALES]
                elif why == 'unsat':
                    res['infeasible'] += 1
                    continue
        found = None
        if status == 'unsupported' and models:
            # nothing was decided symbolically: only a failure at every
            # point tried counts
            raw = [replay(h, m, ch, tier, rng)[0] for m in models]
            sts = [x for x in raw if x != 'assume']
            if not sts or not all(x in ('fail', 'raise') for x in sts):
                models = [m for m, x in zip(models, raw)
                          if h.exact and x in ('fail', 'raise')]
        for m in models:
            for variant in range(3 + len(SCALES)):
                mm = dict(m)
                if variant > 2:
                    if status != 'fail':
                        break
                    mm = _scaled(m, SCALES[variant - 3])
                elif variant == 1:
                    if not any(k.endswith('.re') for k in mm):
                        continue
                    mm['__holo_im__'] = Fraction(1)
                elif variant == 2:
                    mm = _perturb(m, rng, variant)
                st, lab, det, c2 = replay(h, mm, ch, tier, rng)
                res['replays'] += 1
                if st in ('fail', 'raise'):
                    found = _viol(h, dict(mm, **c2.used), ch, lab, det,
                                  'solver counterexample: %s' % (label,))
                    break
            if found:
                break
        if found:
            res['violations'].append(found)
        else:
            res['inconclusive'].append(dict(
                harness=h.name, choices=_show_choices(e), status=status,
                label=label, detail=str(detail)[:300]))
    res['left'] = work
    res['stats'] = e.stats
    res['time'] = time.time() - t0
    return res


SCALES = (Fraction(100001, 100000), Fraction(5, 4), Fraction(7, 2))


def _scaled(m, f):
    return {k: v * f if isinstance(v, Fraction) and v.denominator != 1 or
            isinstance(v, Fraction) and abs(v) > 10 ** 6 else v
            for k, v in m.items()}


def _where(x):
    tb = traceback.extract_tb(x.__traceback__)
    fr = [f for f in tb if '/hftools/' in f.filename]
    if fr:
        return " [%s:%d]" % (fr[-1].filename.split('/hftools/')[-1],
                             fr[-1].lineno)
    return " [%s:%d]" % (os.path.basename(tb[-1].filename), tb[-1].lineno) \
        if tb else ""


def _show_choices(e):
    return {k: repr(v[1])[:80] for k, v in e.choices.items()}


def _viol(h, m, ch, lab, det, how):
    return dict(harness=h.name, params=repr(h.params), label=lab,
                detail=str(det)[:1500], how=how, choices=dict(ch),
                values={k: str(v) for k, v in m.items()})
