"""Symbolic ndarray (a real ndarray subclass holding SymNum objects, with a
logical dtype) and a proxy of the numpy module for the code under test."""
import types
from fractions import Fraction

import numpy as np

from .core import (SymNum, SymBool, Unsupported, lift, kmax, eng, pi_num,
                   mkbool, as_formula, f_and, f_or, f_not, FZERO, _RANK,
                   approx)
from .poly import Frac

_ODT = {k: np.dtype('O', metadata={'lk': k}) for k in 'bifc'}
_LDT = {'b': np.dtype(bool), 'i': np.dtype('int64'), 'f': np.dtype('float64'),
        'c': np.dtype('complex128')}
_real_dtype = np.ndarray.dtype.__get__


def lk(a):
    """Logical kind of an array: b/i/f/c for lifted, native kind otherwise."""
    d = _real_dtype(a)
    if d.kind == 'O':
        if d.metadata and 'lk' in d.metadata:
            return d.metadata['lk']
        return elem_kind(a)
    return {'u': 'i'}.get(d.kind, d.kind)


def elem_kind(a):
    k = None
    for x in np.ndarray.ravel(np.ndarray.view(a, np.ndarray)):
        if isinstance(x, SymNum):
            e = x.kind
        elif isinstance(x, (SymBool, bool, np.bool_)):
            e = 'b'
        elif isinstance(x, (int, np.integer)):
            e = 'i'
        elif isinstance(x, (float, np.floating, Fraction)):
            e = 'f'
        elif isinstance(x, (complex, np.complexfloating)):
            e = 'c'
        else:
            return 'O'
        k = e if k is None else kmax(k, e)
    return k if k is not None else 'O'


def is_lifted(a):
    return _real_dtype(a).kind == 'O' and lk(a) in 'bifc'


def base(a):
    """Plain ndarray view of anything array-like (object or native)."""
    if isinstance(a, np.ndarray):
        return np.ndarray.view(a, np.ndarray)
    return np.asarray(a)


def _mk(a, kind):
    """Wrap an object ndarray as SymNdarray of logical kind."""
    a = base(a)
    if a.dtype.kind != 'O':
        a = a.astype(object)
    return a.view(_ODT[kind]).view(SymNdarray)


def to_obj(a, kind=None):
    """Object ndarray with SymNum/SymBool elements cast to `kind`."""
    a = base(a)
    k0 = lk(a)
    if k0 == 'O' and a.size == 0:
        k0 = 'f'
    if k0 not in 'bifc':
        raise Unsupported("non-numeric array in symbolic arithmetic (%s)"
                          % k0)
    k = kind or k0
    out = np.empty(a.shape, dtype=object)
    of, af = out.reshape(-1), a.reshape(-1)
    for i in range(af.shape[0]):
        of[i] = conv(af[i], k)
    return out


def conv(x, k):
    if k == 'b':
        if isinstance(x, (SymBool, bool, np.bool_)):
            return x if isinstance(x, SymBool) else bool(x)
        if isinstance(x, SymNum):
            return x != 0
        return bool(x)
    n = lift(x)
    if n is None:
        raise Unsupported("cannot lift %r" % (type(x),))
    return n.cast(k)


def normal(a):
    """Result of a numpy operation -> SymNdarray following the policy:
    floats and complex lifted; ints/bools native when concrete."""
    a = base(a)
    k = lk(a)
    if a.dtype.kind in 'fc':
        return _mk(to_obj(a), a.dtype.kind)
    if a.dtype.kind == 'O' and k in 'bi':
        return demote(a, k)
    if a.dtype.kind == 'O' and k in 'fc':
        return _mk(to_obj(a, k), k)
    return a.view(SymNdarray)


def demote(a, k):
    """Concrete int/bool object arrays become native."""
    a = base(a)
    vals = np.ndarray.ravel(a)
    ok = True
    out = []
    for x in vals:
        if k == 'b':
            if isinstance(x, (bool, np.bool_)):
                out.append(bool(x))
                continue
        else:
            if isinstance(x, (int, np.integer)):
                out.append(int(x))
                continue
            if isinstance(x, SymNum) and x.is_const():
                out.append(int(x.re.const_value()))
                continue
        ok = False
        break
    if ok:
        return np.array(out, dtype=_LDT[k]).reshape(a.shape).view(SymNdarray)
    return _mk(to_obj(a, k), k)


def finish_scalar(x):
    return x


class _Meta(type):
    def __instancecheck__(cls, inst):
        if cls is SymNdarray:
            return isinstance_ndarray(inst)
        return type.__instancecheck__(cls, inst)


def isinstance_ndarray(x):
    return type.__instancecheck__(np.ndarray, x)


def _any_lifted(args):
    for a in args:
        if isinstance(a, (SymNum, SymBool)):
            return True
        if isinstance(a, np.ndarray) and is_lifted(a):
            return True
    return False


def _kind_of(a):
    if isinstance(a, SymNum):
        return a.kind
    if isinstance(a, SymBool):
        return 'b'
    if isinstance(a, np.ndarray):
        return lk(a)
    if isinstance(a, (bool, np.bool_)):
        return 'b'
    if isinstance(a, (int, np.integer)):
        return 'i'
    if isinstance(a, (float, np.floating)):
        return 'f'
    if isinstance(a, (complex, np.complexfloating)):
        return 'c'
    return 'O'


def _lt(a, b):
    return a < b


_BIN = {
    'add': (lambda a, b: a + b, None),
    'subtract': (lambda a, b: a - b, None),
    'multiply': (lambda a, b: a * b, None),
    'divide': (lambda a, b: a / b, 'div'),
    'true_divide': (lambda a, b: a / b, 'div'),
    'floor_divide': (lambda a, b: a // b, None),
    'remainder': (lambda a, b: a % b, None),
    'mod': (lambda a, b: a % b, None),
    'power': (lambda a, b: a ** b, None),
    'float_power': (lambda a, b: a ** b, 'div'),
    'equal': (lambda a, b: a == b, 'b'),
    'not_equal': (lambda a, b: a != b, 'b'),
    'less': (lambda a, b: a < b, 'b'),
    'less_equal': (lambda a, b: a <= b, 'b'),
    'greater': (lambda a, b: a > b, 'b'),
    'greater_equal': (lambda a, b: a >= b, 'b'),
    'minimum': (lambda a, b: _pick(a, b, True), None),
    'maximum': (lambda a, b: _pick(a, b, False), None),
    'fmin': (lambda a, b: _pick(a, b, True), None),
    'fmax': (lambda a, b: _pick(a, b, False), None),
    'bitwise_and': (lambda a, b: a & b, 'b'),
    'bitwise_or': (lambda a, b: a | b, 'b'),
    'bitwise_xor': (lambda a, b: a ^ b, 'b'),
    'logical_and': (lambda a, b: a & b, 'lb'),
    'logical_or': (lambda a, b: a | b, 'lb'),
    'logical_xor': (lambda a, b: a ^ b, 'lb'),
    'arctan2': (lambda a, b: a.cast('f').arctan2(b.cast('f')), 'f'),
    'hypot': (lambda a, b: (a * a + b * b).cast('f').sqrt(), 'f'),
}


def _pick(a, b, small):
    for x in (a, b):
        if isinstance(x, SymNum) and x.special == 'nan':
            return x
    if small:
        return a if (a <= b) else b
    return a if (a >= b) else b


def _inv(x):
    return (~x) if isinstance(x, SymBool) else (not x)


_UN = {
    'negative': (lambda a: -a, None),
    'positive': (lambda a: a, None),
    'absolute': (lambda a: abs(a), 'abs'),
    'fabs': (lambda a: abs(a), 'f'),
    'conjugate': (lambda a: a.conjugate(), None),
    'sqrt': (lambda a: a.sqrt(), 'div'),
    'square': (lambda a: a * a, None),
    'reciprocal': (lambda a: 1 / a, 'div'),
    'exp': (lambda a: a.exp(), 'exp'),
    'cos': (lambda a: a.cos(), 'f'),
    'sin': (lambda a: a.sin(), 'f'),
    'log10': (lambda a: a.cast(kmax(a.kind, 'f')).log10(), 'f'),
    'floor': (lambda a: a.floor(), None),
    'ceil': (lambda a: a.ceil(), None),
    'trunc': (lambda a: a.trunc().cast(a.kind), None),
    'rint': (lambda a: a.rint(), None),
    'sign': (lambda a: a.sign(), None),
    'isnan': (lambda a: a.special == 'nan', 'b'),
    'isinf': (lambda a: a.special in ('inf', '-inf'), 'b'),
    'isfinite': (lambda a: a.special is None, 'b'),
    'invert': (_inv, 'b'),
    'logical_not': (_inv, 'lb'),
    'deg2rad': (lambda a: a * pi_num() / 180, 'f'),
    'radians': (lambda a: a * pi_num() / 180, 'f'),
    'rad2deg': (lambda a: a * 180 / pi_num(), 'f'),
    'degrees': (lambda a: a * 180 / pi_num(), 'f'),
}


def apply_ufunc(name, args):
    """Elementwise symbolic ufunc on plain arrays/scalars -> object array."""
    if len(args) == 2 and name in _BIN:
        fn, rk = _BIN[name]
        ka, kb = _kind_of(args[0]), _kind_of(args[1])
        if 'O' in (ka, kb) or ka not in 'bifc' or kb not in 'bifc':
            if rk == 'b':
                return _mixed_cmp(name, args)
            raise Unsupported("ufunc %s on kinds %s,%s" % (name, ka, kb))
        if rk == 'lb':
            args = [_as_bool(a) for a in args]
            k, ek, rk = 'b', 'b', 'b'
        else:
            k = kmax(ka, kb)
            ek = k
            if name in ('bitwise_and', 'bitwise_or', 'bitwise_xor'):
                if k != 'b':
                    if k == 'i':
                        raise Unsupported("bit operation on ints")
                    raise TypeError("ufunc '%s' not supported for the input "
                                    "types" % name)
            elif rk == 'b':
                ek = k
            elif k == 'b':
                if name == 'add':
                    fn = lambda a, b: a | b
                elif name == 'multiply':
                    fn = lambda a, b: a & b
                elif name == 'subtract':
                    raise TypeError("numpy boolean subtract")
                elif name in ('minimum',):
                    fn = lambda a, b: a & b
                elif name in ('maximum',):
                    fn = lambda a, b: a | b
                else:
                    ek = k = 'i'
        out_k = {None: k, 'div': kmax(k, 'f'), 'b': 'b', 'f': 'f'}[rk]
        A, B = [to_obj(a if isinstance(a, np.ndarray) else _scal(a), None)
                for a in args]
        if not (rk == 'b' and k == 'b') and ek != 'b':
            A, B = to_obj(A, ek), to_obj(B, ek)
        A, B = np.broadcast_arrays(A, B)
        out = np.empty(A.shape, dtype=object)
        of, af, bf = out.reshape(-1), A.reshape(-1), B.reshape(-1)
        for i in range(of.shape[0]):
            r = fn(af[i], bf[i])
            of[i] = r if out_k == 'b' else _castres(r, out_k)
        return out, out_k
    if len(args) == 1 and name in _UN:
        fn, rk = _UN[name]
        a = args[0]
        k = _kind_of(a)
        if k not in 'bifc':
            raise Unsupported("ufunc %s on kind %s" % (name, k))
        if rk == 'lb':
            a, k, rk = _as_bool(a), 'b', 'b'
        A = to_obj(a if isinstance(a, np.ndarray) else _scal(a))
        if name == 'invert' and k != 'b':
            raise Unsupported("invert on ints")
        if k == 'b' and name not in ('invert', 'logical_not'):
            A, k = to_obj(A, 'i'), 'i'
        if rk == 'exp':
            A, out_k = to_obj(A, 'c' if k == 'c' else 'f'), kmax(k, 'f')
        else:
            out_k = {None: k, 'div': kmax(k, 'f'), 'b': 'b', 'f': 'f',
                     'abs': 'f' if k == 'c' else k}[rk]
        out = np.empty(A.shape, dtype=object)
        of, af = out.reshape(-1), A.reshape(-1)
        for i in range(of.shape[0]):
            r = fn(af[i])
            of[i] = r if out_k == 'b' else _castres(r, out_k)
        return out, out_k
    raise Unsupported("ufunc %s" % name)


def _scal(a):
    o = np.empty((), dtype=object)
    o[()] = a
    return o


def _castres(r, k):
    if r.kind != k:
        return r.cast(k) if _RANK[k] >= _RANK[r.kind] else r.cast(k)
    return r


def _as_bool(a):
    if isinstance(a, np.ndarray):
        return to_obj(a, 'b').view(_ODT['b'])
    return conv(a, 'b')


def _mixed_cmp(name, args):
    A, B = [base(a) if isinstance(a, np.ndarray) else _scal(a) for a in args]
    if name not in ('equal', 'not_equal'):
        raise Unsupported("ordering of mixed arrays")
    A, B = np.broadcast_arrays(A, B)
    out = np.empty(A.shape, dtype=object)
    of, af, bf = out.reshape(-1), A.reshape(-1), B.reshape(-1)
    for i in range(of.shape[0]):
        r = af[i] == bf[i]
        of[i] = r if name == 'equal' else _inv(r)
    return out, 'b'


def wrap_like(out, inputs):
    """Emulate __array_wrap__ for ufunc results."""
    best, prio = None, None
    for i in inputs:
        if isinstance(i, np.ndarray) and type(i) not in (np.ndarray,
                                                         SymNdarray):
            p = getattr(i, '__array_priority__', 0.0)
            if best is None or p > prio:
                best, prio = i, p
    if best is None:
        if out.ndim == 0:
            return out[()] if not isinstance(out, SymNdarray) else \
                np.ndarray.__getitem__(out, ())
        return out
    return best.__array_wrap__(out)


class SymNdarray(np.ndarray, metaclass=_Meta):
    """numpy.ndarray as seen by the code under test."""

    def __new__(cls, shape, dtype=float, buffer=None, offset=0, strides=None,
                order=None):
        if buffer is not None:
            raise Unsupported("ndarray(buffer=)")
        return np.ndarray.view(NP.empty(shape, dtype, order or 'C'), cls)

    # -- dtype
    @property
    def dtype(self):
        d = _real_dtype(self)
        if d.kind == 'O':
            k = lk(self)
            if k in 'bifc':
                return _LDT[k]
        return d

    @dtype.setter
    def dtype(self, v):
        raise Unsupported("assignment to dtype")

    @property
    def real(self):
        if is_lifted(self):
            k = lk(self)
            if k != 'c':
                return self
            out = np.empty(self.shape, dtype=object)
            of, af = out.reshape(-1), base(self).reshape(-1)
            for i in range(of.shape[0]):
                of[i] = af[i].real
            return self._rewrap(_mk(out, 'f'))
        return np.ndarray.real.__get__(self)

    @real.setter
    def real(self, v):
        if is_lifted(self) and lk(self) == 'c':
            v = np.broadcast_to(to_obj(asarr(v), 'f'), self.shape)
            b = base(self)
            for i in np.ndindex(*self.shape):
                b[i] = SymNum('c', v[i].re, b[i].imag_)
        else:
            self[...] = v

    @property
    def imag(self):
        if is_lifted(self):
            out = np.empty(self.shape, dtype=object)
            of, af = out.reshape(-1), base(self).reshape(-1)
            for i in range(of.shape[0]):
                of[i] = af[i].imag
            return self._rewrap(_mk(out, 'f' if lk(self) == 'c'
                                    else lk(self)))
        return np.ndarray.imag.__get__(self)

    @imag.setter
    def imag(self, v):
        if is_lifted(self) and lk(self) == 'c':
            v = np.broadcast_to(to_obj(asarr(v), 'f'), self.shape)
            b = base(self)
            for i in np.ndindex(*self.shape):
                b[i] = SymNum('c', b[i].re, v[i].re)
        else:
            raise TypeError("array does not have imaginary part to set")

    def _rewrap(self, a):
        """Give result `a` our subclass and attributes."""
        if type(self) is SymNdarray:
            return a
        out = np.ndarray.view(a, type(self))
        out.__array_finalize__(self)
        return out

    def __array_wrap__(self, arr, context=None):
        a = arr if isinstance(arr, SymNdarray) else normal(arr)
        return SymNdarray._rewrap(self, a)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        out = kw.pop('out', None)
        name = ufunc.__name__
        if method == '__call__':
            kw.pop('casting', None)
            dt = kw.pop('dtype', None)
            kw.pop('subok', None)
            where = kw.pop('where', True)
            if kw or where is not True:
                raise Unsupported("ufunc keyword %r" % (kw,))
            if (_any_lifted(inputs) or name in ('true_divide', 'divide',
                                                'sqrt', 'exp')
                    or any(_kind_of(i) in 'fc' for i in inputs)):
                if any(_kind_of(i) not in 'bifc' for i in inputs) and \
                        name not in ('equal', 'not_equal'):
                    raise TypeError("ufunc %r not supported for the input "
                                    "types" % name)
                r, k = apply_ufunc(name, [_plain(i) for i in inputs])
                if dt is not None:
                    r, k = to_obj(r.view(_ODT[k]), np.dtype(dt).kind), \
                        np.dtype(dt).kind
                r = normal(r.view(_ODT[k]))
            else:
                ins = [base(i) if isinstance(i, np.ndarray) else i
                       for i in inputs]
                if dt is not None:
                    kw['dtype'] = dt
                r = getattr(ufunc, method)(*ins, **kw)
                if isinstance(r, tuple):
                    raise Unsupported("multi-output ufunc")
                r = normal(np.asarray(r))
            if out is not None:
                o, = out
                if isinstance(o, SymNdarray) and is_lifted(o) is False and \
                        is_lifted(r):
                    if _RANK.get(lk(r), 9) > _RANK.get(lk(o), 9):
                        raise TypeError(
                            "Cannot cast ufunc %r output" % name)
                elif _RANK.get(lk(r), 9) > _RANK.get(lk(o), 9):
                    raise TypeError("Cannot cast ufunc %r output" % name)
                SymNdarray.__setitem__(o, Ellipsis, r)
                return o
            return wrap_like(r, inputs)
        if method == 'reduce':
            axis = kw.pop('axis', 0)
            keep = kw.pop('keepdims', False)
            dt = kw.pop('dtype', None)
            if kw.get('initial', None) is not None or \
                    kw.get('where', True) is not True:
                raise Unsupported("reduce initial/where")
            a = inputs[0]
            if not is_lifted(a) and _kind_of(a) not in 'fc':
                r = ufunc.reduce(base(a), axis=axis, dtype=dt, keepdims=keep)
                r = np.asarray(r)
                r = normal(r)
            else:
                r = sym_reduce(name, a, axis, keep, dt)
            if out is not None and out[0] is not None:
                SymNdarray.__setitem__(out[0], Ellipsis, r)
                return out[0]
            return wrap_like(r, inputs)
        if method == 'accumulate':
            axis = kw.pop('axis', 0)
            a = inputs[0]
            r = sym_accumulate(name, a, axis)
            return wrap_like(r, inputs)
        if method == 'outer':
            A, B = inputs[0], inputs[1]
            A, B = asarr(A), asarr(B)
            a = base(A).reshape(A.shape + (1,) * B.ndim)
            r, k = apply_ufunc(name, [a.view(_real_dtype(A)), base(B)])
            return wrap_like(normal(r.view(_ODT[k])), inputs)
        raise Unsupported("ufunc method %s" % method)

    # -- indexing
    def __getitem__(self, x):
        x = conc_index(x)
        return np.ndarray.__getitem__(self, x)

    def __setitem__(self, x, v):
        x = conc_index(x)
        b = base(self)
        d = _real_dtype(self)
        if d.kind == 'O' and lk(self) in 'bifc':
            k = lk(self)
            if isinstance(v, np.ndarray):
                pass
            elif isinstance(v, (SymNum, SymBool)):
                if isinstance(v, SymNum) and v.kind == 'c' and k in 'fi':
                    raise TypeError("can't convert complex to float")
                v = _scal(v)
            elif isinstance(v, (list, tuple)):
                v = asarr(v)
            else:
                if isinstance(v, (complex, np.complexfloating)) and k in 'fi':
                    raise TypeError("can't convert complex to float")
                v = np.asarray(v)
            if lk(base(v)) not in 'bifc':
                raise Unsupported("assign non-numeric to numeric array")
            if not is_lifted(v) and v.ndim == 0:
                o = _scal(conv(v[()], k))
            else:
                o = to_obj(base(v), k)
            if o.ndim == 0:
                sel = np.ndarray.__getitem__(b, x)
                if isinstance(sel, np.ndarray):
                    f = np.empty(sel.shape, dtype=object)
                    for i in np.ndindex(*sel.shape):
                        f[i] = o[()]
                    b[x] = f
                else:
                    b[x] = o[()]
            else:
                sel = np.ndarray.__getitem__(b, x)
                if isinstance(sel, np.ndarray):
                    b[x] = o
                else:
                    b[x] = o.reshape(-1)[0] if o.size == 1 else o
            return
        if isinstance(v, (SymNum, SymBool)) or (
                isinstance(v, np.ndarray) and is_lifted(v)) or (
                isinstance(v, (list, tuple)) and d.kind in 'bif' and
                is_lifted(asarr(v))):
            if d.kind not in 'bi':
                raise Unsupported("symbolic value into native array")
            vv = asarr(v) if not isinstance(v, (SymNum, SymBool)) else \
                _mk(_scal(v), _kind_of(v))
            o = to_obj(vv, d.kind)
            n = demote(o.view(_ODT[d.kind]), d.kind)
            if is_lifted(n):
                if d.kind == 'b':
                    n = fork_bool(n)
                else:
                    raise Unsupported("symbolic int into native int array")
            b[x] = base(n)
            return
        b[x] = base(v) if isinstance(v, np.ndarray) else v

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        return (self[i] for i in range(len(self)))

    def __contains__(self, v):
        for x in base(self).reshape(-1):
            if bool(x == v):
                return True
        return False

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one "
                             "element is ambiguous. Use a.any() or a.all()")
        return bool(base(self).reshape(-1)[0])

    def __float__(self):
        if self.size != 1:
            raise TypeError("only size-1 arrays can be converted to Python "
                            "scalars")
        return float(base(self).reshape(-1)[0])

    def __int__(self):
        if self.size != 1:
            raise TypeError("only size-1 arrays can be converted to Python "
                            "scalars")
        return int(base(self).reshape(-1)[0])

    def __index__(self):
        if self.ndim != 0 or lk(self) != 'i':
            raise TypeError("only integer scalar arrays can be converted to "
                            "a scalar index")
        return int(base(self)[()])

    # in-place operators: numpy semantics incl. same-kind casting
    # -- methods
    def view(self, dtype=None, type=None):
        if dtype is not None and isinstance(dtype, builtin_type) and \
                issubclass(dtype, np.ndarray):
            dtype, type = None, dtype
        if dtype is not None:
            dt = np.dtype(dtype)
            if dt != SymNdarray.dtype.__get__(self):
                raise Unsupported("reinterpreting view %s" % dt)
        if type is None:
            return np.ndarray.view(self)
        if type is np.ndarray:
            type = SymNdarray
        return np.ndarray.view(self, type)

    def astype(self, dtype, order='K', casting='unsafe', subok=True,
               copy=True):
        dt = np.dtype(dtype)
        k = dt.kind
        if is_lifted(self) or k in 'fc':
            if k == 'O':
                raise Unsupported("astype(object)")
            if k not in 'bifc':
                raise Unsupported("astype %s" % dt)
            r = normal(to_obj(self, k).view(_ODT[k]))
        else:
            r = normal(base(self).astype(dt))
        return self._rewrap(r) if subok else r

    def copy(self, order='C'):
        return self._rewrap(normal(np.array(base(self), copy=True,
                                            order=order)))

    def conj(self):
        return np.conjugate(self)

    def conjugate(self):
        return np.conjugate(self)

    def tolist(self):
        if is_lifted(self):
            return np.ndarray.tolist(base(self))
        return np.ndarray.tolist(self)

    def item(self, *a):
        return np.ndarray.item(base(self), *a)

    def fill(self, v):
        self[...] = v

    @property
    def flat(self):
        if is_lifted(self):
            return FlatIter(self)
        return np.ndarray.flat.__get__(self)

    @property
    def T(self):
        return self.transpose()

    def _red(self, name, axis, dtype, out, keepdims):
        r = getattr(np, name).reduce(self, axis=axis, dtype=dtype,
                                     out=out, keepdims=keepdims)
        return r

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return np.add.reduce(self, axis=axis, dtype=dtype, out=out,
                             keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return np.multiply.reduce(self, axis=axis, dtype=dtype, out=out,
                                  keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return np.minimum.reduce(self, axis=axis, out=out, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return np.maximum.reduce(self, axis=axis, out=out, keepdims=keepdims)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        if not is_lifted(self):
            return wrap_like(normal(np.asarray(np.any(
                base(self), axis=axis, keepdims=keepdims))), [self])
        r = sym_reduce('logical_or', _as_lifted_bool(self), axis, keepdims,
                       None)
        return wrap_like(r, [self])

    def all(self, axis=None, out=None, keepdims=False, **kw):
        if not is_lifted(self):
            return wrap_like(normal(np.asarray(np.all(
                base(self), axis=axis, keepdims=keepdims))), [self])
        r = sym_reduce('logical_and', _as_lifted_bool(self), axis, keepdims,
                       None)
        return wrap_like(r, [self])

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        n = _count(self, axis)
        a = self
        if lk(self) in 'bi':
            a = SymNdarray.astype(self, float)
        r = np.add.reduce(a, axis=axis, dtype=dtype, keepdims=keepdims)
        r = r / n
        if out is not None:
            out[...] = r
            return out
        return r

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False,
            **kw):
        n = _count(self, axis)
        a = np.ndarray.view(self, SymNdarray)
        if lk(a) in 'bi':
            a = a.astype(float)
        m = np.add.reduce(a, axis=axis, keepdims=True) / n
        d = a - m
        if lk(d) == 'c':
            d = d.real * d.real + d.imag * d.imag
        else:
            d = d * d
        r = np.add.reduce(d, axis=axis, keepdims=keepdims)
        den = n - ddof
        if den <= 0:
            r = r * float('nan')
        else:
            r = r / den
        if out is not None:
            out[...] = r
            return out
        return wrap_like(r if isinstance(r, np.ndarray) else
                         _mk(_scal(r), 'f'), [self])

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False,
            **kw):
        r = np.sqrt(SymNdarray.var(self, axis=axis, ddof=ddof,
                                   keepdims=keepdims))
        if out is not None:
            out[...] = r
            return out
        return r

    def cumsum(self, axis=None, dtype=None, out=None):
        return self._rewrap(sym_accumulate('add', self, axis))

    def cumprod(self, axis=None, dtype=None, out=None):
        return self._rewrap(sym_accumulate('multiply', self, axis))

    def argsort(self, axis=-1, kind=None, order=None):
        if not is_lifted(self):
            return self._rewrap(normal(np.argsort(base(self), axis=axis,
                                                  kind='stable')))
        b = base(self)
        if b.ndim == 0:
            return self._rewrap(normal(np.zeros((), int)))
        if axis is None:
            b = b.reshape(-1)
            axis = 0
        out = np.empty(b.shape, dtype=int)
        bm = np.moveaxis(b, axis, -1)
        om = np.moveaxis(out, axis, -1)
        for i in np.ndindex(*bm.shape[:-1]):
            row = list(bm[i])
            om[i] = sorted(range(len(row)), key=lambda k: row[k])
        return self._rewrap(normal(out))

    def argmin(self, axis=None, out=None, **kw):
        return _argm(self, axis, True)

    def argmax(self, axis=None, out=None, **kw):
        return _argm(self, axis, False)

    def sort(self, axis=-1, kind=None, order=None):
        if not is_lifted(self):
            np.ndarray.sort(base(self), axis=axis)
            return
        b = np.moveaxis(base(self), axis, -1)
        for i in np.ndindex(*b.shape[:-1]):
            row = sorted(list(b[i]))
            for k, v in enumerate(row):
                b[i][k] = v

    def take(self, indices, axis=None, out=None, mode='raise'):
        ii = asarr(indices)
        idx = np.asarray(base(conc_index(ii)))
        r = np.take(base(self), idx, axis=axis, mode=mode)
        if not isinstance(r, np.ndarray) or (
                r.ndim == 0 and type(self) is SymNdarray):
            return r
        return self._rewrap(normal(np.asarray(r).view(_real_dtype(self))))

    def repeat(self, repeats, axis=None):
        r = np.repeat(base(self), repeats, axis=axis)
        return self._rewrap(normal(r.view(_real_dtype(self))))

    def searchsorted(self, v, side='left', sorter=None):
        return NP.searchsorted(self, v, side, sorter)

    def dot(self, o, out=None):
        return NP.dot(self, o)

    def __matmul__(self, o):
        return NP.matmul(self, o)

    def __rmatmul__(self, o):
        return NP.matmul(o, self)

    def round(self, decimals=0, out=None):
        raise Unsupported("round")

    def tobytes(self, *a):
        raise Unsupported("tobytes")

    def __repr__(self):
        return "SymNdarray(%r, %s)" % (np.ndarray.tolist(base(self)),
                                       lk(self))

    def __str__(self):
        return str(np.ndarray.tolist(base(self)))

    def __array_function__(self, func, types, args, kwargs):
        h = _HANDLED.get(func)
        if h is not None:
            return h(*args, **kwargs)
        if func in _STRUCT:
            r = func.__wrapped__(*args, **kwargs) if hasattr(
                func, '__wrapped__') else \
                np.ndarray.__array_function__(self, func, types, args, kwargs)
            return r
        nm = func.__name__
        if nm in _PYFUNCS:
            return np.ndarray.__array_function__(self, func, types, args,
                                                 kwargs)
        raise Unsupported("numpy function %s" % nm)


builtin_type = type


class FlatIter(object):
    def __init__(self, a):
        self.a = a
        self.i = 0

    def __iter__(self):
        return iter(list(base(self.a).reshape(-1)))

    def __next__(self):
        f = base(self.a).reshape(-1)
        if self.i >= len(f):
            raise StopIteration
        self.i += 1
        return f[self.i - 1]

    def __len__(self):
        return self.a.size

    def __getitem__(self, i):
        f = base(self.a).reshape(-1)[conc_index(i)]
        if isinstance(f, np.ndarray):
            return normal(f.view(_real_dtype(self.a)))
        return f

    def __setitem__(self, i, v):
        b = base(self.a)
        n = np.arange(b.size)[conc_index(i)]
        for k, j in enumerate(np.atleast_1d(n)):
            vv = v
            if isinstance(v, (np.ndarray, list, tuple)):
                vv = base(asarr(v)).reshape(-1)[k]
            b[np.unravel_index(j, b.shape)] = conv(vv, lk(self.a))

    def copy(self):
        return normal(base(self.a).reshape(-1).copy().view(
            _real_dtype(self.a)))

    def __array__(self, dtype=None):
        return base(self.a).reshape(-1).copy()


def _plain(i):
    return base(i) if isinstance(i, np.ndarray) else i


def _as_lifted_bool(a):
    return _mk(to_obj(a, 'b'), 'b')


def _count(a, axis):
    if axis is None:
        return a.size
    if isinstance(axis, tuple):
        n = 1
        for x in axis:
            n *= a.shape[x]
        return n
    return a.shape[axis]


def _argm(a, axis, small):
    b = base(a)
    if axis is None:
        row = list(b.reshape(-1))
        best = 0
        for i in range(1, len(row)):
            if (row[i] < row[best]) if small else (row[i] > row[best]):
                best = i
        return np.int64(best)
    bm = np.moveaxis(b, axis, -1)
    out = np.empty(bm.shape[:-1], int)
    for i in np.ndindex(*bm.shape[:-1]):
        row = list(bm[i])
        best = 0
        for j in range(1, len(row)):
            if (row[j] < row[best]) if small else (row[j] > row[best]):
                best = j
        out[i] = best
    return normal(out)


def sym_reduce(name, a, axis, keep, dt):
    k = lk(a)
    b = to_obj(a)
    nd = b.ndim
    if axis is None:
        axes = tuple(range(nd))
    elif isinstance(axis, tuple):
        axes = tuple(np.core.multiarray.normalize_axis_index(x, nd)
                     for x in axis)
        if len(set(axes)) != len(axes):
            raise ValueError("duplicate value in 'axis'")
    else:
        axes = (np.core.multiarray.normalize_axis_index(axis, nd),)
    if k == 'b' and name in ('add', 'multiply'):
        b, k = to_obj(b.view(_ODT['b']), 'i'), 'i'
    if dt is not None:
        k = np.dtype(dt).kind
        b = to_obj(b, k)
    rest = [i for i in range(nd) if i not in axes]
    bt = b.transpose(rest + list(axes))
    rshape = tuple(b.shape[i] for i in rest)
    n = 1
    for i in axes:
        n *= b.shape[i]
    bt = bt.reshape(rshape + (n,))
    out = np.empty(rshape, dtype=object)
    if name in ('logical_or', 'logical_and'):
        for i in np.ndindex(*rshape):
            fs = [as_formula(x) for x in bt[i]]
            out[i] = mkbool((f_or if name == 'logical_or' else f_and)(*fs)) \
                if fs else (name == 'logical_and')
        k = 'b'
    else:
        fn = _BIN[name][0]
        ident = {'add': 0, 'multiply': 1}.get(name)
        for i in np.ndindex(*rshape):
            row = bt[i]
            if len(row) == 0:
                if ident is None:
                    raise ValueError("zero-size array to reduction operation "
                                     "%s which has no identity" % name)
                out[i] = conv(ident, k)
                continue
            acc = row[0]
            for x in row[1:]:
                acc = fn(acc, x)
            out[i] = acc
    if keep:
        out = out.reshape(tuple(1 if i in axes else b.shape[i]
                                for i in range(nd)))
    return normal(out.view(_ODT[k]))


def sym_accumulate(name, a, axis):
    k = lk(a)
    if axis is None:
        b = to_obj(a).reshape(-1)
        axis = 0
    else:
        b = to_obj(a)
    if k == 'b':
        b, k = to_obj(b.view(_ODT['b']), 'i'), 'i'
    fn = _BIN[name][0]
    axis = np.core.multiarray.normalize_axis_index(axis, b.ndim)
    out = np.empty(b.shape, dtype=object)
    bm, om = np.moveaxis(b, axis, 0), np.moveaxis(out, axis, 0)
    for j in range(bm.shape[0]):
        for i in np.ndindex(*bm.shape[1:]):
            x = bm[(j,) + i]
            om[(j,) + i] = x if j == 0 else fn(om[(j - 1,) + i], x)
    return normal(out.view(_ODT[k]))


def fork_bool(a):
    """Decide every symbolic boolean of the array (forks)."""
    b = base(a)
    out = np.empty(b.shape, dtype=bool)
    for i in np.ndindex(*b.shape):
        out[i] = bool(b[i])
    return out


def conc_index(x):
    """Make an index concrete (forking where necessary)."""
    if isinstance(x, tuple):
        return tuple(conc_index(i) for i in x)
    if isinstance(x, SymNum):
        return x.__index__()
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, slice):
        return slice(*[None if v is None else
                       (v.__index__() if hasattr(v, '__index__') else v)
                       for v in (x.start, x.stop, x.step)])
    if isinstance(x, np.ndarray):
        if is_lifted(x):
            k = lk(x)
            if k == 'b':
                return fork_bool(x)
            if k == 'i':
                b = base(x)
                out = np.empty(b.shape, dtype=int)
                for i in np.ndindex(*b.shape):
                    out[i] = b[i].__index__()
                return out
            raise IndexError("arrays used as indices must be of integer (or "
                             "boolean) type")
        return base(x)
    if isinstance(x, list):
        if any(isinstance(i, (SymNum, SymBool)) for i in flatten(x)):
            return conc_index(asarr(x))
        return [base(i) if isinstance(i, np.ndarray) else i for i in x]
    return x


def flatten(x):
    for i in x:
        if isinstance(i, (list, tuple)):
            for j in flatten(i):
                yield j
        else:
            yield i


def _has_sym(x):
    if isinstance(x, (SymNum, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return is_lifted(x)
    if isinstance(x, (list, tuple)):
        return any(_has_sym(i) for i in x)
    return False


def asarr(x, dtype=None):
    """Anything -> SymNdarray (base class), lifted where numeric-inexact."""
    if isinstance(x, np.ndarray):
        a = normal(base(x)) if _real_dtype(x).kind in 'fc' else \
            np.ndarray.view(x, SymNdarray)
    elif isinstance(x, (SymNum, SymBool)):
        a = _mk(_scal(x), _kind_of(x))
    elif isinstance(x, FlatIter):
        a = x.copy()
    elif isinstance(x, (list, tuple)) and _has_sym(x):
        a = _from_nested(x)
    elif isinstance(x, range):
        a = np.asarray(x).view(SymNdarray)
    elif hasattr(x, '__array__') and not isinstance(x, np.generic):
        a = asarr(x.__array__())
    elif hasattr(x, '__array_interface__'):
        b = np.asarray(x)           # keeps sharing memory
        if b.dtype.kind == 'O':
            b = b.view(_ODT[elem_kind(b) if b.size else 'f'])
        a = b.view(SymNdarray)
    else:
        a = normal(np.asarray(x))
        if a.dtype == object and not is_lifted(a):
            pass
    if dtype is not None:
        dt = np.dtype(dtype)
        if dt.kind == 'O':
            if a.dtype.kind in 'US':
                return base(a).astype(object).view(SymNdarray)
            if a.dtype.kind == 'O' and not is_lifted(a):
                return a
            raise Unsupported("object arrays")
        if dt.kind in 'bifc' and dt != a.dtype:
            a = SymNdarray.astype(a, dt)
        elif dt != a.dtype:
            if is_lifted(a):
                raise Unsupported("dtype %s" % dt)
            a = normal(base(a).astype(dt))
    return a


def _from_nested(x):
    shape = []

    def walk(y, d):
        if isinstance(y, (list, tuple)):
            n = len(y)
            sub = None
        elif isinstance(y, np.ndarray) and y.ndim > 0:
            n = y.shape[0]
        else:
            return
        if len(shape) <= d:
            shape.append(n)
        elif shape[d] != n:
            raise ValueError("ragged nested sequence")
        for i in range(n):
            walk(y[i] if not isinstance(y, np.ndarray) else base(y)[i], d + 1)
    walk(x, 0)
    out = np.empty(tuple(shape), dtype=object)
    k = 'b'
    for idx in np.ndindex(*shape):
        y = x
        for i in idx:
            y = base(y)[i] if isinstance(y, np.ndarray) else y[i]
        if isinstance(y, np.ndarray) and y.ndim == 0:
            y = base(y)[()]
        kk = _kind_of(y)
        if kk not in 'bifc':
            raise Unsupported("mixed nested array")
        k = kmax(k, kk)
        out[idx] = y
    return normal(to_obj(out.view(_ODT[k]), k).view(_ODT[k]))


# ----------------------------------------------------------- numpy proxy

class NumpyProxy(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, "numpy")
        self.__dict__['_over'] = {}
        self.__dict__['__path__'] = list(np.__path__)
        self.__dict__['__version__'] = np.__version__
        self.__dict__['__file__'] = np.__file__

    def __getattr__(self, n):
        o = self.__dict__['_over']
        if n in o:
            v = o[n]
            return v() if isinstance(v, _Dyn) else v
        v = getattr(np, n)
        if isinstance(v, np.ufunc):
            u = UfuncProxy(v)
            o[n] = u
            return u
        return v


class _Dyn(object):
    def __init__(self, f):
        self.f = f

    def __call__(self):
        return self.f()


class UfuncProxy(object):
    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__

    def _prep(self, args):
        out = []
        for a in args:
            if isinstance(a, np.ndarray):
                out.append(a if isinstance(a, SymNdarray) and
                           type(a) is not np.ndarray else
                           np.ndarray.view(a, SymNdarray))
            elif isinstance(a, (SymNum, SymBool)):
                out.append(_mk(_scal(a), _kind_of(a)))
            elif hasattr(a, '__array_priority__') or \
                    type(a).__module__.startswith('hftools'):
                out.append(a)
            else:
                out.append(asarr(a))
        return out

    def __call__(self, *args, **kw):
        n = self.u.nin
        ins = self._prep(args[:n])
        if len(args) > n:
            kw['out'] = args[n]
        if kw.get('out', 0) is None:
            kw.pop('out')
        return self.u(*ins, **kw)

    def __getattr__(self, n):
        m = getattr(self.u, n)
        if n in ('reduce', 'accumulate', 'outer'):
            def f(*args, **kw):
                if n == 'outer':
                    return m(*self._prep(args), **kw)
                return m(*(self._prep(args[:1]) + list(args[1:])), **kw)
            return f
        return m


NP = NumpyProxy()
_O = NP.__dict__['_over']
_HANDLED = {}
_STRUCT = set()
_PYFUNCS = {
    'transpose', 'moveaxis', 'swapaxes', 'rollaxis', 'expand_dims', 'squeeze',
    'atleast_1d', 'atleast_2d', 'ndim', 'shape', 'size', 'sum', 'prod',
    'mean', 'std', 'var', 'cumsum', 'cumprod', 'amin', 'amax', 'min', 'max',
    'ravel', 'take', 'repeat', 'any', 'all', 'argsort', 'flip', 'fliplr',
    'flipud', 'roll', 'diff', 'real', 'imag', 'around', 'resize', 'tile',
    'average', 'trace', 'broadcast_to', 'broadcast_arrays', 'isclose',
    'allclose', 'array_equal', 'rot90', 'argmin', 'argmax', 'sort',
    'array_split', 'split', 'hsplit', 'vsplit', 'apply_along_axis', 'copy',
    'iscomplexobj', 'isrealobj', 'ndenumerate', 'take_along_axis', 'unwrap',
    'ptp', 'count_nonzero', 'isscalar', 'outer',
}


def over(*names):
    def deco(f):
        for n in names:
            _O[n] = f
            r = np
            for p in n.split('.'):
                r = getattr(r, p, None)
            if r is not None and callable(r) and not isinstance(r, type):
                try:
                    _HANDLED[r] = f
                except TypeError:
                    pass
        return f
    return deco


_O['ndarray'] = SymNdarray
_O['pi'] = _Dyn(pi_num)
_O['random'] = np.random


def _zeros_like_dtype(shape, dtype, v):
    dt = np.dtype(dtype if dtype is not None else float)
    if isinstance(shape, (int, np.integer)):
        shape = (shape,)
    if dt.kind in 'fc':
        out = np.empty(tuple(int(s) for s in shape), dtype=object)
        z = lift(v).cast(dt.kind)
        of = out.reshape(-1)
        for i in range(of.shape[0]):
            of[i] = z
        return _mk(out, dt.kind)
    return np.full(shape, v, dtype=dt).view(SymNdarray)


@over('zeros')
def zeros(shape, dtype=float, order='C', **kw):
    return _zeros_like_dtype(shape, dtype, 0)


@over('empty')
def empty(shape, dtype=float, order='C', **kw):
    dt = np.dtype(dtype if dtype is not None else float)
    if dt.kind in 'bifcu':
        if isinstance(shape, (int, np.integer)):
            shape = (shape,)
        k = {'u': 'i'}.get(dt.kind, dt.kind)
        if k == 'b':
            return np.empty(shape, bool).view(SymNdarray)
        # uninitialised memory: an arbitrary marker value
        out = np.empty(tuple(int(s) for s in shape), dtype=object)
        of = out.reshape(-1)
        for i in range(of.shape[0]):
            of[i] = SymNum(k, None, special='nan') if k != 'i' else \
                SymNum('i', Frac.const(-987654321))
        return _mk(out, k)
    return np.empty(shape, dtype=dt).view(SymNdarray)


@over('ones')
def ones(shape, dtype=float, order='C', **kw):
    return _zeros_like_dtype(shape, dtype, 1)


@over('full')
def full(shape, fill_value, dtype=None, order='C', **kw):
    a = asarr(fill_value)
    dt = dtype if dtype is not None else a.dtype
    out = empty(shape, dt)
    out[...] = fill_value
    return out


def _like(fn):
    def f(a, dtype=None, order='K', subok=True, shape=None, **kw):
        b = asarr(a)
        r = fn(b.shape if shape is None else shape,
               dtype if dtype is not None else b.dtype)
        if subok and isinstance(a, SymNdarray):
            return a._rewrap(r)
        return r
    return f


over('zeros_like')(_like(zeros))
over('ones_like')(_like(ones))
over('empty_like')(_like(empty))


@over('full_like')
def full_like(a, fill_value, dtype=None, order='K', subok=True, shape=None):
    r = _like(empty)(a, dtype, order, subok, shape)
    SymNdarray.__setitem__(r, Ellipsis, fill_value)
    return r


@over('array')
def array(obj, dtype=None, copy=True, order='K', subok=False, ndmin=0,
          like=None):
    was = isinstance(obj, np.ndarray)
    if dtype is not None and not is_dtype_supported(dtype):
        return np.array(obj, dtype=dtype).view(SymNdarray)
    a = asarr(obj, dtype)
    if was and (np.ndarray.view(a, np.ndarray).base is not None or True):
        share = np.shares_memory(base(a), base(obj)) if a.size else False
        if (copy and share) or order in ('C', 'F'):
            dt = _real_dtype(a)
            b = np.array(base(a), copy=bool(copy), order=order)
            if _real_dtype(b) is not dt:
                b = b.view(dt)
            a = b.view(SymNdarray)
    while a.ndim < ndmin:
        a = a.reshape((1,) + a.shape)
    if subok and was and isinstance(obj, SymNdarray) and \
            type(obj) is not SymNdarray:
        return obj._rewrap(a)
    return a


def is_dtype_supported(dt):
    try:
        k = np.dtype(dt).kind
    except TypeError:
        return False
    return k in 'bifcuOUSM'


@over('asarray')
def asarray(a, dtype=None, order=None, **kw):
    return array(a, dtype=dtype, copy=False, order=order or 'K')


@over('asanyarray')
def asanyarray(a, dtype=None, order=None, **kw):
    if isinstance(a, SymNdarray) and type(a) is not np.ndarray and \
            dtype is None:
        if type(a) is SymNdarray or isinstance(a, SymNdarray):
            return a
    return array(a, dtype=dtype, copy=False, order=order or 'K', subok=True)


@over('ascontiguousarray')
def ascontiguousarray(a, dtype=None, **kw):
    return array(a, dtype=dtype, copy=False, order='C', ndmin=1)


@over('copy')
def copy_(a, order='K', subok=False):
    return array(a, copy=True, subok=subok)


@over('arange')
def arange(*a, **kw):
    if any(isinstance(x, SymNum) for x in a):
        if any(isinstance(x, SymNum) and x.kind == 'f' for x in a):
            v = [approx(x) for x in a]
            n = len(np.arange(*v))
            lo, step = (0, 1) if len(a) == 1 else (a[0], 1) \
                if len(a) == 2 else (a[0], a[2])
            out = np.empty(n, dtype=object)
            for k in range(n):
                out[k] = lift(lo).cast('f') + lift(step).cast('f') * lift(k)
            return _mk(out, 'f')
        a = [x.__index__() for x in a]
    return normal(np.arange(*a, **kw))


@over('linspace')
def linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    a, b = lift(a).cast('f'), lift(b).cast('f')
    div = num - 1 if endpoint else num
    out = np.empty(num, dtype=object)
    for i in range(num):
        out[i] = a + (b - a) * lift(Fraction(i, div)) if div else a
    return _mk(out, 'f')


@over('identity')
def identity(n, dtype=None, **kw):
    return eye(n, dtype=dtype or float)


@over('eye')
def eye(n, m=None, k=0, dtype=float, **kw):
    r = np.eye(n, m, k)
    return asarr(r, dtype)


@over('diag')
def diag(v, k=0):
    a = asarr(v)
    if a.ndim == 1 and k == 0:
        r = zeros((a.shape[0],) * 2, a.dtype)
        for i in range(a.shape[0]):
            r[i, i] = a[i]
        return r
    if a.ndim == 2:
        b = base(a)
        n = [b[i, i + k] for i in range(b.shape[0])
             if 0 <= i + k < b.shape[1]]
        return asarr(n)
    raise Unsupported("diag")


@over('bmat', 'block')
def bmat(obj, *a, **kw):
    if isinstance(obj, str):
        raise Unsupported("bmat string")
    rows = []
    for row in obj:
        rows.append(concatenate([asarr(x) for x in row], axis=-1)
                    if isinstance(row, (list, tuple)) else asarr(row))
    if not isinstance(obj[0], (list, tuple)):
        return concatenate(rows, axis=-1)
    return concatenate(rows, axis=0)


@over('matrix')
def matrix(*a, **k):
    raise Unsupported("np.matrix")


def _common(arrs):
    arrs = [asarr(x) for x in arrs]
    ks = [lk(a) for a in arrs]
    if all(k in 'bifc' for k in ks):
        k = ks[0]
        for q in ks[1:]:
            k = kmax(k, q)
        if k in 'fc' or any(is_lifted(a) for a in arrs):
            return [to_obj(a, k).view(_ODT[k]) for a in arrs]
    elif any(is_lifted(a) for a in arrs):
        raise Unsupported("mixing symbolic and non-numeric arrays")
    return [base(a) for a in arrs]


def _rewrap_many(r, arrs):
    best = None
    for a in arrs:
        if isinstance(a, SymNdarray) and type(a) is not SymNdarray and \
                isinstance(a, np.ndarray) and type(a) is not np.ndarray:
            best = a
            break
    r = normal(r)
    return r if best is None else best._rewrap(r)


@over('concatenate')
def concatenate(arrs, axis=0, out=None, **kw):
    arrs = list(arrs)
    return _rewrap_many(np.concatenate(_common(arrs), axis=axis), arrs)


@over('stack')
def stack(arrs, axis=0, out=None):
    arrs = list(arrs)
    return normal(np.stack(_common(arrs), axis=axis))


@over('vstack', 'row_stack')
def vstack(arrs):
    return normal(np.vstack(_common(list(arrs))))


@over('hstack')
def hstack(arrs):
    return normal(np.hstack(_common(list(arrs))))


@over('dstack')
def dstack(arrs):
    return normal(np.dstack(_common(list(arrs))))


@over('column_stack')
def column_stack(arrs):
    return normal(np.column_stack(_common(list(arrs))))


@over('append')
def append(arr, values, axis=None):
    a, b = asarr(arr), asarr(values)
    if axis is None:
        a, b = a.reshape(-1), b.reshape(-1)
        axis = a.ndim - 1
    return concatenate([a, b], axis=axis)


@over('where')
def where(cond, *xy):
    c = asarr(cond)
    if is_lifted(c):
        cb = fork_bool(_as_lifted_bool(c))
    else:
        cb = base(c).astype(bool)
    if not xy:
        return tuple(normal(x) for x in np.where(cb))
    A, B = _common([asarr(x) for x in xy])
    r = np.where(cb, A, B)
    k = lk(A) if A.dtype.kind == 'O' else None
    return normal(r.view(_ODT[k]) if k else r)


@over('nonzero')
def nonzero_(a):
    return where(a)


@over('select')
def select(*a, **k):
    raise Unsupported("select")


@over('clip')
def clip(a, lo, hi, out=None):
    return NP.minimum(NP.maximum(a, lo), hi)


@over('einsum')
def einsum(spec, *ops, **kw):
    if not isinstance(spec, str):
        raise Unsupported("einsum operands form")
    kw.pop('optimize', None)
    if kw:
        raise Unsupported("einsum kw")
    spec = spec.replace(' ', '')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        labels = ins.replace(',', '').replace('...', '')
        out = ('...' if '...' in ins else '') + ''.join(
            sorted(c for c in set(labels) if labels.count(c) == 1))
    ins = ins.split(',')
    arrs = [asarr(o) for o in ops]
    k = 'b'
    for a in arrs:
        k = kmax(k, lk(a))
    objs = [to_obj(a, k) for a in arrs]
    # broadcast ellipsis part
    ell = []
    for s, o in zip(ins, objs):
        n = len(s.replace('...', ''))
        if '...' in s:
            i = s.index('...')
            ne = o.ndim - n
            if ne < 0:
                raise ValueError("einstein sum subscripts string contains "
                                 "too many subscripts for operand")
            ell.append(o.shape[i:i + ne])
        else:
            if o.ndim != n:
                raise ValueError("operand has more dimensions than "
                                 "subscripts given in einstein sum")
            ell.append(())
    eshape = np.broadcast_shapes(*ell)
    sizes = {}
    idx = []
    for s, o, e in zip(ins, objs, ell):
        pos = 0
        axes = []
        j = 0
        while j < len(s):
            if s[j] == '.':
                for q in range(len(e)):
                    axes.append(('e', len(eshape) - len(e) + q,
                                 e[q] == 1))
                    pos += 1
                j += 3
            else:
                d = o.shape[pos]
                c = s[j]
                if c in sizes and sizes[c] != d and 1 not in (sizes[c], d):
                    raise ValueError("operands could not be broadcast "
                                     "together with remapped shapes")
                sizes[c] = max(d, sizes.get(c, 1))
                axes.append(('l', c, d == 1))
                pos += 1
                j += 1
        idx.append(axes)
    oax = []
    j = 0
    while j < len(out):
        if out[j] == '.':
            oax += [('e', q) for q in range(len(eshape))]
            j += 3
        else:
            oax.append(('l', out[j]))
            j += 1
    oshape = tuple(eshape[x[1]] if x[0] == 'e' else sizes[x[1]] for x in oax)
    olab = [x[1] for x in oax if x[0] == 'l']
    slab = [c for c in sizes if c not in olab]
    res = np.empty(oshape, dtype=object)
    for oi in np.ndindex(*oshape):
        env = {}
        for x, v in zip(oax, oi):
            env[(x[0], x[1])] = v
        acc = conv(0, k)
        for si in np.ndindex(*[sizes[c] for c in slab]):
            for c, v in zip(slab, si):
                env[('l', c)] = v
            t = None
            for axes, o in zip(idx, objs):
                ii = tuple(0 if one else env.get((a, b), 0)
                           for a, b, one in axes)
                x = o[ii]
                t = x if t is None else t * x
            acc = acc + t
        res[oi] = acc
    return normal(res.view(_ODT[k]))


@over('dot')
def dot(a, b, out=None):
    A, B = asarr(a), asarr(b)
    if A.ndim == 0 or B.ndim == 0:
        return A * B
    if B.ndim == 1:
        r = einsum('...i,i->...', A, B)
    else:
        s = 'abcdefgh'
        l = s[:A.ndim - 1]
        r_ = 'mnopqr'[:B.ndim - 2]
        r = einsum('%sz,%szy->%s%sy' % (l, r_, l, r_), A, B)
    if r.ndim == 0:
        return base(r)[()]
    return _rewrap_many(r, [a, b])


@over('matmul')
def matmul(a, b, **kw):
    A, B = asarr(a), asarr(b)
    if A.ndim == 0 or B.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough "
                         "dimensions")
    if B.ndim == 1 and A.ndim == 1:
        return base(einsum('i,i->', A, B))[()]
    if B.ndim == 1:
        r = einsum('...i,i->...', A, B)
    elif A.ndim == 1:
        r = einsum('i,...ij->...j', A, B)
    else:
        r = einsum('...ij,...jk->...ik', A, B)
    return wrap_like(r, [a, b])


@over('inner')
def inner(a, b):
    return einsum('...i,...i->...', a, b)


@over('searchsorted')
def searchsorted(a, v, side='left', sorter=None):
    if sorter is not None:
        raise Unsupported("sorter")
    A, V = asarr(a), asarr(v)
    row = list(base(A))
    out = np.empty(V.shape, dtype=int)
    vb = base(V)
    for i in np.ndindex(*V.shape):
        x = vb[i]
        n = 0
        # linear scan = binary search on a sorted array
        for y in row:
            if (y < x) if side == 'left' else (y <= x):
                n += 1
            else:
                break
        out[i] = n
    r = normal(out)
    return r if V.ndim else int(out[()])


@over('angle')
def angle(z, deg=False):
    a = asanyarray(z)
    k = lk(a)
    o = to_obj(a, 'c' if k == 'c' else 'f')
    out = np.empty(o.shape, dtype=object)
    for i in np.ndindex(*o.shape):
        r = o[i].angle()
        if deg:
            r = r * 180 / pi_num()
        out[i] = r
    r = _mk(out, 'f')
    # numpy: arctan2(a.imag, a.real) keeps the subclass
    return wrap_like(r, [a])


@over('unwrap')
def unwrap(*a, **k):
    raise Unsupported("np.unwrap")


@over('median')
def median(a, axis=None, **kw):
    A = asarr(a)
    row = sorted(list(base(A).reshape(-1))) if axis is None else None
    if row is None:
        raise Unsupported("median axis")
    n = len(row)
    if n == 0:
        return SymNum('f', None, special='nan')
    m = lift(row[n // 2])
    if n % 2 == 0:
        m = (m + row[n // 2 - 1]) / 2
    return m.cast(kmax(m.kind, 'f'))


@over('iscomplexobj')
def iscomplexobj(x):
    return _kind_of(x) == 'c' or (isinstance(x, (list, tuple)) and
                                  lk(asarr(x)) == 'c')


@over('isrealobj')
def isrealobj(x):
    return not iscomplexobj(x)


@over('iscomplex')
def iscomplex(x):
    a = asanyarray(x)
    if lk(a) == 'c':
        return a.imag != 0
    return normal(np.zeros(a.shape, bool))


@over('isreal')
def isreal(x):
    return NP.imag(x) == 0


@over('real')
def real(x):
    try:
        return x.real
    except AttributeError:
        return asanyarray(x).real


@over('imag')
def imag(x):
    try:
        return x.imag
    except AttributeError:
        return asanyarray(x).imag


@over('real_if_close')
def real_if_close(*a, **k):
    raise Unsupported("real_if_close")


@over('isscalar')
def isscalar(x):
    return isinstance(x, (SymNum, SymBool)) or np.isscalar(x)


@over('result_type')
def result_type(*a):
    return np.result_type(*[(_LDT[_kind_of(x)] if isinstance(
        x, (SymNum, SymBool)) else x.dtype if isinstance(x, np.ndarray)
        else x) for x in a])


@over('promote_types')
def promote_types(a, b):
    return np.promote_types(a, b)


@over('can_cast')
def can_cast(a, b, casting='safe'):
    if isinstance(a, (SymNum, np.ndarray)):
        a = a.dtype
    return np.can_cast(a, b, casting)


@over('ravel')
def ravel(a, order='C'):
    return asarr(a).reshape(-1)


@over('reshape')
def reshape(a, newshape, order='C'):
    return asanyarray(a).reshape(newshape)


def _fun(name):
    def f(a, *k, **kw):
        x = asanyarray(a)
        return getattr(x, name)(*k, **kw)
    f.__name__ = name
    return f


for _n in ('sum', 'prod', 'mean', 'std', 'var', 'cumsum', 'cumprod', 'any',
           'all', 'argsort', 'argmin', 'argmax', 'take', 'repeat',
           'transpose', 'squeeze', 'swapaxes', 'min', 'max', 'trace'):
    _O[_n] = _fun(_n)
_O['amin'] = _O['min']
_O['amax'] = _O['max']
_O['product'] = _O['prod']
_O['alltrue'] = _O['all']


@over('sort')
def sort(a, axis=-1, **kw):
    x = array(a, copy=True, subok=True)
    SymNdarray.sort(x, axis=axis)
    return x


@over('unique')
def unique(a, **kw):
    if kw:
        raise Unsupported("unique kw")
    x = asarr(a).reshape(-1)
    if not is_lifted(x):
        return normal(np.unique(base(x)))
    out = []
    for v in sorted(list(base(x))):
        if not out or bool(out[-1] != v):
            out.append(v)
    return asarr(out)


@over('allclose')
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(NP.all(isclose(a, b, rtol, atol)))


@over('isclose')
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    A, B = asarr(a), asarr(b)
    return abs(A - B) <= (atol + rtol * abs(B))


@over('array_equal')
def array_equal(a, b):
    A, B = asarr(a), asarr(b)
    if A.shape != B.shape:
        return False
    return bool((A == B).all())


@over('polyfit')
def polyfit(x, y, deg, rcond=None, full=False, w=None, cov=False):
    """Least squares through the normal equations (distinct abscissae)."""
    if full or cov or w is not None:
        raise Unsupported("polyfit options")
    X, Y = asarr(x), asarr(y)
    if X.ndim != 1:
        raise TypeError("expected 1D vector for x")
    if X.size == 0:
        raise TypeError("expected non-empty vector for x")
    if Y.ndim < 1 or Y.ndim > 2:
        raise TypeError("expected 1D or 2D array for y")
    if X.shape[0] != Y.shape[0]:
        raise TypeError("expected x and y to have same length")
    if X.shape[0] <= deg:
        raise Unsupported("underdetermined polyfit")
    xs = list(base(to_arr_obj(X)))
    V = np.empty((len(xs), deg + 1), dtype=object)
    for i, v in enumerate(xs):
        q = lift(1)
        for j in range(deg, -1, -1):
            V[i, j] = q
            q = q * v
    return linalg_lstsq(_mk(V, 'f'), Y)[0]


def to_arr_obj(X):
    return to_obj(X, kmax(lk(X), 'f'))


@over('polyval')
def polyval(p, x):
    P = asarr(p)
    y = 0
    for k in range(P.shape[0]):
        y = y * x + P[k]
    return y


@over('repeat')
def repeat(a, repeats, axis=None):
    return asanyarray(a).repeat(repeats, axis)


class interp1d(object):
    """Contract of scipy.interpolate.interp1d(kind='linear')."""

    def __init__(self, x, y, kind='linear', axis=-1, copy=True,
                 bounds_error=None, fill_value=None, assume_sorted=False):
        if kind != 'linear' or bounds_error is not None or \
                fill_value is not None:
            raise Unsupported("interp1d options")
        self.x, self.y = asarr(x), asarr(y)
        self.axis = axis % self.y.ndim
        if self.x.shape[0] != self.y.shape[self.axis]:
            raise ValueError("x and y arrays must be equal in length along "
                             "interpolation axis.")
        n = self.x.shape[0]
        xs = list(base(to_arr_obj(self.x)))
        order = list(range(n))
        if not assume_sorted:
            for i in range(1, n):
                j = i
                while j > 0 and bool(xs[order[j]] < xs[order[j - 1]]):
                    order[j], order[j - 1] = order[j - 1], order[j]
                    j -= 1
        self.xs = [xs[k] for k in order]
        self.order = order

    def __call__(self, xn):
        XN = asarr(xn)
        q = list(base(to_arr_obj(XN)).reshape(-1))
        yb = to_arr_obj(self.y)
        rows = np.moveaxis(base(yb), self.axis, 0)
        out = np.empty((len(q),) + rows.shape[1:], dtype=object)
        for m, v in enumerate(q):
            if bool(v < self.xs[0]) or bool(v > self.xs[-1]):
                raise ValueError("A value in x_new is outside the "
                                 "interpolation range.")
            k = 1
            while k < len(self.xs) - 1 and bool(self.xs[k] < v):
                k += 1
            lo, hi = self.xs[k - 1], self.xs[k]
            t = (v - lo) / (hi - lo)
            a, b = rows[self.order[k - 1]], rows[self.order[k]]
            out[m] = a + (b - a) * t
        out = out.reshape(XN.shape + rows.shape[1:])
        if XN.ndim != 1:
            raise Unsupported("interp1d on non-vectors")
        return _mk(np.moveaxis(out, 0, self.axis), kmax(lk(self.y), 'f'))


@over('interp', 'convolve', 'correlate', 'gradient')
def _unsup(*a, **k):
    raise Unsupported("numpy function")


@over('diff')
def diff(a, n=1, axis=-1):
    x = asanyarray(a)
    for _ in range(n):
        sl1 = [slice(None)] * x.ndim
        sl2 = [slice(None)] * x.ndim
        sl1[axis] = slice(1, None)
        sl2[axis] = slice(None, -1)
        x = x[tuple(sl1)] - x[tuple(sl2)]
    return x


@over('ndenumerate')
def ndenumerate(a):
    b = base(a)
    for i in np.ndindex(*b.shape):
        yield i, b[i]


@over('issubdtype')
def issubdtype(a, b):
    return np.issubdtype(a, b)


@over('vectorize')
def vectorize(f, *a, **k):
    raise Unsupported("vectorize")


@over('genfromtxt', 'loadtxt', 'savetxt', 'fromstring', 'fromiter',
      'frombuffer')
def _unsup2(*a, **k):
    raise Unsupported("numpy text io")


# ---- linalg

LINALG = types.ModuleType("numpy.linalg")
LINALG.LinAlgError = np.linalg.LinAlgError


def _det(m):
    n = m.shape[0]
    if n == 0:
        return lift(1)
    if n == 1:
        return m[0, 0]
    if n == 2:
        return m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
    # Laplace along the row with most zeros
    best = max(range(n), key=lambda i: sum(
        1 for j in range(n) if _is0(m[i, j])))
    acc = None
    for j in range(n):
        if _is0(m[best, j]):
            continue
        minor = np.delete(np.delete(m, best, 0), j, 1)
        t = m[best, j] * _det(minor)
        if (best + j) % 2:
            t = -t
        acc = t if acc is None else acc + t
    return acc if acc is not None else m[0, 0] * 0


def _is0(x):
    return x.special is None and x.re.is_zero() and x.imag_.is_zero()


def _adj_inv(m):
    n = m.shape[0]
    d = _det(m)
    if _is0(d):
        raise np.linalg.LinAlgError("Singular matrix")
    di = d.inverse()
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(m, j, 0), i, 1)
            c = _det(minor)
            if (i + j) % 2:
                c = -c
            out[i, j] = c * di
    return out


def _sq(a):
    if a.ndim < 2:
        raise np.linalg.LinAlgError("%d-dimensional array given. Array must "
                                    "be at least two-dimensional" % a.ndim)
    if a.shape[-1] != a.shape[-2]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be "
                                    "square")


def linalg_inv(a):
    a_ = asanyarray(a)
    _sq(a_)
    k = kmax(lk(a_), 'f')
    o = to_obj(a_, k)
    out = np.empty(o.shape, dtype=object)
    for i in np.ndindex(*o.shape[:-2]):
        out[i] = _adj_inv(o[i])
    return wrap_like(_mk(out, k), [a_])


def linalg_det(a):
    a_ = asarr(a)
    _sq(a_)
    k = kmax(lk(a_), 'f')
    o = to_obj(a_, k)
    out = np.empty(o.shape[:-2], dtype=object)
    for i in np.ndindex(*o.shape[:-2]):
        out[i] = _det(o[i])
    if out.ndim == 0:
        return out[()]
    return _mk(out, k)


def linalg_solve(a, b):
    A, B = asarr(a), asarr(b)
    _sq(A)
    k = kmax(kmax(lk(A), lk(B)), 'f')
    vec = B.ndim == A.ndim - 1
    Ai = linalg_inv(A)
    if vec:
        r = einsum('...ij,...j->...i', Ai, B)
    else:
        r = einsum('...ij,...jk->...ik', Ai, B)
    return wrap_like(_mk(to_obj(r, k), k), [b if isinstance(
        b, SymNdarray) else r])


def linalg_lstsq(a, b, rcond=None):
    """Full-column-rank least squares through the normal equations."""
    A, B = asarr(a), asarr(b)
    if A.ndim != 2:
        raise np.linalg.LinAlgError("%d-dimensional array given. Array must "
                                    "be two-dimensional" % A.ndim)
    k = kmax(kmax(lk(A), lk(B)), 'f')
    if A.shape[0] == A.shape[1]:
        return asarr(linalg_solve(A, B)), asarr([]), A.shape[1], asarr([])
    AH = A.conj().T if lk(A) == 'c' else A.T
    G = dot(AH, A)
    r = dot(AH, B)
    x = linalg_solve(G, r)
    return asarr(x), asarr([]), A.shape[1], asarr([])


def _unsup_l(n):
    def f(*a, **k):
        raise Unsupported("numpy.linalg.%s" % n)
    return f


def matrix_key(o):
    """Identifies a matrix of symbolic numbers by its value."""
    return (o.shape,) + tuple((x.re.key(), x.imag_.key())
                              for x in o.reshape(-1))


def know_matrix(a, **what):
    """The harness made the matrix a from its decomposition: eig=values or
    svd=(u, s, vh)."""
    o = to_obj(asarr(a), 'c')
    eng().spectra.setdefault(matrix_key(o), {}).update(what)


def _known(o, what):
    r = eng().spectra.get(matrix_key(o), {}).get(what)
    if r is None:
        raise Unsupported("decomposition of an unknown matrix")
    return r


def linalg_eigvals(a):
    a_ = asarr(a)
    _sq(a_)
    o = to_obj(a_, 'c')
    out = np.empty(o.shape[:-1], dtype=object)
    for i in np.ndindex(*o.shape[:-2]):
        r = to_obj(asarr(_known(o[i], 'eig')), 'c')
        for k in range(o.shape[-1]):
            out[i + (k,)] = r[k]
    return _mk(out, 'c')


def linalg_svd(a, full_matrices=True, compute_uv=True):
    a_ = asarr(a)
    o = to_obj(a_, 'c')
    n = o.shape[-1]
    if o.shape[-2] != n:
        raise Unsupported("svd of a rectangular matrix")
    U = np.empty(o.shape, dtype=object)
    V = np.empty(o.shape, dtype=object)
    S = np.empty(o.shape[:-1], dtype=object)
    for i in np.ndindex(*o.shape[:-2]):
        u, s, v = _known(o[i], 'svd')
        U[i], V[i] = to_obj(asarr(u), 'c'), to_obj(asarr(v), 'c')
        S[i] = to_obj(asarr(s), 'f')
    if not compute_uv:
        return _mk(S, 'f')
    return _mk(U, 'c'), _mk(S, 'f'), _mk(V, 'c')


LINALG.inv = linalg_inv
LINALG.det = linalg_det
LINALG.solve = linalg_solve
LINALG.lstsq = linalg_lstsq
for _n in ('eig', 'eigh', 'eigvalsh', 'norm', 'qr', 'pinv',
           'cholesky', 'matrix_rank', 'cond'):
    setattr(LINALG, _n, _unsup_l(_n))
LINALG.eigvals = linalg_eigvals
LINALG.svd = linalg_svd


def matrix_power(a, n):
    a = asarr(a)
    if n < 0:
        a, n = linalg_inv(a), -n
    r = asarr(np.eye(a.shape[-1]))
    for _ in range(n):
        r = matmul(r, a)
    return r


LINALG.matrix_power = matrix_power
_O['linalg'] = LINALG
for _n in ('inv', 'det', 'solve', 'lstsq', 'eigvals', 'svd'):
    _HANDLED[getattr(np.linalg, _n)] = getattr(LINALG, _n)

# ---- stride tricks: real implementations keep object arrays as they are

_st = np.lib.stride_tricks
STRIDE = types.ModuleType("numpy.lib.stride_tricks")


def as_strided(x, shape=None, strides=None, subok=False, writeable=True):
    b = base(asarr(x))
    r = _st.as_strided(b, shape, strides)
    return r.view(_real_dtype(b)).view(SymNdarray)


def broadcast_arrays(*args, **kw):
    bs = [base(asarr(a)) for a in args]
    rs = np.broadcast_arrays(*bs)
    return [r.view(SymNdarray) for r in rs]


def broadcast_to(a, shape, subok=False):
    return np.broadcast_to(base(asarr(a)), shape).view(SymNdarray)


STRIDE.as_strided = as_strided
STRIDE.broadcast_arrays = broadcast_arrays
STRIDE.broadcast_to = broadcast_to
STRIDE.DummyArray = _st.DummyArray
_O['broadcast_arrays'] = broadcast_arrays
_O['broadcast_to'] = broadcast_to
_HANDLED[np.broadcast_arrays] = broadcast_arrays
_HANDLED[np.broadcast_to] = broadcast_to
LIB = types.ModuleType("numpy.lib")
LIB.stride_tricks = STRIDE
LIB.__path__ = list(np.lib.__path__)
_O['lib'] = LIB


def _dummy_asarray():
    """as_strided in arrayobj builds an array from an __array_interface__
    (object pointers included); numpy handles '|O' interfaces natively."""


MODULES = {'numpy': NP, 'numpy.linalg': LINALG,
           'numpy.lib.stride_tricks': STRIDE, 'numpy.lib': LIB}


class _Fallback(types.ModuleType):
    def __init__(self, name):
        types.ModuleType.__init__(self, name)

    def __getattr__(self, n):
        import importlib
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(importlib.import_module(self.__name__), n)


SCIPY = _Fallback("scipy")
SCIPY.polyfit = polyfit
SCIPY.polyval = polyval
SCIPY_INT = _Fallback("scipy.interpolate")
SCIPY_INT.interp1d = interp1d
SCIPY.interpolate = SCIPY_INT
MODULES['scipy'] = SCIPY
MODULES['scipy.interpolate'] = SCIPY_INT
