"""Helpers shared by the harnesses.  Everything here is written against the
public behaviour only and runs both symbolically and concretely."""
import itertools
from symex.runner import H     # noqa


def perms(xs, maxlen=None):
    xs = list(xs)
    out = []
    for n in range(0, (maxlen if maxlen is not None else len(xs)) + 1):
        out.extend(itertools.permutations(xs, n))
    return out


def subsets(xs, minlen=0, maxlen=None):
    xs = list(xs)
    out = []
    for n in range(minlen, (maxlen if maxlen is not None else len(xs)) + 1):
        out.extend(itertools.combinations(xs, n))
    return out


def dimkey(d):
    return (d.name, type(d).__name__)


def el(a, idx):
    """Element of an (hf)array at a full integer index as a scalar."""
    import numpy
    v = numpy.ndarray.__getitem__(numpy.ndarray.view(a, numpy.ndarray),
                                  tuple(idx))
    return v


def at(a, coord):
    """Element of hfarray `a` at coord {dimkey: index}, broadcasting over
    dimensions a lacks (or has with length one)."""
    idx = []
    for d, n in zip(a.dims, a.shape):
        i = coord[dimkey(d)]
        idx.append(0 if n == 1 else i)
    return el(a, idx)


def ndindex(shape):
    return itertools.product(*[range(n) for n in shape])


def check_consistent(c, label, a):
    """dims match shape, and each dim has as many points as the axis (or the
    axis has length one and is implicitly repeated)."""
    c.same(label + ": one dimension object per axis", len(a.dims), a.ndim)
    for d, n in zip(a.dims, a.shape):
        c.check(label + ": dimension %s length matches axis" % d.name,
                len(d.data) == n)
