"""Helpers of the file format harnesses."""
import os
import shutil
import tempfile
from symex.loader import _int_text


def T(x):
    return "%.16e" % x


def I(x):
    return "%d" % _int_text(x)


def roundtrip(save, read, name):
    """save(fname) then read(fname) in a scratch folder"""
    d = tempfile.mkdtemp(prefix="vf_")
    try:
        fname = os.path.join(d, name)
        save(fname)
        return read(fname)
    finally:
        shutil.rmtree(d)


def in_files(texts, fn):
    """fn(list of names) with the texts written to scratch files"""
    d = tempfile.mkdtemp(prefix="vf_")
    try:
        names = []
        for k, lines in enumerate(texts):
            p = os.path.join(d, "file_%d.txt" % k)
            with open(p, "w") as f:
                for x in lines:
                    f.write(x + "\n")
            names.append(p)
        return fn(names)
    finally:
        shutil.rmtree(d)


def increasing(c, n, p='f'):
    f = [c.real('%s%d' % (p, k)) for k in range(n)]
    for k in range(1, n):
        c.assume(f[k - 1] < f[k])
    return f
