"""Writes the part of DESIGN.md after the marker: one section per property
(the notes below, the harnesses with their bounds from checks/Pnn.py) and the
planted bugs with what catches them.  Not used by any check.

PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python tools/design.py"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
MARK = '<!-- generated by tools/design.py from here on -->'

N = {}
N['P01'] = '''Operands are arrays of solver variables over every ordered set
of dimensions; the assertion, per element of the result, is operator(left at
the same coordinates, right at the same coordinates), with the coordinates
taken from the result's dimensions.  The memory order of the operands is
forked (C and Fortran).  Outside: more than four dimensions, string data.'''
N['P02'] = '''Integer indices, slice bounds, masks and index lists are solver
variables; the oracle is the definition of slicing written in the harness
(clipping, steps, negative positions) applied to the element and to the
coordinate of the dimension together.  Outside: several index arrays at once
beyond what hftools supports.'''
N['P03'] = '''The oracle is the definition over the elements along the named
dimensions (sum of the values, sum of squares of deviations, ...); extreme
values are stated as "no element is larger, one is equal" so all orderings of
the values are covered by the solver.'''
N['P04'] = '''Every element is looked up by coordinates before and after; the
orders of dimensions are forked, values are symbolic.  Functions that return
copies are checked not to share memory where the docs promise it.'''
N['P05'] = '''All 64 conversions between the 8 twoport representations (and
the 1-, 3-, 4-port ones) are compared with the physics: the port currents,
voltages and waves of the source network satisfy the equations of the
converted one.  Entries are single field variables, so one identity of
rational functions decides all complex matrices at which the code's divisors
are non-zero.'''
N['P06'] = '''Cascading is compared with solving the connection equations
(b2=a1 ...) symbolically; de-embedding with its inverse.  Special cases in
the code that depend on values (matched, reciprocal) are branches and are
explored.'''
N['P07'] = '''Correlation matrices are symbolic positive semi-definite
matrices (L L^H); noise factor as a function of source admittance is compared
with its definition; transformation is compared with P C P^H for the
transformation of the port equations.'''
N['P08'] = '''Each index is forked to 9 ports names; reads and writes of one
element leave all others.'''
N['P09'] = '''Products, inverses, determinants and solutions compared with
the definition (A X = I, Leibniz sum, A x = b), numpy.linalg replaced by exact
elimination over the field.'''
N['P10'] = '''Angles are generators with cos, sin on the unit circle; the
principal value is determined by inequalities, all of which the solver
decides.  Unwrapping: the result differs by whole turns and steps by at most
half a turn.  Outside: the particular value on a branch cut.'''
N['P11'] = '''Names, coordinates and units are forked or symbolic; equality,
hash, order and lookup are required to agree; slices are compared with list
slices.'''
N['P12'] = '''Histories of operations (set, delete, rename, replace
dimension, copy) are forked to the stated length, contents symbolic; after
each step the dataset is compared with a model (ordered list of pairs).'''
N['P13'] = '''The truth of each condition is decided by the solver, so every
pattern of selected points is explored; values are identified by their
coordinates before and after.  Found by it: filters with two conditions, sort
of data without the key, hyper regrouping with incomplete grids (fixed).'''
N['P14'] = '''For every ordering of the new abscissa relative to the old ones
(solver branches) the value must be the line through the two neighbours;
smoothing must reproduce polynomials up to its degree and average exactly the
stated window.'''
N['P15'] = '''The text is generated with numbers standing for solver
variables (a number in text is a unique tag which `float` maps back); layout
(ports, number format, line breaks, comments, case, units of frequency) is
forked.  Writing followed by reading must be the identity, reading must put
each number where the format says.  Outside: rounding of printed decimals.'''
N['P16'] = N['P17'] = N['P18'] = '''As P15, for this format: the writer's
text is read back by the reader, and text written by the harness after the
format description is read.  Files that break the format must be refused.'''
N['P19'] = '''Blocks hold symbolic values; which values differ between blocks
is decided by the solver, so every pattern of equal and different values is a
path.'''
N['P20'] = '''The number is a solver variable over 50 decades; the decade is
a branch; what is shown is tracked through formatting, so "text times prefix
equals number rounded to the digits shown" is an assertion over all numbers
of the decade.'''
N['P21'] = '''As P15 for comment lines; histories of additions and copies.'''
N['P22'] = '''h5py is replaced by an in-memory model (symex/fakeh5.py) that
keeps the restrictions of h5py 2.10 (string types, ranks, resizing); replays
use the real h5py.  Found by it: datasets read from a file could not be
saved.'''
N['P23'] = '''Drawing primitives of matplotlib record their arguments
(symex/fakempl.py); a point on an arc is a solver variable along the arc; the
assertion is that it maps to an impedance with the stated part.  Infinite
impedances and limits are forked.'''
N['P24'] = '''As P23: what `plot` gets is compared with the data.  Not
covered: the projections `unity` and `wrapunwrapeddeg` (no projection
function of their own), unwrapped phases (P10 covers unwrapping), templates
of labels without prefix.'''
N['P25'] = '''PyYAML is loaded from source and executed symbolically, so the
numbers of a configuration are solver variables through text.  Not covered:
times of day (they depend on the clock), negative intervals.'''
N['P26'] = '''eigvals and svd are oracles: the harness builds the matrix from
symbolic eigenvalues (similar to a triangular matrix) or singular values
(rotations given by rational points of the circle), and the oracle returns
those; the code under check must scale or clip accordingly.  Outside:
numpy.linalg itself, matrices larger than 3x3 (svd: 2x2).'''
N['P27'] = '''The stages every reader shares, each with symbolic values, and
`read_data` over generated files of the four text formats (HDF5: P22).  File
order: the numbers in the names are solver variables.'''
N['P28'] = '''`DataBlock.report` runs on symbolic coordinates; numbers enter
the text as tags that are turned back into the expressions they stand for, so
"number shown times prefix" is decided for all values of a decade.'''
N['P29'] = '''A table of operations; arguments are snapshot (structure and
symbolic values) before and compared after, and after overwriting the result.
Pickling goes through the real pickle protocol of the classes; symbolic
values, dtypes and classes pass by reference.'''


def load(extra):
    if os.path.exists(extra):
        ns = {}
        exec(open(extra).read(), ns)
        N.update(ns['N'])


def sections():
    out = ['## Properties', '']
    props = [json.loads(x) for x in
             open(os.path.join(HERE, 'properties.jsonl'))]
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    na = dict((x['property'], x['reason'])
              for x in man.get('not_applicable', []))
    for p in props:
        i = p['id']
        out += ['### %s %s' % (i, p['title']), '']
        if i in na:
            out += ['Not applicable: ' + na[i], '']
            continue
        m = importlib.import_module('checks.' + i)
        out += [N.get(i, ''), '', 'Code: ' + ', '.join(
            '`%s`' % f for f in p['anchors']['files']), '',
            '| harness | bounds | tier |', '|---|---|---|']
        for h in m.HARNESSES:
            out.append('| %s | %s | %s |' % (
                h.name.replace('|', '/'), h.bounds.replace('|', '\\|') or '-',
                h.tier))
        out.append('')
        for a in getattr(m, 'ASSUMPTIONS', None) or ():
            out.append('* assumed: ' + a)
        out.append('')
    return out


MISSED = {
    'G10-delay-step': 'three points moved from the thorough to the quick runs',
    'G06-deembed-z0': 'de-embedding on each side',
    'G28-lost-variable-row': 'reports of many variables and dimensions',
    'D22-scalar-unit': 'datasets with scalars and formats were added',
    'D22-append-third': 'more appends',
    'F27-digits': 'wider numbers in replays of undecided paths',
    'E23-arc-end': 'parts of arcs of zero span, infinite ends',
    'E24-decimals': 'three ticks', 'E24-axis-unit': 'units of both axes',
    'I25-empty-merged': 'names that stand for nothing',
    'I25-shared-unit': 'two values', 'I24-real-polar': 'real x and y',
    'I12-shadow': 'variables and dimensions of one name',
    'I27-uniq': 'longer lists', 'I28-shape': 'more dimensions',
    'I14-unsorted': 'samples in any order',
    'H18-index-order': 'index columns in any order',
    'H27-wave-name': 'names of waves', 'H27-underscore': 'names beginning '
    'with an underscore',
    'H04-t-ports': 'named ports', 'H04-diagonal-place': 'diagonals between '
    'other dimensions',
    'H01-twins': 'dimensions of one name and different kinds',
    'H11-mask-format': 'every kind of index on every kind of dimension'}


def seeds():
    out = ['## Planted bugs', '',
           'Each was written from the property and the code, confirmed to '
           'pass the stable tests, and run against the check of its '
           'property.  "first missed" names what the check gained.', '',
           '| bug | caught by | needs | first missed? |', '|---|---|---|---|']
    d = os.path.join(HERE, 'seeded')
    for n in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, n, 'meta.json')))
        out.append('| %s | %s | %s | %s |' % (
            n, m['property'], m['needs'], MISSED.get(n, '')))
    return out + ['']


def main():
    p = os.path.join(HERE, 'DESIGN.md')
    head = open(p).read().split(MARK)[0]
    text = head.rstrip() + '\n\n' + MARK + '\n\n' + \
        '\n'.join(sections() + seeds())
    with open(p, 'w') as f:
        f.write(text)


if __name__ == '__main__':
    main()
