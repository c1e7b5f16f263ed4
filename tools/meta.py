"""Single source of properties.jsonl and MANIFEST.json: python3 tools/meta.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("symbolic execution of the real Python source; every path's "
        "assertions decided by Z3 (and exact polynomial normal forms) over "
        "all values within stated bounds; counterexamples replayed on the "
        "real code")
NOTE = ("All values of the symbolic inputs within the bounds listed in the "
        "evidence file (ranks, dimension sizes, ports, text lengths); "
        "floating point is read as exact real arithmetic; numpy itself is "
        "modelled (symex/symnp.py) and the model is validated by replaying "
        "every explored path on real numpy. ")

P = []


def prop(id, title, statement, over, text, why, files, mech, note=''):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[
                      dict(name=a, where=b) for a, b in mech]), _note=note))


ARR = 'hftools/dataset/arrayobj.py'
HLP = 'hftools/dataset/helper.py'
DIM = 'hftools/dataset/dim.py'
PORTS = 'hftools/networks/multiports.py'
CLS = PORTS
NET = 'hftools/networks/spar_functions.py'
NOISE = 'hftools/networks/noise.py'
MATH = 'hftools/math.py'

prop('P01', 'Arithmetic pairs the points of labelled arrays by dimension',
     'When two labelled arrays are combined with an operator, every point of '
     'the result is computed from the operand points that carry the same '
     'value on each shared dimension, whatever order the dimensions are '
     'stored in. The dimensions of the result are the union of those of the '
     'operands, each once, in the canonical order, with coordinates '
     'unchanged; a missing dimension is broadcast. The comparisons pair '
     'points in the same way. An operation in place (such as +=) does too, '
     'keeps the dimensions of the array it changes, and is refused when the '
     'other operand has further dimensions.',
     ['inputs'],
     'all array contents, all subsets and orders of dimensions, all '
     'arithmetic and comparison operators, scalars and plain arrays',
     'Tests use a few fixed arrays in one or two dimension orders; the '
     'alignment has to be right for every combination.',
     [ARR, HLP, DIM],
     [('dimension alignment', ARR + ': _hfarray.__array_wrap__/operators, '
       'make_same_dims'), ('canonical order', DIM + ': sort keys')])
prop('P02', 'Indexing selects the addressed points with their coordinates',
     'Indexing a labelled array with integers, slices, boolean masks, lists, '
     'ellipsis or a new axis returns exactly the addressed points, and every '
     'remaining dimension keeps its name, kind and unit and the coordinate '
     'values of the points selected along it. An index outside the array is '
     'an error.',
     ['inputs'],
     'all contents, index values (including negative ones), slice bounds '
     'and steps, masks and index lists for arrays of rank 1-3',
     'The index space is combinatorial; tests pick a handful of slices.',
     [ARR, DIM], [('indexing', ARR + ': _hfarray.__getitem__'),
                  ('coordinate slicing', DIM + ': DimBase.__getitem__')])
prop('P03', 'Reductions act along the named dimension and drop only it',
     'Sum, mean, product, minimum, maximum, standard deviation, variance and '
     'cumulative sum and product along a dimension given by name, object or '
     'number (or along several, or all) equal the mathematical reduction '
     'over exactly those points. The remaining dimensions keep their order '
     'and coordinates, a dimension the array lacks is an error unless '
     'explicitly ignored, and squeezing removes only dimensions with a '
     'single point.',
     ['inputs'],
     'all contents, all rank 1-3 dimension orders, every way of naming the '
     'axis, keepdims, ddof', 'Tests check a few axes of fixed arrays.',
     [ARR, HLP], [('reductions', ARR + ': axis_handler and the reduction '
                   'methods')])
prop('P04', 'Rearranging dimensions never moves data between coordinates',
     'Transposing, reordering, adding, renaming, replacing, expanding, '
     'merging repeated dimensions and taking points along a dimension only '
     'relabel: each value stays with the coordinates it belonged to, and '
     'units are kept. Copies are independent of the original.',
     ['inputs'], 'all contents, all dimension orders of rank 1-5',
     'Tests use fixed shapes in which a misplaced axis is often invisible.',
     [ARR, HLP, DIM],
     [('rearrangement', ARR + ': transpose, reorder_dimensions, add_dim, '
       'replace_dim, take'), ('merging', HLP + ': remove_rep, remove_tail')])
prop('P05', 'Network representations describe the same network',
     'Converting between impedance, admittance, hybrid, chain, wave-transfer '
     'and scattering representations yields parameters that admit exactly '
     'the same port voltages and currents, for every network on which the '
     'conversion is defined, any number of ports and any sweep. Converting '
     'back gives the original, and the reference impedance of scattering '
     'parameters is honoured and survives slicing, transposing and '
     'arithmetic.',
     ['inputs'],
     'all complex (real, integer) matrices for which the target exists, all '
     'pairs of representations, any positive real reference impedance',
     'Tests compare a few numeric matrices; an error in one term of a '
     'formula can vanish for them.',
     [PORTS], [('conversion formulas and classes', PORTS)])
prop('P06', 'Cascading and de-embedding follow from wave continuity',
     'Cascading two-ports gives the network obtained by connecting port 2 of '
     'each to port 1 of the next, for every frequency and repetition, '
     'whatever representation, data type or reference impedance each is '
     'given in. De-embedding a network on either side undoes cascading it, a '
     'zero-length through changes nothing, and switch correction recovers '
     'the matrix relating the measured waves.',
     ['inputs'], 'all complex two-port data with the networks connectable, '
     'sweeps broadcast against each other, chains of 2-3 networks',
     'Tests cascade fixed numeric examples.', [NET, PORTS],
     [('cascade/deembed', NET), ('wave algebra', PORTS)])
prop('P07', 'Noise correlation and noise parameters describe one noise',
     'The noise correlation matrix of a passive network is the thermal-noise '
     'formula in every representation, and transforming a correlation matrix '
     'between representations maps the noise sources exactly, keeping it '
     'Hermitian. Noise factor, noise resistance and optimum source '
     'admittance computed from it reproduce the noise factor for every '
     'source admittance, and converting parameters to a matrix and back is '
     'the identity.', ['inputs'],
     'all networks, Hermitian correlation matrices, source admittances and '
     'temperatures', 'Tests check few numeric cases; wrong conjugates or '
     'factors of two survive them.', [NOISE, PORTS],
     [('correlation transforms', NOISE)])
prop('P08', 'Port parameters are read, written and sliced by their names',
     'Reading or assigning an element of a network by its name (S21, Z12, '
     '...) addresses the row and column in the name at every sweep point and '
     'nothing else; names that do not exist are errors. Slicing the sweep '
     'keeps the kind of network, making a network reciprocal replaces both '
     'transmission terms with the root of their product nearest the '
     'original, and unit matrices are identities of the requested kind.',
     ['inputs'], 'all data, all element names of 2-3 port networks, 0-2 '
     'sweep dimensions', 'Tests touch a few elements.', [CLS, NET],
     [('attribute access', CLS + ': __getattr__/__setattr__'),
      ('reciprocity', NET + ': make_reciprocal')])
prop('P09', 'Matrix algebra acts on the matrix indices at every sweep point',
     'Matrix product, inverse, determinant, linear solve and least squares '
     'of labelled arrays equal the textbook operation on the matrix at each '
     'sweep point, with sweeps paired by dimension and broadcast. Building a '
     'matrix from its elements puts each in its place with the widest type '
     'of them.', ['inputs'],
     'all real and complex entries, matrices up to 3x3, up to two sweep '
     'dimensions per operand', 'Tests use fixed numeric matrices in one '
     'dimension order.', [MATH, HLP],
     [('linear algebra', MATH)])
prop('P10', 'Polar, decibel and phase forms agree with the complex data',
     'Magnitude/angle, decibel/angle and real/imaginary pairs convert to and '
     'from complex numbers consistently, and an angle taken with a branch '
     'lies in the requested turn and points in the direction of the data. '
     'The unwrapped phase is a phase of the data that never moves more than '
     'half a turn between neighbours, the continuous square root squares to '
     'the data without jumping sign, and group delay is minus the phase '
     'slope at the midpoints.', ['inputs'],
     'all non-zero complex data, all angles, decibels and branches listed, '
     'sweeps of 2-3 points', 'Tests sample a few angles; branch cuts are '
     'exactly where samples miss.', [MATH],
     [('phase and decibel functions', MATH)])

NA = []


def na(id, reason):
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(HERE, 'tools', 'meta_more.py')).read()) \
    if os.path.exists(os.path.join(HERE, 'tools', 'meta_more.py')) else None


def main():
    skip = {n['property'] for n in NA}
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            q = {k: v for k, v in p.items() if k[0] != '_'}
            f.write(json.dumps(q) + '\n')
    checks = []
    for p in P:
        if p['id'] in skip:
            continue
        checks.append(dict(
            property=p['id'],
            quick_cmd='./check.sh %s --tier quick' % p['id'],
            thorough_cmd='./check.sh %s --tier thorough' % p['id'],
            technique=TECH, level='other', level_note=NOTE + p['_note']))
    man = dict(version=1,
               setup_cmd='/opt/venv/bin/python -c "import numpy" && '
                         'test -x ./check.sh',
               checks=checks, not_applicable=NA)
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
