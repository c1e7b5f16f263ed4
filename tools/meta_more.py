DS = 'hftools/dataset/dataset.py'

prop('P11', 'Dimensions are immutable values',
     'Two dimensions are equal exactly when kind, name, coordinates and unit '
     'are; equal dimensions hash alike, any set of dimensions has a '
     'consistent order, and neither a slice, a conversion to another kind '
     'nor a derived copy with one attribute replaced loses or alters '
     'anything else. A dimension cannot be changed in place.',
     ['inputs'], 'all coordinates, kinds, names, units and formats; all '
     'slices and masks of 3 coordinates',
     'Sorting, grouping and dictionary lookups depend on this for every pair '
     'of dimensions; tests compare a few.',
     [DIM, ARR], [('comparison, hashing and slicing', DIM + ': DimBase'),
                  ('lookup', ARR + ': Dims, DimsList')])
prop('P12', 'A dataset returns what was stored, through any history of '
     'changes',
     'A dataset keeps its variables under their names in the order they were '
     'first stored, with one shared dimension per name. After any sequence '
     'of assignments, deletions, renamings, dimension replacements and '
     'element assignments every variable has its own data and dimensions, '
     'only a complete element name (S21) addresses an element of a matrix, '
     'and copies are independent of the original.',
     ['inputs', 'histories'],
     'all contents; all histories of 2 (thorough: 3) operations from 9 kinds',
     'The state after a sequence of changes depends on the interaction of '
     'the operations; tests run one operation each.',
     [DS], [('store', DS + ': DataBlock.__setitem__/__getitem__/rename/'
             'replace_dim'), ('order', DS + ': DataDict')])
prop('P13', 'Transforming a dataset moves whole points',
     'Filtering, sorting, squeezing, collapsing repetitions, regrouping a '
     'flat index into a grid, splitting into consistent datasets and '
     'splitting matrices into elements keep every value with the coordinates '
     'it had, in all variables at once, with units and formats; exactly the '
     'requested points remain. Points that do not form a grid are refused.',
     ['inputs'],
     'all contents, coordinates, masks, keys and dimension orders (3 points, '
     '2x2 repetitions, 2x2 grids in every order)',
     'A transformation that permutes one variable differently from another '
     'gives plausible numbers; tests look at one arrangement.',
     [DS, ARR], [('filter, sort, hyper, remove_rep', DS + ': DataBlock')])
prop('P14', 'Interpolation and smoothing use exactly the right neighbours',
     'Linear interpolation gives, for every abscissa, the point on the line '
     'through its two neighbouring samples (interpolation refuses to '
     'extrapolate); interpolating or picking points of a dataset treats all '
     'variables alike along the named dimension only. Smoothing replaces a '
     'sample by the mean, or the value of the least-squares polynomial, of '
     'the samples in the aperture around it, along any axis.',
     ['inputs'], 'all real or complex data and strictly increasing '
     'abscissae of up to 7 points, apertures 1-5, degrees 0-3',
     'Off-by-one neighbours and edge windows are invisible on the smooth '
     'polynomial data the tests use.',
     [MATH, DS], [('interpolation and smoothing', MATH + ': interpolate, '
                   'linear_extrapolate, smooth, poly_smooth'),
                  ('dataset interpolation', DS + ': interpolate')])
FF = 'hftools/file_formats/'
prop('P15', 'Touchstone files: every number reaches its element',
     'Reading a Touchstone file puts each number at its frequency and matrix '
     'element as the complex value its format (RI, MA, DB) denotes, with '
     'frequency in Hz and the reference impedance of the option line, '
     'whatever the line breaks, white space, comments and unit; the noise '
     'block gives Fmin, Rn and Gopt. Saving and reading back gives the same '
     'network. A file without a valid option line or with missing or surplus '
     'numbers is refused with a TouchstoneError.',
     ['inputs'], 'all numbers; 1-5 ports, 1-3 frequencies, all formats and '
     'units, several layouts',
     'The order of the elements depends on the number of ports; a transposed '
     'or misplaced number is a valid number.',
     [FF + 'touchstone.py', FF + 'readbase.py', FF + 'common.py'],
     [('reader', FF + 'touchstone.py: ReadTouchstoneFileFormat'),
      ('writer', FF + 'touchstone.py: save_touchstone')])
prop('P16', 'CITI files: read and save are inverse',
     'Reading a CITI file gives every declared variable over the declared '
     'sweeps, values in the declared order with the last sweep varying '
     'fastest, complex when declared so, with constants and comments; '
     'elements named S[1,1] become matrices. Saving a dataset and reading it '
     'back gives the same variables, values and sweeps. A file with missing '
     'or surplus values is refused.',
     ['inputs'], 'all values; up to 2 sweeps of up to 3 points, 1-3 '
     'variables, list and segment sweeps',
     'Order and shape errors only show for particular combinations of '
     'sweeps and variables.',
     [FF + 'citi.py', FF + 'readbase.py', FF + 'common.py'],
     [('reader', FF + 'citi.py: ReadCITIFileFormat'),
      ('writer', FF + 'citi.py: save_citi')])
prop('P17', 'SP-data files: columns become variables and back',
     'Reading a tab separated file gives one variable per column over the '
     'first column, complex from pairs of columns (Re/Im, Mag/Arg), units '
     'removed from the names and applied to the values, repeated columns as '
     'repetitions and comments as properties; several blocks or files are '
     'merged along the values that differ between them. Saving and reading '
     'back gives the same data.',
     ['inputs'], 'all values; up to 3 rows, 3 columns, 3 blocks',
     'The outcome depends on how columns, units and blocks combine.',
     [FF + 'spdata.py', FF + 'merge.py', FF + 'readbase.py',
      FF + 'common.py'],
     [('reader', FF + 'spdata.py: ReadSPFileFormat'),
      ('merge', FF + 'merge.py: merge_blocks'),
      ('writer', FF + 'spdata.py: save_spdata')])
prop('P18', 'MDIF files: blocks, sweeps and attributes',
     'Reading an MDIF file gives, per block name, every column under its '
     'name over the first column, real, integer or complex as declared; '
     'complete sets of indexed columns (S[1,2], v[2]) become matrices and '
     'vectors with every element in its place, incomplete ones stay '
     'columns. Blocks of the same name are indexed in the order of the file '
     'together with the VAR values and attributes of each block. Saving '
     'numeric data and reading it back gives the same values at the same '
     'coordinates. Unfinished blocks, unknown types, blocks that do not fit '
     'together and missing block names are refused.',
     ['inputs'], 'all values; up to 3 blocks, 2 rows, 5 columns, data lines '
     'split in two, any order of matrix elements',
     'A value in the wrong element or block is a valid value.',
     [FF + 'mdif.py', FF + 'readbase.py', FF + 'common.py'],
     [('reader', FF + 'mdif.py: ReadMDIFFileFormat, GetData'),
      ('block index', FF + 'mdif.py: simple_merge_blocks'),
      ('writer', FF + 'mdif.py: save_mdif, fmt_mdif_block')])
prop('P19', 'Merging datasets keeps every value with the settings of its '
     'block',
     'Merging blocks that carry the same set of single-valued settings '
     '(partial dimensions) gives every variable an index over the blocks at '
     'which its values and the settings of the same block are found, with '
     'units, sweep coordinates and comments; with hyper the index becomes '
     'the grid of the settings, whatever the order of the blocks. A variable '
     'that occurs in one block only is kept as it is. Blocks whose sweeps, '
     'settings or grids do not fit together are refused.',
     ['inputs'], 'all values and coordinates; up to 4 blocks, 3 points, 2 '
     'settings, every presence of 2 variables in 3 blocks',
     'A merge that mixes up blocks gives plausible data.',
     [FF + 'merge.py', DS],
     [('merge', FF + 'merge.py: merge_blocks'),
      ('grid', DS + ': DataBlock.hyper')])
SI = 'hftools/constants/si_units.py'
prop('P20', 'Numbers with units keep their value through text',
     'Text with a number and a unit of letters or % (with or without SI '
     'prefix, brackets or space) is converted to the value in the base unit '
     'and that unit; text that does not start with a number is refused. A '
     'number is shown with the SI prefix that leaves 1 to 999.. in front of '
     'it (numbers beyond the prefixes use the outermost one), and reading '
     'the shown text gives the number back.',
     ['inputs'], 'all real numbers from 1e-25 to 1e28 of either sign, 0, inf '
     'and nan; all prefixes and units',
     'A wrong prefix is a factor of a thousand in one decade only.',
     [SI, 'hftools/utils.py'],
     [('parse', SI + ': string_number_with_unit_to_value, '
       'unit_to_multiplier'), ('show', SI + ': format_number, SIFormat')])
CM = [FF + 'common.py', 'hftools/dataset/comments.py']
prop('P21', 'Comments become properties with value and unit',
     'A comment "key: value" or "key = value", with the unit in brackets '
     'after the key or after the value, becomes a property with the value in '
     'the base unit; values that are not numbers stay the text they are; '
     'lines without a value give none. The last value of a key counts, the '
     'comments are kept in order, and copies are independent. Properties '
     'become variables of a dataset unless one of that name exists, and '
     'units are guessed from the name only where none is known.',
     ['inputs', 'histories'], 'all numbers; all combinations of keys, units '
     'and layouts listed; histories of 3 changes',
     'The text has many forms; tests try a dozen.',
     CM + [DS], [('parser', FF + 'common.py: process_comment'),
                 ('variables', DS + ': DataBlock.values_from_property, '
                  'guess_units')])
H5 = FF + 'hdf5/'
prop('P22', 'HDF5 files keep the whole dataset',
     'A dataset saved to HDF5 and read back has the same variables with the '
     'same numbers, texts and dates, the same dimensions (kind, name, '
     'coordinates, unit, format), units and formats, block name and '
     'comments, in either file version, also through read_data. Appending '
     'adds one point along the index with exactly the appended values and '
     'leaves the earlier points alone; a dataset that does not fit is '
     'refused and leaves the file as it was.',
     ['inputs', 'histories'],
     'all numbers in datasets with up to 3 variables over 0-3 dimensions of '
     '1-3 points, all dimension kinds, real, complex, integer, text and date '
     'values, names with "/" (but no backslash), up to 3 appends; the order '
     'of the variables is not specified',
     'Metadata is stored in a dozen attributes, each lost for one kind of '
     'variable or dimension only; tests read a few stored files.',
     [H5 + 'v_01.py', H5 + 'v_02.py', H5 + 'helper.py',
      FF + '__init__.py'],
     [('current format', H5 + 'v_02.py: save_hdf5_handle, read_hdf5_handle, '
       'append_hdf5'), ('old format', H5 + 'v_01.py: save_hdf5, read_hdf5'),
      ('dispatch', FF + '__init__.py: read_data')])
PL = 'hftools/plotting/'
prop('P23', 'The Smith chart shows reflection coefficients',
     'Points are drawn at their reflection coefficient; the circles of '
     'constant resistance, reactance, conductance and susceptance pass '
     'exactly through (z-1)/(z+1) (admittance: the mirror image), between '
     'the limits asked for, all within the unit circle; the grids consist '
     'of the complete set of circles of the chart kind, with radii and '
     'angles of the polar grid as asked for.',
     ['inputs'], 'all resistances, reactances and limits of one arc, all '
     'grid kinds; drawing primitives of matplotlib are taken at their word',
     'The geometry must hold for every value; a picture is looked at once.',
     [PL + 'smith.py'], [('mapping and grids', PL + 'smith.py')])
prop('P24', 'Plots show the data in the projection asked for',
     'Each projection (dB, magnitude, phase, real, imaginary, complex plane, '
     'Smith, polar, group delay) draws one curve per column of the data with '
     'exactly the projected values over the abscissa of the same point, '
     'paired by dimension; the axis labels name the unit, and tick labels '
     'times the prefix shown in the label are the tick values.',
     ['inputs', 'histories'],
     'all data with 2 points along 1-3 dimensions (group delay: 3), with and '
     'without abscissa, plain and dimensioned; 1-2 ticks of 1e-26 to 1e28 '
     '(of two, one is arbitrary); histories of 3 changes of label and unit; '
     'not unwrapped phases',
     'A prefix applied to one decade or a transposed column shows in no '
     'exception; tests hardly check plots.',
     [PL + 'helper.py', PL + 'smith.py'],
     [('projections', PL + 'helper.py: *Axes.plot'),
      ('labels', PL + 'helper.py: UnitFormatter, SimpleUnitFormatter')])
prop('P25', 'Configuration files: values, units and scope',
     'A value written in a configuration with a number, prefix and unit is '
     'that number in the base unit and keeps the unit; intervals '
     'are the seconds they stand for; other texts stay texts. A name is '
     'found in the innermost scope that has it, through nested mappings and '
     'lists, also after changes; merged configurations follow their order; '
     'a saved configuration is loaded back with equal values.',
     ['inputs', 'histories'],
     'all numbers with every prefix and unit, intervals below 100000 of each '
     'part, 2-3 levels of scopes, 2-3 changes',
     'Tests load one or two files; a prefix lost for one unit, or a scope '
     'that does not see a change, needs the right combination.',
     [FF + 'config.py'], [('configuration', FF + 'config.py')])
prop('P26', 'Making a network passive scales or clips exactly the active '
     'part',
     'check_passive returns the largest absolute eigenvalue for each matrix '
     'of the sweep. make_passive_eig leaves matrices without eigenvalue '
     'above one unchanged and scales the others so the largest becomes '
     '1 - delta. make_passive_svd keeps the singular vectors and the '
     'singular values up to 1 - delta and lowers the others to it.',
     ['inputs'], 'all matrices up to 3x3 with known eigenvalues (triangular '
     'and similar ones), 2x2 with known singular values, 0-2 sweeps; delta '
     'default or given',
     'Whether a matrix is active is a condition on its spectrum; a test has '
     'two or three matrices.',
     [NET], [('passivity', NET + ': check_passive, make_passive_eig, '
                           'make_passive_svd')])
prop('P27', 'Reading keeps every column, under its name, in its matrix',
     'Whatever the file format: columns Re/Im and Mag/Arg of one name become '
     'one complex variable, names with a unit in brackets become variables '
     'in the base unit, standard names are simplified, complete sets of '
     'elements become a matrix whose elements still have their values under '
     'the element names; no column is overwritten or lost. read_data picks '
     'the reader by the content and reads all files named by a name, a '
     'pattern or a list, in natural order of the numbers in the names. The '
     'cache returns what was stored.',
     ['inputs', 'histories'],
     'all values of up to 8 columns of 2 points, names from the forms '
     'stated; numbers in file names below 100000',
     'Each stage renames columns; a collision needs two particular names in '
     'one file.',
     [FF + 'readbase.py', FF + 'common.py', FF + '__init__.py',
      'hftools/utils.py'],
     [('pipeline', FF + 'readbase.py: make_cplx, fix_unit, '
       'ReadFileFormat'), ('names', FF + 'common.py: normalize_names'),
      ('dispatch and cache', FF + '__init__.py: read_data, read_to_cache'),
      ('order', 'hftools/utils.py: lex_order, glob')])
prop('P28', 'The printed report of a dataset describes that dataset',
     'The report of a dataset (its text form, in either layout) has one row '
     'for each dimension and each variable and no others: its name, its '
     'unit where units are shown, its size, and for dimensions of real '
     'numbers or dates the smallest and largest value, which are those values when the number shown is '
     'multiplied by the prefix shown with the unit. The table of comments '
     'has one row for each property with its value.',
     ['inputs'],
     'all values of sweeps of 1-3 points in 4 decades, integers below 5000, '
     'dates and texts, 0-2 variables of 0-3 dimensions, 0-3 comments; '
     'names without white space',
     'The limits are found by comparing values and shown with a prefix that '
     'depends on the magnitude; tests compare one or two literal reports.',
     [DS, FF + 'common.py'],
     [('report', DS + ': report, ivar_report, depvar_report, format_table'),
      ('comments', FF + 'common.py: Comments.table')])
prop('P29', 'Operations leave their arguments as they were; copies are '
     'complete and independent',
     'No arithmetic, reduction, reordering, mathematical or network '
     'function, no operation that returns a new dataset, no merging and no '
     'saving to a file changes the data, dimensions, units, formats, names '
     'or comments of its arguments, and (except for views, such as slices '
     'and reordered dimensions) changing the result does not change them '
     'either. A copy of a dimension, array, network, dataset or set of '
     'comments, by its copy method, the copy module or pickle, has the same '
     'kind, values, dimensions, unit, format and reference impedance, and '
     'changing it does not change the original.',
     ['inputs', 'histories'],
     'all values of arrays of 0-3 dimensions of 2 points, about 100 '
     'operations over all modules, datasets of 4 variables with comments; '
     'not make_reciprocal, rename, replace_dim and guess_units, which work '
     'in place, nor the shared variables of copy.copy(dataset)',
     'Tests compare results; that the argument is still what it was is '
     'hardly ever looked at.',
     ['hftools/dataset/arrayobj.py', DS, 'hftools/math.py', NET,
      'hftools/networks/multiports.py', FF + 'merge.py', FF + 'common.py'],
     [('copies', 'hftools/dataset/arrayobj.py: _hfarray.copy, __reduce__; '
       + DS + ': DataDict.copy, DataBlock.copy'),
      ('operations', 'hftools/dataset/arrayobj.py, hftools/math.py, ' + NET),
      ('datasets', DS + ': filter, sort, hyper, squeeze, remove_rep, '
       'interpolate')])
