# text of the fix commit -> property
FIXES = [
    ('a dimension without points', 'P02'),
    ('indexing with a list', 'P02'),
    ('negative axis numbers', 'P03'),
    ('std and var honour ddof', 'P03'),
    ('take keeps the coordinates', 'P04'),
    ('remove_rep collapses', 'P04'),
    ('convert multiports with any number', 'P05'),
    ('converting multiports with integer', 'P05'),
    ('S-parameter arrays keep and honour', 'P05'),
    ('cascading real with complex', 'P06'),
    ('cascadeS cascades every', 'P06'),
    ('noise resistance', 'P07'),
    ('make_reciprocal chooses', 'P08'),
    ('unit_matrix and unit_smatrix', 'P08'),
    ('make_matrix keeps the widest', 'P09'),
    ('lstsq works when', 'P09'),
    ('matrix products and solutions', 'P09'),
    ('renaming to the same name', 'P12'),
    ('only complete element names', 'P12'),
    ('equal dimensions have equal hashes', 'P11'),
    ('dimensions of different kinds or units', 'P11'),
    ('remove_rep keeps the unit', 'P13'),
    ('hyper labels the points', 'P13'),
    ('filter by coordinate values', 'P13'),
    ('remove_rep puts all variables', 'P13'),
    ('sort keeps dimensions', 'P13'),
    ('filter keeps dimensions', 'P13'),
    ('smooth along any axis', 'P14'),
    ('smoothing integer data', 'P14'),
    ('poly_smooth uses the last sample', 'P14'),
    ('picking points of a dataset', 'P14'),
    ('read touchstone files with a single', 'P15'),
    ('write touchstone files with three', 'P15'),
    ('save touchstone files for data without', 'P15'),
    ('write the reference impedance', 'P15'),
    ('touchstone optimum source', 'P15'),
    ('matrices read from file keep complex', 'P16'),
    ('citi files saved with scalar', 'P16'),
    ('citi files store all', 'P16'),
    ('numbers with an exponent and a unit', 'P17'),
    ('save datasets that only contain', 'P17'),
    ('save_spdata writes variables', 'P17'),
    ('merging blocks where a variable', 'P17'),
    ('merging blocks keeps the order', 'P17'),
    ('read mdif files to the end', 'P18'),
    ('asking for a missing mdif block', 'P18'),
    ('save mdif files for data without', 'P18'),
    ('save mdif files with the name', 'P18'),
    ('read mdif files where a variable', 'P18'),
    ('read mdif files with vectors', 'P18'),
    ('mdif blocks with different', 'P18'),
    ('blocks that do not fit together', 'P19'),
    ('the unit of a number may be', 'P20'),
    ('prefixes zepto', 'P20'),
    ('format numbers outside', 'P20'),
    ('guess units of comments', 'P21'),
    ('comments with a unit and a value', 'P21'),
    ('comments with a unit and a date', 'P21'),
    ('poly_smooth keeps fractions', 'P14'),
    ('add_dim keeps the unit', 'P04'),
    ('HDF5 files keep comments', 'P22'),
    ('read_data recognises HDF5', 'P22'),
    ('draw the Smith chart', 'P23'),
    ('susceptance and conductance arcs', 'P23'),
    ('outer circle of the lower', 'P23'),
    ('axis labels show the prefix', 'P24'),
    ('plot arrays without dimensions', 'P24'),
    ('label dB, phase and delay', 'P24'),
    ('polar plot of an array', 'P24'),
    ('plot pairs x and y', 'P24'),
    ("names in the scopes of a configuration", 'P25'),
    ('empty configuration files', 'P25'),
    ('written configurations keep', 'P25'),
    ('configuration texts that only start', 'P25'),
    ('make_passive_svd works', 'P26'),
    ('make_passive_eig and check_passive', 'P26'),
    ('normalize_names keeps both', 'P27'),
    ('a unit in a name does not', 'P27'),
    ('file names with and without', 'P27'),
    ('matrix elements of ports that', 'P27'),
    ('complex pairs keep the rest', 'P27'),
    ('read_data recognizes MDIF', 'P27'),
    ('combine_elements_to_matrix keeps', 'P27'),
    ('read_mdif accepts lists', 'P27'),
    ('datasets named after their file', 'P27'),
    ('report of datasets with an empty', 'P28'),
    ('report of a dimension of texts', 'P28'),
    ('elements of computed networks', 'P08'),
    ('pickled arrays keep', 'P29'),
    ('datasets can be copied with', 'P29'),
    ('converting networks whose sweeps', 'P05'),
    ('comparisons and in-place operations', 'P01'),
    ('CITI files may have numbers', 'P16'),
    ('save_mdif writes all sweep values for every block', 'P18'),
    ('masks select the coordinates along with', 'P02'),
    ('an ellipsis may follow an array in an index', 'P02'),
    ('SP-data rows of the wrong length', 'P17'),
    ('cumsum, cumprod and take tell dimensions', 'P03'),
    ('complex polar plots of real x and y', 'P24'),
    ('a stored variable is assigned although', 'P12'),
    ('collapsing repetitions keeps the name', 'P13'),
]
FINDINGS = []
