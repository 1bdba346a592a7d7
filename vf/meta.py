"""Per-property descriptions that go into the evidence files."""
TRUSTED = [
    'the obligation generator vf/sym.py (symbolic execution of the real functions by CPython on z3-backed values)',
    'CPython 3.12 and numpy (object-dtype arrays apply Python operators element by element)',
    'z3 (incl. its nlsat back end)',
]
ASSUMPTIONS = [
    'in proved obligations floating-point numbers are mathematical reals and integers are unbounded',
    "builtins float and int in eprempy's module globals are replaced by versions that pass symbolic numbers through and equal the originals on ordinary values",
]
META = {}
def _m(p, level, explanation, **kw):
    META[p] = dict(level=level, explanation=explanation, **kw)
_m('C01', 'other',
   'The named units, prefixes and pairs form finite tables, so identity, reciprocal, chain and prefix laws are obligations '
   'evaluated on every entry of them by running the real conversion code; composites are decided for every assignment of '
   'scales to the parts on a stated list of shapes (symbolic execution, callee replaced by its contract) and, on real '
   'units, by sampled request histories against an independent table of SI scales (bounded).',
   assumptions=['absolute factors are compared with a table of SI scales for the units that have one (not the Gaussian ones)',
                'composites beyond the listed shapes and sampled histories are not covered'])
_m('C02', 'other',
   'Term arithmetic and equality are discharged for all coefficients and exponents by symbolic execution of the real '
   'methods; reduction to normal form and the expression operators are discharged for all coefficients > 0 and all real '
   'exponents on every stated pattern of symbols (positive coefficients are represented by their logarithms, so symbolic '
   'exponents stay in linear/polynomial arithmetic); whole programs over real text, lists and units are sampled against an '
   'independent monomial model (bounded).',
   assumptions=['expressions combine through text: "writing terms and parsing them gives their reduction" is assumed in '
                'expression-laws and checked (bounded) in C03',
                'unit laws are stated up to replacing a derived unit by its base units, which is what the code documents'])
_m('C03', 'other',
   'Text is outside the verifier (regular expressions on strings), so the parser is decided by bounded contract evaluation '
   'against an independently written grammar: every string of a stated length over two token alphabets, accepted or '
   'rejected, plus long sampled texts, single-character damage, other tokens, every unit spelling and every term of a grid. '
   'Only the effect of the exponent and coefficient of a group is discharged for all real values (groups).',
   technique='contracts with an independent grammar as postcondition: exhaustive and sampled evaluation within a bound; '
             'group exponents discharged symbolically with z3',
   assumptions=["not claimed: '()', a leading operator, and a coefficient directly before a group after '/', as in 'a/2(b)'",
                'longer texts than the stated bound are only sampled'])
_m('C04', 'other',
   'Scalar arithmetic and comparison is discharged for all real numbers, and vector, tensor and array arithmetic for all '
   'real elements on stated shapes, by running the real operators on symbolic numbers; the units range over a list of '
   'equal, different and unitless pairs, and the unit arithmetic itself is the contract of C02. Programs over mixed kinds, '
   'fractional powers and measurables are sampled (bounded).',
   assumptions=['unit products are those of metric.Unit (C02)', 'remainder (%) is not claimed',
                'a numpy number as the left operand is handled by numpy and not claimed'])
_m('C05', 'other',
   'The conversion of scalars and values is discharged for all real numbers and all positive unit scales (metric.conversion '
   'replaced by its contract from C01: the ratio of two scales); vectors, tensors, arrays, sequences, measurements and '
   'coordinates likewise on stated shapes, and all three-step programs over arrays. Longer histories with real units are '
   'sampled against plain arrays and an independent table of scales (bounded).',
   assumptions=['metric.conversion returns the factor that C01 establishes', 'histories beyond the stated shapes and lengths are sampled'])
_m('C06', 'other',
   'For every pair of ordered dimension lists over three names (up to renaming) and stated lengths, with and without '
   'singular or mismatched operands, the products, quotients, sums and comparisons of labelled and physical arrays are '
   'discharged for all real elements by running the real operators on symbolic numbers; the merger of dimension lists is '
   'decided on all 256 pairs. Larger arrays are sampled against an independent coordinate-by-coordinate oracle (bounded).',
   assumptions=['shape bound: other lengths and more than three names are sampled', 'arrays with no element are excluded'])
_m('C07', 'other',
   'Every selector of stated families on stated shapes (one, two and three dimensions; labelled arrays, arrays over a lazily '
   'read store, physical arrays with coordinate, integer and symbol axes) is discharged for all real elements by running the '
   'real subscription code on symbolic numbers. Chains of subscriptions on larger arrays, converted arrays and NetCDF '
   'variables are sampled against a position-by-position oracle (bounded).',
   assumptions=['numpy arrays, tuples and masks as selectors are not claimed',
                'a bare list subscript on several dimensions is a list of selectors, as the code documents'])
_m('C08', 'other',
   'Index values are discharged for all integers (arithmetic, comparison, shifts with every combination of bounds); index '
   'sequences for all integers on stated lengths; the tightest range around a target for all increasing real values of '
   'stated lengths; the expansion of subscripts by evaluating every arrangement of selector kinds for 1-4 dimensions (the '
   'code looks only at the kind). Construction and multi-row restriction are sampled (bounded).',
   assumptions=['integers are unbounded: sequences hold 64-bit machine integers, whose overflow is not claimed',
                'sequences of different lengths, division by zero and floor above ceiling are not claimed',
                'in sequences numpy.array(..., dtype=int) is replaced by an object array of symbolic integers'])
_m('C09', 'other',
   'Lookups of integer points and of coordinates - unit conversion included, with and without a permitted side - are '
   'discharged for all values, targets and positive unit scales on axes of stated lengths by running the real lookup on '
   'symbolic numbers (metric.conversion replaced by the contract of C01, numpy.isclose by its documented formula). Symbols, '
   'the accepted spellings of a target, real units and rounding, and subscripting with the indices are sampled (bounded).',
   assumptions=['a value within a relative 1e-5 of an axis value counts as held, as the code documents',
                'with no axis value on the permitted side nothing is claimed',
                'numpy.isclose is |a - b| <= rtol*|b| for atol=0'])
_m('C10', 'other',
   'Each operation on an axis collection is discharged for all dimension names (symbolic texts of which only equality is '
   'observable, so every pattern of known, unknown and repeated names is covered by solver case splits) and for arbitrary '
   'axes (tokens), on collections of stated sizes, by running the real methods. Creation, comparison and renaming are '
   'evaluated on every pattern over three or four names; histories over real axes are sampled (bounded).',
   assumptions=['the axis that a union gives to a dimension that both operands hold with different axes is not claimed',
                'whether "before" means before is not claimed: the test suite pins the swapped meaning'])
_m('C11', 'other',
   'Each operation of an aliased mapping (construction, storing, removing, aliasing, copying, freezing, merging) and of a '
   'collection of groups is discharged as one step from an arbitrary valid state of a stated shape, for all names (symbolic '
   'texts: every pattern of shared and distinct names is a solver case split) and arbitrary values (tokens), by running the '
   'real methods. Histories, declared aliases, groups of items and name maps are sampled over eleven names (bounded).',
   assumptions=['registering an alias that its own key already has is either refused or without effect (not claimed which)',
                'several aliases registered at once of which a later one is refused: only that no alias gets two values'])
_m('C12', 'other',
   'The helpers whose inputs are sequences, mappings or tables of arbitrary items are discharged for all items (symbolic '
   'texts: every pattern of equality is a solver case split) or all real numbers, at stated lengths, by running the real '
   'functions: removing duplicates, merging, nearest value, bijections, weighted graphs, table searches. Wrapping, '
   'distributing, registries and slices are sampled (bounded).',
   assumptions=['a nearest value when the bound permits none: any value may be returned (not claimed)',
                'self-loops, zero weights and connections added again with another weight are not claimed',
                'extreme integers whose differences overflow are not claimed'])
_m('C13', 'other',
   'Parsing and measuring of each accepted grouping, reading back, re-measuring and the refusal of ill-formed arguments are '
   'discharged for all real numbers (symbolic) at stated counts by running the real functions; number types, texts and '
   'physical objects are sampled (bounded).',
   assumptions=['in symbolic runs numeric.data.hasdtype is replaced by a test that every member is a real number',
                'which exception refuses an argument is not claimed'])
_m('C14', 'other',
   'The tables are finite: every system x quantity and every prefix x named unit is evaluated on the real code against an '
   'independent table of SI and Gaussian scales and dimensions, which decides the clauses about them completely. Products '
   'of quantities and composite units are sampled (bounded): the code builds them as text, which the symbolic numbers of '
   'this engine cannot cross.',
   assumptions=['the independent table of dimensions and scales (vf/units.py, vf/checks/c14.py)',
                'absolute conversion factors of electromagnetic units are not claimed here, only that they are positive',
                'the dimension, in one system, of a unit that belongs to the other is not claimed'])
_m('C15', 'other',
   'The tables are finite: every constant in both systems, thirteen relations between constants, and every element in 31 '
   'charge states are evaluated on the real code against independent values, which decides those clauses completely. The '
   'lookup of a mass is discharged for all integers (symbolic); lists of species and orders of access are sampled (bounded).',
   assumptions=['accepted values of the constants (to 5e-4) and rounded atomic weights are written down in the check',
                'the permittivity and permeability are compared with their Gaussian value 1, not converted'])
_m('C21', 'other',
   'The numbers presented for every stored array are discharged for all real numbers (symbolic) at a stated small shape, in '
   'both systems, by running the real readers over an in-memory stand-in for an open NetCDF file; real files of random '
   'shapes, units and species, directories of observers and histories of openings are sampled (bounded); the number in a '
   'file name is checked exhaustively up to a bound.',
   assumptions=['netCDF4 returns the numbers, dimensions and attributes written to a file',
                'the independent table of unit factors (vf/dataset.py), to 1e-3: the constants of the package carry five digits',
                'a file is not rewritten while the process that opened it lives (the view of a path is cached)'])
_m('C16', 'other',
   'Cartesian coordinates, magnitudes, parallel and perpendicular flow, their angle, divergence, distribution averages, flux, '
   'fluence, accumulated flux, energy density, average energy and mean free path are discharged for all real (where stated, '
   'positive) stored numbers at stated small shapes, in both systems, by running the real implementations on symbolic '
   'arrays through an in-memory stand-in for the NetCDF file; the polynomial facts about roots are separate lemmas. All '
   'quantities, the integral flux above an energy and composites of quantities are sampled on random files (bounded).',
   assumptions=['sine, cosine and arc cosine are uninterpreted but for sin^2 + cos^2 = 1 and the inverse on [-1, 1]',
                'square roots are non-negative numbers whose square is the argument',
                'numpy.gradient is run with an output array of objects when its argument holds objects',
                'the formulas for per-nucleon energy, rigidity and flux are the documented ones of the package',
                'integral flux just beside a stored energy (where the quadrature loses digits) is not claimed'])
_m('C17', 'other',
   'Selection along every dimension by the stated families of selectors, for quantities of four groups, is discharged for '
   'all real stored numbers at a stated shape; so is linear interpolation over time, energy, cosine, radius and time with '
   'radius (symbolic, by running the real observing code). Random combinations of selectors, units, interpolated axes, '
   'refusals and histories on random files are sampled against independent interpolation and formulas (bounded).',
   assumptions=['in symbolic runs scipy.interpolate.interp1d is replaced by its contract: piecewise linear, refusing outside values',
                'units agree to five digits with the independent table',
                'negative shell indices and tuples of several symbols are refused by the code and not claimed',
                'speed, time, energy and cosine themselves at values between those stored are the values (speed: the Newtonian one)'])
_m('C18', 'other',
   'For each real-valued and array parameter the written number, its unit, its aliases and the defaults computed from it '
   'are discharged for all real numbers, by running the real parser, conversion and default evaluation on files with '
   'symbolic numbers. The text side (spacing, comments, order, repetition, spelling of numbers, source files, comparisons, '
   'printed comparison) is checked on random files against an independent reading of the format and an independent '
   'evaluation of the documented defaults (bounded).',
   assumptions=['float(text) is the number the text denotes (symbolic runs substitute arbitrary numbers for the texts)',
                'text that is not a value of the type of the parameter is outside the claim',
                'files named as parameters exist and are readable'])
_m('C19', 'other',
   'The run log is discharged as a map for all run names (symbolic, on the real class, at a stated shape). Histories of '
   'operations on real project directories are run against an independent reading of the file tree: every history of up '
   'to 2 (quick) or 3 (thorough) operations over small alphabets, and random longer ones with random options, branches '
   'and names (bounded). The programs are scripts in the scratch directory; changes outside of it are intercepted.',
   assumptions=['reading a json file gives what was written (symbolic runs of the log)',
                'no other process changes the project, and no operation is interrupted',
                'a name with wildcards passed to rm means the runs that match it, unless a run has exactly that name'])
_m('C20', 'other',
   'Reductions, running totals, squeezing, transposing, elementwise functions, gradients, integrals and arithmetic with plain '
   'operands are discharged for all real numbers (symbolic) at stated small shapes, with every axis argument, unit and '
   'prior history (converted, sliced, transposed) enumerated, by running numpy itself through the real dispatch of the '
   'package; larger shapes and other numpy functions are sampled against numpy on the bare data (bounded).',
   assumptions=['numpy applied to arrays of objects computes the same function of their elements as on floats',
                'sine, cosine, tangent and logarithms are uninterpreted functions; square roots are non-negative numbers whose square is the argument',
                'functions without an implementation of their own give plain numbers or are refused (the documented default)'])
NOT_APPLICABLE = {}
