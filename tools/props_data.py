TABLES = ('TLA+ specification of packed tables (Tables.tla) model checked by TLC; every '
          'transition of the model replayed on the code; recorded histories validated '
          'by TLC (TraceTables.tla)')

prop(
    'C01', 'A packed table keeps exactly the selected components, in order',
    'For every shape, selection (none, Ellipsis, slices, integers, boolean mask, tuple '
    'over the leading dimensions) and ordering, a packed table (PackedTable, Layout, '
    'Sampling, ...) holds exactly the components that are selected and whose ordering is '
    'not negative, in row-major (or selection) order or, with an ordering, sorted by it '
    'with ties in row-major order. Its index, length, removed mask, every attribute '
    '(packed, unpacked through "all", scalar, callable, derived such as row, column, center '
    'and time) agree with that sequence of components. Invalid selections (out of bounds '
    'integers, null strides, wrong dimensions) are refused.',
    ['inputs', 'configurations'],
    'All shapes, all selections of every form (negative strides and bounds, repetitions, '
    'empty) combined with all orderings, and all table classes.',
    'The tests enumerate slices for one size and a dozen of selections on two tables; they '
    'never combine forms of selection with orderings, negative strides, higher dimensions '
    'or derived attributes.',
    ['packedtables/core.py', 'packedtables/layouts.py', 'packedtables/samplings.py'],
    [('index computation from selection and ordering',
      'packedtables/core.py:PackedTable._get_index'),
     ('normalisation of selections', 'packedtables/core.py:PackedTable._normalize_selection'),
     ('slice/Ellipsis/array representation of the index',
      'packedtables/core.py:PackedTable._normalize_int_selection')],
    ['PackedTable.index', 'len(table)', 'table.<attribute>', 'table.all.<attribute>',
     'table.removed', 'table.all.removed'],
    technique=TABLES,
    note='Exhaustive for shapes of at most 4 components (all slices, masks, tuples, integer '
         'selections of length 2, orderings), randomised by VERIF_SEED for larger tables; '
         'trusts TLC and the projection of the public attributes.',
    state=[('index', 'sequence of the kept components',
            SRC + 'packedtables/core.py:PackedTable.index')],
)

prop(
    'C02', 'Subsets, splits and assignments keep a table aligned',
    'After any history of subsetting (table[selection], with NumPy semantics), splitting, '
    'copying and attribute assignment (packed, unpacked through "all", scalar), the k-th '
    'element of every attribute of every live table belongs to the k-th component of its '
    'index, and attributes derived from the index follow. table.split(n) is a partition '
    'in n contiguous groups whose sizes differ by at most one. No operation changes another '
    'table than the one it is applied to, and refused operations change nothing.',
    ['histories', 'inputs'],
    'All finite histories of operations over several live tables, with every form of '
    'selection.',
    'The tests take one subset of a table; chains of subsets (slice of slice, array of '
    'slice, negative strides, empty), and the frame condition on the other live tables '
    'are not reached.',
    ['packedtables/core.py', 'packedtables/layouts.py', 'packedtables/samplings.py'],
    [('composition of the index with a selection',
      'packedtables/core.py:PackedTable.__getitem__'),
     ('attribute assignment', 'packedtables/core.py:PackedTable.__setattr__'),
     ('assignment of unpacked values', 'packedtables/core.py:UnpackedTable.__setattr__'),
     ('partition', 'packedtables/core.py:PackedTable.split')],
    ['table[selection]', 'table.split(n)', 'table.copy()', 'table.attr = value',
     'table.all.attr = value'],
    technique=TABLES,
    note='Exhaustive for chains of two subsets/splits of tables of at most 4 components; '
         'randomised histories of up to 8 operations on 3 live tables of up to 16 '
         'components. Whether the selection of all the components is the table itself or '
         'a copy is left open.',
)

prop(
    'C03', 'pack and unpack are inverse and place every value',
    'For any table and any array of the table shape (any dtype, subclass, memory layout, '
    'trailing dimensions), pack gathers the value of the k-th component in the k-th row, '
    'and unpack puts it back at that component and the missing value elsewhere: '
    'pack(unpack(y)) = y. Inputs are not modified, dtype and array subclass (and unit) are '
    'preserved, an output buffer is the one filled, and copy=True never returns a view of '
    'the input. Incompatible shapes are refused.',
    ['inputs', 'configurations'],
    'All tables (selection and ordering), all input arrays and output buffers.',
    'The tests check a few layouts with contiguous inputs; fast paths (full table, slice, '
    'arbitrary index) crossed with out, copy, missing_value, strided arrays and '
    'broadcasting of one value are not.',
    ['packedtables/core.py'],
    [('pack', 'packedtables/core.py:PackedTable.pack'),
     ('unpack', 'packedtables/core.py:PackedTable.unpack')],
    ['PackedTable.pack', 'PackedTable.unpack'],
    technique=TABLES,
    note='Exhaustive over the tables of at most 4 components created by the model; '
         'randomised over arrays, buffers and larger tables.',
)

prop(
    'C04', 'Scattering a table partitions it; gathering restores it',
    'For any table and number of processes, scatter gives each process a contiguous part, '
    'in rank order, the parts partitioning the table in sizes that differ by at most one, '
    'and leaves the original table as it was. gather (of the table, possibly after its '
    'local attributes have been assigned, or of an array of any dtype and memory layout) '
    'restores in every process the global index, attributes, dtypes and units, and '
    'unpacking a distributed table gives every process the whole array.',
    ['schedules', 'histories', 'inputs', 'configurations'],
    'All numbers of processes (including more processes than components), schedules of the '
    'collective operations, tables and attribute types.',
    'The MPI tests run with 1 or 2 processes on one layout per class; empty local tables, '
    'uneven partitions, ordered tables, units and trailing dimensions are not reached.',
    ['packedtables/core.py'],
    [('scatter', 'packedtables/core.py:PackedTable.scatter'),
     ('gather', 'packedtables/core.py:PackedTable.gather'),
     ('unpacking of a distributed table', 'packedtables/core.py:PackedTable.unpack')],
    ['PackedTable.scatter', 'PackedTable.gather', 'PackedTable.unpack'],
    technique=TABLES + '; processes are threads behind a communicator that honours counts '
              'and displacements',
    note='1 to 11 processes simulated by threads with perturbed schedules; the MPI library '
         'itself is replaced by lib/fakecomm.py, which is trusted.',
)

SPARSE = ('TLA+ specification of the sparse storages (Sparse.tla) model checked by TLC; '
          'every state and transition of the model replayed on the code; recorded '
          'histories validated by TLC (TraceSparse.tla)')

prop(
    'C05', 'Sparse storages are the linear maps of their entries',
    'A fixed sparse row or column matrix (scalar, block, 2d or 3d rotation; any integer '
    'index type; single or double precision) and the operator built from it act as the '
    'dense matrix whose elements are the sums of the entries that designate them, entries '
    'of negative index being ignored: products by vectors or arrays (homothety), in place '
    'accumulation, any input dtype and layout, and any number of threads. The transpose '
    'operator is the transposed matrix; multiplying by a scalar, copying, and composing '
    'the transpose with the operator (P.T * P) agree with the dense algebra. Operands are '
    'not modified and copies are independent.',
    ['inputs', 'configurations', 'schedules', 'histories'],
    'All entries (repeated, negative), block shapes up to 3x3, index and value types, '
    'input types, products by all the public ways, and thread interleavings.',
    'The tests apply some small matrices with at most one or two entries per row in a few '
    'type combinations; repeated indices, empty entries in the middle, mixed types, '
    'in-place accumulation and concurrent updates are not crossed.',
    ['sparse.py', 'src/flib/sparse.f90.j2', 'src/flib/module_operators.f90.j2'],
    [('products', 'sparse.py:_FSMatrix._matvec'),
     ('block products', 'src/flib/module_operators.f90.j2:fsc_block_2_3_matvec'),
     ('transpose and P.T P rules', 'sparse.py:SparseOperator._rule_pTp')],
    ['matrix * x', 'SparseOperator(matrix)(x)', 'SparseOperator(matrix).T(y)',
     '(P.T * P).todense()', 'matrix.copy()'],
    technique=SPARSE,
    note='Exhaustive for 2x2 block matrices with one (two for scalars) entries per line '
         'and every block shape; randomised histories for larger ones; threads: repeated '
         'concurrent accumulation of 600 lines in 1 or 2 components (probabilistic).',
    state=[('matrix.data', 'entries of the matrix', SRC + 'sparse.py:_FSMatrix')],
)

prop(
    'C06', 'Restrictions, kernel and coverage of a projection agree with its matrix',
    'Restricting a sparse operator to a mask of its input (renumbering the columns) and '
    'corestricting it to a mask of its output give the submatrix of the selected block '
    'columns and rows, with consistent shapes, and leave the operator they are applied to '
    'unchanged and independent, unless asked to work in place. '
    'ProjectionOperator.canonical_basis_in_kernel flags exactly the inputs no non-zero '
    'entry designates; pT1 and pTx_pT1 are the back projection of one and of the input; '
    'all of them honour the output buffers and the reduction operation.',
    ['inputs', 'configurations', 'histories'],
    'All matrices (repeated, negative and zero entries), masks, index types, reductions '
    'and chains of restrictions.',
    'The tests check a single projection without missing, repeated or zero entries and '
    'one mask, and never chain a restriction with a corestriction.',
    ['sparse.py', 'operators.py', 'src/flib/sparse.f90.j2'],
    [('restriction', 'sparse.py:SparseOperator.restrict'),
     ('corestriction', 'sparse.py:SparseOperator.corestrict'),
     ('kernel', 'operators.py:ProjectionOperator.canonical_basis_in_kernel'),
     ('coverage', 'operators.py:ProjectionOperator.pT1'),
     ('back projection and coverage', 'operators.py:ProjectionOperator.pTx_pT1')],
    ['operator.restrict(mask)', 'operator.corestrict(mask)',
     'ProjectionOperator.canonical_basis_in_kernel', 'ProjectionOperator.pT1',
     'ProjectionOperator.pTx_pT1'],
    technique=SPARSE,
    note='Exhaustive for chains of two (co)restrictions of 2x3 block matrices; randomised '
         'histories for larger ones. The coverage of 2d rotations is checked with '
         'Pythagorean coefficients (exact).',
)

UNITS = ('TLA+ specification of the algebra of units (Units.tla) model checked by TLC; every '
         'transition of the model replayed on the code; recorded histories validated by TLC '
         '(TraceUnits.tla)')

prop(
    'C07', 'The units of quantities form a consistent algebra',
    'The unit of a quantity behaves as an element of the free commutative group over the '
    'unit names with rational exponents: products, quotients, powers and roots multiply, '
    'divide and scale the exponents, null exponents disappear, and the printed form reads '
    'back as the same unit. A conversion (inunit, tounit, SI) is accepted exactly when both '
    'units reduce to the same base units (UnitError otherwise, the quantity being '
    'unchanged), and multiplies the magnitude by the ratio of their SI values, whichever the '
    'path of intermediate conversions, including the local derived units and the derived '
    'units that are broadcast along the first or last dimensions, which follow the '
    'selections. Copies keep the unit and no operation changes another quantity.',
    ['inputs', 'histories'],
    'All units over the base, derived and local names with any exponents, and all histories '
    'of algebraic operations and conversions.',
    'The tests convert a handful of units and never chain conversions, powers, quotients and '
    'selections of broadcast derived units.',
    ['quantities.py'],
    [('parsing of units', 'quantities.py:_extract_unit'),
     ('product of units', 'quantities.py:_multiply_unit'),
     ('conversion', 'quantities.py:Quantity.inunit'),
     ('reduction to SI', 'quantities.py:Quantity.SI'),
     ('selection of broadcast derived units', 'quantities.py:Quantity.__getitem__')],
    ['Quantity(value, unit)', 'q.unit', 'q.tounit(unit)', 'q.inunit(unit)', 'q.SI',
     'q * q, q / q, q ** n', 'q[selection]'],
    technique=UNITS,
    note='Exhaustive for two (quick: one with all the units) steps over 19 seed units; '
         'randomised histories otherwise. Magnitudes are compared by their logarithms '
         '(1e-5). Exponents are multiples of 1/4 (thirds are rounded by the code), at most '
         'one kind of angle in a unit, factors within the double precision range.',
    state=[('q._unit', 'exponents of the unit names', SRC + 'quantities.py:Quantity.unit')],
)

prop(
    'C08', 'Units propagate correctly through the functions of NumPy',
    'A NumPy ufunc (called, reduced, accumulated, outer, at, in place, or with an output '
    'buffer), method or function applied to quantities gives what NumPy gives on the '
    'magnitudes once the operands that have to be homogenised are expressed in the unit of '
    'the first one that has a unit, with the unit the operation requires: this common unit '
    'for additive, selecting and set operations, stacks, insertions and choices; none for '
    'comparisons; the unit of the operand for reductions, sorts, rearrangements and '
    'cumulative sums; products, quotients, powers and roots of units for multiplicative '
    'operations; squares for variances. Incompatible units raise UnitError, the result does '
    'not depend on the compatible units in which the operands are expressed, the operands '
    'are never modified, and an operation in place or in a buffer updates the unit seen by '
    'all the references to the object.',
    ['inputs', 'configurations', 'histories'],
    'All operations of the table of handled functions and ufuncs, all combinations of units '
    'of their operands, and all histories of chained operations with aliases and buffers.',
    'The tests call each function once with one combination of units, and neither chain '
    'operations, nor use buffers, aliases or incompatible units for most of them.',
    ['quantities.py'],
    [('ufuncs', 'quantities.py:Quantity.__array_ufunc__'),
     ('functions', 'quantities.py:Quantity.__array_function__'),
     ('homogenisation', 'quantities.py:Quantity._get_inputs_with_common_units'),
     ('table of functions', 'quantities.py:FUNCTIONS')],
    ['np.ufunc(q, ...)', 'np.function(q, ...)', 'q.method(...)', 'q.unit'],
    technique='TLA+ rule table of the propagation of units (Quantities.tla over Units.tla) '
              'model checked by TLC for covariance; every transition of the model replayed on '
              'the code; recorded histories of chained operations validated by TLC '
              '(TraceQuantities.tla)',
    note='Exhaustive for all the rules over 9 (thorough: 13) units of their two or three '
         'operands; randomised histories otherwise. The magnitudes are compared with those '
         'NumPy gives on the homogenised operands, the homogenisation being verified by TLC. '
         'Out of the domain (see DESIGN.md): the functions that are not in the table, '
         'np.interp, trace and dot methods (implemented in C), quotient by a compatible '
         'units, array exponents.',
    state=[('q._unit', 'exponents of the unit names', SRC + 'quantities.py:Quantity.unit')],
)

prop(
    'C09', 'The coverage, error and mask of maps and time-ordered data stay aligned',
    'After any history of constructions (from data, from other arrays with replaced '
    'attributes, zeros, views, copies, pickles), selections (slices, integers, negative '
    'strides, boolean masks), reshapings and ravellings in C and Fortran order, conversions '
    'between FitsArray, Map and Tod, elementwise arithmetic, the k-th element of the coverage '
    'and error of a Map and of the mask of a Tod belongs to its k-th sample; header, origin, '
    'unit and derived units follow. A copy shares nothing with the original. The functions '
    'which move the elements of a Tod (flip, roll, transpose, repeat, split, ...) move the '
    'mask alike; its sum, mean, min and max ignore the masked samples, and the '
    'result is masked only where all the samples are. Companions of an incompatible '
    'shape are refused and change nothing.',
    ['histories', 'inputs'],
    'All finite histories of operations over several live arrays of any shape, with any '
    'combination of companions.',
    'The tests check one attribute after one operation on one array: selections chained '
    'with reshapes, Fortran order, split parts, fully masked reductions and the independence '
    'of the copies are not reached.',
    ['datatypes.py', 'quantities.py'],
    [('companions of a selection', 'datatypes.py:Map.__getitem__'),
     ('mask of the functions', 'datatypes.py:Tod.__array_function__'),
     ('validation of masks', 'datatypes.py:Tod.mask'),
     ('attributes of views', 'datatypes.py:FitsArray.__array_finalize__')],
    ['Map(...)', 'Tod(...)', 'x[selection]', 'x.reshape', 'x.ravel', 'np.function(tod)',
     'x.coverage', 'x.error', 'x.mask'],
    technique='TLA+ specification of arrays with companions (Datatypes.tla) model checked by '
              'TLC; every transition replayed on the code; recorded histories validated by '
              'TLC (TraceDatatypes.tla)',
    note='Exhaustive for chains of 2 (thorough: 3) selections, reshapes, ravellings and '
         'conversions of small 2-d arrays with all the combinations of companions; '
         'randomised histories otherwise. Out of the domain (see DESIGN.md): '
         'C-level methods (transpose, take, ...), rearrangements of maps by NumPy functions.',
    state=[('x.coverage, x.error, x.mask', 'companions', SRC + 'datatypes.py')],
)

prop(
    'C10', 'FITS files give back the arrays that were saved, to any number of processes',
    'Reading a file written by save gives an array equal to the one that was saved, whatever '
    'its history: values exactly (extreme values and NaN included), shape, data type (signed '
    'integers become floats unless a dtype is given), unit, derived units, cards of the header, '
    'and, according to the class, coverage, error, origin or mask, unless they are given to '
    'the constructor; the name of the file may be a string or a path. Saving replaces the '
    'whole content of the file, changes neither the array nor other files, and writes a valid '
    'FITS file. Read by several processes, a file gives to each of them its part of '
    'the partition of the first dimension, companions and reference pixel of the header '
    'included; written collectively, it is the file which a single process would write. Local '
    'arrays that do not form the partition are refused by all the processes.',
    ['histories', 'inputs', 'configurations'],
    'All histories of saves, loads and changes over several arrays and files, all data types '
    'and values, all numbers of processes.',
    'The tests save and read each object once, with one process, string names, float '
    'arrays; collective writing is not tested.',
    ['datatypes.py', 'mpiutils.py'],
    [('writing', 'datatypes.py:FitsArray.save'), ('reading', 'datatypes.py:FitsArray.__new__'),
     ('distributed reading', 'mpiutils.py:read_fits'),
     ('collective writing', 'mpiutils.py:write_fits')],
    ['x.save(filename, comm)', 'Map(filename, comm=comm)', 'Tod(filename)', 'FitsArray(filename)'],
    technique='TLA+ specification of arrays and files (FitsFiles.tla over Datatypes.tla) model '
              'checked by TLC; transitions replayed on the code, the files being prepared and '
              'examined with Astropy; recorded histories, with emulated and real MPI processes, '
              'validated by TLC (TraceFitsFiles.tla)',
    note='Exhaustive for chains of 3 operations over an array and a file (thorough: 4); '
         'randomised histories over several arrays and two files, the content of the files being '
         'observed with Astropy; collective operations run by mpirun with 2 and 3 processes '
         '(thorough: 2 to 5). Out of the domain: complex and boolean data, 0-d arrays, headers '
         'without the mandatory cards in collective writing.',
    state=[('files', 'content of the files', SRC + 'mpiutils.py')],
)


prop(
    'C11', 'An acquisition does not depend on the grid of processes, on the blocks or on earlier selections',
    'Distributing an acquisition over any valid grid of processes assigns each detector and '
    'sampling pair to exactly one process, in balanced contiguous parts; the local observations '
    'are those of a single process, and the transpose of the operator is the sum over all the '
    'processes that share the observation. Invalid grids (also when both dimensions are given) '
    'and blocks are refused. The partition of the samplings in blocks, given or derived from a '
    'limit of memory, empty blocks included, changes neither the operator, the noise nor the '
    'inverse noise covariance. A selection of detectors, samplings or pixels, also chained, '
    'also with repeated or reordered elements, and whatever has been computed before, is the '
    'restriction of the acquisition, and does not change the original one.',
    ['inputs', 'histories', 'configurations'],
    'All grids, numbers of detectors and samplings, blocks, limits of memory and chains of selections.',
    'The tests cover one instrument with one process, and selections of the detectors only; the default '
    'operator of an acquisition is never built.',
    ['acquisitions.py', 'instruments.py', 'packedtables/core.py', 'packedtables/scenes.py', 'sparse.py'],
    [('grid and blocks', 'acquisitions.py:Acquisition.__init__'),
     ('selections', 'acquisitions.py:Acquisition.__getitem__'),
     ('operator', 'acquisitions.py:Acquisition.get_operator'),
     ('noise', 'acquisitions.py:Acquisition.get_noise'),
     ('distribution', 'instruments.py:Instrument.scatter')],
    ['Acquisition(instrument, sampling, scene, block, max_nbytes, nprocs_instrument, nprocs_sampling, comm)',
     'acq[dets, samplings, pixels]', 'acq.get_operator()', 'acq.get_observation(x)'],
    technique='TLA+ specification of the grid of processes, blocks and selections (Acquisition.tla) model '
              'checked by TLC; transitions replayed on the code over emulated processes; recorded '
              'histories validated by TLC (TraceAcquisition.tla)',
    note='Exhaustive for 2 detectors, 3 samplings, up to 4 processes (thorough: 6) and one selection '
         '(thorough: chains of 2), a random part of the transitions being replayed; randomised '
         'histories with up to 6 processes, emulated by threads which run in turn. The instrument is a '
         'harness class whose projection and noise identify the detector and the sampling.',
    state=[('processes', 'local parts, blocks and communicators', SRC + 'acquisitions.py')],
)


prop(
    'C12', 'Observations, detectors and map headers are distributed without loss over the processes',
    'distribute_observation gives each pair of a valid detector and an observation to exactly one '
    'process, whatever the removed detectors, the number of observations, of threads and of '
    'processes, and whatever the kind of the observations; the busiest process is as little loaded '
    'as a regular grid of processes allows, and the inputs are left unchanged. scatter_fitsheader '
    'gives each process a contiguous part of the slowest axis of a map, its reference pixel being '
    'shifted so that the world coordinates do not change, and gather_fitsheader restores the global '
    'header from the local ones, the other cards being kept. gather_fitsheader_if_needed '
    'refuses headers that do not describe the same map.',
    ['inputs', 'configurations'],
    'All numbers of processes, threads, observations and axes, all masks of detectors and all headers.',
    'The tests of the distribution run on one or two processes for a few sizes, and none gathers or '
    'compares headers.',
    ['mpiutils.py'],
    [('grid of processes', 'mpiutils.py:distribute_observation'),
     ('local headers', 'mpiutils.py:scatter_fitsheader'),
     ('global header', 'mpiutils.py:gather_fitsheader'),
     ('comparison of headers', 'mpiutils.py:gather_fitsheader_if_needed')],
    ['distribute_observation(detectors, observations, rank, comm)', 'scatter_fitsheader(header, comm)',
     'gather_fitsheader(header, comm)', 'gather_fitsheader_if_needed(header, comm)'],
    technique='TLA+ specification of the search of the grid and of the headers (Distribution.tla) model '
              'checked by TLC; transitions replayed on the code over emulated processes; recorded '
              'histories validated by TLC (TraceDistribution.tla)',
    note='Exhaustive for up to 5 observations, 6 detectors, 3 threads and 6 processes (thorough: 8, 9, '
         '4, 9), all transitions being replayed; randomised histories with up to 8 processes, emulated '
         'by threads which run in turn.',
    state=[('processes', 'local observations, detectors and headers', SRC + 'mpiutils.py')],
)


prop(
    'C13', 'FITS headers, pixels and world coordinates agree with one another',
    'The headers created by create_fitsheader and create_fitsheader_for describe the shape, type and '
    'extension of the array, and the world coordinate system requested from a CD matrix or from '
    'cdelt and pa (by default, the reference pixel is the centre); invalid requests are refused. '
    'get_cdelt_pa inverts the creation. The operators between pixel and world coordinates, for any '
    'layout of the inputs, any output buffer and origin, give the coordinates of the header, and are '
    'inverse of one another. SceneGrid.fromfits gives each pixel the coordinates of the header. '
    'str2fitsheader keeps every card. combine_fitsheader covers all the maps, tightly, with the '
    'requested resolution and rotation. Means, extrema, angles and barycentres of angular coordinates '
    'do not depend on the 0/360 cut, and ignore invalid values.',
    ['inputs', 'histories'],
    'All shapes, data types, matrices, references, layouts of the coordinates and sets of headers.',
    'The tests create a few headers without rotation, convert a handful of coordinates in one layout, '
    'and never combine headers.',
    ['wcsutils.py', 'packedtables/scenes.py', 'src/flib/wcsutils.f90', 'src/flib/module_math_old.f90'],
    [('headers', 'wcsutils.py:create_fitsheader'),
     ('scale and angle', 'wcsutils.py:get_cdelt_pa'),
     ('pixels to world', 'wcsutils.py:WCSToWorldOperator'),
     ('world to pixels', 'wcsutils.py:WCSToPixelOperator'),
     ('combined map', 'wcsutils.py:combine_fitsheader'),
     ('scene', 'packedtables/scenes.py:SceneGrid.fromfits'),
     ('angles', 'wcsutils.py:mean_degrees')],
    ['create_fitsheader(...)', 'get_cdelt_pa(header)', 'WCSToWorldOperator(header, origin)(x)',
     'combine_fitsheader(headers)', 'SceneGrid.fromfits(header)', 'mean_degrees(x)', 'barycenter_lonlat(...)'],
    technique='TLA+ specification of headers and linear coordinate systems (Headers.tla) model checked by '
              'TLC; transitions replayed on the code; recorded histories validated by TLC '
              '(TraceHeaders.tla)',
    note='Exhaustive for scales +-1, +-2, +-3, 12 rotations and a grid of pixels and references, all '
         'transitions being replayed; randomised histories over headers, layouts and origins. The '
         'rotations have rational sines and cosines and the projections are linear (plate carree or '
         'linear axes), so that the expected values are exact. Out of the domain: the accuracy of the '
         'other projections (WCSLIB), sets of angles wider than 90 degrees.',
    state=[('header', 'shape and world coordinate system', SRC + 'wcsutils.py')],
)


prop(
    'C14', 'Pointing matrices and projections act as the matrix they store',
    'A ProjectionInMemoryOperator over a PointingMatrix acts as the matrix whose entries (sample, '
    'index) are the stored values, invalid indices being ignored: direct and transposed applications '
    'to any layout of the arrays and output buffers, P.T * P, get_pTp, get_pTx_pT1 (with or without '
    'masked samples), get_mask, pack, apply_mask, intersects, products with diagonal operators '
    '(which leave P unchanged), units and attributes of the maps and time lines. A group of '
    'ProjectionOnFlyOperators sharing a place holder act as their own matrices under any '
    'interleaving, including failures of the function, which is called only when another '
    'element of the group has been used in between.',
    ['inputs', 'histories'],
    'All pointing matrices, masks, shapes and layouts, all interleavings of the operators of a group '
    'and of the failures.',
    'The tests use a few matrices with one or two entries per sample and contiguous arrays; the '
    'on-the-fly group is applied once.',
    ['operators.py', 'src/flib/pointingmatrix.f90.j2', 'acquisitions.py'],
    [('direct and transpose', 'operators.py:ProjectionBaseOperator.direct'),
     ('back projection and coverage', 'operators.py:ProjectionBaseOperator.get_pTx_pT1'),
     ('simplifications', 'operators.py:ProjectionInMemoryOperator._rule_ptp'),
     ('renumbering', 'operators.py:PointingMatrix.pack'),
     ('place holder', 'operators.py:ProjectionOnFlyOperator.matrix')],
    ['P(x)', 'P.T(y)', '(P.T * P)(x)', '(D * P)(x)', 'P.get_pTp()', 'P.get_pTx_pT1(y)', 'P.get_mask()',
     'P.intersects(pixel, axis)', 'PointingMatrix.pack(mask)', 'P.apply_mask(mask)'],
    technique='TLA+ specification of the pointing matrices and of the shared place holder (Projection.tla) '
              'model checked by TLC; transitions replayed on the code; recorded histories validated by '
              'TLC (TraceProjection.tla)',
    note='Exhaustive for small matrices and for all interleavings of a group with failures, all transitions '
         'being replayed; randomised histories over shapes, layouts, masks and units. The values are small '
         'integers, so that the expected results are exact.',
    state=[('matrix', 'entries (index, value) of each sample', SRC + 'operators.py'),
           ('place holder', 'identifier and matrix of the last element used', SRC + 'operators.py')],
)

prop(
    'C15', 'Celestial frames and samplings are rotations consistent with one another',
    'The conversions between the equatorial, galactic and horizontal frames, cartesian or spherical, '
    'for all conventions of the angles, units, times, sites and layouts of the arrays, are the '
    'rotations defined by the galactic pole and centre and by the latitude and local sidereal '
    'time of the site; going to a frame and coming back, by the class, the inverse or the transpose, '
    'through a composition or in steps, restores the coordinates. The spherical, cartesian, equatorial '
    'and galactic attributes of SamplingEquatorial and SamplingHorizontal, and their parts, agree with '
    'these conversions at the time of each sample (start date plus time, which a part of the sampling '
    'keeps); get_center is the direction of the mean of the valid pointings and does not change the '
    'sampling. Invalid azimuth conventions are refused.',
    ['inputs', 'histories'],
    'All directions, sites, times, conventions, layouts, subsets and masks, and all sequences of conversions.',
    'The tests convert a few positions with one convention at one time, and never read the attributes of '
    'a part of a sampling.',
    ['operators.py', 'packedtables/samplings.py'],
    [('horizontal frame', 'operators.py:_CartesianEquatorialHorizontal'),
     ('galactic frame', 'operators.py:_CartesianEquatorialGalactic'),
     ('spherical conversions', 'operators.py:SphericalEquatorial2HorizontalOperator'),
     ('times', 'packedtables/samplings.py:Sampling'),
     ('mean direction', 'packedtables/samplings.py:SamplingSpherical.get_center'),
     ('attributes', 'packedtables/samplings.py:SamplingHorizontal.equatorial')],
    ['CartesianEquatorial2HorizontalOperator(...)(x)', 'SphericalEquatorial2GalacticOperator(...)(x)',
     'sampling.equatorial', 'sampling.galactic', 'sampling.cartesian', 'sampling.get_center()', 'sampling[...]'],
    technique='TLA+ specification of the frames and of the samplings (Frames.tla) model checked by TLC; '
              'transitions replayed on the code; recorded histories validated by TLC (TraceFrames.tla)',
    note='Exhaustive for directions with small integer coordinates and 12 sidereal times x 7 latitudes, while '
         'time passes; randomised histories over walks between frames and samplings. Angles have rational '
         'sines and cosines, so that the expected values are exact; the sidereal time is compared '
         'with that of ERFA (40 arc seconds) and the galactic frame with the pole and centre of the Hipparcos '
         'catalogue. Out of the domain: velocities of samplings (unfinished).',
    state=[('frame', 'coordinates of the vectors in a frame', SRC + 'operators.py'),
           ('sampling', 'angles, times and masked samples', SRC + 'packedtables/samplings.py')],
)

prop(
    'C16', 'The operators acting on samples are exact, composable linear maps with exact transposes',
    'The truncated exponential convolution is the recursive filter of each row by its own time constant '
    '(started at its steady state), RollOperator shifts the samples circularly along the given axes, '
    'PowerLawOperator multiplies by scalar (x/x0)^alpha, and the classes decorated by block_diagonal '
    'apply on each chunk or slice of an axis the operator made of the arguments of that block. Their transposes '
    'are exact adjoints, and their sums, compositions with one another and with scalars, block diagonal, row and '
    'column operators, transposed once or more, give the results of the definitions, whatever the '
    'simplification rules, the explicit shapes, the in-place evaluation, the output buffer and the memory layout. The '
    'input is left untouched; the type and unit of maps and time-ordered data are kept. Mismatched numbers of time '
    'constants, axes, blocks and partitions are refused.',
    ['inputs', 'histories'],
    'All trees of operators, over all shapes, values, parameters and memory layouts, and all sequences of them.',
    'The tests apply each operator alone to one or two arrays; the simplification rules, the transposes and '
    'the layouts are combinatorial.',
    ['operators.py', 'src/flib/operators.f90.j2'],
    [('convolution', 'operators.py:ConvolutionTruncatedExponentialOperator'),
     ('power law', 'operators.py:PowerLawOperator'),
     ('roll', 'operators.py:RollOperator'),
     ('class decorator', 'operators.py:block_diagonal'),
     ('strided rows', 'operators.py:_ravel_strided')],
    ['ConvolutionTruncatedExponentialOperator(tau)(x)', 'RollOperator(n, axis)(x)', 'PowerLawOperator(alpha, x, x0)(x)',
     'block_diagonal(..., axisin=)(cls)(...)', 'op.T(x)', 'op1 * op2'],
    technique='TLA+ specification of trees of operators and of their transposes (TimeLines.tla) model checked by TLC; '
              'transitions replayed on the code; recorded histories validated by TLC (TraceTimeLines.tla)',
    note='Exhaustive for small trees over small arrays (adjoint, causality, gain, inverse of the rolls); '
         'randomised histories over trees of depth 3 and arrays of 1 to 3 dimensions. The time constants and power laws are '
         'powers of two, so that the values are exact. The combinations which PyOperators itself mishandles '
         '(blocks of implicit shape with scalars of explicit shape, in-place compositions of sums, mixed types) '
         'are not generated.',
    state=[('array', 'samples and shape', SRC + 'operators.py'),
           ('tree', 'operators combined by chain, sum, block diagonal, row and column', SRC + 'operators.py')],
)
prop(
    'C17', 'MADMAP1 observations are read as the files define them',
    'For a MADMAP1 observation, given by its time-ordered-data file (header, then for each block and each detector '
    'the samples with their value and the pixels they observe), its inverse noise filters (one file per block and '
    'detector), and its map mask, MadMap1Observation gives the timelines of each detector in the order of '
    'the blocks and samples, the pointing matrix whose rows are the pixels and weights of each sample, the '
    'projection onto the maps restricted to the pixels kept by the mask, and the inverse noise covariance whose blocks '
    'are the symmetric Toeplitz matrices of the filters of their own block and detector. The mask has missing_value '
    'where a pixel is not observed and its other entries are retained; a scene, timeline or map of the wrong size '
    'and files which contradict one another are refused. Names of files are taken literally, and nothing of one '
    'observation changes another.',
    ['inputs', 'histories'],
    'All observations: numbers of blocks, detectors, samples, pixels per sample, filters and lags, all masks and byte orders, '
    'and all sequences of calls.',
    'The tests read one observation with a single pixel per sample, unit weights and few blocks.',
    ['interfaces/madmap1.py', 'operators.py', 'sparse.py'],
    [('timelines and pointing', 'interfaces/madmap1.py:MadMap1Observation._read_tod_pmatrix'),
     ('inverse covariance', 'interfaces/madmap1.py:MadMap1Observation.get_invntt_operator'),
     ('projection', 'interfaces/madmap1.py:MadMap1Observation.get_projection_operator'),
     ('filters', 'interfaces/madmap1.py:MadMap1Observation._read_filters')],
    ['MadMap1Observation(...).get_tod()', 'obs.get_projection_operator()', 'obs.get_invntt_operator()', 'obs.get_operator()'],
    technique='TLA+ specification of the files and of what is read from them (MadMap.tla) model checked by TLC; files of '
              'the modelled observations written and read back by the code; recorded histories validated by TLC (TraceMadMap.tla)',
    note='Exhaustive for small observations (two blocks, two detectors, two pixels per sample); randomised histories with more of '
         'all of them. Values and weights are small integers, so that the sums are exact.',
    state=[('files', 'headers, records, filters and mask', SRC + 'interfaces/madmap1.py'),
           ('observation', 'blocks, timelines, pointing matrix and mask', SRC + 'interfaces/madmap1.py')],
)
prop(
    'C18', 'The noise and its inverse covariance follow the given power spectrum',
    'Given a noise model -- white noise by its standard deviation or noise-equivalent power, 1/f noise by its knee '
    'frequency and slope, or an explicit one- or two-sided power spectrum with its bandwidth, for all the detectors or for each '
    'of them -- Instrument.get_noise returns for each detector the white gaussian samples filtered by the square root of the '
    'two-sided spectrum sampled at the frequencies of the timeline, without their mean, written in, added to or '
    'subtracted from the output buffer; and Instrument.get_invntt_operator applies the banded symmetric Toeplitz '
    'matrix whose rows are the inverse Fourier transform of the inverse of that same spectrum, sampled on the next power of two, '
    'the lowest frequency standing for the mean. Explicit spectra are interpolated and extrapolated as power laws between '
    'their frequencies. Folding and unfolding a spectrum keep its power at every frequency and are inverse of one another. '
    'A model which is not specified is refused.',
    ['inputs'],
    'All noise models, numbers of detectors and samples (powers of two or not), sampling periods, bandwidths, lags and buffers.',
    'The tests compare a single spectrum with itself, fold a spectrum of equal values, and interpolate linear functions.',
    ['instruments.py', 'noises.py'],
    [('noise', 'instruments.py:Instrument.get_noise'),
     ('inverse covariance', 'instruments.py:Instrument.get_invntt_operator'),
     ('spectra', 'noises.py:_gaussian_psd_1f'),
     ('folding', 'noises.py:_fold_psd'),
     ('interpolation', 'noises.py:_logloginterp_psd'),
     ('first row', 'noises.py:_psd2invntt')],
    ['instrument.get_noise(sampling, sigma=..., fknee=..., fslope=...)',
     'instrument.get_invntt_operator(sampling, psd=..., bandwidth=..., ncorr=...)'],
    technique='TLA+ specification of rational power spectra, their folding, interpolation and discrete Fourier transforms '
              '(Noise.tla) model checked by TLC; transitions replayed on the code; recorded noise and inverse covariances validated '
              'by TLC (TraceNoise.tla)',
    note='Exhaustive for small spectra (folding; the inverse covariance undoes the covariance on the fluctuations). Randomised for '
         'up to 3 detectors and 16 samples: sizes for which the cosines are tabulated in the specification; values are compared '
         'to 24/1024 (noise) and 100/4096 (inverse covariance). Realisations are compared sample by sample to the white '
         'noise drawn from the same seed; long ones by their variance and correlations.',
    state=[('model', 'spectrum of each detector as rational numbers', SRC + 'noises.py'),
           ('timeline', 'samples of the detectors', SRC + 'instruments.py')],
)
prop(
    'C19', 'Polygons, grids and layouts have the stated geometry, and integration over polygons conserves areas',
    'The integration operator of a SceneGrid over a set of polygons has, for each polygon, one entry for each pixel that the polygon '
    'overlaps, equal to the area of their intersection; its attribute outside tells whether a polygon reaches beyond the grid. '
    'The grids of points and of squares, and the layouts made of them, have their centres and corners at the positions given by the '
    'spacing, the filling factor, the reflections, the rotation and the centre, in that order, rows going down and columns to '
    'the right. Rectangles, regular polygons and circles have the stated centre, size, angle and number of vertices; '
    'rotations turn coordinates around the given centre whatever their type, shape and memory layout; the area of polygons is '
    'signed by their orientation; segmenting edges keeps the outline, cuts every edge longer than the maximum in '
    'equal parts and leaves the others; a convex hull contains all the points and its vertices are points in counterclockwise order. '
    'Arguments without meaning are refused.',
    ['inputs'],
    'All polygons (convex, counterclockwise or not, partly or wholly outside), grids, spacings, angles, reflections, centres, units, types and '
    'output buffers.',
    'The tests integrate over squares and a few polygons of one size, and check the grids for a handful of angles and reflections.',
    ['geometry.py', 'packedtables/layouts.py', 'packedtables/scenes.py', 'src/flib/projection.f90.j2', 'src/flib/module_geometry.f90.j2'],
    [('integration', 'packedtables/scenes.py:SceneGrid.get_integration_operator'),
     ('grids', 'geometry.py:create_grid'),
     ('squares', 'geometry.py:create_grid_squares'),
     ('rotation', 'geometry.py:rotate'),
     ('segmentation', 'geometry.py:segment_polygon'),
     ('hull', 'geometry.py:convex_hull'),
     ('layouts', 'packedtables/layouts.py:LayoutGridSquares')],
    ['SceneGrid((nrows, ncolumns)).get_integration_operator(polygons)', 'geometry.create_grid_squares((3, 2), spacing, angle=...)',
     'geometry.segment_polygon(polygon, maxdist)', 'LayoutGridSquares((3, 2), spacing)'],
    technique='TLA+ specification of the clipping of polygons by the pixels, of rotations and grids (Geometry.tla) model checked by TLC; '
              'transitions replayed on the code; recorded histories validated by TLC (TraceGeometry.tla)',
    note='Exhaustive for small triangles with half-integer vertices over small grids, and for small grids under all '
         'reflections and Pythagorean rotations. Randomised for larger ones. Intersection areas are compared to 6 / 2048, '
         'coordinates exactly to 1 / 40 of a unit.',
    state=[('polygon', 'vertices as fractions', SRC + 'geometry.py'),
           ('grid', 'shape, spacing, reflections, rotation and centre', SRC + 'geometry.py')],
)
prop(
    'C20', 'Synthetic images, profiles and power spectra are those of their definition',
    'distance (and the squared distance) give at each pixel of an array of any dimension the distance to the centre, in pixel sizes '
    'and with their unit; aperture_circular is one where that distance is at most half the diameter and zero elsewhere, whatever its data type; '
    'gaussian is the normalised gaussian of the given widths along each axis; airy_disk is the squared Bessel pattern of unit sum '
    'whose first dark ring or half maximum is the given one; phasemask_fourquadrant has its phase in two opposite '
    'quadrants. profile gives for each ring the number of valid pixels, the mean of their values and of their distances, NaN and the '
    'middle of the ring when it has none, with enough rings by default; integrated_profile gives the boundaries of the rings and the '
    'cumulated sums times the area of a pixel. psd2 is the squared modulus of the Fourier transform, the null frequency being in '
    'the middle, normalised so that its integral is the mean square, and profile_psd2 is its profile around the '
    'null frequency. The inputs are not modified; incomplete or meaningless arguments are refused.',
    ['inputs'],
    'All shapes, centres (inside or not), pixel sizes, units, bins, numbers of bins, widths, data types, memory layouts, output buffers, '
    'images with NaN.',
    'The tests take one centre, one scale and one bin, skip the bins without pixels, and the test of the integrated '
    'profile is an expected failure.',
    ['datautils.py', 'src/flib/datautils.f90.j2'],
    [('distance', 'datautils.py:distance'),
     ('squared distance', 'datautils.py:distance2'),
     ('aperture', 'datautils.py:aperture_circular'),
     ('gaussian', 'datautils.py:gaussian'),
     ('Airy disk', 'datautils.py:airy_disk'),
     ('profile', 'datautils.py:profile'),
     ('integrated profile', 'datautils.py:integrated_profile'),
     ('power spectrum', 'datautils.py:psd2'),
     ('profile of the power spectrum', 'datautils.py:profile_psd2')],
    ['distance((ny, nx), center=..., scale=...)', 'profile(image, bin=..., center=..., histogram=True)', 'integrated_profile(image)',
     'psd2(image, sampling_frequency)'],
    technique='TLA+ specification of distances, disks, profiles, gaussians, Airy disks and discrete Fourier transforms in integers '
              '(Images.tla) model checked by TLC; transitions replayed on the code; recorded histories validated by TLC (TraceImages)',
    note='Exhaustive for images of at most 2 x 2 or 2 x 3 pixels with NaN, all centres and bins of a small set. Randomised for '
         'up to four dimensions and 6 x 6 images. Distances are compared to 2 / 1024, gaussians to 12 / 32768, Airy disks to 24 / 2048; '
         'counts, sums, masks and squared distances are exact.',
    state=[('image', 'shape, centre, pixel size and values', SRC + 'datautils.py'),
           ('profile', 'numbers, sums and distances of the pixels of each ring', 'src/flib/datautils.f90.j2')],
)
prop(
    'C21', 'Instruments, imagers, beams and mask policies keep what they are given',
    'An instrument has the name and the detectors of its layout, whatever the calling sequence. Selecting detectors '
    '(slice, integer, list, mask) gives an instrument with these detectors in that order, the same name and the attributes of '
    'each detector; splitting gives contiguous groups whose sizes differ by at most one and which make up the instrument; iterating gives each '
    'detector in turn; assigning an attribute of the detectors or the name of one instrument changes no other. pack and unpack follow '
    'the detectors that are kept. The two transformations of an imager are inverse of one another, from whichever is given. A gaussian beam '
    'is one in its direction (forward or backward), half at half its width, depends only on the distance to it, has the '
    'broadcast shape of its angles and the solid angle of its width. A mask policy associates each flag with the code of its policy, '
    'follows later changes of the policies, and refuses unknown policies and wrong flags.',
    ['histories', 'inputs'],
    'All histories of selections, splits and assignments over several live instruments, all layouts, all forms of the arguments.',
    'The tests build one instrument, evaluate each beam at a few polar angles with a scalar azimuth, and use imagers whose transformation is the identity.',
    ['instruments.py', 'beams.py', 'acquisitions.py'],
    [('selection', 'instruments.py:Instrument.__getitem__'),
     ('partition', 'instruments.py:Instrument.split'),
     ('imager', 'instruments.py:Imager.__init__'),
     ('beam', 'beams.py:BeamGaussian.__call__'),
     ('policy', 'acquisitions.py:MaskPolicy.__array__')],
    ['instrument[selection]', 'instrument.split(n)', 'Imager(name, layout, image2object=...)', 'BeamGaussian(fwhm)(theta, phi)',
     'MaskPolicy(flags, policies)'],
    technique='TLA+ specification of instruments as sequences of detectors, of beams and of mask policies (Instruments.tla) model checked '
              'by TLC; paths replayed on the code; recorded histories validated by TLC (TraceInstruments)',
    note='Exhaustive for chains of two selections of at most three (quick) or four detectors and policies of two or three flags. Randomised histories '
         'with up to a dozen live instruments. Modifications in place of the arrays of detectors are out of the property.',
    state=[('instruments', 'name, detectors and attributes of each live instrument', SRC + 'instruments.py'),
           ('policy', 'flags and policies', SRC + 'acquisitions.py')],
)
prop(
    'C22', 'HEALPix directions, pixels, convolutions and unit conversions follow the geometry of the sphere',
    'For every resolution, numbering scheme and convention of the angles, the conversions of HEALPix pixels into '
    'directions give the centres of the pixels, those of directions into pixels the pixel which contains the direction '
    '(whatever the norm of a cartesian vector), the inverse of one is the other, the composition of a conversion into directions and of one '
    'into pixels is the sequence of its steps (it changes the scheme of the numbers), for arrays of any shape, and the input is left untouched. '
    'The laplacian is the 9-point stencil of the neighbours of each pixel. The gaussian convolution keeps the mean and damps each '
    'multipole l by exp(-l (l + 1) sigma^2 / 2), separately for each map. A HEALPix scene has the shape, solid angle and '
    'pixel conversions of its resolution, kind, scheme and convention, and its CMB unit conversion is the law of Planck or its '
    'slope at the temperature of the background. Invalid conventions, kinds, widths and shapes are refused.',
    ['inputs'],
    'All pixels and directions, resolutions, schemes, conventions, shapes and maps.',
    'The tests convert a few directions at nside 512, check one column of the laplacian at nside 1, compare the convolution with the '
    'healpy function it calls, and have no test of the units.',
    ['interfaces/healpy/operators.py', 'interfaces/healpy/scenes.py'],
    [('pixel', 'interfaces/healpy/operators.py:Spherical2HealpixOperator.direct'),
     ('centre', 'interfaces/healpy/operators.py:Healpix2SphericalOperator.direct'),
     ('vector', 'interfaces/healpy/operators.py:Cartesian2HealpixOperator.direct'),
     ('laplacian', 'interfaces/healpy/operators.py:HealpixLaplacianOperator.__init__'),
     ('convolution', 'interfaces/healpy/operators.py:HealpixConvolutionGaussianOperator.direct'),
     ('scene', 'interfaces/healpy/scenes.py:SceneHealpix.__init__'),
     ('units', 'interfaces/healpy/scenes.py:SceneHealpixCMB.get_unit_conversion_operator')],
    ['Healpix2SphericalOperator(nside, convention, nest)(pixels)', 'Spherical2HealpixOperator(nside, convention, nest)(angles)',
     'HealpixLaplacianOperator(nside)(map)', 'HealpixConvolutionGaussianOperator(fwhm)(map)',
     'SceneHealpixCMB(nside).get_unit_conversion_operator(nu)'],
    technique='TLA+ specification of the HEALPix pixelisation in exact integer arithmetic (Healpix.tla: centres, pixels, schemes, neighbours) model '
              'checked by TLC; transitions replayed on the code; recorded histories validated by TLC (TraceHealpix)',
    note='Exhaustive for the pixels of nside 1 to 3 (quick) or 1 to 4 and a grid of directions; randomised up to nside 32 (ring) and 8 (nested). '
         'Directions on the edge of a pixel are out of the property, as is the composition of a conversion into pixels and of its inverse, which '
         'is the identity. The weights of the laplacian are a known finding.',
    state=[('pixel', 'number in the ring or nested scheme', SRC + 'interfaces/healpy/operators.py'),
           ('map', 'values of the pixels', SRC + 'interfaces/healpy/operators.py')],
)
prop(
    'C23', 'Spectra, distortions and rotations of the instrument plane follow their definitions',
    'A black body operator multiplies a flux at the reference frequency by the ratio of the fluxes of the (modified) black bodies of the given '
    'temperatures and slopes, whether the frequencies or the wavelengths are given: it is the identity at the reference, and changes '
    'of frequency compose and are inverse of one another. A distortion interpolates exactly the affine transformations of the plane, is not '
    'a number out of the given points, and its inverse undoes it. The boresight rotation places each detector, for each pointing, '
    'at its offsets rotated by the position angle, along the meridian and the parallel. A sampling defined by three angles has the '
    'length and the angles it is given, by position, by name or for a number of samples. Ambiguous or incomplete definitions and values that '
    'are not scalar where scalars are required are refused.',
    ['inputs'],
    'All temperatures, slopes, frequencies, grids, pointings, offsets and calling sequences.',
    'The tests check black bodies with one reference and no slope, and have none for the distortions, the boresight rotation and the '
    'generic samplings.',
    ['operators.py', 'wcsutils.py', 'packedtables/samplings.py'],
    [('spectrum', 'operators.py:BlackBodyOperator.__init__'),
     ('distortion', 'wcsutils.py:DistortionOperator.direct'),
     ('rotation', 'wcsutils.py:RotationBoresightEquatorialOperator.direct'),
     ('sampling', 'packedtables/samplings.py:SamplingSpherical.__init__')],
    ['BlackBodyOperator(T, frequency=nu, frequency0=nu0, beta=beta)(flux)', 'DistortionOperator(xin, xout)(points)',
     'RotationBoresightEquatorialOperator(pointing)(offsets)', 'SamplingSpherical(precession, nutation)'],
    technique='TLA+ specification of black bodies, rotations and affine distortions in integer arithmetic (Spectra.tla) model checked by TLC; '
              'transitions replayed on the code; recorded histories validated by TLC (TraceSpectra)',
    note='Exhaustive for a grid of frequencies, temperatures, slopes, position angles and offsets. Fluxes are compared within 1.6 %, their laws '
         'of composition within 1e-6. The poles are out of the property of the boresight rotation.',
    state=[('spectrum', 'temperature, slope and frequencies', SRC + 'operators.py'),
           ('pointing', 'right ascension, declination and position angle', SRC + 'wcsutils.py')],
)
