MPI_TECH = 'deterministic simulation: seeded rank schedules on a simulated MPI library, against a single-process reference'

prop(
    'C01', 'Scattering a packed table partitions it; gathering restores it exactly',
    'Scattering a packed table, layout, sampling, scene or instrument over an MPI communicator of any size gives every '
    'selected element to exactly one process, in rank order and in contiguous pieces whose sizes differ by at most one, '
    'with every attribute (arrays, units, scalars, callables, derived attributes) matching its elements, and the '
    'original table is left unaltered. Gathering it gives every process the original table: same elements in the same '
    'order, same attributes, units, dtypes and shapes; parts that were restricted are '
    'joined in rank order. Packing, unpacking (also into given arrays, with missing values), selecting, splitting and setting '
    'the attributes of the scattered pieces agree with the same operations on the global table. Elements of the same order '
    'keep the order of their positions. Arrays of the wrong shape are refused.',
    ['schedules', 'inputs', 'configurations', 'histories'],
    'For every table shape, selection, ordering, attribute kind, communicator size (also larger than the number of '
    'elements) and schedule of the processes, and every sequence of scatter, gather, pack, unpack, split and selection.',
    'The tests run a few tables on one and two processes, never with more processes than elements.',
    ['src/pysimulators/packedtables/core.py', 'src/pysimulators/packedtables/layouts.py',
     'src/pysimulators/packedtables/samplings.py', 'src/pysimulators/packedtables/scenes.py',
     'src/pysimulators/instruments.py'],
    [('PackedTable.scatter, gather', 'src/pysimulators/packedtables/core.py'),
     ('PackedTable.pack, unpack, split, __getitem__', 'src/pysimulators/packedtables/core.py')],
    ['the attributes of the scattered and gathered tables on every rank'],
    [('comm', 'communicator over which the table is scattered', 'PackedTable.comm'),
     ('_index', 'ranks of the elements of the table in the layout', 'PackedTable')],
    technique=MPI_TECH,
    note='Seeded search over tables, operations and rank schedules; real package code on every simulated rank; MPI is a '
         'stand-in (SimMPI) validated against Open MPI on the defects found. Sampling, not a proof.')

prop(
    'C02', 'A distributed acquisition computes what a single process computes',
    'For any grid of processes over detectors and samplings and any partition of the samplings into blocks, each '
    'process of an acquisition holds its share of the detectors and samplings, its observation of a scene is the '
    'corresponding part of the single-process observation, and the transpose returns on every process the same sum '
    'over all detectors and samplings. Noise, inverse noise covariance, packing, mean pointing and map-making agree '
    'likewise. Restricting an acquisition to detectors or samplings gives the operator of the restricted data and '
    'leaves the original acquisition and its communicators unaltered. A maximum number of bytes partitions the samplings '
    'into blocks; a process grid which is not one of the job, other types of arguments and selections along more than '
    'three axes are refused on every process.',
    ['schedules', 'inputs', 'configurations', 'histories'],
    'For every number of processes, process grid, block partition, detector selection and ordering, number of detectors '
    'and samplings (also fewer than processes), and sequence of operations and restrictions.',
    'The tests run some acquisitions on one and two processes; restrictions, blocks and grids are not combined.',
    ['src/pysimulators/acquisitions.py', 'src/pysimulators/instruments.py',
     'src/pysimulators/packedtables/samplings.py', 'src/pysimulators/operators.py', 'src/pysimulators/sparse.py'],
    [('Acquisition.__init__, get_operator, __getitem__', 'src/pysimulators/acquisitions.py'),
     ('Acquisition.get_observation, get_noise, get_invntt_operator, pack, unpack', 'src/pysimulators/acquisitions.py'),
     ('Sampling.get_center', 'src/pysimulators/packedtables/samplings.py')],
    ['the output of the operators of the acquisition on every rank'],
    [('comm, instrument.comm, sampling.comm', 'process grid', 'Acquisition'),
     ('_operator', 'cached operator', 'Acquisition')],
    technique=MPI_TECH,
    note='Integer-valued model instrument, so results must be exactly those of a dense reference; real package and '
         'pyoperators code on every rank. H.T*H with several blocks on several ranks is not compared because of a '
         'defect of pyoperators 1.0.0b1 (DESIGN.md). Sampling, not a proof.')

prop(
    'C03', 'FITS files written and read collectively are those of a single process',
    'Saving a distributed FITS array, map or timeline writes the file that a single process would write for the global '
    'array (header, data, unit, derived units, coverage, error and mask), whatever the number of processes, the '
    'schedule, the memory layout and the byte order, also when some processes have no rows. Loading a file '
    'collectively gives every process its contiguous part of the rows, with the header of that part (world coordinate '
    'system included), so that saving then loading with any other number of processes restores the array.',
    ['schedules', 'inputs', 'configurations', 'histories'],
    'For every array shape, dtype, byte order, memory layout, header and number of writing and reading processes, and '
    'every interleaving of their file accesses.',
    'The tests write and read a handful of arrays, almost all on one process.',
    ['src/pysimulators/mpiutils.py', 'src/pysimulators/datatypes.py', 'src/pysimulators/wcsutils.py'],
    [('write_fits, read_fits', 'src/pysimulators/mpiutils.py'),
     ('FitsArray.save, __new__, Map, Tod', 'src/pysimulators/datatypes.py')],
    ['the bytes of the file, the array and its attributes on every rank'],
    [('comm', 'communicator over which the array is distributed', 'FitsArray')],
    technique=MPI_TECH,
    note='Real package code and astropy on every rank, real files; collective writes are torn into pieces at scheduled '
         'points. Sampling, not a proof.')

prop(
    'C04', 'FITS headers are scattered and gathered consistently',
    'Scattering a FITS header over the slowest axis gives every process the header of its part: the axis lengths sum to '
    'the global length and a sky position falls on the same element of the global array whether it is computed from '
    'the local or from the global header. Gathering restores the global header on every process, gathering a header '
    'that is already global leaves it as is, and headers which differ across processes are rejected on all of them.',
    ['schedules', 'inputs', 'configurations', 'histories'],
    'For every header (number of axes, axis lengths, with or without world coordinate system), number of processes '
    '(also larger than the axis), and sequence of scatter and gather calls.',
    'The tests scatter one or two headers on a single process.',
    ['src/pysimulators/mpiutils.py', 'src/pysimulators/wcsutils.py'],
    [('scatter_fitsheader, gather_fitsheader, gather_fitsheader_if_needed', 'src/pysimulators/mpiutils.py')],
    ['the header on every rank, sky coordinates of the elements'],
    technique=MPI_TECH, note='Sampling, not a proof.')

prop(
    'C05', 'Every detector of every observation is processed by exactly one process',
    'Distributing observations and detectors over processes assigns every pair (observation, kept detector) to exactly '
    'one process, never assigns a removed detector, keeps the observations of a process in order, and gives the same answer whether a process asks for '
    'itself or for another rank. No process is given more than the smallest block (detectors in groups of the number of '
    'cores, times observations) such that as many blocks as processes cover everything. The mask and the list given as '
    'arguments are neither altered nor returned.',
    ['schedules', 'inputs', 'configurations'],
    'For every mask of removed detectors, number of observations, number of cores per process and number of processes.',
    'The tests check a few sizes with a fixed expected result.',
    ['src/pysimulators/mpiutils.py'],
    [('distribute_observation', 'src/pysimulators/mpiutils.py')],
    ['the masks and observations returned on every rank'],
    technique=MPI_TECH, note='Sampling, not a proof.')

prop(
    'C06', 'A collective call that fails on one process fails on all, without hanging',
    'When saving or loading a FITS array, map or timeline, gathering a header or an array of a scattered table gets '
    'arguments that are incompatible across processes (file names, dimensions, shapes, data types, units, coverages, '
    'errors, masks, keywords), when a table is already scattered or the processes cannot make up the grid of an '
    'acquisition, or when the call meets an I/O error (disk full, failed write, file that cannot be created, removed '
    'or opened, missing or truncated file), every process raises and none is left waiting. A call that returns without an error has written or returned correct data, and '
    'once the fault is gone the same call succeeds.',
    ['schedules', 'fault_sequences', 'configurations', 'inputs'],
    'For every fault, place of the fault, process which meets it, number of processes and schedule.',
    'The tests inject no I/O error and run mostly on one process, where no process can be left behind.',
    ['src/pysimulators/mpiutils.py', 'src/pysimulators/datatypes.py', 'src/pysimulators/acquisitions.py',
     'src/pysimulators/packedtables/core.py'],
    [('write_fits, read_fits', 'src/pysimulators/mpiutils.py'),
     ('FitsArray.save', 'src/pysimulators/datatypes.py')],
    ['the outcome of the call on every rank, the file, processes that never return'],
    technique='deterministic simulation with fault injection: seeded rank schedules and I/O faults on a simulated MPI '
              'library; a deadlock is found by the scheduler',
    note='Faults are those of the shared file system or of the process that does the I/O on behalf of the others; a '
         'failure local to one process (out of file descriptors) is not modelled. Sampling, not a proof.')

OMP_TECH = (
    'deterministic simulation: seeded schedules of the OpenMP threads of the real kernels on a simulated runtime, with '
    'preemptions at memory accesses and poisoned fresh memory, against an independent reference'
)

prop(
    'C07', 'Sparse products are those of the dense matrix, whatever the threads do',
    'The product of a sparse matrix (row or column storage; scalar, block, 2-d or 3-d rotation elements) or of its '
    'transpose by a vector is that of the dense matrix it represents, elements of negative index being ignored, for any '
    'number of threads and any interleaving of them. So are the accumulations into an existing array, the outputs into '
    'a given array, and the sums, compositions (P.T * P, P.T * D * P), scalings, dense conversions, copies and '
    'restrictions of the operators, for any dtype of index, value and vector, shape, memory layout and number of '
    'broadcast components. Matrices which are not supported, or whose data, operands or masks do not fit, are refused. '
    'The result never depends on uninitialised memory, and the operands are unaltered.',
    ['schedules', 'inputs', 'configurations'],
    'For every matrix, vector, operation, number of threads, and interleaving of the memory accesses of the threads.',
    'The tests use small matrices of a few dtypes, on the schedules that the machine happens to produce.',
    ['src/pysimulators/sparse.py', 'src/flib/sparse.f90.j2'],
    [('FSCMatrix, FSRMatrix and their block and rotation variants', 'src/pysimulators/sparse.py'),
     ('fsc_matvec, fsc_rmatvec, fsr_matvec, fsr_rmatvec and variants', 'src/flib/sparse.f90.j2')],
    ['the arrays returned by the products and operators, the matrix afterwards'],
    [('data', 'indices and values of the elements', 'FSCMatrix')],
    technique=OMP_TECH,
    note='The kernels are compiled at -O0 with instrumented memory accesses; a race that only an optimisation creates is '
         'not seen. Integer values, so results are compared bit for bit. Sampling, not a proof.')

prop(
    'C08', 'Projection operators give exact kernels, coverages and weights on any schedule',
    'For a projection operator, the kernel is the set of input elements that no non-zero matrix element refers to, the '
    'coverage is the sum of the weights of the matrix elements of each input element, and the back-projection with '
    'coverage equals the transpose of the operator, for any dtype, shape, memory layout, output array and accumulation. '
    'The operator that integrates a scene over polygons has for weights the areas of the intersections of the polygons '
    'with the pixels, no pixel twice nor with a null weight, and tells whether a polygon leaves the scene and how many '
    'elements are needed. Invalid output arrays, operations and operands are refused. The results depend neither on the number of threads, nor on their interleaving, nor on '
    'uninitialised memory.',
    ['schedules', 'inputs', 'configurations'],
    'For every matrix or set of polygons, number of threads, and interleaving of the memory accesses of the threads.',
    'The tests use a few small matrices and polygons, on the schedules that the machine happens to produce.',
    ['src/pysimulators/operators.py', 'src/pysimulators/packedtables/scenes.py', 'src/flib/sparse.f90.j2',
     'src/flib/projection.f90.j2', 'src/flib/module_geometry.f90.j2'],
    [('ProjectionOperator.canonical_basis_in_kernel, pT1, pTx_pT1', 'src/pysimulators/operators.py'),
     ('SceneGrid.get_integration_operator', 'src/pysimulators/packedtables/scenes.py')],
    ['the arrays returned by the methods, the elements of the matrix'],
    [('matrix.data', 'indices and values of the elements', 'ProjectionOperator')],
    technique=OMP_TECH,
    note='The areas are compared with exact rational arithmetic, within rounding errors; the rest bit for bit. Kernels '
         'compiled at -O0. Sampling, not a proof.')

prop(
    'C09', 'Pointing matrices project exactly, in memory or on the fly, on any schedule',
    'The projection by a pointing matrix, its transpose, its accumulation, the back-projection with coverage and mask, '
    'the mask of the unobserved pixels, P.T P, the intersection with a pixel, the in-place packing and masking and the '
    'products by a diagonal operator are those of the matrix in which the elements of a sample stop at the first unused '
    'one (index -1), for any shape, dtype, memory layout, number of threads and interleaving of them. Operators which '
    'recompute their pointing matrix on the fly and share a place holder always use their own matrix, whatever the order '
    'in which they are used and whichever computations fail, and keep at most one matrix in memory. A failed computation '
    'is raised, and the operator works again at its next use. The outputs have the class, the unit, the derived units and the '
    'attributes which the operator was given. Invalid arguments are refused.',
    ['schedules', 'inputs', 'histories', 'fault_sequences'],
    'For every matrix, vector, history of uses, failing computation, number of threads, and interleaving of them.',
    'The tests check the packing of one small matrix only.',
    ['src/pysimulators/operators.py', 'src/flib/pointingmatrix_old.f90', 'src/flib/module_pointingmatrix.f90'],
    [('PointingMatrix, ProjectionInMemoryOperator, ProjectionOnFlyOperator', 'src/pysimulators/operators.py'),
     ('pmatrix_direct, pmatrix_transpose, pmatrix_ptp, pmatrix_mask, pmatrix_pack, backprojection_weight',
      'src/flib/module_pointingmatrix.f90')],
    ['the arrays returned by the operators and methods, the exceptions'],
    [('place_holder', 'the shared matrix and the identifier of its operator', 'ProjectionOnFlyOperator')],
    technique=OMP_TECH + '; histories of on-the-fly operators with failing computations',
    note='Kernels compiled at -O0. Integer values, compared bit for bit. Sampling, not a proof.')

prop(
    'C10', 'Geometric and map computations follow their definitions on any schedule',
    'Grids of points and of squares, rectangles, regular and segmented polygons, rotations, areas of polygons, convex hulls, distance maps '
    'and their squares, circular masks, gaussian maps, Airy discs, four-quadrant phase masks, radial and integrated profiles, '
    'power spectra of images and their profiles, pixel areas of gnomonic maps, separations, barycentres, and means and '
    'extrema of angles which lie within a half circle have the values given by their definitions, within rounding errors, '
    'for any parameters, dtype, shape, memory layout, given output array and NaN. FITS headers made from a scale and an '
    'angle, from a matrix, from an array or from a string hold what they were made from and give it back, and a combined '
    'header covers every header it was made from. Invalid arguments are refused. The results depend neither on the number '
    'of threads, nor on their interleaving, nor on uninitialised memory, and the arguments are unaltered.',
    ['schedules', 'inputs'],
    'For every set of parameters, number of threads, and interleaving of the memory accesses of the threads.',
    'The tests use a few values, on the schedules that the machine happens to produce.',
    ['src/pysimulators/geometry.py', 'src/pysimulators/datautils.py', 'src/pysimulators/wcsutils.py',
     'src/flib/geometry.f90', 'src/flib/datautils.f90.j2', 'src/flib/wcsutils.f90', 'src/flib/module_math_old.f90'],
    [('create_grid, create_grid_squares, rotate, surface_convex_polygon', 'src/pysimulators/geometry.py'),
     ('distance, distance2, aperture_circular, gaussian, airy_disk, profile, integrated_profile, psd2, profile_psd2',
      'src/pysimulators/datautils.py'),
     ('angle_lonlat, barycenter_lonlat, mean_degrees, minmax_degrees, create_fitsheader, create_fitsheader_for, '
      'combine_fitsheader, get_cdelt_pa, str2fitsheader', 'src/pysimulators/wcsutils.py'),
     ('pixel_to_pixel_reference', 'src/pysimulators/quantities.py')],
    ['the arrays returned by the functions, their arguments afterwards'],
    [('out', 'the given output array', 'create_grid')],
    technique=OMP_TECH,
    note='Kernels compiled at -O0. Results compared within rounding errors, which makes small numerical changes '
         'undetectable. Sampling, not a proof.')

prop(
    'C11', 'Signal and coordinate operators give the same result however applied',
    'The truncated exponential convolution and its transpose, rolls, transforms between equatorial, galactic and '
    'horizontal coordinates, WCS transforms, boresight rotations, distortions, power laws and black bodies give the values '
    'of their definitions and leave their input unaltered, whether they are applied into a new array, a given array of any '
    'memory layout or in place, transposed, inverted, or composed with diagonal and block operators; or else they raise. '
    'An operator class which accepts partitioned arguments (block_diagonal) is the block-diagonal operator of the pieces, '
    'along an existing or a new axis. Invalid parameters are refused. The results do not depend on the number of threads, on their interleaving, on uninitialised memory, nor on previous '
    'uses of the operator.',
    ['schedules', 'inputs', 'configurations', 'histories'],
    'For every operator, input, way to apply it, number of threads, and interleaving of the memory accesses of the threads.',
    'The tests apply the operators to a few contiguous arrays, out of place.',
    ['src/pysimulators/operators.py', 'src/pysimulators/wcsutils.py', 'src/flib/operators.f90.j2',
     'src/flib/module_operators.f90.j2'],
    [('ConvolutionTruncatedExponentialOperator, RollOperator, PowerLawOperator, BlackBodyOperator and the coordinate operators',
      'src/pysimulators/operators.py'),
     ('WCSToPixelOperator, WCSToWorldOperator, DistortionOperator, RotationBoresightEquatorialOperator',
      'src/pysimulators/wcsutils.py'),
     ('trexp_direct, trexp_transpose', 'src/flib/module_operators.f90.j2')],
    ['the output arrays of the operators and their inputs afterwards'],
    [('tau', 'the time constants', 'ConvolutionTruncatedExponentialOperator')],
    technique=OMP_TECH,
    note='Kernels compiled at -O0. Compositions of the convolution with blocks along the time axis are not claimed: it is '
         'flagged as separable. Sampling, not a proof.')

prop(
    'C12', 'MADMAP1 observations are read exactly, or refused',
    'The blocks, the mask, the time-ordered data, the projection and the noise filters of a MADMAP1 observation are those '
    'of its files, for any number of blocks, detectors, samples and correlations, endianness, directory, name, order of the '
    'entries of the directory and other files in it. When a file is truncated, changes size, is absent, or cannot be opened '
    'or read to its end, an exception is raised or the result is nevertheless that of the intact files, and never another '
    'one. Once the faults stop, the observation is read exactly.',
    ['inputs', 'fault_sequences', 'histories', 'schedules'],
    'For every set of files, history of readings and fault of the file system at any point.',
    'The tests read one set of filters, and no TOD.',
    ['src/pysimulators/interfaces/madmap1.py', 'src/pysimulators/operators.py'],
    [('MadMap1Observation', 'src/pysimulators/interfaces/madmap1.py'),
     ('_read_filters, _read_one_filter', 'src/pysimulators/interfaces/madmap1.py')],
    ['the attributes of the observation, the arrays and operators it returns, and the exceptions'],
    [('block, _filters', 'the samples and the filters of the blocks', 'MadMap1Observation')],
    technique='Deterministic simulation of the file system (truncation at any byte, absence, failing opens, reads which stop '
              'early, changes between two readings, order of the directory) under seeded histories, against the generated '
              'contents; the projection under seeded schedules of its threads',
    note='An absent filter file of an observation of a single detector is only noticed when the TOD is read. A change of '
         'content which keeps the size of the file cannot be noticed. Sampling, not a proof.')
prop(
    'C13', 'Calls leave inputs intact and results independent of history and failures',
    'Selecting, packing, converting, transforming, projecting, observing, saving and the like leave the tables, samplings, '
    'maps, TODs, quantities and operators they are given unaltered, and their result does not depend on which calls came '
    'before nor on the contents of recycled memory. A call that runs out of memory, is interrupted or meets a failing file '
    'raises and leaves its inputs as they were: the same call, made again, gives the same result as if nothing had happened. '
    'Arrays restored from a pickle, a deep copy or a FITS file give the same results as those they were made from, and '
    'altering a copy leaves the original unaltered. The coverage and error of a map and the mask of a TOD follow its elements '
    'when it is indexed, reshaped, flattened, copied or converted to another type.',
    ['inputs', 'histories', 'fault_sequences', 'crash_points'],
    'For every sequence of calls on shared objects, content of recycled memory, and allocation, interruption or file failure '
    'at any point of a call.',
    'The tests make one call on fresh objects and never look at the inputs afterwards, nor inject any failure.',
    ['src/pysimulators/packedtables', 'src/pysimulators/datatypes.py', 'src/pysimulators/datautils.py',
     'src/pysimulators/quantities.py', 'src/pysimulators/operators.py', 'src/pysimulators/sparse.py',
     'src/pysimulators/acquisitions.py', 'src/pysimulators/noises.py', 'src/pysimulators/wcsutils.py'],
    [('PackedTable, Layout, Sampling, Scene', 'src/pysimulators/packedtables'),
     ('Quantity', 'src/pysimulators/quantities.py'), ('FitsArray, Map, Tod', 'src/pysimulators/datatypes.py')],
    ['the attributes, contents, units, headers and masks of the arguments before and after each call, and the results and '
     'exceptions of the calls'],
    [('__dict__, _unit, _derived_units, _header, _mask', 'the state shared between objects', 'Quantity, FitsArray, PackedTable')],
    technique='Deterministic simulation of sessions of calls on shared objects, with recycled memory poisoned, allocations which '
              'fail, interruptions at any line of the package and failing files, against the same calls on fresh objects',
    note='Allocations are made to fail only in the code of the package and of pyoperators (numpy.ma and astropy crash). '
         'Attributes set through a view, and the headers lazily created and shared by views, are not claimed. Sampling, not a '
         'proof.')

prop(
    'C14', 'Kernels for instrument packages match their geometry on any schedule',
    'The compiled kernels which the package offers to instrument packages agree with the geometry they stand for, whatever '
    'the number of threads, their schedule, the previous calls (also those with a map header which is refused) and the '
    'contents of uninitialised memory: conversion of focal plane offsets to the sky, extent of the pointings in a map, '
    'nearest pixel and weight of each detector, pixels overlapped by the detector outlines with the overlaps and the number '
    'of columns required (also when too few are given), masked pointings, flag of the detectors outside the map, '
    'polarisation rotation matrices of a bolometric interferometer, distances and search of a pixel.',
    ['schedules', 'inputs', 'configurations', 'histories'],
    'For every map header (pixel size, rotation, order of the cards), pointing, position and outline of the detectors, number '
    'of columns, number of threads and schedule, and sequence of calls.',
    'The tests never call these kernels.',
    ['src/flib/wcsutils.f90', 'src/flib/module_wcs.f90', 'src/flib/module_fitstools.f90', 'src/flib/module_pointingmatrix.f90',
     'src/flib/pointingmatrix_old.f90', 'src/flib/bi.f90.j2', 'src/flib/datautils.f90.j2'],
    [('object2ad, object2xy_minmax, object2pmatrix_nearest_neighbour, object2pmatrix_sharp_edges', 'src/flib/wcsutils.f90'),
     ('init_astrometry', 'src/flib/module_wcs.f90'), ('roi2pmatrix_cartesian', 'src/flib/module_pointingmatrix.f90'),
     ('matrix_rot2d, matrix_rot3d, weighted_matrix_rot3d', 'src/flib/bi.f90.j2')],
    ['the arrays and scalars returned by the kernels'],
    [('/gnomonic/, /rotation/', 'common blocks which hold the projection of the last header', 'src/flib/module_wcs.f90')],
    technique=OMP_TECH,
    note='The threads of the kernels run on a simulated OpenMP runtime; the oracles are independent computations in extended '
         'precision. Positions on the border of two pixels may go to either. Empty arrays are refused by f2py and are not '
         'generated. Sampling, not a proof.')

prop(
    'C15', 'Units follow the algebra of physical quantities',
    'Operations on quantities multiply, divide, raise and simplify their units consistently: converting to any compatible '
    'unit and back restores the values, a conversion to an incompatible unit raises, and the unit of the result of an '
    'operation is that of the operation on the units.',
    ['inputs'], 'For every pair of units, derived units and shapes.', 'The tests sample a few units.',
    ['src/pysimulators/quantities.py'], [('Quantity.tounit, inunit, __array_wrap__', 'src/pysimulators/quantities.py')],
    ['the value and unit of the results'],
    na='The result of a conversion is a pure function of its arguments: no schedule, fault, time, I/O, randomness or history '
       'decides it, so that simulation has nothing to control. That conversions neither alter shared state nor depend on '
       'previous or failed calls is decided by C13.')

prop(
    'C16', 'Beams integrate to their solid angle',
    'The value of a beam at a direction, its solid angle and its integral over the sphere agree, for gaussian and uniform beams, '
    'in any direction and for any width.',
    ['inputs'], 'For every width, direction and type of beam.', 'The tests sample a few widths.',
    ['src/pysimulators/beams.py'], [('BeamGaussian, BeamUniformHalfSpace', 'src/pysimulators/beams.py')],
    ['the values of the beams'],
    na='A beam is a closed formula without state, threads, I/O or randomness: nothing that a simulator could schedule or '
       'make fail. That evaluating it leaves its arguments intact is part of C13; Healpix maps of it need healpy, which is '
       'not installed.')

prop(
    'C17', 'The simulated noise has the requested spectrum',
    'The noise of an instrument is, detector by detector, gaussian white noise from the random generator filtered so that its '
    'spectrum is the requested one: white (standard deviation, per detector or not, or noise equivalent power), 1/f, or a one- '
    'or two-sided power spectrum density interpolated in log-log, for any number of detectors and samples, sampling period, '
    'distribution over processes, partition in blocks, output array and accumulation. The inverse time-time correlation '
    'operator is the band Toeplitz matrix of the inverse of this spectrum. Neither depends on previous or failed calls nor on '
    'uninitialised memory, inconsistent models are refused, and the arguments are unaltered.',
    ['inputs', 'schedules', 'fault_sequences'],
    'For every noise model, state of the random generator, process grid, partition, output array and failure of a transform.',
    'The tests look at the standard deviation of a flat spectrum with a loose tolerance, in one process.',
    ['src/pysimulators/noises.py', 'src/pysimulators/instruments.py', 'src/pysimulators/acquisitions.py'],
    [('_gaussian_psd_1f, _gaussian_sample, _psd2invntt', 'src/pysimulators/noises.py'),
     ('Instrument.get_noise, Instrument.get_invntt_operator', 'src/pysimulators/instruments.py')],
    ['the noise timelines for seeded random generators', 'the inverse time-time correlation operator applied to vectors'],
    [('numpy.random', 'the generator of every simulated process', 'Instrument.get_noise'),
     ('fft', 'the transforms, made to fail', 'noises.py')],
    technique='Deterministic simulation of distributed noise generation with seeded generators per process, poisoned memory and '
              'transforms which fail, against the filtering of the same random stream by the definition of the spectrum',
    note='The spectrum is decided as a filter of the stream of the generator, not as an average. numpy.fft stands in for pyfftw '
         'in noises.py. Sampling, not a proof.')


prop(
    'C18', 'Derived coordinates follow their definitions through any history',
    'The coordinates which tables derive from their attributes are those of their definitions, element by element: the '
    'centres and vertices of grids, with their units, reflections, rotation and origin, rows and columns; the times, period, '
    'spherical, cartesian, equatorial and galactic coordinates of pointings and their mean direction; the pixels and world '
    'coordinates, rows, columns, 1-d indices and arrays of scenes; the transforms of imagers. They remain so for any '
    'combination of scalar and array arguments, after any history of selections, of assignments (to attributes, to parts of '
    'them, to derived attributes, to the period, date and location), copies, scattering and gathering, and for any contents '
    'of uninitialised memory. A copy or a selection leaves the original unaltered, and inconsistent arguments are refused.',
    ['inputs', 'histories', 'schedules', 'configurations'],
    'For every way of making a table, its dtypes and units, and every history of operations on it, by any number of processes.',
    'The tests evaluate a few derived attributes of tables just made; none is evaluated again after an alteration, nor is a '
    'date given as a Time or a coordinate shared by the pointings.',
    ['src/pysimulators/packedtables/layouts.py', 'src/pysimulators/packedtables/samplings.py',
     'src/pysimulators/packedtables/scenes.py', 'src/pysimulators/packedtables/core.py', 'src/pysimulators/instruments.py'],
    [('LayoutGrid, LayoutGridSquares, Layout', 'src/pysimulators/packedtables/layouts.py'),
     ('SamplingSpherical, SamplingEquatorial, SamplingHorizontal', 'src/pysimulators/packedtables/samplings.py'),
     ('Scene, SceneGrid.fromfits', 'src/pysimulators/packedtables/scenes.py'),
     ('PackedTable.__getattribute__, __setattr__, __getitem__', 'src/pysimulators/packedtables/core.py')],
    ['the derived attributes of the tables on every rank, after each operation'],
    [('_special_attributes', 'attributes which follow the selection', 'PackedTable'), ('_index', 'selected elements', 'PackedTable')],
    technique='deterministic simulation: seeded histories of distributed tables over poisoned memory and seeded rank schedules, '
              'against a reference model of the table evaluated after each operation',
    note='The model keeps the indices and the attributes of every process, and evaluates the definitions with numpy. The sidereal '
         'time is the linear mean sidereal time of the package. Sampling, not a proof.')
