K = 'kymatio/'
EXH = 'exhaustive bounded enumeration of configurations and inputs against an independent reference model'

prop('C01', 'The 1-D transform equals its documented cascade, path by path',
 "For every valid configuration (J, N, Q, T, stride, max_order) and every finite real signal, Scattering1D returns exactly "
 "the paths (), (n1,) and (n1,n2) with j2>j1, in increasing order of scattering order and filter indices, and each coefficient equals "
 "the documented cascade: reflection padding, circular convolution with the Morlet wavelets of a constant-Q filterbank, modulus, "
 "and Gaussian low-pass of width T, sampled every `stride` samples. "
 "With T=0 the un-averaged moduli of every path are returned at their own resolution 2**j, and with T='global' each path is summed over time.",
 ['configurations', 'inputs'],
 'every (J, N, Q, T, stride, max_order, out_type) of a bounded lattice (all admissible small values), and for each the full batch of '
 'unit impulses, constant, sinusoids and (for N<=8) all signals over {-1,0,1}',
 'The tests compare one stored configuration (J=6, Q=8, N=4096) and a handful of shapes; the cascade branches on J, T, stride, j1 and j2 '
 'in dozens of combinations (which resolution of which filter is used) that no stored reference visits.',
 [K+'scattering1d/core/scattering1d.py', K+'scattering1d/frontend/base_frontend.py', K+'scattering1d/filter_bank.py',
  K+'scattering1d/backend/numpy_backend.py', K+'scattering1d/utils.py'],
 [('scattering1d cascade', K+'scattering1d/core/scattering1d.py'), ('scattering() sorting, unpadding and averaging', K+'scattering1d/frontend/base_frontend.py'),
  ('filters at every reachable resolution', K+'scattering1d/filter_bank.py:scattering_filter_factory')],
 'exploration', EXH,
 'Every configuration of the stated lattice is built and run; a float64 reference written from the formulas (time-domain decimation, own filterbank) '
 'decides each path to 1e-6. Nothing is claimed about sizes beyond the lattice.')

prop('C02', 'The 2-D transform equals its documented cascade, path by path',
 "For every valid (J, L, shape, max_order, pre_pad) and every real image, Scattering2D returns S0, then all first-order paths in the order (j, theta), "
 "then all second-order paths with j2>j1 (n1 outer, n2 inner), and each coefficient equals the cascade of oriented Morlet convolution, modulus and "
 "Gaussian low-pass sampled every 2**J pixels on the reflection-padded image (on the given padded image when pre_pad=True). "
 "Every coefficient map has spatial size (M // 2**J, N // 2**J), for odd, rectangular and minimal shapes alike.",
 ['configurations', 'inputs'],
 'every (J, L, M, N, max_order, pre_pad, out_type) of a bounded lattice including rectangular, odd and minimal (2**J) shapes, with impulses, ramps, '
 'oriented gratings and a seeded dense image',
 'The tests use one stored 32x32, J=2, L=8 image; non-square, odd, minimal-size, J=1 and L!=8 cascades are only tested for shape or not at all.',
 [K+'scattering2d/core/scattering2d.py', K+'scattering2d/filter_bank.py', K+'scattering2d/utils.py', K+'scattering2d/backend/numpy_backend.py',
  K+'scattering2d/frontend/numpy_frontend.py', K+'scattering2d/frontend/base_frontend.py'],
 [('scattering2d cascade', K+'scattering2d/core/scattering2d.py'), ('padding', K+'scattering2d/frontend/base_frontend.py:build')],
 'exploration', EXH,
 'Reference in float64 from the Morlet formulas, independent FFT cascade; agreement to 1e-4 of each path maximum (filters are single precision in kymatio).')

prop('C03', 'The 3-D solid harmonic transform equals its definition',
 "For every valid (J, L, shape, sigma_0, max_order, rotation_covariant, integral_powers) and every real volume, HarmonicScattering3D returns an array indexed "
 "(..., path, l[, power]) where the paths are all (j1) followed by all (j1<j2), and each entry is the integral of the p-th power of the modulus of "
 "the solid harmonic wavelet convolutions (combined over m when rotation_covariant). "
 "The helper generating weighted sums of Gaussians equals its closed formula, with the documented rule that weights after a zero weight are ignored.",
 ['configurations', 'inputs'],
 'all (J, L, shape, sigma_0, max_order, rotation_covariant, integral_powers) of a bounded lattice including anisotropic and odd shapes, with every unit impulse class and seeded dense volumes',
 'The tests have one stored volume and check one shape per frontend; anisotropic shapes, odd sizes, non-default sigma_0, powers and max_order are not compared to anything.',
 [K+'scattering3d/core/scattering3d.py', K+'scattering3d/filter_bank.py', K+'scattering3d/utils.py', K+'scattering3d/backend/numpy_backend.py', K+'scattering3d/frontend/numpy_frontend.py'],
 [('scattering3d cascade', K+'scattering3d/core/scattering3d.py'), ('solid harmonics', K+'scattering3d/filter_bank.py')],
 'exploration', EXH,
 'Reference with own spherical harmonics (associated Legendre recursion) in float64; agreement to 1e-4 relative.')

prop('C04', 'The joint time-frequency transform equals its documented cascade',
 "For every valid TimeFrequencyScattering configuration (J, J_fr, Q, T, stride, Q_fr, F, stride_fr, format, out_type) and signal, the output consists of exactly "
 "the documented paths, and each coefficient equals the joint cascade: temporal scattering, convolution across log-frequency with "
 "low-pass and spinned wavelets, modulus, then averaging in time and in frequency sampled at stride and stride_fr. "
 "Formats 'time' and 'joint' and out_types 'array', 'list' and 'dict' present the same coefficients under consistent keys.",
 ['configurations', 'inputs'],
 'all (J, J_fr, Q, T, stride, Q_fr, F, stride_fr, format, out_type) of a bounded lattice with T and F each in {local values, 0, global}; impulses, chirps and a seeded signal',
 'The tests exercise the default strides and check shapes and that nothing raises; no test compares a joint coefficient with its definition.',
 [K+'scattering1d/core/timefrequency_scattering.py', K+'scattering1d/frontend/base_frontend.py', K+'scattering1d/filter_bank.py'],
 [('joint_timefrequency_scattering and jtfs_average_and_format', K+'scattering1d/core/timefrequency_scattering.py'),
  ('TimeFrequencyScatteringBase.scattering', K+'scattering1d/frontend/base_frontend.py')],
 'exploration', EXH,
 'Every configuration of the lattice is run; float64 reference with own filterbank. The un-unpadded frequency axis of joint arrays follows the code (locked by existing tests).')

prop('C05', 'The 1-D filterbanks are a complete analytic multiresolution family',
 "For every valid (J, Q, T, N), the published 1-D filters are Morlet wavelets with zero mean and unit L1 norm and a Gaussian low-pass with unit DC gain, "
 "whose center frequencies decrease from the documented maximum by a factor 2**(1/Q) and then arithmetically, with the documented bandwidths and maximal "
 "subsampling factors, jointly covering all frequencies up to the highest center frequency (Littlewood-Paley sum at most 1 once the padded signal resolves the longest wavelet). "
 "Each filter is provided at every resolution that the transform can reach and each level equals the full-resolution filter periodized in frequency.",
 ['configurations'],
 'every (J, Q1, Q2, T, N) of a bounded lattice: all filters, all levels, all frequency bins',
 'The tests sample a few (J, Q) at N=4096-like sizes and check Morlet zero mean and one Littlewood-Paley bound; subsampled levels and reachable resolutions are not covered.',
 [K+'scattering1d/filter_bank.py', K+'scattering1d/frontend/base_frontend.py'],
 [('anden_generator, morlet_1d, scattering_filter_factory', K+'scattering1d/filter_bank.py')],
 'exploration', 'exhaustive enumeration of a bounded configuration lattice, every filter bin checked against closed formulas',
 'All filters and levels of every configuration are compared with independent formulas (1e-7) and checked for the frame invariants.')

prop('C06', 'The 2-D filterbanks are oriented Morlet families at every resolution',
 "For every valid (J, L, M, N), the published 2-D filters are J*L real-in-Fourier zero-mean Morlet wavelets ordered by (j, theta), the L orientations of a scale being rotations "
 "of one another, plus one Gaussian low-pass of width 2**J with DC gain close to one. "
 "Each filter is provided at every resolution the cascade reaches, and each level equals the frequency-cropped, periodized full-resolution filter.",
 ['configurations'],
 'every (J, L, M, N) of a bounded lattice: all filters, levels and frequency bins',
 'The tests compare the filters with nothing: only shapes and one periodize_filter_fft value appear.',
 [K+'scattering2d/filter_bank.py', K+'scattering2d/frontend/base_frontend.py'],
 [('filter_bank, periodize_filter_fft, morlet_2d', K+'scattering2d/filter_bank.py')],
 'exploration', 'exhaustive enumeration of a bounded configuration lattice, every filter bin checked against closed formulas',
 'All bins of all filters of each configuration against float64 formulas (1e-5).')

prop('C07', 'The 3-D filters are solid harmonics with the documented symmetries',
 "For every valid (J, L, shape, sigma_0), the published 3-D filters are, for each order l and scale j, the 2l+1 solid harmonic wavelets whose sum of squared moduli over m "
 "depends only on the radius, with conjugation symmetry between m and -m and zero DC for l>0; the Gaussian filters are unit-DC Gaussians of width sigma_0 * 2**j. "
 "Filters built in signal space are the inverse Fourier transforms of those built in Fourier space when the volume resolves them.",
 ['configurations'],
 'every (J, L, M, N, O, sigma_0) of a bounded lattice: all filters and frequency bins',
 'The tests check one norm and one orthogonality relation at a single size.',
 [K+'scattering3d/filter_bank.py', K+'scattering3d/utils.py', K+'scattering3d/frontend/base_frontend.py'],
 [('solid_harmonic_filter_bank, gaussian_filter_bank', K+'scattering3d/filter_bank.py'), ('get_3d_angles, double_factorial', K+'scattering3d/utils.py')],
 'exploration', 'exhaustive enumeration of a bounded configuration lattice, every filter bin checked against closed formulas',
 'All bins of all filters of each configuration, float64 formulas, 1e-5.')

prop('C08', 'Output geometry: no configuration reads outside or misaligns the signal',
 "For every valid N, J, Q, T and stride, the 1-D output has ceil-type length determined only by N, the padding and the stride, always contains the stride-grid samples that lie inside the signal and "
 "none from the padding beyond one stride, and padding never exceeds N-1 on either side; T=0 outputs of each path have that geometry at stride 2**j. "
 "A unit impulse at time t produces its largest zeroth-order response at the output sample nearest to t, for every t.",
 ['configurations', 'inputs'],
 'every N in a contiguous interval, every J with 2**J<=N, T in a menu and every power-of-two stride; impulses at every position',
 'Shape tests cover N equal to a few powers of two; the border-index arithmetic (ceil halvings of left and right indices) depends on every bit of N, J and T.',
 [K+'scattering1d/utils.py', K+'scattering1d/frontend/base_frontend.py', K+'scattering1d/filter_bank.py'],
 [('compute_border_indices, compute_padding, parse_T', K+'scattering1d/utils.py'), ('build()', K+'scattering1d/frontend/base_frontend.py')],
 'exploration', 'exhaustive enumeration of all (N, J, T, stride) of a bounded interval, with every impulse position',
 'All N in the interval, not a sample; output lengths and alignment decided against exact integer arithmetic.')

prop('C09', 'meta(), output_size() and every out_type describe the same coefficients',
 "For every configuration of Scattering1D and TimeFrequencyScattering, meta() and output_size() describe exactly the rows of the array output in order (keys, orders, filter indices, center frequencies, bandwidths, scales), "
 "the list and dict outputs carry the same coefficients (and, for joint paths, as many frequential rows as meta() lists) under the same keys and metadata, and max_order=1 output is the prefix of max_order=2 output. "
 "In 2-D the list output has the same coefficients, in the same order and with correct j, theta and n metadata, as the array output.",
 ['configurations', 'inputs'],
 'every configuration of a bounded lattice (1-D, JTFS, 2-D) crossed with all out_types, formats and max_order values',
 'Tests check lengths of meta for a few configurations; agreement between the row and the description of the row is not asserted, and T, stride and order variations are not crossed.',
 [K+'scattering1d/frontend/base_frontend.py', K+'scattering1d/core/scattering1d.py', K+'scattering1d/core/timefrequency_scattering.py', K+'scattering2d/core/scattering2d.py'],
 [('meta(), output_size(), out_type handling', K+'scattering1d/frontend/base_frontend.py')],
 'exploration', 'exhaustive enumeration of a bounded configuration lattice, differential oracle between the presentations of one transform',
 'Differential: list, dict, array, meta() and the published filters must agree on every configuration explored.')

prop('C10', 'All frontends compute the same transform',
 "For every transform (1-D, 2-D, 3-D, joint time-frequency where provided) and configuration, the NumPy, scikit-learn, PyTorch, TensorFlow, Keras and JAX frontends give the same coefficients in the same layout, up to "
 "floating-point precision, as real floating-point arrays of their own framework, for single- and double-precision inputs. "
 "Under JAX jit compilation and inside tf.function graphs the results are unchanged.",
 ['configurations', 'inputs'],
 'every (frontend, transform, configuration, dtype, out_type) of a bounded lattice with impulses and seeded signals',
 'Each frontend is tested against the stored file at one configuration; frontends are never compared with one another across configurations.',
 [K+'frontend/entry.py', K+'scattering1d/frontend/torch_frontend.py', K+'scattering1d/frontend/tensorflow_frontend.py', K+'scattering1d/frontend/jax_frontend.py',
  K+'scattering1d/frontend/keras_frontend.py', K+'scattering2d/frontend/torch_frontend.py', K+'scattering3d/frontend/torch_frontend.py', K+'scattering3d/frontend/tensorflow_frontend.py', K+'scattering3d/backend/torch_backend.py'],
 [('per-framework frontends and backends', K+'scattering{1,2,3}d/{frontend,backend}/')],
 'exploration', 'exhaustive enumeration of a bounded configuration lattice, differential oracle across six frontends',
 'Every frontend on every configuration of the lattice against NumPy (itself decided by C01-C04). The CUDA (skcuda) backends are the subject of C26.')

prop('C11', 'Batch dimensions are transparent',
 "For every transform, frontend and configuration, transforming an array with any leading batch shape (none, one or several axes, C- or Fortran-ordered or strided) gives, at each batch index, the coefficients of that signal transformed alone, "
 "in the same output layout with the batch axes leading. "
 "Permuting, duplicating or stacking batch entries permutes, duplicates or stacks the outputs and never mixes signals.",
 ['configurations', 'inputs'],
 'all batch shapes with at most 3 axes and extents at most 3, all memory layouts of a menu, across 1-D, 2-D, 3-D, JTFS and out_types on NumPy, PyTorch and JAX (all) and TensorFlow (thorough)',
 'Tests use one or two batch shapes and mostly assert shapes, not that entries keep their identity.',
 [K+'backend/numpy_backend.py', K+'backend/torch_backend.py', K+'scattering1d/frontend/base_frontend.py', K+'scattering2d/frontend/numpy_frontend.py', K+'scattering3d/frontend/numpy_frontend.py',
  K+'scattering2d/frontend/torch_frontend.py', K+'scattering3d/frontend/torch_frontend.py'],
 [('reshape_input / reshape_output', K+'backend/numpy_backend.py'), ('batch reshaping in frontends', K+'scattering2d/frontend/numpy_frontend.py')],
 'exploration', 'exhaustive enumeration of all batch shapes and memory layouts up to a bound, differential oracle (single-signal run)',
 'All batch shapes within the bound per configuration.')

prop('C12', 'A transform object is stateless: no call history changes a result',
 "For every sequence of operations on transform objects (calls on different inputs, meta() and output_size(), setting max_order or out_type and restoring it, failed calls, copies, pickling, "
 "overwriting a returned output in place), each call returns exactly what a fresh object with the same settings returns. "
 "Calls modify neither their input nor previously returned outputs, and objects do not influence one another.",
 ['histories'],
 'all operation sequences up to a depth over an alphabet of about a dozen operations, on 1-D, 2-D, 3-D and JTFS objects of the NumPy and PyTorch frontends (JAX and scikit-learn in part)',
 'Tests call each object once or twice; no test looks at the object after another operation, a failure, or a mutation of its output.',
 [K+'scattering1d/frontend/base_frontend.py', K+'scattering1d/frontend/torch_frontend.py', K+'scattering2d/frontend/base_frontend.py', K+'scattering2d/frontend/torch_frontend.py', K+'scattering3d/frontend/torch_frontend.py', K+'scattering3d/frontend/tensorflow_frontend.py'],
 [('filters held by the object and registered/loaded around a call', K+'scattering1d/frontend/torch_frontend.py')],
 'model_checking', 'explicit-state search over the real objects: all operation histories up to a depth, compared at each step with a fresh-object reference',
 'States are observed-behaviour fingerprints (settings and filters) of the real objects; every transition calls the real code; the reference is a pure function of the settings.',
 state=[('filters', 'wavelets and low-pass held by the object (arrays, tensors or registered buffers)', K+'scattering1d/frontend/torch_frontend.py')])

prop('C13', 'Transform objects can be shared by threads',
 "For every interleaving of threads that call, describe (meta(), output_size()), construct or copy transform objects, shared or not, each thread obtains exactly the result it would obtain alone and no call raises. "
 "Concurrent construction of objects with equal or different settings never corrupts their filters, and replicas of a PyTorch module with buffers of their own (torch.nn.DataParallel) each compute with their own buffers.",
 ['schedules'],
 'all interleavings of two threads (three in thorough for some harnesses) at the granularity of single operations (statements, attribute and item accesses, calls) of kymatio functions, up to a preemption bound',
 'No test starts a thread; a race between publishing and reading intermediate state needs one particular schedule.',
 [K+'scattering1d/frontend/base_frontend.py', K+'scattering2d/core/scattering2d.py', K+'scattering3d/core/scattering3d.py', K+'scattering3d/frontend/torch_frontend.py',
  K+'scattering1d/frontend/torch_frontend.py', K+'frontend/base_frontend.py'],
 [('locals only on the call path', K+'scattering1d/core/scattering1d.py'), ('self.averaging and integral_powers', K+'scattering3d/frontend/torch_frontend.py')],
 'model_checking', 'stateless model checking of the real code under a controlled operation-level scheduler, preemption-bounded exhaustive exploration',
 'All schedules with at most the stated number of preemptions at operations of kymatio source; C-level races inside NumPy or PyTorch are out of scope.')

prop('C14', 'PyTorch modules keep their meaning through their life cycle',
 "For every sequence of torch.nn.Module operations on a torch scattering object (double()/float() and back, state_dict save and load, deepcopy, pickle, nn.Sequential nesting, train/eval, no_grad), the module computes the same "
 "coefficients as the NumPy transform with the same settings. "
 "state_dict() of a module loads with strict=True into any other module with the same settings, and the filters are buffers (no parameters, no gradients). Under torch.compile, functional_call, activation checkpointing, shared memory and hooks the module gives the outputs and gradients of a plain call.",
 ['histories'],
 'all sequences up to a depth over the life-cycle operations, for 1-D, JTFS, 2-D and 3-D modules',
 'Tests exercise one cuda()/cpu() move; state dict round trips and sequences of moves are not tested.',
 [K+'scattering1d/frontend/torch_frontend.py', K+'scattering2d/frontend/torch_frontend.py', K+'scattering3d/frontend/torch_frontend.py', K+'frontend/torch_frontend.py'],
 [('register_filters / load_filters', K+'scattering1d/frontend/torch_frontend.py'), ('register_filters / load_filters', K+'scattering2d/frontend/torch_frontend.py')],
 'model_checking', 'explicit-state search over life-cycle operation histories of the real modules, reference = NumPy transform',
 'Breadth-first search with de-duplication on (dtype, training flag, filter fingerprints); device moves other than CPU cannot be run here.')

prop('C15', 'PyTorch scattering is differentiable with correct, finite gradients',
 "For every configuration and input, including inputs where a modulus vanishes (the zero signal, constants, sparse signals), gradients of the PyTorch scattering are finite and, where the transform is differentiable, equal the true derivative. "
 "The gradient at the zero signal of first- and second-order coefficients is zero, back-propagation works through every path and out_type, and does not disturb the outputs, the inputs or a second back-propagation. The gradient of one batch entry does not depend on the other entries and, for the 1-D, 2-D and joint transforms (homogeneous of degree one), the derivative does not depend on the amplitude of the input. Back-propagating twice gives the true second derivative where the 1-D, 2-D and joint transforms are twice differentiable, and directional derivatives (torch.autograd.functional.jvp) are finite everywhere and equal the Jacobian product.",
 ['configurations', 'inputs'],
 'every configuration of a bounded lattice, every basis direction of small signals, inputs including all-zero and sparse signals',
 'Tests check gradients of the modulus at zero and that backward runs for one configuration.',
 [K+'backend/torch_backend.py', K+'scattering1d/backend/torch_backend.py', K+'scattering2d/backend/torch_backend.py', K+'scattering3d/backend/torch_backend.py'],
 [('Modulus / ModulusStable autograd function', K+'backend/torch_backend.py')],
 'exploration', 'exhaustive enumeration of configurations and of all basis directions, derivative oracle (float64 central differences of the NumPy reference)',
 'All coordinates of the gradient for every configuration and input of the lattice; derivative compared with float64 central differences.')

prop('C16', 'Invalid arguments are rejected and leave no trace',
 "Every constructor argument or input outside the domain the library documents or validates (inconsistent T, stride, Q, shape, out_type, format, method or backend, wrong spatial size, too few dimensions, non-array or empty input) raises an exception, of the documented kind where one is documented, in every frontend, at construction or at the latest at the call that would use it; it never yields a result. "
 "A rejected call leaves the object able to process valid inputs with unchanged results, and every valid argument combination at the border of the domain is accepted.",
 ['configurations', 'inputs', 'histories'],
 'every single-fault deviation from a valid configuration or input in an enumerated table, per frontend and transform, followed by a valid call',
 'Tests assert many of the errors but per frontend only partly, never the absence of corruption afterwards, and not that border-valid arguments are accepted.',
 [K+'frontend/base_frontend.py', K+'scattering1d/frontend/base_frontend.py', K+'scattering1d/utils.py', K+'scattering2d/frontend/base_frontend.py', K+'scattering2d/frontend/torch_frontend.py',
  K+'scattering3d/frontend/torch_frontend.py', K+'backend/numpy_backend.py', K+'backend/torch_backend.py', K+'backend/tensorflow_backend.py'],
 [('_check_runtime_args, input_checks, _instantiate_backend, parse_T', K+'scattering1d/frontend/base_frontend.py')],
 'exploration', 'exhaustive enumeration of single-fault deviations from valid calls, with recovery check after each',
 'Every listed fault in every frontend that accepts the argument; only exception types are judged, not messages.')

prop('C17', 'Backend primitives agree with their mathematical definition',
 "For every backend (NumPy, PyTorch, TensorFlow, JAX) and every admissible small shape, the primitives the transforms are made of (padding, unpadding, Fourier transforms, pointwise product, Fourier-domain subsampling, modulus, stacking, averaging, "
 "axis manipulations, integrals) equal their mathematical definitions. "
 "Subsampling in Fourier is decimation in the signal domain, and the inverse transform inverts the forward one.",
 ['inputs', 'configurations'],
 'all primitives, all shapes up to a bound, all admissible subsampling factors and paddings, on basis and dense inputs',
 'Tests check each primitive on one random tensor of one size per backend.',
 [K+'backend/numpy_backend.py', K+'backend/torch_backend.py', K+'backend/tensorflow_backend.py', K+'scattering1d/backend/numpy_backend.py', K+'scattering1d/backend/torch_backend.py', K+'scattering1d/backend/tensorflow_backend.py',
  K+'scattering2d/backend/numpy_backend.py', K+'scattering2d/backend/torch_backend.py', K+'scattering2d/backend/tensorflow_backend.py', K+'scattering3d/backend/numpy_backend.py', K+'scattering3d/backend/torch_backend.py', K+'scattering3d/backend/tensorflow_backend.py'],
 [('backend classes', K+'scattering{1,2,3}d/backend/')],
 'exploration', 'exhaustive enumeration of small shapes and parameters, oracle = direct definition (DFT matrices, explicit index maps)',
 'All shapes and parameters within the bound; primitives are those the existing tests import.')

prop('C18', 'The cache directory is resolved and created safely',
 "For every combination of explicit base directory, KYMATIO_CACHE, HOME and name, the cache directory is the documented path; with create=True it exists when the call returns, nothing else is created or modified, and with create=False nothing is created and a missing directory is reported by ValueError. "
 "Any number of processes or threads requesting the same or nested directories concurrently, interrupted at any point, all succeed (a later call completes an interrupted creation).",
 ['schedules', 'crash_points', 'configurations'],
 'all environment combinations; all interleavings at file-system-call granularity of two and three callers; a crash after every file-system call',
 'Tests call it once sequentially; the check-then-create race and the interrupted creation need a specific interleaving.',
 [K+'caching.py'],
 [('find_cache_base_dir, get_cache_dir', K+'caching.py')],
 'model_checking', 'stateless model checking: all interleavings of file-system calls of 2-3 callers and all crash points, on the real code in a scratch directory',
 'File-system calls made by the os module are the scheduling points; the file system itself is trusted.')

prop('C19', 'Keras layers and TensorFlow graphs are faithful',
 "For every configuration, a Keras scattering layer inside a model gives the coefficients of the NumPy transform, compute_output_shape() equals the shape of the actual output, get_config() carries the arguments needed to rebuild an equal layer, and the description of the coefficients (meta(), output_size()) is that of the NumPy transform. "
 "TensorFlow transforms called eagerly, in tf.function with unknown batch size, and under gradient tapes agree with one another.",
 ['configurations', 'histories'],
 'every configuration of a bounded lattice of Keras and TensorFlow transforms, crossed with batch sizes and call modes',
 'Tests build one Keras model per dimension and check one configuration.',
 [K+'frontend/keras_frontend.py', K+'scattering1d/frontend/keras_frontend.py', K+'scattering2d/frontend/keras_frontend.py', K+'frontend/tensorflow_frontend.py', K+'scattering1d/frontend/tensorflow_frontend.py'],
 [('ScatteringKeras', K+'frontend/keras_frontend.py'), ('compute_output_shape, get_config', K+'scattering1d/frontend/keras_frontend.py')],
 'exploration', 'exhaustive enumeration of a bounded configuration lattice x call modes, differential oracle (NumPy transform)',
 'All configurations and call modes of the lattice; weights-file formats are not covered.')

prop('C20', 'scikit-learn transformers obey the estimator contract',
 "For every sequence of get_params, set_params, clone, fit, transform and scattering calls on the scikit-learn transformers, get_params returns the current constructor arguments, clone gives an equivalent unfitted estimator, and transform of flattened inputs equals the flattened NumPy scattering "
 "of an object constructed with the current parameters. "
 "set_params takes effect as if the object had been constructed with the new parameters, and invalid sample shapes are rejected.",
 ['histories', 'configurations'],
 'all operation sequences up to a depth over get/set_params, clone, fit, transform, pickle for 1-D, 2-D and 3-D transformers and a Pipeline',
 'Tests run one pipeline per dimension, without get_params, set_params or clone.',
 [K+'frontend/sklearn_frontend.py', K+'scattering1d/frontend/sklearn_frontend.py', K+'scattering2d/frontend/sklearn_frontend.py', K+'scattering3d/frontend/sklearn_frontend.py'],
 [('ScatteringTransformerMixin', K+'frontend/sklearn_frontend.py')],
 'model_checking', 'explicit-state search over estimator operation histories, reference = freshly constructed NumPy transform',
 'State = parameter assignment; every transition runs the real estimator and is compared with the reference.')

prop('C21', 'Translations and rotations act as the theory says',
 "In 3-D, every circular translation of the volume leaves all coefficients unchanged and, with rotation_covariant=True, every axis permutation/reflection that is a rotation of a cubic volume does too; "
 "in 2-D on pre-padded images, circular shifts by multiples of 2**J shift every coefficient map, and a quarter-turn rotation rotates the maps and permutes orientation indices (even L). "
 "In 1-D, signals supported away from the borders shift covariantly by multiples of the stride, and T='global' coefficients do not change under such shifts.",
 ['inputs', 'configurations'],
 'all circular shifts of small volumes, all 24 rotations of the cube, all admissible shifts in 2-D and 1-D, across a configuration lattice',
 'Tests check one translation and one rotation on a stored example in 3-D and none in 1-D and 2-D.',
 [K+'scattering3d/core/scattering3d.py', K+'scattering3d/filter_bank.py', K+'scattering2d/core/scattering2d.py', K+'scattering2d/filter_bank.py', K+'scattering1d/core/scattering1d.py'],
 [('modulus_rotation over m', K+'scattering3d/backend/numpy_backend.py'), ('orientation indexing', K+'scattering2d/filter_bank.py')],
 'exploration', 'exhaustive enumeration of group elements (all shifts, all cube rotations) on a bounded configuration lattice, metamorphic oracle',
 'All group elements within the stated groups; tolerances account for single-precision filters.')

prop('C22', 'Scattering is homogeneous, even in its moduli, nonnegative and stable',
 "For every transform, configuration and signals x, y: S0 is linear; first- and higher-order coefficients are nonnegative up to round-off, unchanged under x -> -x, and scale by |c| (|c|**p for 3-D powers) under x -> c*x. "
 "The transform of the zero signal is zero, in 1-D each locally averaged coefficient is bounded by the maximum modulus of the signal (in 2-D by a constant of the wavelet times it), and small changes of the input change coefficients proportionally (Lipschitz bound), at every amplitude from tiny to huge.",
 ['inputs', 'configurations'],
 'all signals over {-1,0,1} for small sizes, impulses, sinusoids and seeded signals at amplitudes over many orders of magnitude, across a configuration lattice and frontends',
 'Tests check non-expansiveness for one random signal.',
 [K+'scattering1d/core/scattering1d.py', K+'scattering2d/core/scattering2d.py', K+'scattering3d/core/scattering3d.py', K+'backend/numpy_backend.py', K+'backend/torch_backend.py'],
 [('modulus', K+'backend/numpy_backend.py'), ('L1-normalised filters', K+'scattering1d/filter_bank.py')],
 'exploration', 'exhaustive enumeration of small-alphabet signals and amplitudes on a bounded configuration lattice, algebraic oracle',
 'All ternary signals of the stated lengths; bounds follow from unit L1 norm of the filters.')

prop('C23', 'Public objects dispatch to the right frontend and survive copying',
 "For every frontend name (in any letter case, NumPy by default) and class, kymatio.<Class>(frontend=...) yields the same type of object and coefficients as kymatio.<frontend>.<Class>, regardless of import order, and unknown frontends are rejected by an error. "
 "Every NumPy, PyTorch, scikit-learn and JAX transform object can be copied, deep-copied and pickled, before or after calls, and the copy computes the same coefficients independently.",
 ['configurations', 'histories'],
 'all (class, frontend, spelling, import order) combinations; all objects of a configuration menu times copy mechanisms times call histories',
 'Tests instantiate each frontend through the entry class once in one process; import order and copying are not covered.',
 [K+'frontend/entry.py', K+'__init__.py', K+'numpy.py', K+'torch.py', K+'jax.py', K+'sklearn.py', K+'scattering1d/frontend/entry.py'],
 [('ScatteringEntry', K+'frontend/entry.py')],
 'exploration', 'exhaustive enumeration of dispatch configurations in fresh processes and of copy mechanisms',
 'All combinations listed; fresh interpreter per import order.')

prop('C24', 'JAX and TensorFlow transforms have correct, finite derivatives',
 "For every configuration and input, the derivatives of the JAX transforms (grad, forward and reverse mode, before or after jit, over vmap, in single and double precision) and of the TensorFlow transforms (gradient tapes, persistent and nested, forward accumulators, eager or inside tf.function with known or unknown batch size) equal the true derivative of the transform where it is differentiable. "
 "They are finite where a modulus vanishes (the zero signal, constants, sparse signals; 3-D powers of at least 1), and zero at the zero signal for coefficients of first and higher order. jax.vmap over any axis equals the batched call.",
 ['configurations', 'inputs'],
 'every configuration of a bounded lattice x frontends x differentiation modes, every basis direction of small signals, dense and degenerate inputs',
 'Tests differentiate no JAX transform and one TensorFlow modulus.',
 [K+'backend/jax_backend.py', K+'backend/numpy_backend.py', K+'backend/tensorflow_backend.py', K+'scattering3d/backend/jax_backend.py', K+'scattering3d/backend/tensorflow_backend.py', K+'scattering1d/core/scattering1d.py'],
 [('modulus and modulus_rotation', K+'scattering3d/backend/jax_backend.py'), ('tf.abs / tf.sqrt in the modulus', K+'scattering3d/backend/tensorflow_backend.py')],
 'exploration', 'exhaustive enumeration of configurations, differentiation modes and all basis directions, derivative oracle (float64 central differences of the reference)',
 'All entries of the Jacobian for every configuration, input and mode of the lattice; values of dense inputs are seeded.')

prop('C25', 'Results do not depend on process-wide settings, which stay untouched',
 "For every transform and frontend, whatever process-wide settings are in force while an object is constructed, called or differentiated, and whatever they are changed to in between, the results are those obtained under default settings: default dtype, device, gradient mode, autocast and determinism in PyTorch; x64, debugging and jit switches in JAX; floatx and eager-function switches in TensorFlow; NumPy's floating-point error handling (except underflow), warnings turned into errors, seeds, locale, garbage collection, missing streams, environment or working directory, interpreter options, hash seeds and thread counts. "
 "Importing kymatio, constructing and calling transforms leave these settings and the random generators as they were.",
 ['histories', 'configurations'],
 'all ordered pairs (triples) of settings at construction and at calls, for every frontend and a menu of configurations; all combinations of interpreter options and environments of a menu in fresh processes',
 'Tests run under the default settings of one process only.',
 [K+'scattering1d/frontend/torch_frontend.py', K+'scattering2d/frontend/torch_frontend.py', K+'scattering3d/frontend/torch_frontend.py', K+'scattering3d/backend/torch_backend.py', K+'scattering3d/utils.py', K+'__init__.py', K+'scattering1d/filter_bank.py'],
 [('register_filters', K+'scattering3d/frontend/torch_frontend.py'), ('np.seterr around the spherical angles', K+'scattering3d/utils.py')],
 'model_checking', 'explicit-state exploration of all histories of ambient settings up to depth 2-3 on the real classes, oracle: results under default settings and a snapshot of the process-wide state',
 'All ordered pairs of settings of the menu per frontend; framework switches which forbid ordinary broadcasting or promotion and float16 Keras policies are excluded.',
 state=[('settings in force', 'process-wide configuration of Python, NumPy and the framework', K+'scattering3d/utils.py')])

prop('C26', 'The CUDA kernels compute the same transforms',
 "With backend='torch_skcuda', every transform of CUDA tensors, in single and double precision and for every admissible shape, equals the same transform with backend='torch' up to rounding, and the primitives (modulus, Fourier-domain subsampling, pointwise product) equal their definitions. "
 "In every launch each word of the output is written by exactly one thread, so that no scheduling of threads matters; nothing is read or written outside the tensors; inputs survive; work goes to the caller's current stream and device; results do not depend on earlier calls. CPU tensors, real inputs, strided tensors, mismatched shapes or precisions are rejected before anything runs.",
 ['inputs', 'configurations', 'histories', 'schedules'],
 'all threads of all launches, over shapes around the boundaries of blocks, all factors and batch shapes of a menu, both precisions; all ordered pairs (triples) of calls on two streams and two devices',
 'The tests of these backends need a GPU; they are skipped here and in the public CI, and use square images, single precision and one shape.',
 [K+'backend/torch_skcuda_backend.py', K+'scattering1d/backend/torch_skcuda_backend.py', K+'scattering2d/backend/torch_skcuda_backend.py', K+'scattering3d/backend/torch_skcuda_backend.py'],
 [('periodize and abs_complex_value kernels', K+'scattering2d/backend/torch_skcuda_backend.py'), ('cdgmm on cuBLAS', K+'backend/torch_skcuda_backend.py'), ('load_kernel memoization', K+'scattering1d/backend/torch_skcuda_backend.py')],
 'model_checking', 'exhaustive execution of all threads of the real kernels on an emulated device with a write-once audit, over enumerated shapes and histories; oracle: definitions in double precision and the torch backend',
 'The CUDA C source is compiled for the host and executed thread by thread; cuBLAS is replaced by its specification; no GPU exists in this sandbox.',
 state=[('compiled kernels', 'cache keyed by device, code, sizes, factor and precision', K+'scattering1d/backend/torch_skcuda_backend.py')])
