SIMNOTE = 'seeded random exploration: a clean batch is evidence, not proof; floating-point code inside GSL/GLPK/Eigen calls from system libraries is executed atomically between preemption points'
PY = 'src/interface_python.cpp'

prop('C01', 'Results do not depend on the schedule or the number of threads',
 'Every multi-threaded construction or computation of the library (expansions, splines, action-finder tables, model moments and targets, integration, orbits, array evaluation) returns the same result for any number of threads and any interleaving of them, up to the order of floating-point summation where a sum over particles is accumulated. It also terminates without deadlock, crash or memory corruption under every schedule.',
 ['schedules', 'inputs', 'configurations'],
 'all thread interleavings at the granularity of individual memory accesses, team sizes 1-8 (including teams smaller than requested and nested regions), over randomly drawn models, grids, symmetries and point sets',
 'the tests run each computation once or a few times with the operating system\'s schedule and one team size; a race window of a few instructions in one of ~30 parallel regions is practically never hit and usually changes digits no test compares',
 ['src/math_spline.cpp', 'src/math_sample.cpp', 'src/potential_multipole.cpp', 'src/potential_cylspline.cpp', 'src/potential_utils.cpp', 'src/actions_spherical.cpp', 'src/actions_staeckel.cpp', 'src/galaxymodel_base.cpp', 'src/galaxymodel_jeans.cpp', 'src/galaxymodel_losvd.cpp', 'src/galaxymodel_velocitysampler.cpp', PY],
 [('parallel loops write to disjoint elements; shared reductions are in critical/ordered sections', 'src/potential_multipole.cpp, src/potential_cylspline.cpp, src/galaxymodel_losvd.cpp'), ('per-thread temporary storage inside the loops', 'src/math_spline.cpp, src/galaxymodel_losvd.cpp'), ('static schedule of blocks where the random generator is involved', 'src/math_sample.cpp')],
 observe=['values returned by the Python interface'],
 technique='deterministic simulation of the OpenMP runtime with seeded preemption at memory accesses; differential oracle against the one-thread run',
 note=SIMNOTE)

prop('C02', 'Threads of the caller may use the library and its objects at the same time',
 'Several threads of the calling program may run operations of the library concurrently and share models, interpolators and other objects, as long as none of them changes the global settings (units, number of threads, random seed). Each call returns the value, or raises the error, that it would return or raise alone (sampling operations: a valid sample); an error or a user-function failure in one thread never shows up in another; nothing crashes or deadlocks, and afterwards the interrupt handler of the caller is in place and the shared objects still give the same results.',
 ['schedules', 'histories', 'inputs'],
 'two to four host threads with histories of up to four operations from a catalogue of about forty-five, sharing potentials, densities, distribution functions, action finders, targets, splines and orbits; all interleavings of the host threads and of the OpenMP teams they start; failing operations mixed in',
 'every test is a single-threaded program as far as the caller is concerned; a data race between two callers needs a specific overlap',
 [PY, 'src/utils.cpp', 'src/math_core.cpp', 'src/math_random.cpp', 'src/potential_factory.cpp', 'src/smart.h', 'src/galaxymodel_base.cpp'],
 [('GIL released during array evaluation and long computations, global and static state behind locks or thread-local', PY+', src/math_core.cpp'), ('shared interrupt handler counted over all computations', 'src/utils.cpp (CtrlBreakHandler)'), ('objects shared by reference-counted pointers to constant data', 'src/smart.h')],
 observe=['values and exceptions of each call', 'installed signal handler', 'repeated calls afterwards'],
 technique='deterministic simulation of host threads, GIL and OpenMP teams under one seeded scheduler; differential oracle against each call alone',
 note=SIMNOTE)

prop('C03', 'A failure inside parallel work surfaces as one exception, nothing is lost',
 'When user-supplied code or a computation fails inside work that the library distributes over threads, the call ends with one error for the caller (or, in phase-space integrals where this is documented behaviour, a logged failure), never a crash, deadlock or a normally looking result. Afterwards the interrupt handler is the original one, no memory is lost, and the same operation with a healthy function gives the right answer.',
 ['fault_sequences', 'schedules', 'inputs'],
 'failures (exceptions, non-numeric or wrongly shaped results) at any call of the user function, once or repeatedly, under any interleaving and team size, for every operation that evaluates user functions in parallel',
 'no test makes a user function fail at the k-th call inside a parallel region; the interesting cases depend on which thread fails while the others are at which instruction',
 [PY, 'src/math_core.cpp', 'src/math_sample.cpp', 'src/math_spline.cpp', 'src/potential_multipole.cpp', 'src/potential_cylspline.cpp', 'src/actions_spherical.cpp', 'src/actions_staeckel.cpp', 'src/galaxymodel_base.cpp', 'src/galaxymodel_losvd.cpp'],
 [('exceptions caught inside each parallel loop, message stored, rethrown after the loop', 'all parallel regions'), ('per-thread error channel for code called through C libraries', 'src/math_core.cpp'), ('interrupt handler installed and removed by scope', 'src/utils.cpp')],
 observe=['Python exceptions, values of repeated calls, live allocations, installed signal handler'],
 technique='deterministic simulation: seeded failures of user callbacks at chosen calls combined with seeded schedules; recovery oracle',
 note=SIMNOTE)

prop('C04', 'A keyboard interrupt stops lengthy work promptly and leaves nothing behind',
 'An interrupt signal arriving at any instant of a library call (array evaluation, construction of expansions and action finders, sampling, integration, targets, orbits, moments; with built-in or user-supplied Python functions) ends it with KeyboardInterrupt after the units of work already begun, never with another error, a crash or a silently incomplete result. Afterwards the previous interrupt handler is in place and repeating the same call gives the normal result.',
 ['fault_sequences', 'schedules', 'inputs'],
 'one or several interrupts at every step of about forty operations, under all interleavings and team sizes; before, inside and after the sections in which the library itself handles the signal',
 'a test would have to hit a particular instant with a real signal; none of the tests sends one',
 ['src/utils.cpp', PY, 'src/galaxymodel_base.cpp', 'src/math_sample.cpp', 'src/potential_cylspline.cpp', 'src/potential_multipole.cpp'],
 [('scoped handler that stores the signal in a flag checked by the loops', 'src/utils.cpp (CtrlBreakHandler)'), ('interrupt converted to KeyboardInterrupt', PY+' (raisePythonException)')],
 observe=['Python exceptions, installed signal handler, steps executed after the interrupt, result of the repeated call'],
 technique='deterministic simulation: interrupt delivered at seeded steps of seeded schedules; recovery oracle and bounded-promptness check',
 note=SIMNOTE)

prop('C05', 'An array of points is evaluated exactly like its points one by one',
 'Every method that accepts an array of points (potentials, densities, forces, circular-orbit tools, projections, actions, action mapping, distribution and selection functions, moments and velocity distributions of models) returns, for arrays of any length including empty ones and including special points, the value that the same method returns for each point alone, in the order of the input, independently of how the points are split between threads.',
 ['schedules', 'inputs', 'configurations'],
 'array lengths around every block boundary of the work distribution, all schedules, team sizes 1-8, per-point auxiliary arguments (times, angles), unit systems, special points (zero, huge, NaN)',
 'the tests evaluate small arrays, usually below the threshold at which the work is distributed at all, and compare with loose tolerances',
 [PY, 'src/math_base.h', 'src/potential_utils.cpp'],
 [('blocks of points cover the array exactly once; output row = input row', PY+' (BatchFunction)'), ('vectorised evaluation in derived classes equals the scalar one', PY+', src/potential_base.cpp, src/potential_composite.cpp')],
 observe=['values returned by the Python interface'],
 technique='deterministic simulation with seeded schedules; refinement against the one-point-at-a-time reference',
 note=SIMNOTE)

prop('C10', 'The same seed gives the same random results, whatever the threads do',
 'After setRandomSeed(s) every stochastic operation (sampling from functions, densities and models, randomised target construction) returns the same sequence of results regardless of the number of threads and their interleaving; different seeds, and automatic seeding from the clock, give different results, and two consecutive calls do not repeat each other.',
 ['schedules', 'histories', 'configurations'],
 'histories of seeding and sampling operations, all schedules and team sizes (for a fixed maximum number of threads where the documentation promises no more), clock values',
 'a test fixes one seed and one number of threads; a wrong assignment of generator states to threads only shows when the work is split differently',
 ['src/math_random.cpp', 'src/math_sample.cpp', 'src/galaxymodel_base.cpp', 'src/galaxymodel_velocitysampler.cpp', PY],
 [('per-cell generator state derived from a hash', 'src/math_sample.cpp'), ('per-thread generators seeded together', 'src/math_random.cpp')],
 observe=['arrays returned by sample() and related methods'],
 technique='deterministic simulation: seeded schedules and a virtual clock; differential oracle between runs of the same history',
 note=SIMNOTE)

prop('C06', 'A file reported as written is complete; a failed write is reported',
 'Every operation that writes snapshots, models or coefficient files either reports success, and then the file holds the complete data that a fault-free run writes, or raises an exception when the device is full, a write or the final flush or close fails; short or interrupted writes never corrupt or truncate the output. When the process dies at any point, files finished before are intact, and the unfinished one holds a prefix of the complete file. No file descriptor stays open.',
 ['crash_points', 'histories', 'inputs'],
 'sequences of writes to one or several files in all formats; every write, flush and close call may be short, interrupted or fail, the disk may become full after any number of bytes, the process may die at any call',
 'tests write to a healthy disk; an unreported failure shows only when the error arises at the last flush or close',
 ['src/particles_io.cpp', 'src/potential_factory.cpp', 'src/galaxymodel_spherical.cpp', 'src/raga_potential.cpp'],
 [('writers of snapshots (text, nemo, gadget)', 'src/particles_io.cpp'), ('writers of coefficients', 'src/potential_factory.cpp'), ('writeSphericalIsotropicModel etc', 'src/galaxymodel_spherical.cpp')],
 observe=['exception or success of the call', 'bytes in the file', 'list of open descriptors'],
 technique='deterministic simulation of the file system calls with seeded write faults, full disk and crash points; prefix and completeness oracle against the fault-free run',
 note=SIMNOTE)

prop('C07', 'Reading a damaged or failing file gives the correct data or an error',
 'Reading a snapshot, time-dependent array, tabulated model or profile returns exactly the data in the file irrespective of how the operating system splits the reads; an input error, or a file cut at a point where this can be noticed, is reported as an exception and never taken for the normal end of data; no input leads to a crash, memory error or leaked descriptor.',
 ['inputs', 'crash_points', 'histories'],
 'files in all supported formats; reads short, interrupted or failing at any call; files cut at any byte (crash of the writer), with lines or bytes damaged',
 'tests read intact files from a healthy disk',
 ['src/particles_io.cpp', 'src/utils_config.cpp', 'src/utils.cpp', 'src/potential_factory.cpp', 'src/galaxymodel_spherical.cpp', 'src/galaxymodel_jeans.cpp'],
 [('readers of snapshots', 'src/particles_io.cpp'), ('ConfigFile', 'src/utils_config.cpp'), ('readTimeDependentArray, GalPot and profile readers', 'src/potential_factory.cpp, src/galaxymodel_spherical.cpp')],
 observe=['returned data or exception', 'list of open descriptors'],
 technique='deterministic simulation of the file system calls with seeded read faults, torn and damaged files; reference reader as oracle',
 note=SIMNOTE)

prop('C08', 'An exported model loads back as the same model; a torn file is rejected',
 'A potential or density expansion written by export() and loaded again gives the same potential, force and density to the accuracy of the stored digits, in any unit system, for every symmetry, order and composition; exporting the loaded model again changes nothing. A file cut short at a point where coefficients are missing, or with a missing line of coefficients, is rejected, and I/O errors during export or import are reported.',
 ['inputs', 'crash_points', 'histories'],
 'all expansion types and composites, built from models or particles; unit systems; cuts at every byte; lines duplicated, deleted, blanked; faults in any read or write',
 'tests export one model per type and load it from an intact file',
 ['src/potential_factory.cpp', 'src/potential_multipole.cpp', 'src/potential_cylspline.cpp', 'src/units.h'],
 [('writePotential*/writeDensity*', 'src/potential_factory.cpp'), ('readPotential/readDensity, parse*Harmonics', 'src/potential_factory.cpp'), ('getCoefs and constructors from coefficients', 'src/potential_multipole.cpp, src/potential_cylspline.cpp')],
 observe=['values of the loaded model', 'exception on loading'],
 technique='deterministic simulation of the file system calls with seeded crash points and faults; round-trip oracle',
 note=SIMNOTE)

prop('C09', 'Configuration files keep their content over any history of edits',
 'A configuration (INI) file behaves as an ordered list of sections and parameters with case-insensitive names: every value set is the value retrieved, before and after the file has been closed and opened again; comments, blank lines, order, and everything not touched are preserved; removed or extracted parameters stay removed; a duplicated parameter is rejected. A file is rewritten only when modified; a failure to store it produces a message; an input error is reported; if the process dies, the file holds its old content or a beginning of the new one.',
 ['histories', 'crash_points', 'inputs'],
 'sequences of sessions (open, up to a dozen operations, close) on one or two files with arbitrary initial content; read, write, open and close faults, full disk and crashes at every system call',
 'no test writes a configuration file; the existing one reads a fixed file',
 ['src/utils_config.cpp', 'src/utils_config.h', 'src/utils.cpp'],
 [('KeyValueMap', 'src/utils_config.cpp'), ('ConfigFile (read in the constructor, stored in the destructor)', 'src/utils_config.cpp')],
 observe=['values returned by the C++ interface', 'bytes in the file', 'messages on the standard error'],
 technique='deterministic simulation of the file system calls with seeded histories, faults and crash points; refinement against an executable reference model',
 note=SIMNOTE)

prop('C12', 'An allocation failing in a parallel computation is reported, and nothing else',
 'When a memory allocation made inside a parallel computation fails in any of its threads, the call raises an exception (or, for operations documented to log a failed evaluation of a single element, reports zero or NaN for it): it never returns a wrong result silently, terminates the process, hangs, or leaks the memory allocated so far, the interrupt handler is restored, and the same call repeated when memory is available gives the right result.',
 ['fault_sequences', 'schedules', 'histories', 'inputs'],
 'any one or several allocations out of those made in the parallel regions of any operation, for any number of threads and any schedule',
 'no test makes an allocation fail; which thread fails, and what the others have done by then, depends on the schedule',
 ['src/math_core.cpp', 'src/math_sample.cpp', 'src/math_spline.cpp', 'src/galaxymodel_base.cpp', 'src/galaxymodel_losvd.cpp', 'src/galaxymodel_target.cpp', 'src/galaxymodel_jeans.cpp', 'src/potential_multipole.cpp', 'src/potential_cylspline.cpp', 'src/orbit.cpp', PY],
 [('parallel regions and their try/catch blocks', 'src/*.cpp (#pragma omp parallel)'), ('failure of allocations in the workspace of the cubature library', 'src/cubature.cpp'), ('translation of failures into exceptions', PY)],
 observe=['exceptions, values returned', 'termination or deadlock of the simulated process', 'count of live allocations', 'interrupt handler'],
 technique='deterministic simulation with failing allocations (operator new and malloc) in the threads of parallel regions under seeded schedules; refinement against a fault-free reference run, and a repeated call after the failure',
 note=SIMNOTE)

prop('C14', 'Objects live exactly as long as something uses them; nothing leaks',
 'Whatever is passed to the library (arrays, user-defined Python functions, other library objects) stays alive and usable through every object derived from it, no matter in what order, in which thread, or during which computation (including from inside a user-defined function being called) the references held by the caller are dropped; once its last user is gone, it is released; and no call, whether it succeeds, fails because of its arguments, a user-defined function or a failed allocation in a parallel computation, or is interrupted, leaks memory, Python objects or references.',
 ['histories', 'schedules', 'fault_sequences', 'inputs'],
 'any history of creating, deriving, using and dropping objects in any number of host threads, with any failure of any call in it',
 'the tests create objects in a fixed order and drop them at exit; leaks and dangling references of error paths, or of a particular order of destruction, leave all results of the tests unchanged',
 [PY, 'src/smart.h', 'src/galaxymodel_selfconsistent.cpp', 'src/cubature.cpp', 'src/math_core.cpp', 'src/orbit.cpp', 'src/potential_factory.cpp'],
 [('constructors and destructors of Python wrapper classes and user functions', PY), ('reference counting of arguments and results', PY), ('shared pointers', 'src/smart.h')],
 observe=['weak references to user functions', 'counts of live native allocations and Python blocks', 'reference counts of arguments', 'values returned by derived objects'],
 technique='deterministic simulation of histories of object creation, use and destruction by several host threads with injected failures (user functions, allocations, signals), heap quarantine with use-after-free detection, and conservation of native memory and Python references over repeated histories',
 note=SIMNOTE)

prop('C15', 'A batch of orbits equals its orbits one by one, with exact bookkeeping',
 'A call that integrates many orbits returns for each of them, in the order of input, the same trajectory, times, deviation vectors, Lyapunov exponent and target contributions as a separate call for that orbit, for any number of threads. The stored times begin and end with the requested interval and are regularly spaced, arrays have the requested size and type, an orbit whose integration fails does not affect others, the reported progress never exceeds the number of orbits and reaches it if the call is not interrupted, and an interrupted call returns complete orbits or nothing for those not started.',
 ['schedules', 'fault_sequences', 'inputs', 'configurations'],
 'combinations of per-orbit or common times, starting times, storage modes, data types, integration methods, rotating frames, targets, with failing potentials, interrupts, a failing or slow progress bar, clock jumps, under all schedules and team sizes',
 'tests integrate small sets of orbits without failures and do not look at progress or at per-orbit variation of the parameters',
 [PY, 'src/orbit.cpp', 'src/orbit_lyapunov.cpp', 'src/orbit_variational.cpp'],
 [('loop over orbits, per-orbit settings and results', PY+' (orbit)'), ('storage of trajectory at regular intervals', 'src/orbit.cpp (RuntimeTrajectory)')],
 observe=['values returned by agama.orbit', 'calls of the progress bar'],
 technique='deterministic simulation with seeded schedules, interrupts, callback failures and a virtual clock; refinement against the one-orbit-at-a-time reference',
 note=SIMNOTE)

# ---------------------------------------------------------------- not applicable
def na(id, title, statement, text, why, files, reason):
    prop(id, title, statement, ['inputs'], text, why, files, [('numerical implementation', ', '.join(files))], na=reason)
PURE = 'a pure function of its numerical input: no schedule, clock, I/O, randomness or failure takes part, so simulation with fault injection has nothing to decide (its schedule-independence is covered by C01)'
na('N01', 'Forces are the gradient of the potential', 'For every potential the returned acceleration and its derivatives equal the derivatives of the returned potential value at the same point and time.',
 'all potential models, parameters, points', 'tests compare at a few points of a few models', ['src/potential_base.h', 'src/potential_analytic.cpp', 'src/potential_multipole.cpp', 'src/potential_cylspline.cpp'], PURE)
na('N02', 'Density and potential are related by the Poisson equation', 'For every potential the returned density equals the Laplacian of the potential divided by 4 pi G, and an expansion built from a density reproduces it to the accuracy of the expansion.',
 'all models and points', 'tests sample a few models and compare with loose tolerances', ['src/potential_multipole.cpp', 'src/potential_cylspline.cpp'], PURE)
na('N03', 'Actions are integrals of motion and invert to phase-space coordinates', 'Actions computed along an orbit are conserved to the accuracy of the method, and the inverse transformation returns the original coordinates.',
 'all potentials and orbits', 'tests follow a handful of orbits', ['src/actions_spherical.cpp', 'src/actions_staeckel.cpp', 'src/actions_torus.cpp'], PURE)
na('N04', 'Distribution functions have the stated normalisation and are non-negative', 'The integral of a distribution function over actions equals its reported total mass, and its value is non-negative for every valid action.',
 'all models and parameters', 'tests integrate a few models', ['src/df_halo.cpp', 'src/df_disk.cpp', 'src/df_spherical.cpp'], PURE)
na('N05', 'Orbit integration conserves the integrals of motion', 'In a time-independent potential the energy (or Jacobi energy) along a numerically integrated orbit stays within the requested accuracy.',
 'all potentials, initial conditions and accuracies', 'tests integrate a few orbits', ['src/orbit.cpp', 'src/math_ode.cpp'], PURE)
na('N06', 'Coordinate and unit conversions are mutually inverse', 'Converting a position, velocity, force or tensor between coordinate systems, orientations and unit systems and back returns the original values.',
 'all coordinates including the axis and the origin', 'tests sample a set of points', ['src/coord.cpp', 'src/units.h'], PURE)
na('N07', 'Optimisation and linear-algebra solvers return optimal, feasible solutions', 'The returned solution of a linear, quadratic or least-squares problem satisfies its constraints and is optimal within the tolerance.',
 'all problem instances', 'tests solve a few small problems', ['src/math_optimization.cpp', 'src/math_linalg.cpp', 'src/math_fit.cpp'], PURE)
na('N08', 'Samples follow the requested distribution', 'Points drawn from a density or distribution function follow it statistically.',
 'all models and sample sizes', 'tests compare a few moments', ['src/math_sample.cpp', 'src/galaxymodel_base.cpp'], 'a statistical property of a numerical algorithm for a fixed generator state; schedules and seeds enter only through reproducibility, which is a separate property')
