#!/usr/bin/python3
'''Writes properties.jsonl. The text lives here because it is easier to edit'''
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=(),state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
                  quantifier=dict(over=over,text=text),why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                               mechanism=[dict(name=a,where=b) for a,b in mech],
                               observe_at=list(observe),hook_needed=hook)))

p('C01','The corner cache is all-or-nothing',
  'When chessboard corners are detected with a cache file requested, then after any detector failure, I/O error, full disk, interrupt or crash, or with another detection running at the same time, the cache path holds either exactly what it held before or the complete output of one successful detection, never anything partial or corrupted. '
  'A detection that returns normally has committed a complete cache that a later call reads back to the identical result, and a later call never treats the leftovers of a failed detection as a cache.',
  ['crash_points','fault_sequences','histories'],
  'every detector exit status and output, every failing, short or crashing system call during detection and caching, every sequence of such attempts followed by re-reads',
  'The tests contain no detector run at all: they only read finished corners.vnl files. Which system call fails, or where the process dies, is outside what a unit test varies.',
  ['mrcal/calibration.py'],
  [('temporary file, then move to the final path after exit status 0','mrcal/calibration.py compute_chessboard_corners()'),
   ('cache used if it exists and parses','mrcal/calibration.py compute_chessboard_corners()')],
  ['mrcal.compute_chessboard_corners(): return value, exception','the cache file contents'],
  [('corners_cache_vnl','the cache file','mrcal/calibration.py'),('mrgingham','detector subprocess','mrcal/calibration.py')])

p('C02','Corner detection terminates and does not depend on child timing',
  'Detecting corners terminates for every way the external detector can interleave, chunk and delay any amount of standard output and standard error, and for every way it can exit or die; the detector process is reaped and no descriptor or temporary file is left behind. '
  'The observations returned are a function of the detector output alone, not of its timing or chunking, and a detector that fails always surfaces as an error.',
  ['schedules','fault_sequences','inputs'],
  'all schedules of a child process writing two finite-capacity pipes against the parent, all exit codes and signals, and all well-formed or malformed detector outputs',
  'No test runs a detector subprocess; a deadlock needs a specific volume of stderr at a specific point.',
  ['mrcal/calibration.py'],
  [('subprocess handling','mrcal/calibration.py compute_chessboard_corners()')],
  ['return value, exception or hang of mrcal.compute_chessboard_corners()','process and descriptor tables'])

p('C03','A camera model written without an error reads back the same',
  'If writing a camera model (the Python writer to a path or an open file, or the C writer to a path) reports success, then reading the file back with any of the readers gives the same lens model, imager size, extrinsics, intrinsics and valid-intrinsics region (to 10 significant digits for .cameramodel files, to the precision of the format for .cahvor files) and, from Python and .cameramodel files, bit-identical optimization inputs and camera indices; writing what was read reproduces the same bytes. '
  'Any failing or short write, full disk or failing open or close during the write is either compensated for or reported as an error, never swallowed, and an error while reading is reported or retried, never turned into a different model. '
  'A model that the requested file format cannot represent (.cahvor: CAHVOR, CAHVORE and pinhole models; .yaml: pinhole and OPENCV4/5/8 models) is rejected without damaging a file already at that path.',
  ['inputs','fault_sequences','histories'],
  'all valid finite models of every lens model, with and without optimization inputs and regions; all sequences of I/O faults during write and read; chains of write/read generations',
  'Tests write a handful of models on a healthy disk and check few fields.',
  ['mrcal/cameramodel.py','mrcal/cahvor.py','mrcal.c','cameramodel-parser.re'],
  [('text writer and reader','mrcal/cameramodel.py cameramodel.write(), _write(), _read_into_self()'),
   ('optimization-inputs serializer','mrcal/cameramodel.py _serialize_optimization_inputs()'),
   ('C writer','mrcal.c mrcal_write_cameramodel_file()')],
  ['cameramodel.write() / cameramodel(path)','mrcal_write_cameramodel_file() / mrcal_read_cameramodel_file()'])

p('C04','A torn .cameramodel file is never read as a different model',
  'When the process writing a .cameramodel file dies at any instant, or the file is cut at any byte or has had a range of bytes lost to zeros, each reader (the Python class; the C file, string and preallocated-buffer readers) either rejects the file with an error or reads exactly the model that was being written. '
  'No reader crashes, hangs or reads outside the data it was given on such a file.',
  ['crash_points','inputs'],
  'every model and every crash point in its writing: every prefix and every zeroed tail of the file',
  'Tests parse a few hand-written malformed strings; the crash points of the writer and the cross product with every reader are not sampled.',
  ['mrcal/cameramodel.py','cameramodel-parser.re'],
  [('a model is complete only with its closing brace','mrcal/cameramodel.py _read_into_self(); cameramodel-parser.re read_cameramodel_from_string()')],
  ['cameramodel(path)','mrcal_read_cameramodel_file(), _string(), _file_into(), _string_into()'])

p('C05','The C model readers fail cleanly under resource faults',
  'Under any failing open, stat, memory mapping or allocation, the C camera-model readers (file, string, preallocated buffer, and the Python argument converter) either return exactly the model in the file or report failure with a null result. '
  'A failed read leaves no file descriptor, memory mapping or heap block behind, reports the needed buffer size when and only when the supplied buffer was too small, and does not disturb later reads, which succeed with the right result.',
  ['fault_sequences','histories','inputs'],
  'all histories of reads of valid, invalid and empty models interleaved with all single and multiple resource failures',
  'Tests never make an allocation or system call fail and never look for leaks.',
  ['cameramodel-parser.re','python-cameramodel-converter.c','mrcal.c'],
  [('goto-done cleanup','cameramodel-parser.re read_cameramodel_from_file(), read_cameramodel_from_string()'),
   ('converter cleanup','python-cameramodel-converter.c mrcal_cameramodel_converter()')],
  ['return values, *Nintrinsics_max','descriptor table, mappings, live heap blocks'])

p('C06','Saved images survive, and failed image I/O is reported',
  'If saving an image or a point cloud reports success, the file is complete: a lossless format (png, pgm, ppm, binary ply; ascii ply to one decimal) reads back with identical pixels or points for every size, depth, stride and channel count (a 16-bit image loaded as 8-bit has its brightness range stretched), and a jpg is byte-identical to what a fault-free save produces. '
  'Every failing open, read, write, close or allocation while saving or loading is reported as a failure, never as success and never by killing the process, and loading a file cut short never yields an image with made-up size or type. '
  'After a failure no descriptor or buffer is leaked and the same operation succeeds when the fault is gone.',
  ['inputs','fault_sequences'],
  'all image types, sizes, strides and formats; all sequences of I/O and allocation faults',
  'Tests save a few images to a healthy disk.',
  ['image.c','mrcal-pywrap.c','mrcal/utils.py'],
  [('format writers','image.c generic_save_png/pnm/jpg()'),('loader','image.c mrcal_image_anytype_load()'),
   ('Python bindings','mrcal-pywrap.c load_image(), save_image()'),('ply writer','mrcal/utils.py write_point_cloud_as_ply()')],
  ['mrcal.save_image(), mrcal.load_image(), mrcal.write_point_cloud_as_ply()'])

p('C07','A camera model object stays consistent over any history',
  'After any sequence of constructions, copies, reads, writes, getters, setters and resets, including calls that fail, a camera model reports exactly what a simple reference model of the documented semantics reports: setting intrinsics invalidates the optimization inputs and the valid-intrinsics region, setting extrinsics invalidates neither, all views of the pose agree, and a call that raises leaves the object as it was. '
  'No caller-owned array, earlier getter result, copy or other model shares state with the object, and every reachable state can be written out and read back.',
  ['histories','fault_sequences'],
  'all operation sequences over several model objects with valid and invalid arguments and failing I/O',
  'Tests exercise setters one at a time, and mostly with valid arguments; interactions between successive operations, failed calls and aliasing are not sampled.',
  ['mrcal/cameramodel.py'],
  [('copying getters and setters','mrcal/cameramodel.py class cameramodel'),('validation','mrcal/cameramodel.py _validateIntrinsics() etc')],
  ['every public method of mrcal.cameramodel'])

p('C08','Ctrl-C works during a solve, and is as it was afterwards',
  'While the optimizer or its callback runs, SIGINT at any instant terminates the process promptly. '
  'As soon as the call returns or raises, by success, by failure of any kind, or with several threads calling in any interleaving, the signal disposition is what it was before and SIGINT behaves as the application set it up.',
  ['schedules','crash_points','fault_sequences'],
  'all signal arrival points in a solve, all ways a solver call can end, all interleavings of solver calls from several Python threads',
  'No test sends a signal.',
  ['mrcal-pywrap.c','python-wrapping-utilities.h'],
  [('SET_SIGINT/RESET_SIGINT','python-wrapping-utilities.h'),('solver entry points','mrcal-pywrap.c _optimize()')],
  ['process exit status','signal disposition before and after mrcal.optimize(), mrcal.optimizer_callback()'],
  [('SIGINT disposition','process-global','mrcal-pywrap.c')])

p('C09','The C library gives serial results under any thread schedule',
  'Calls into the C library from several threads, working on their own outputs and sharing only read-only inputs, return bit-for-bit what the same calls return when made alone, whatever the interleaving. '
  'This holds for projection, unprojection, pose, triangulation, stereo and rectification, image, model reading and writing, state-layout and optimizer functions, including calls that fail.',
  ['schedules'],
  'all interleavings, at memory-access granularity, of concurrent library calls',
  'The library is never called from more than one thread in the tests.',
  ['mrcal.c','cameramodel-parser.re','poseutils.c','poseutils-uses-autodiff.cc','triangulation.cc','stereo.c','image.c','opencv.c','cahvore.cc','uncertainty.c','traverse-sensor-links.c','heap.cc'],
  [('no mutable static state','all of libmrcal')],
  ['return values and output buffers of the C API'],
  [('static variables','shared between threads','libmrcal.so .data/.bss')])

p('C10','Python API results do not depend on history',
  'The result of a call of the Python API (projections, poses, triangulation, stereo, state layout, optimizer callback, solves, factorizations, uncertainty, images, seeds, traversal) depends only on its arguments: it is bit-identical whether made in a fresh process, after any sequence of other calls, including ones that raised or were starved of memory, or interleaved with other Python threads. '
  'Strided, transposed, overlapping or empty array arguments give the result of a contiguous copy of them or, where a function does not support such a layout, an error that says so. '
  'Arguments not documented as modified in place are left untouched, results handed out earlier never change, and objects holding a factorization stay usable independently of each other and of the arrays they came from.',
  ['histories','schedules','fault_sequences'],
  'all sequences and interleavings of API calls with succeeding and failing arguments',
  'Each test makes a fixed sequence of calls in its own process; state leaking from one call into another one is not looked for.',
  ['mrcal/','mrcal-pywrap.c','mrcal-genpywrap.py','poseutils-genpywrap.py','triangulation-genpywrap.py','mrcal.c'],
  [('stateless functions','mrcal/*.py, libmrcal')],
  ['return values and arguments of the mrcal.* functions'])

p('C11','Parallel tools give serial results, and worker failures surface',
  'A tool that processes images with parallel workers produces, for any number of jobs, any assignment of work to workers and any completion order, exactly the output files of the serial run. '
  'If any piece of work fails or the tool is interrupted, the tool exits with a failure status and does not report success; without --force it never overwrites a file that already existed, and inputs that would map to the same output file are rejected.',
  ['schedules','fault_sequences','configurations'],
  'all job counts, task schedules and placements of worker failures',
  'The tests do not run the parallel path.',
  ['mrcal-reproject-image','mrcal-stereo'],
  [('worker pool','mrcal-reproject-image, mrcal-stereo: multiprocessing.Pool map_async()')],
  ['exit status, output directory'])

p('C12','Batch converters are complete or fail, and never clobber',
  'A command-line converter that exits with status 0 has produced every requested output completely and correctly, on disk or on standard output (except those it reported as already existing or as needing no conversion), whatever I/O faults occurred; otherwise it exits with a nonzero status. '
  'No converter ever modifies an input file or overwrites an existing output without --force, and where it crashes or fails part way, each output path holds its old contents, nothing, or a prefix of the right contents.',
  ['fault_sequences','crash_points','configurations'],
  'all batches of inputs, option combinations, pre-existing files, I/O faults and crash points',
  'Tests convert single models on a healthy disk and do not check the exit status under faults.',
  ['mrcal-to-cahvor','mrcal-from-cahvor','mrcal-to-kalibr','mrcal-from-kalibr','mrcal-from-ros','mrcal-graft-models','mrcal-convert-lensmodel','mrcal-cull-corners','mrcal-rotate-corners','mrcal-reproject-points','mrcal-is-within-valid-intrinsics-region','mrcal/cahvor.py','mrcal/cameramodel.py'],
  [('existence checks before writing','mrcal-to-cahvor, mrcal-from-cahvor, mrcal-convert-lensmodel, ...')],
  ['exit status, stdout, output files'])

p('C13','A calibration run is reproducible and its models are consistent',
  'mrcal-calibrate-cameras, given the same observations, writes models with the same contents whatever the time, host, hash seed, directory order, detector timing or job count; with a different random-number state the models explain the observations equally well. '
  'If it exits with status 0 every requested camera has a complete model on disk whose parameters equal those in its embedded optimization inputs and whose embedded solve is the same for all cameras; under any I/O fault, detector failure or crash it exits with a failure and no readable model with different contents is left behind.',
  ['schedules','fault_sequences','crash_points'],
  'all environments (clock, host, hash seed, file order) and all I/O fault sequences and crash points of a calibration run',
  'The tool is run once per test in one environment on a healthy disk.',
  ['mrcal-calibrate-cameras','mrcal/calibration.py','mrcal/cameramodel.py'],
  [('fixed pipeline','mrcal-calibrate-cameras')],
  ['exit status, OUTDIR/camera-N.cameramodel'])

p('C14','Sensor-link traversal survives failing callbacks',
  'Traversing sensor links visits each reachable sensor other than the reference exactly once, along a path of minimum total cost, in order of non-decreasing cost, for every connectivity and every result order of the callbacks. '
  'If a callback raises at any point the exception reaches the caller unchanged, no further callbacks are made, nothing is leaked, and the next traversal is unaffected; a callback that returns False stops the traversal likewise. '
  'A traversal that succeeded returns a true value.',
  ['inputs','fault_sequences','histories'],
  'all connectivity graphs, all points at which a callback fails, all histories of failed and successful traversals, including re-entrant ones',
  'One fixed graph with callbacks that never fail.',
  ['traverse-sensor-links.c','heap.cc','mrcal-pywrap.c'],
  [('Dijkstra over a binary heap','traverse-sensor-links.c, heap.cc'),('exception propagation','mrcal-pywrap.c traverse_sensor_links()')],
  ['mrcal.traverse_sensor_links() callbacks and exceptions'])

# ---------- pure functions: real guarantees, not simulation targets
def q(id,title,statement,text,why,files,mech):
    p(id,title,statement,['inputs'],text,why,files,mech)
q('N01','unproject() inverts project()',
  'For every lens model and every point in the model\'s valid domain, unprojecting a projected point gives back the same observation direction, with or without gradients and normalization.',
  'all lens models, parameters and points','tests sample a few points per model',
  ['mrcal.c','cahvore.cc','mrcal/projections.py'],[('project/unproject','mrcal.c mrcal_project(), mrcal_unproject()')])
q('N02','Analytical gradients equal the derivatives of the values',
  'Every gradient reported by projection, pose, triangulation and optimizer-callback functions is the derivative of the value reported by the same call.',
  'all functions with gradients, all arguments','tests compare against finite differences at a few points',
  ['mrcal.c','poseutils.c','poseutils-uses-autodiff.cc','triangulation.cc'],[('gradient propagation','mrcal.c project(), _autodiff.hh')])
q('N03','Pose transformations form a consistent group',
  'Composition, inversion and application of rotations and transformations in all representations (r, R, rt, Rt, q) agree with each other, for all strides and in-place uses.',
  'all poses, strides, in-place aliasings','random samples only',
  ['poseutils.c','mrcal/poseutils.py'],[('pose functions','poseutils.c')])
q('N04','State and measurement layout is consistent',
  'For every optimization configuration the state and measurement index/count functions partition the state and measurement vectors exactly, pack_state() and unpack_state() invert each other, and the Jacobian has the sparsity so described.',
  'all problem configurations','a few configurations tested',
  ['mrcal.c','mrcal-pywrap.c'],[('layout functions','mrcal.c mrcal_state_index_*(), mrcal_measurement_index_*()')])
q('N05','A solve reaches an optimum and rejects outliers',
  'optimize() returns a state at which the cost is no higher than at the seed and stationary, reports residuals matching the returned state, and marks as outliers only and all observations its criterion selects.',
  'all problems and seeds','a handful of synthetic problems',
  ['mrcal.c'],[('optimizer loop','mrcal.c mrcal_optimize()')])
q('N06','Projection uncertainty matches the propagated noise',
  'The reported projection uncertainty equals the linearized propagation of the observation noise through the solve, for all supported methods and configurations.',
  'all solves, query points, methods','a few Monte-Carlo comparisons',
  ['mrcal/model_analysis.py','uncertainty.c'],[('uncertainty propagation','mrcal/model_analysis.py projection_uncertainty()')])
q('N07','Rectified stereo geometry is epipolar-consistent',
  'For every supported camera pair, corresponding points land on the same row of the rectified images, rectification maps match rectified-to-camera reprojection, and ranges computed from disparities are the true ranges.',
  'all camera pairs and rectification options','a few camera pairs',
  ['stereo.c','mrcal/stereo.py'],[('rectification','stereo.c mrcal_rectified_system(), mrcal_rectification_maps()')])
q('N08','Triangulation is exact on noiseless rays',
  'All triangulation methods return the intersection for intersecting, non-parallel rays in front of both cameras, and report no intersection for diverging or parallel ones.',
  'all ray pairs','a few geometries',
  ['triangulation.cc','mrcal/triangulation.py'],[('triangulation','triangulation.cc')])
q('N09','Lens-model and format conversions preserve projection',
  'Converting a model between CAHVOR(E), OpenCV, kalibr or ROS conventions and mrcal conventions preserves the projection of every point to the accuracy of the target format.',
  'all convertible models','a few models',
  ['mrcal/cahvor.py','mrcal/cameramodel.py','mrcal-to-kalibr','mrcal-from-kalibr'],[('format converters','mrcal/cahvor.py')])
q('N10','Broadcasting functions equal a loop over slices',
  'Every broadcasting function of the Python API gives, for any broadcastable argument shapes and memory layouts, what looping over the slices gives.',
  'all shapes and strides','a few shapes',
  ['mrcal-genpywrap.py','poseutils-genpywrap.py','triangulation-genpywrap.py'],[('numpysane_pywrap wrappers','*-genpywrap.py')])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x)+'\n')
