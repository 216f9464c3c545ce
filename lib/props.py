"""Property texts; gen.py writes properties.jsonl and MANIFEST.json from here."""
PROPS = []
NA = [
    ('P92', 'src/operators/SurfaceReconstruction.cpp needs CGAL, which is not installed, for the whole of its work (Poisson reconstruction and surface meshing): there is no execution to monitor'),
    ('P93', 'src/maps/PolygonMap.cpp delegates every answer to the Box2D library, which is not installed: there is no execution to monitor'),
    ('P94', 'viz/ needs vizkit3d, OpenSceneGraph and a display, none of which is installed: there is no execution to monitor'),
]


def prop(pid, title, statement, over, text, why, files, mechanism, state=(), observe=(), technique='', note=''):
    PROPS.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, state=state, observe=observe, technique=technique, note=note))


NOTEST = 'The two tests that build here only smoke-test sampling and EM without assertions; this code is not run by them.'

prop('P11', 'Type-erased holders own, clone and type-check their payload',
     'A holder destroys the object it was given exactly once, no earlier than its own destruction, and a clone holds an independent copy of the same type and value. It answers a type query with yes for exactly the held type, gives mutable and const access to the same object, and access as any other type throws and leaves the holder usable.',
     ['histories', 'inputs'], 'every sequence of create, clone, write, read and delete over any payload types',
     NOTEST + ' Ownership over all create/clone/delete histories needs a lifetime monitor.',
     ['src/core/Holder.hpp'], [('owning pointer, dynamic_cast in get/isOfType', 'src/core/Holder.hpp')],
     technique='payload-lifetime monitor (live-object register) under ASan+UBSan on random histories')
prop('P17', 'A list grid is a 2D array of independent ordered lists',
     'After any sequence of head and tail insertions, erasures, in-place changes, moves, resizes, clears, copies and assignments, iterating a cell yields exactly the elements put there in list order, with their values. Erasing returns the element that followed, live elements keep their address until removed, a move shifts whole cells and drops those that leave the grid, and copies are independent of their source.',
     ['histories', 'inputs'], 'every operation history on any number of grids of any size',
     NOTEST + ' A history that corrupts a link shows up only several operations later.',
     ['src/tools/ListGrid.hpp'], [('intrusive singly linked lists with back pointers and a memory pool', 'src/tools/ListGrid.hpp')],
     technique='online model comparison (per-cell list model, address register) under ASan+UBSan')
prop('P23', 'Box distance table brackets the true distance to the box',
     'After any history of recomputations, looking up any point within the requested margin around the box returns a distance that is not smaller than the true distance to the box (up to the sampling step of a tenth of a cell) and not larger than it by more than one cell diagonal; deep inside the box it is exactly 0. Lookups before the first computation or beyond the covered area are rejected with an exception, and no lookup touches memory outside the table.',
     ['inputs', 'histories', 'configurations'], 'every scale, box size, margin, recompute history and query point',
     NOTEST + ' The wrong cells are those at the rim of particular size/scale combinations.',
     ['src/tools/BoxLookUpTable.cpp', 'src/tools/BoxLookUpTable.hpp'], [('table geometry and sampling in recompute/computeDistances, bounds check in getDistanceToBox', 'src/tools/BoxLookUpTable.cpp')],
     technique='analytic-distance bracket oracle on every lookup under ASan+UBSan')
prop('P24', 'Radial table gives polar coordinates for every offset in its radius',
     'After any history of recomputations with positive scale and radius, the distance and angle looked up for any integer cell offset whose components lie within radius/scale (both signs, rim included) are scale times the euclidean length and the atan2 angle of that offset for the most recent parameters. Copies keep their tables whatever happens to the original.',
     ['inputs', 'histories', 'configurations'], 'every scale, radius, recompute history and offset',
     NOTEST + ' Only rim offsets and parameter changes that keep one of the two values expose stale or foreign table cells.',
     ['src/tools/RadialLookUpTable.cpp', 'src/tools/RadialLookUpTable.hpp'], [('square tables centred on the origin', 'src/tools/RadialLookUpTable.cpp')],
     technique='exhaustive lookup against hypot/atan2 after every recompute under ASan+UBSan')
prop('P26', 'Gaussian and mixture densities, statistics and weights are exact',
     'For any mean and positive definite covariance the density evaluates to the normal density (and integrates to one), a mixture evaluates to the weighted sum of its component densities, and normalising makes the weights sum to one while keeping their ratios (equal weights if all are zero). The accumulated sample statistics give the weighted mean and covariance of exactly the samples inserted so far, in any dimension.',
     ['inputs', 'histories'], 'every mean, covariance, weight vector, evaluation point and sample sequence',
     'The existing tests evaluate densities but assert nothing, so wrong numbers pass.',
     ['src/tools/GaussianMixture.hpp'], [('Gaussian::eval, Stats, GaussianMixture::normalize/eval', 'src/tools/GaussianMixture.hpp')],
     technique='differential oracle (long-double reference, quadrature of the real code) under ASan+UBSan')
prop('P27', 'K-means and EM steps are correct and increase the likelihood',
     'K-means ends in non-empty clusters that are the weighted mean and covariance of the samples nearest to them, also when the object is reused; initialising EM takes these with equal weights. Each EM step replaces the mixture by the responsibility-weighted maximum-likelihood parameters, returns the (sample-weighted) mean log-likelihood of the mixture before the step, never decreases the likelihood, drops only components without samples and keeps the weights normalised and everything finite; integer sample weights act like repeated samples, and run performs steps until the likelihood changes by no more than delta or the iteration limit is reached.',
     ['inputs', 'histories'], 'every sample cloud (duplicates, outliers, weights), component count, start mixture and number of steps',
     'The existing test prints the likelihood of five steps and compares nothing.',
     ['src/tools/ExpectationMaximization.hpp', 'src/tools/GaussianMixture.hpp'], [('KMeans::run, ExpectationMaximization::step/run/initialize', 'src/tools/ExpectationMaximization.hpp')],
     technique='online comparison of every step with a reference EM step, monotonicity monitor, under ASan+UBSan')
prop('P28', 'Mixture samples follow the mixture',
     'Samples drawn from a normalised mixture fall to each component in proportion to its weight and have its mean and covariance within that component; equal seeds give equal sequences, and changes of the mixture take effect on the next draw. If the weights sum to less than one, drawing reports that with an exception in proportion to the missing weight.',
     ['inputs', 'histories'], 'every mixture, dimension and seed',
     'The existing test draws 500 samples and looks at none of them.',
     ['src/tools/ExpectationMaximization.hpp'], [('inverse-CDF component choice, Cholesky factor applied to normal deviates', 'src/tools/ExpectationMaximization.hpp')],
     technique='statistical monitor (7 standard errors) over the drawn samples under ASan+UBSan')
prop('P29', 'Scalar Kalman fusion is the optimal, order-independent estimate',
     'Fusing a measurement into a mean/stdev estimate yields the inverse-variance weighted mean and the combined standard deviation, lies between the two values, is never less certain than either input and does not depend on the order in which measurements are fused. A zero standard deviation on one side dominates, on both sides the values are averaged.',
     ['inputs', 'histories'], 'every pair of estimates and every order of a measurement set, in float and double',
     NOTEST,
     ['src/tools/Numeric.hpp'], [('kalman_update', 'src/tools/Numeric.hpp')],
     technique='information-form oracle and permutation monitor under ASan+UBSan')

NOBUILD = 'No test exercises this code in this configuration: it needs Rock base types, so the stable tests never link it.'

prop('P01', 'An environment registers, owns and finds its items consistently',
     'At any point of any history every item attached to an environment is registered under exactly one identifier, which is unique, stable for the stay of the item, and found by look-up by id and by type; attaching under an id that is taken throws and changes nothing. Items without an id get a fresh one below the prefix of the environment. An environment owns its items: detaching removes an item from every register and relation, a deep detach takes along what hangs below the item, and an object is destroyed exactly once, when neither the environment nor a smart pointer holds it; moving an item to another environment and cloning keep label and content.',
     ['histories', 'inputs', 'configurations'], 'every history of creating, attaching, linking, moving, cloning, detaching and destroying over any number of environments',
     NOBUILD + ' Ownership and register errors need long histories across environments.',
     ['src/core/Environment.cpp', 'src/core/Environment.hpp', 'src/core/EnvironmentItem.hpp'], [('attachItem/detachItem, item list keyed by id, intrusive reference counts', 'src/core/Environment.cpp')],
     technique='online register/ownership model with a live-object register after every operation under ASan+UBSan')
prop('P02', 'The frame tree and the map-to-frame assignment stay a consistent forest',
     'At any point of any history every frame has at most one parent, is listed exactly once among the children of that parent and of no other frame, and every map lies on at most one frame, which lists it exactly once. Setting a parent or a map frame replaces the former one, removing a relation that is absent changes nothing, the root of a frame is the end of its parent chain, and detaching a frame or map leaves no relation to it. Cloning a map to another environment reproduces its chain of frames with the same transforms.',
     ['histories', 'inputs'], 'every history of adding, replacing and removing frame and map relations, with attach, detach and move of items in between',
     NOBUILD,
     ['src/core/Environment.cpp', 'src/core/FrameNode.cpp', 'src/core/Layer.cpp'], [('frameNodeTree and cartesianMapGraph kept in both directions', 'src/core/Environment.cpp')],
     technique='online relation model after every operation under ASan+UBSan')
prop('P03', 'Relative transforms compose along the frame tree and move maps right',
     'For any two frames of one tree the relative transform equals the product of the transforms along the path through their common ancestor, whatever the order of frames and however the tree was changed before; asking for frames without common ancestor throws. A point taken from map to frame, or to the frame of another map, lands where that transform puts it, and the extents of a map computed in another frame enclose every transformed corner and touch it on each side.',
     ['inputs', 'histories'], 'every frame forest, transform, pair of frames and history of transform and parent changes',
     NOBUILD,
     ['src/core/Environment.cpp', 'src/core/FrameNode.cpp', 'src/core/Layer.cpp'], [('Environment::relativeTransform, CartesianMap::toMap/fromMap, Map::getExtents', 'src/core/Environment.cpp')],
     technique='differential oracle (independent matrix products) on all ordered frame pairs under ASan+UBSan')
prop('P04', 'Uncertainty propagates through transforms to first order',
     'Composing, inverting and applying uncertain transforms gives the exact transform and the covariance of the first-order error propagation J C J^T with the Jacobians of that operation; a certain operand contributes nothing, and the result is uncertain if an operand is. The pre- and post-composition inverses recover transform and covariance of the operand they undo, and conversion to and from rigid body states keeps pose and covariance.',
     ['inputs'], 'every pair of poses and covariances',
     NOBUILD,
     ['src/core/Transform.cpp', 'src/core/Transform.hpp'], [('truncated-series Jacobians dr_by_r, drx_by_dr; composition, inverse and point propagation', 'src/core/Transform.cpp')],
     technique='numerical-derivative oracle on every operation under ASan+UBSan',
     note='The code approximates its Jacobians by truncated series, so propagation is compared at 3 percent for rotations up to 0.5 rad; recovery of operands is checked up to 2.2 rad.')
prop('P05', 'Layer tree and operator graph stay consistent and updates run once',
     'At any point of any history the layer tree and the operator graph read the same from both ends: a layer has at most one parent, an operator lists exactly the inputs and outputs added and not removed, within its arity, a layer names exactly the operators that generate it or use it, and removing an absent relation changes nothing. Updating the environment runs every operator once and updating a layer runs its generator; layers detached from their operator are no longer generated. Metadata of a layer is kept by type and name, survives copying as an independent copy and is refused as a wrong type.',
     ['histories', 'inputs'], 'every history of layer, operator and metadata operations',
     NOBUILD,
     ['src/core/Environment.cpp', 'src/core/Layer.cpp', 'src/core/Operator.cpp'], [('layerTree, operatorGraphInput/Output, Layer::updateFromOperator, Layer metadata map', 'src/core/Environment.cpp')],
     technique='online relation model and operator run counters after every operation under ASan+UBSan')
prop('P06', 'Event handlers see an exact history of their environment',
     'A handler that joins an environment at any time is told of every item and relation present, and from then on of every addition, removal and modification exactly once, with items announced before and retired after their relations, so that the view built from its events equals the environment after every operation. Operations without effect send nothing, all handlers see the same events, a filter passes exactly what it accepts, and a handler that leaves is told of the removal of everything it knows and of nothing afterwards.',
     ['histories', 'schedules'], 'every history of environment operations and of handlers joining and leaving',
     NOBUILD,
     ['src/core/Environment.cpp', 'src/core/Event.cpp', 'src/core/EventHandler.cpp', 'src/core/EventSource.cpp'], [('handle(Event), publishChilds/detachChilds, EventHandler filter, EventListener dispatch', 'src/core/EventSource.cpp')],
     technique='online trace checker: view replayed from events versus model, under ASan+UBSan')

prop('P07', 'Replicas fed by events converge to their source environment',
     'Whenever a replica has processed the events queued for it, it holds exactly the items of the source under the same ids, with class, label and content, and the same frame tree, layer tree and map frames, whatever happened in between: additions cancelled by removals, items removed and re-created under the same id, updates, moves. This holds for copying event processors, for binary events pulled (as deltas or in full, also when applied twice or by a late joiner) or handled directly or queued, with or without context updates, and for replicas of replicas. When the source leaves, its replica is emptied; lost, repeated or reordered events never corrupt a replica, and sending everything again restores the content of all items present.',
     ['histories', 'schedules', 'faults'], 'every history of the source, every point of synchronisation and every loss, repetition or reordering of events',
     NOBUILD,
     ['src/core/Event.cpp', 'src/core/EventHandler.cpp', 'src/core/Serialization.cpp', 'src/core/Environment.cpp'], [('Event::merge/ref/apply, EventQueue, SynchronizationEventHandler, pullEvents/applyEvents', 'src/core/Event.cpp')],
     technique='differential oracle: replica versus source model after every synchronisation, fault injection on the event stream, under ASan+UBSan')
prop('P08', 'Event queues with copying enabled are safe across two threads',
     'With multithreading allowed, one thread may change an environment and its items while another flushes the event queue or pops binary events into its own replica: there is no data race, the replica is a consistent environment after every flush, no event is lost or applied twice, and once the source is quiet the next flush makes both equal.',
     ['schedules', 'histories'], 'every interleaving of a producer and a consumer thread',
     NOBUILD + ' Races appear under particular interleavings only.',
     ['src/core/EventHandler.cpp', 'src/core/EventHandler.hpp', 'src/core/Event.cpp'], [('queueMutex, Event::ref cloning', 'src/core/EventHandler.cpp')],
     technique='ThreadSanitizer on a producer/consumer stress with random pauses, replica invariants and final-state equality')
prop('P09', 'Scenes survive being written to and read from disk',
     'Reading a scene directory gives an environment with exactly the items that were written: same ids, classes, labels, content and binary data, same frame tree, layer tree, operator inputs and outputs, map frames, immutability and root node, and new items get unused ids. Writing changes nothing in the environment, overwriting an older scene leaves nothing of it, and a scene that was read can be written again with the same result. Missing, truncated or corrupted scenes are refused with an exception (or read as far as they are well formed), never with a crash, a leak of items or an environment without root node.',
     ['inputs', 'histories', 'faults'], 'every environment and every damage to its files',
     NOBUILD,
     ['src/core/Serialization.cpp', 'src/core/Environment.cpp', 'src/core/Layer.cpp', 'src/core/FrameNode.cpp'], [('FileSerialization::writeToFile/readFromFile', 'src/core/Serialization.cpp')],
     technique='round-trip oracle against the model, file fault injection, live-object register, under ASan+UBSan',
     note='Known finding: layers of one class whose ids differ only in / and _ share one file. Otherwise every observed round trip was exact; random scenes, bounded size.')
prop('P10', 'Binary events carry an item of any size exactly',
     'Serialising an item to a binary event and reading it back yields an unattached item of the same class with the same id, label, properties and streams, byte for byte, whatever their number and size and whatever the event structure or the serialisation object held before. Events that are truncated, name an unknown or different class, or lack a stream are refused with an exception, and the same object then reads the next event as if nothing had happened.',
     ['inputs', 'histories', 'faults'], 'every item, every sequence of events through one object, every corruption of an event',
     NOBUILD,
     ['src/core/Serialization.cpp', 'src/core/Serialization.hpp', 'src/core/EventTypes.hpp'], [('BinarySerialization::serializeBinaryEvent/unserializeBinaryEvent', 'src/core/Serialization.cpp')],
     technique='round-trip oracle with corrupted events in between, under ASan+UBSan')
prop('P12', 'Serialised values read back exactly; absent and wrong ones are reported',
     'Any text (UTF-8, including YAML syntax, control characters and line breaks), number, boolean, transform or covariance written under a key is read back bit for bit, in any order of reading. A key that was not written is reported as absent and leaves the target untouched, reading a value as something it is not fails, and no read touches memory outside its target.',
     ['inputs', 'histories'], 'every set of keys and values',
     NOBUILD,
     ['src/core/Serialization.cpp', 'src/core/Serialization.hpp'], [('write/read/hasKey on a YAML document', 'src/core/Serialization.cpp')],
     technique='write/read oracle with hostile strings and numbers under ASan+UBSan')
prop('P13', 'The class factory creates exactly the class asked for',
     'Creating an object by class name calls the factory registered last under that name, or, if the full name is not registered, the one registered under its last component after the namespace; it passes on the serialisation and returns that object. Any other name, however similar, throws a runtime error, a look-up registers nothing, and exceptions of the factory pass through.',
     ['inputs', 'histories'], 'every history of registrations and every class name',
     NOTEST,
     ['src/core/SerializationFactory.cpp'], [('class map and unqualified fall-back in createObject', 'src/core/SerializationFactory.cpp')],
     technique='history oracle (name map model) under ASan+UBSan')
prop('P14', 'Grid cells and coordinates correspond exactly',
     'For every grid, whatever its size, scale, offset and frame, the centre of every cell maps back to that cell, a point belongs to the cell whose half-open rectangle contains it, and points outside the grid (however far, infinite or NaN) belong to none. The extents cover exactly the cells. Two grids are reported as aligned, or cell-aligned, if and only if their cells coincide in the world.',
     ['inputs'], 'every grid geometry, point and frame chain',
     NOBUILD,
     ['src/maps/GridBase.cpp', 'src/maps/GridBase.hpp'], [('toGrid/fromGrid, getExtents, isAlignedWith, isCellAlignedWith', 'src/maps/GridBase.cpp')],
     technique='differential oracle (extended-precision cell arithmetic) under ASan+UBSan')
prop('P15', 'Grid bands keep their cells through copies, events, scenes and rasters',
     'Every band of a grid holds exactly what was written to its cells, and references to one band stay valid while others are used; nodata, minimum and maximum are those of the cells. Copying a band or a grid, sending it as binary event, writing it to a scene or to a raster file and reading it back keeps type, name, nodata and all cells, for every cell type, orientation and reference of the raster; incomplete or unsuitable input is refused and leaves no file open.',
     ['inputs', 'histories', 'faults'], 'every history of band operations and every raster or event read',
     NOBUILD,
     ['src/maps/Grid.hpp', 'src/maps/GridBase.cpp', 'src/maps/Grids.cpp'], [('Grid<T> band register, readGridData/writeGridData, serialize/unserialize', 'src/maps/Grid.hpp')],
     technique='cell-by-cell model comparison after every operation under ASan+UBSan, with a raster store standing in for GDAL')
prop('P16', 'Rectangles and lines visit exactly their cells',
     'A rectangle laid on a grid reports every cell well inside it, no cell well outside it and no cell beyond the grid, each once, split correctly into the inner rectangle and the ring around it, for every position, rotation and size. A line between two cells starts and ends at them, moves by single steps along its longer side, and stays within half a cell of the exact line, in every direction and form of use.',
     ['inputs'], 'every rectangle, every pair of cells',
     NOBUILD,
     ['src/maps/GridBase.cpp', 'src/tools/BresenhamLine.cpp'], [('GridBase::forEachInRectangles, Bresenham', 'src/maps/GridBase.cpp')],
     technique='analytic distance oracle on every reported and unreported cell under ASan+UBSan')
prop('P18', 'MLS grids keep their patches through every operation and file version',
     'Every cell of a multi-level surface grid holds exactly the patches put there, in list order, through insertions, erasures, moves of the grid, clears, copies, clones, assignments, binary events and files. The cell count and, when enabled, the index name all occupied cells after each of these, and the extents enclose them. Files of earlier versions are read with their documented defaults; damaged files are refused and never lead outside the grid.',
     ['histories', 'inputs', 'fault_sequences'], 'every history of operations on grids and every stored patch file',
     NOBUILD,
     ['src/maps/MLSGrid.cpp', 'src/maps/MLSGrid.hpp'], [('insertHead/insertTail/erase, move, writeMap/readMap, Index', 'src/maps/MLSGrid.cpp')],
     technique='bitwise list model compared after every operation, file fault injection, under ASan+UBSan')
prop('P19', 'MLS measurements fuse into the layers that are really there',
     'Surfaces of one cell separated by more than the gap stay separate layers and each measurement within the gap joins its layer, in any order and model; the mean and variance of a layer are those of its measurements (weighted statistics in the sum model, inverse-variance fusion in the Kalman model, plane fit in the slope model), vertical patches cover the union of their extents, and negative patches cut exactly the space they saw free. No measurement is lost or counted twice, also when patches, grids or moved grids are merged, and colours are the weighted mean.',
     ['inputs', 'histories'], 'every sequence of measurements in a cell, every pair of patches and of grids',
     NOBUILD,
     ['src/maps/MLSPatch.hpp', 'src/maps/MLSGrid.cpp'], [('SurfacePatch::merge/mergeSum/mergeMLS, MLSGrid::updateCell/merge/match', 'src/maps/MLSPatch.hpp')],
     technique='differential oracle (extended-precision statistics, fusion and cutting rules) on measurement histories under ASan+UBSan')
prop('P20', 'MLS maps answer from all their grids at their current poses',
     'A map made of several MLS grids answers a query at a point with a patch some grid really has there, seen from the current frames of map and grids, and with no patch if no grid has one. Adding, creating (relative or absolute, aligned or exact), selecting, removing grids, and copying the map shallowly or deeply keep the documented content, pose and active grid, extents enclose all grids, and a map segment reports the weighted mean, covariance, extents and closest part of its poses.',
     ['histories', 'inputs'], 'every history of map, grid and frame operations and every query point',
     NOBUILD,
     ['src/maps/MLSMap.cpp', 'src/maps/MapSegment.cpp'], [('getPatch, createGrid, selectActiveGrid, cloneDeep, MapSegment::update', 'src/maps/MLSMap.cpp')],
     technique='independent transform-and-look-up oracle after every operation under ASan+UBSan',
     note='Known finding: the list of grids of a map is not restored from a scene. Otherwise held on every execution observed; random histories, bounded size.')
prop('P21', 'Point clouds, meshes and scans keep their data when stored or copied',
     'A point cloud, mesh or laser scan read from PLY, text, scan file, scene or binary event has exactly the vertices, normals, faces, colours (to one byte), sensor origin, ranges, remissions and angles that were written. Copies into another frame are moved there, a mesh vertex gets the normalised mean of the normals of its faces, extents enclose exactly the points. Files that are cut, malformed or name absent vertices are refused without hanging, without leaving items behind and without faces outside the mesh.',
     ['inputs', 'faults', 'histories'], 'every cloud, mesh and scan and every file read',
     NOBUILD,
     ['src/maps/Pointcloud.cpp', 'src/maps/TriMesh.cpp', 'src/maps/Featurecloud.cpp', 'src/maps/LaserScan.cpp', 'src/tools/PlyFile.cpp'], [('writePly/readPly, readText/writeText, parseScan/writeScan, copyFrom, calcVertexNormals', 'src/maps/Pointcloud.cpp')],
     technique='round-trip and geometry oracle with damaged files, CPU-time watchdog, under ASan+UBSan',
     note='Known finding: keypoints and descriptors of feature clouds are not stored. PLY parsing uses a stand-in with the interface of libply. Otherwise held on every execution observed.')
prop('P22', 'Traversability grids keep cells, classes and honest statistics',
     'Every cell of a traversability grid has the class and (to one part in 255, clamped to 0..1) the probability last given to it, and every class its drivability, through copies, clones, assignments, binary events and scenes, without one grid writing to another; undefined classes are reported as such and new ones never take a used id. The statistic of an oriented rectangle and of its border counts exactly the cells there, with their nearest distances and worst class and probability, or nothing if the rectangle leaves the grid.',
     ['histories', 'inputs'], 'every history of operations on grids, every rectangle',
     NOBUILD,
     ['src/maps/TraversabilityGrid.cpp', 'src/maps/TraversabilityGrid.hpp'], [('setTraversability/setProbability, registerNewTraversabilityClass, computeStatistic, operator=', 'src/maps/TraversabilityGrid.cpp')],
     technique='model comparison after every operation and analytic count of cells under ASan+UBSan')
prop('P32', 'Terrain classification marks every hazard and nothing else',
     'Growing gives every cell the worst known class within the radius and leaves areas far from known cells unknown. The simple classifier assigns each cell its class by slope and step, closes every passage narrower than the width, widens obstacles by the clearance, marks nothing else, and rates unknown terrain as the mean class. The grassfire classifies exactly the surface connected to the start: steps, walls and low ceilings are obstacles, slopes get their class, unreachable cells are unknown; repeated and stored operators give the same result; unfit inputs are refused.',
     ['inputs', 'histories'], 'every input grid and parameter set',
     NOBUILD,
     ['src/operators/TraversabilityGrowClasses.cpp', 'src/operators/SimpleTraversability.cpp', 'src/operators/TraversabilityGrassfire.cpp'], [('growTerrains, SimpleTraversability::updateAll/closeNarrowPassages/growObstacles, TraversabilityGrassfire::updateAll', 'src/operators/SimpleTraversability.cpp')],
     technique='independent classification, flood-fill and plane-fit oracles for every cell under ASan+UBSan')
prop('P36', 'Height look-ups find the surface that is really there',
     'The elevation, normal and interpolated height at any point of an elevation grid, its rim included, are those of its cells; points outside are refused. The access classes find a height at a point of the world if and only if some grid, cloud or multi-level surface of the environment has one there, whatever was asked before and however the frames are nested, and answer with the height of such a grid, of the nearest point, or of a matching patch. Points and curves laid on a multi-level surface follow the level nearest to the previous height.',
     ['inputs', 'histories'], 'every environment and query point, every sequence of cells',
     NOBUILD,
     ['src/tools/GridAccess.cpp', 'src/maps/ElevationGrid.cpp', 'src/maps/MLSGrid.cpp'], [('GridAccess/PointcloudAccess/MLSAccess::getElevation, ElevationGrid::getNormal/getElevation, MLSGrid::projectPointsOnSurface', 'src/tools/GridAccess.cpp')],
     technique='exhaustive-search oracle over all grids, points and patches of the environment under ASan+UBSan')
prop('P25', 'Rays visit the cells they cross and shadows fall where they should',
     'A ray through a voxel grid visits every cell it crosses, in order, each once, and no other, whatever its start and direction (outside the grid, along an axis, diagonal), and ends at the rim. Illumination gives every cell of a grid the part of the light that no terrain between the cell and the light hides, for every light position and terrain; cells at or behind the light and unfit inputs are handled as documented.',
     ['inputs'], 'every grid geometry, start point, direction, terrain and light',
     NOBUILD,
     ['src/tools/VoxelTraversal.hpp', 'src/operators/GridIllumination.cpp'], [('VoxelTraversal::computeRay, GridIllumination::updateAll', 'src/tools/VoxelTraversal.hpp')],
     technique='exact slab-intersection oracle for every visited and unvisited cell, and ray-march oracle for shadows, under ASan+UBSan')
prop('P30', 'Clouds projected into and grids merged with surfaces keep every layer',
     'Projecting point clouds into a multi-level surface gives every cell exactly the layers its points form there, at their inverse-variance (or weighted) mean, with a deviation that combines points, pose uncertainty and what was there before, whatever the frames and however often; points outside grid or area of interest count nowhere and the clouds stay as they are. Free space is marked in the cells along each ray at the height of the ray and nowhere else. Merging grids and maps, forward or in reverse, puts each patch at its place and height in the output, once; unfit inputs are refused.',
     ['inputs', 'histories'], 'every set of clouds, grids, frames and models',
     NOBUILD,
     ['src/operators/MLSProjection.cpp', 'src/operators/MergeMLS.cpp'], [('MLSProjection::updateAll/projectPointcloudWithUncertainty, MergeMLS::updateAll', 'src/operators/MLSProjection.cpp')],
     technique='layer-by-layer fusion oracle and ray oracle for every cell under ASan+UBSan')
prop('P31', 'Surfaces, elevation grids, slopes and clouds convert without displacement',
     'The slope of every cell is that of the plane fitted to the top-most surfaces around it and its step the largest one to any of its neighbours, known only where enough of them are measured, also at the rim. The elevation grid of a surface holds the top-most height of each cell and leaves others untouched; its cloud has one point per horizontal patch and an even row of points per vertical one, in the frame of the cloud. A grid laid on a surface gives each cell whose centre it covers its height there, whatever the frames, also when repeated or stored; grids of another geometry are refused.',
     ['inputs', 'histories'], 'every terrain, geometry, frame and parameter set',
     NOBUILD,
     ['src/operators/MLSSlope.cpp', 'src/operators/MLSToGrid.cpp', 'src/operators/MLSToPointCloud.cpp', 'src/operators/GridFloatToMLS.cpp'], [('MLSSlope::updateAll, MLSToGrid::updateAll, MLSToPointCloud::updateAll, GridFloatToMLS convert', 'src/operators/MLSSlope.cpp')],
     technique='extended-precision plane fit, step, height and frame oracles for every cell under ASan+UBSan')
prop('P33', 'Cloud operators lose, invent or displace no point and no triangle',
     'A cut cloud has exactly the vertices every box admits and a merged cloud all vertices of its inputs, each with its own normal, colour, attributes and variance, moved into the output frame; unfit inputs are refused before the output changes. A distance image gives one point per valid distance with its variance and colour. A scan gives one vertex per valid echo in range with its edge mark, and a mesh of correctly oriented, non-overlapping triangles that joins all neighbouring echoes closer than the edge limit and no others, for lines of any length.',
     ['inputs', 'histories'], 'every cloud, box set, distance image and scan',
     NOBUILD,
     ['src/operators/CutPointcloud.cpp', 'src/operators/MergePointcloud.cpp', 'src/operators/DistanceGridToPointcloud.cpp', 'src/operators/ScanMeshing.cpp'], [('CutPointcloud/MergePointcloud/DistanceGridToPointcloud/ScanMeshing::updateAll', 'src/operators/ScanMeshing.cpp')],
     technique='vertex-by-vertex and square-by-square reference computation under ASan+UBSan')
prop('P34', 'Fold, object growing and class projection compute every cell as defined',
     'Folding gives each cell the mean of the input cells within its neighbourhood window that lie inside the grid (0 for an empty window). Object growing gives each cell the biggest class, by the growth policy, among the cells within the radius, and keeps its own class otherwise, with the result in the band asked for. A class projection copies the class of the aligned cell and translates it by its table; misaligned grids and unknown classes are refused; input and output may be the same grid, and grids of unfit size or missing inputs are refused.',
     ['inputs', 'configurations'], 'every grid, neighbourhood, radius, policy, class table and aliasing of input and output',
     NOBUILD,
     ['src/operators/Fold.hpp', 'src/operators/ObjectGrowing.hpp', 'src/operators/ClassGridProjection.hpp'], [('FoldOperator::updateAll, ObjectGrowing::updateAll, ClassGridProjection::updateAll', 'src/operators/Fold.hpp')],
     technique='cell-by-cell reference computation under ASan+UBSan')
prop('P35', 'The transform between point pairs is the best rigid one',
     'For any set of point pairs the computed transform is a proper rotation with a translation whose mean squared distance is the smallest possible and equals the reported one; exactly matching pairs are brought onto each other. Trimming keeps the requested share of pairs with the smallest distances. The consensus search returns a model only with enough inliers, reports exactly the pairs the model explains, and finds planted agreement; the golden section search finds the minimum of a unimodal function within its interval to the given tolerance.',
     ['inputs', 'histories'], 'every set of pairs (plane, line, coincident, turned by any angle), every threshold and sample size',
     NOBUILD,
     ['icp/icp.hpp', 'icp/icp.cpp', 'icp/ransac.hpp'], [('Pairs::trim/getTransform, ransac::ransacSingleModel, GoldenBracket', 'icp/icp.cpp')],
     technique='reference comparison (singular value decomposition, exhaustive counts) under ASan+UBSan')
prop('P37', 'Scan matching pairs nearest points and moves a measurement to its place',
     'A point cloud adapter gives each density-selected vertex once, with its normal, through the frame chain and offset. The pair search gives for every measured point the nearest model point within the distance limit that its filters (normal angle, edge marks) admit, from all models. Aligning a measurement displaced by less than half the point distance brings it to where it belongs in the presence of stray points, with fixed and searched overlap; the error and the overlap reported are those of the result, and clouds too small to align leave the transform alone.',
     ['inputs', 'histories', 'configurations'], 'every model set, measurement, frame chain, density, filter and overlap range',
     NOBUILD,
     ['icp/icp.hpp', 'icp/icp.cpp'], [('PointcloudAdapter, FindPairsKDTree, Trimmed::align', 'icp/icp.hpp')],
     technique='exhaustive-search reference and known ground truth under ASan+UBSan')
prop('P38', 'Sigma points, pose clusters and histograms keep their statistics',
     'Sigma points are symmetric about the mean and reproduce the covariance (limited to the length asked for), also for singular covariances. A cluster reports the mean and variance of its poses across the full circle of yaw angles and removes exactly the poses beyond the limits, the farthest first. A sampling region returns every sample within its limits; a histogram counts every distance exactly once in the bin it belongs to, in any order of distances, and normalised bins integrate to the share of the distances in range.',
     ['inputs', 'histories'], 'every covariance, set of poses, region and list of distances',
     NOBUILD,
     ['icp/stability.hpp', 'icp/stability.cpp'], [('SigmaPoints, Clustering, Sampling, Histogram', 'icp/stability.cpp')],
     technique='extended-precision reference comparison under ASan+UBSan')
prop('P39', 'Scan-match localization accepts, matches and stores scans as configured',
     'A scan line is taken exactly if the body or the head has moved enough since the last line; a new cloud is announced exactly when enough lines have been collected, its points are the accepted echoes in the frame of the last line, and none is lost or used twice. Matching a cloud reports a pose only if pairs and error meet the limits, starts at the pose given, and adds the cloud to the model and the environment only if asked to; temporary items are removed again, and starting without an environment or scans is refused or empty, not a crash.',
     ['histories', 'inputs', 'configurations'], 'every walk, scan sequence, configuration and stored environment',
     NOBUILD,
     ['icp/icpLocalization.hpp', 'icp/icpLocalization.cpp'], [('ICPLocalization::addLaserScan/hasNewPointCloud/doScanMatch', 'icp/icpLocalization.cpp')],
     technique='online model comparison of every line, cloud and match under ASan+UBSan on random walks')
prop('P40', 'Graph drawings show every item and relation of an environment',
     'The drawing of an environment is well-formed for any ids and labels, has exactly one node per item, named uniquely, showing its class, id and label and, for a frame, its position and orientation, in the shape of its kind, and exactly one edge per relation: frame to parent, layer to derived layer, input to operator, operator to output, frame to map. Drawing leaves the environment unchanged, and a drawing that can not be written is reported.',
     ['histories', 'inputs'], 'every environment reachable by any history, with any ids and labels',
     NOBUILD,
     ['src/tools/GraphViz.cpp'], [('GraphViz::writeToFile', 'src/tools/GraphViz.cpp')],
     technique='independent parser of the drawing compared with the online environment model under ASan+UBSan')
prop('P41', 'Projected elevation maps and simplified clouds keep what was measured',
     'Projecting point clouds gives each cell the highest and the lowest of the points in it, whatever the frames of clouds and grid, each empty cell within the hull of the measured cells the height of the triangle it lies in, and leaves cells outside of the hull without data; projecting again replaces the earlier result. Simplification applies exactly the configured steps with the configured parameters, gives each kept point its own normal and colour, and replaces the earlier content of the output. Missing or unfit inputs and outputs are refused.',
     ['inputs', 'histories', 'configurations'], 'every set of clouds, frames, grid geometry and parameter set',
     NOBUILD,
     ['src/operators/Projection.cpp', 'src/operators/SimplifyPointcloud.cpp'], [('Projection::updateAll, SimplifyPointcloud::updateAll', 'src/operators/Projection.cpp')],
     technique='cell-by-cell and triangle-by-triangle reference, recorded library calls, under ASan+UBSan')
prop('P42', 'Command line tools do to the stored scene what their usage says',
     'Each tool accepts every documented form of its arguments, adds, converts, updates or removes exactly the item asked for, with the geometry, type, frame and values that follow from its source, and leaves every other stored item as it was. Unknown ids, unfit types and missing arguments are refused without a crash and without changing the scene. Tools that only read or write to another place leave the source as it was.',
     ['inputs', 'histories', 'configurations'], 'every stored scene and command line',
     'No test starts any of the programs; the tests exercise the library only.',
     ['tools/env_add_grid.cpp', 'tools/env_create_grid.cpp', 'tools/env_mls.cpp', 'tools/env_dem.cpp', 'tools/env_slam6d.cpp', 'tools/env_traversability.cpp', 'tools/env_mls_slopes.cpp', 'tools/env_simplify.cpp', 'tools/env_grid_add_noise.cpp', 'tools/env_delete_item.cpp', 'tools/env_update.cpp', 'tools/env_grid_to_mls.cpp', 'tools/env_mls_to_grid.cpp'], [('main', 'tools/env_add_grid.cpp')],
     technique='programs started on stored scenes; exit code, output and the scene read back compared item by item with a reference, under ASan+UBSan')
prop('P43', 'Whatever is used and released gives back its memory and files',
     'When the objects of an operation have been released, every block of memory and every open file the operation took is given back, whether it succeeded or was refused with an exception: attaching and detaching items, events, scenes and binary events (damaged ones included), grids, surfaces, clouds, scans, operators, look-up tables, matching and drawing alike. What is kept for good (caches, registrations) does not grow with the number of operations, and nothing that was released is released again or used.',
     ['histories', 'inputs', 'fault_sequences'], 'every history of operations, successful or refused, that ends with the release of its objects',
     'A leak has no effect on the result of a test; only an account of all allocations over many operations, refused ones included, shows it.',
     ['src/core/Serialization.cpp', 'src/core/Environment.cpp', 'src/core/Holder.hpp', 'src/core/Event.cpp', 'src/core/EventHandler.cpp', 'src/maps/GridBase.cpp', 'src/maps/LaserScan.cpp', 'src/maps/MLSGrid.cpp', 'src/tools/ListGrid.hpp', 'src/tools/BoxLookUpTable.cpp', 'src/tools/RadialLookUpTable.cpp', 'src/tools/PlyFile.cpp'], [('owning pointers, streams and documents of the serialization', 'src/core/Serialization.cpp')],
     technique='allocation hooks: every block and file of every case of the other workloads followed to its release, with the allocating stack, under ASan')
NOCGAL = 'The code can not be compiled in this sandbox, so no test can run it here either.'
prop('P92', 'Surface reconstruction returns the mesh of its input points',
     'The reconstructed mesh has valid vertex indices in every face, approximates the surface the points and normals were taken from, and replaces the earlier content of the output.',
     ['inputs'], 'every point cloud with normals', NOCGAL,
     ['src/operators/SurfaceReconstruction.cpp'], [('SurfaceReconstruction::updateAll', 'src/operators/SurfaceReconstruction.cpp')])
prop('P93', 'Polygon sets answer intersection, containment and distance queries',
     'A polygon intersects a set exactly if it shares a point with one of its polygons, is inside exactly if one of them contains it, and its smallest distance is that to the nearest one within its distance area, for any history of moves.',
     ['inputs', 'histories'], 'every set of polygons and history of moves', NOCGAL,
     ['src/maps/PolygonMap.cpp'], [('PolygonSet::doQuery', 'src/maps/PolygonMap.cpp')])
prop('P94', 'The 3D visualisation shows the state of the environment',
     'Every attached item with a visualiser is shown at its frame, changes are shown after the next update, and removed items disappear.',
     ['histories', 'schedules'], 'every history of an environment that is shown', 'The viewer needs a display and libraries that are not installed here; no test opens it.',
     ['viz/EnvireVisualization.cpp', 'viz/EnvireEventListener.cpp'], [('EnvireVisualization, EnvireEventListener', 'viz/EnvireVisualization.cpp')])
