"""What each check is built from."""
COMMON_ASSUMPTIONS = [
    'x86-64, clang 18, -O1 with AddressSanitizer and UndefinedBehaviorSanitizer; heap and stack are filled with a non-zero pattern so that uninitialised reads do not look like zeros',
    'an execution is judged, not the code: inputs outside the generated space were not observed',
]
CHECKS = {}


def check(pid, **kw):
    CHECKS[pid] = kw


check('P23', mult=2, harness=['box_lut.cpp'], repo=['src/tools/BoxLookUpTable.cpp'],
      rule='recompute histories (1-4 parameter sets, including repeated, shrunk and grown ones) with 20-60 point queries each (rim, edge, corner, interior, far outside) plus full half-cell sweeps; a case counts as distinct by its parameter set with a non-empty box and margin',
      must_see=['recompute', 'query.covered', 'query.corner', 'query.rejected', 'deep_inside', 'copy'])
check('P24', mult=4, harness=['radial_lut.cpp'], repo=['src/tools/RadialLookUpTable.cpp'],
      rule='recompute histories of 1-5 (scale, radius) pairs on one object; after each, every offset within the radius is queried; distinct = distinct (scale, radius)',
      must_see=['recompute', 'offsets', 'recompute.one_changed', 'copy'])
check('P17', harness=['listgrid.cpp'],
      rule='random histories of insert head/tail, erase at head/middle/tail, in-place modification, move, resize, clear, copy, assign (self, same shape, other shape) and destruction on up to 5 grids of 1-7 cells a side, with two element sizes, every touched cell compared with a per-cell list model after every operation; a case is distinct by its full operation log and non-trivial if more than 3 elements survive',
      must_see=['insertHead', 'insertTail', 'erase.head', 'erase.mid', 'erase.tail', 'move.kept', 'copy', 'assign.same_shape', 'assign.reshape', 'assign.self', 'clear', 'resize', 'destroy'])
check('P29', mult=4, harness=['numeric.cpp'],
      rule='sequences of 1-12 measurements in float and double, fused in two orders; distinct by the fused result, non-trivial if at least 3 measurements',
      must_see=['updates', 'certain'])
check('P26', mult=5, harness=['gaussian.cpp'],
      rule='random gaussians and mixtures of 1-4 components in 1 to 4 dimensions (double, float) evaluated near and away from their means against an independent long-double density; quadrature of the real eval(); weighted sample statistics against a two-pass reference with interleaved updates; weight normalisation; distinct by parameters',
      must_see=['density', 'mixture', 'integral', 'stats.weighted', 'stats.plain', 'normalize', 'normalize.zero'])
check('P27', harness=['em.cpp'],
      rule='random sample clouds (blobs, duplicates, outliers; weighted and not) in 1-3 dimensions: k-means results are checked to be a fixed point, every EM step is compared with a long-double reference step, its return value with the reference likelihood, and the likelihood sequence for monotony; run() against the step sequence; distinct by cloud',
      must_see=['kmeans.fixpoint', 'kmeans.several', 'em.step', 'em.step.weighted', 'em.monotone', 'em.removed', 'em.initialize', 'em.replicate', 'em.run.converged', 'em.run.exhausted', 'em.outliers.isolated', 'em.reuse'])
check('P28', mult=3, harness=['sampling.cpp'],
      rule='random mixtures of 1-4 well separated components, 4000 draws each: per-component share, mean and covariance within 7 standard errors; seed determinism; sub-normalised mixtures; distinct by mixture and seed',
      must_see=['component', 'samples', 'seeds', 'not_normalized'],
      assumptions=['statistical bounds at 7 standard errors (false alarm probability below 1e-9 per run)'])
check('P11', mult=3, harness=['holder.cpp'],
      rule='histories of create, clone, write, delete on up to 40 holders of four payload types with a global register of live payloads; payloads of 1 to 5000 bytes, plain types and payloads whose copy fails, each with its own register; heap use compared around whole histories; distinct by operation log',
      must_see=['create', 'clone', 'write', 'destroy', 'wrong_type', 'sized', 'plain', 'copy_throws', 'heap'])
CORE = ['src/core/' + f for f in ('Environment.cpp', 'Event.cpp', 'EventHandler.cpp', 'EventSource.cpp', 'FrameNode.cpp', 'Layer.cpp',
                                  'Operator.cpp', 'Serialization.cpp', 'SerializationFactory.cpp', 'Transform.cpp')]
CORELIBS = ['-lyaml', '-lboost_filesystem', '-lboost_thread', '-lboost_system']
check('P01', mult=10, harness=['env_registry.cpp'], repo=CORE, libs=CORELIBS,
      rule='random histories of 10-80 operations on 1-3 environments: creation with every form of id, explicit and implicit attachment, clashes, moves between environments, shallow and deep detachment with and without keeping the reference, cloning, prefix changes, links of every kind, destruction of environments; item registers, look-ups, owner counts and live objects compared with a model after every operation; distinct by full operation log',
      must_see=['attach', 'attach.clash', 'attach.twice', 'move', 'move.clash', 'detach', 'detach.deep', 'detach.deep.many', 'item.freed', 'id.generated', 'id.given', 'id.fixed', 'clone', 'prefix', 'env.destroyed'])
check('P02', mult=10, harness=['env_frames.cpp'], repo=CORE, libs=CORELIBS,
      rule='the histories of P01 (other seeds) with every parent, child list, map list, map frame and tree root compared with the model after every operation; maps cloned with their frame chains into other environments mid-history; distinct by full operation log',
      must_see=['frame.add', 'frame.reparent', 'frame.same', 'frame.remove', 'frame.remove.absent', 'map.frame', 'map.reframe', 'map.same', 'map.unframe', 'map.unframe.absent', 'detach.deep.many', 'cloneTo', 'cloneTo.chain', 'move'])
check('P05', mult=3, harness=['env_graph.cpp'], repo=CORE, libs=CORELIBS,
      rule='the histories of P01 (other seeds, more operator operations) with layer parents/children, operator inputs/outputs, generators and derived layers compared with relation sets after every operation; operator runs and modification reports counted; layer metadata histories with copies and assignments; distinct by full operation log',
      must_see=['layer.add', 'layer.same', 'layer.remove', 'layer.remove.absent', 'op.add', 'op.same', 'op.full', 'op.set', 'op.remove', 'op.remove.absent', 'op.clear', 'updateOperators', 'layer.update', 'layer.detach', 'meta.clone', 'meta.assign', 'meta.wrongtype'])
check('P03', mult=2, harness=['transforms.cpp'], repo=CORE, libs=CORELIBS,
      rule='random frame forests of 2-14 frames with translations up to 1000 and any rotation, some uncertain; every ordered pair of frames compared with independently multiplied matrices, before and after changes of transforms and parents; map points and extents in every reachable frame; distinct by the transforms',
      must_see=['relative', 'relative.foreign', 'relative.parent', 'relative.reparented', 'map.points', 'extents.3d', 'extents.2d'])
check('P04', mult=5, harness=['uncertainty.cpp'], repo=['src/core/Transform.cpp'],
      rule='random pairs of transforms with and without covariance; propagation compared with numerical derivatives for rotations up to 0.5 rad (3 percent), recovery of operands at rotations up to 2.2 rad; distinct by the operands',
      must_see=['compose.both', 'compose.one', 'compose.none', 'inverse', 'point', 'recover', 'rbs'],
      assumptions=['the repository approximates the Jacobians by truncated series; rotations up to 0.5 rad are compared at 3 percent of the block size'])
check('P06', mult=10, harness=['env_events.cpp'], repo=CORE, libs=CORELIBS,
      rule='the histories of P01 on one or two environments with handlers, listeners and filtered handlers added and removed at random points; every event is checked against the view built from the earlier ones, and after every operation each view must equal the model; distinct by full operation log',
      must_see=['handler.added', 'handler.added.late', 'handler.removed', 'listener.added', 'filter.both', 'handlers.same', 'update', 'env.destroyed', 'layer.remove.absent', 'frame.remove.absent', 'detach.deep.many', 'move'])
check('P07', mult=4, harness=['replication.cpp'], repo=CORE, libs=CORELIBS,
      rule='the histories of P01 on a source environment that is replicated by an event processor (and a second replica chained to the first), by pulling binary events (deltas, full pulls, late joiners, repeated application) and by direct or queued binary handlers with and without context updates, and lossy, repeating and reordering transports; after every synchronisation the replica is compared item by item and relation by relation with the model of the source; distinct by full operation log',
      must_see=['context.late', 'flush', 'chain', 'left', 'source.deleted', 'pull', 'pull.all', 'pull.delta', 'pull.all.again', 'apply.twice', 'late', 'direct', 'direct.context', 'queued', 'queued.async', 'queued.context', 'queue.switched', 'binary.chain', 'compared', 'lossy', 'lost', 'repeated', 'swapped', 'recovered'])
check('P08', mult=4, harness=['threads.cpp'], repo=CORE, libs=CORELIBS + ['-lpthread'], flavors=['tsan'],
      rule='a producer thread runs the histories of P01 while a consumer thread flushes an event processor, or pops and applies binary events, with random pauses on both sides; ThreadSanitizer watches all accesses, the consumer checks the replica after every flush; distinct by the set of replica states the consumer saw',
      must_see=['tsan.' + k for k in ('processor.flushes', 'processor.states', 'processor.interleaved', 'binary.flushes', 'binary.interleaved', 'compared')],
      assumptions=['thread schedules are those the scheduler produced under random pauses; ThreadSanitizer reports conflicting accesses it saw without ordering between them'])
check('P12', mult=6, harness=['values.cpp'], repo=CORE, libs=CORELIBS,
      rule='random sets of 1-30 keys with text (YAML syntax characters, control and unicode characters, long and multi-line), numbers of every type including extremes, booleans, transforms and covariances, read back in another order, with absent keys, wrong kinds and wrong sizes; distinct by the keys and kinds',
      must_see=['absent', 'string', 'double', 'float', 'bool', 'transform', 'covariance', 'wrongkind', 'wrongsize', 'nonnumber', 'restart'])
check('P13', mult=10, harness=['factory.cpp'], repo=['src/core/SerializationFactory.cpp'],
      rule='histories of registrations and creations over a pool of qualified and unqualified class names that are prefixes, suffixes and namespace variants of each other; distinct by history',
      must_see=['register', 'register.again', 'create.exact', 'create.unqualified', 'create.unknown', 'create.fail'])
check('P10', harness=['binary.cpp'], repo=CORE, libs=CORELIBS,
      rule='histories of 2-12 binary events through one or two serialization objects: items with 0-500 keys (up to 30 kB each), 0-4 binary streams with arbitrary bytes, reused event structures, and broken events (truncated, corrupted, foreign or unknown class, missing, renamed or repeated streams, other YAML shapes) and items that refuse to be written or read in between; distinct by the bytes of the events',
      must_see=['serialize', 'streams', 'large', 'moved', 'broken.refused', 'stale', 'item', 'write.refused'])
check('P09', mult=2, harness=['files.cpp'], repo=CORE, libs=CORELIBS,
      rule='scenes grown by the histories of P01, written to a scratch directory and read back: items, content, links of all kinds, root node, fresh ids, second-generation and repeated round trips over old files; damaged scenes (truncated, corrupted, missing files, unknown classes, dangling links, other YAML shapes); distinct by operation log or damaged file',
      must_see=['roundtrip', 'roundtrip.many', 'rewrite', 'again', 'same.object', 'fresh.ids', 'operator.links', 'damaged.refused', 'damaged.read', 'names', 'compared', 'refused.write', 'refused.read', 'refused.place', 'refused.streams', 'refused.retry'])
GRIDS = ['src/maps/GridBase.cpp', 'src/maps/Grids.cpp', 'src/tools/BresenhamLine.cpp']
GRIDO0 = ['src/maps/GridBase.cpp', 'src/maps/Grids.cpp']
check('P14', mult=4, harness=['grid_coords.cpp'], repo=CORE + GRIDS, libs=CORELIBS, o0=GRIDO0,
      rule='grids of 1 to 500 cells a side with random scales and offsets; points inside, on borders, one ulp beside them, outside, astronomically far, infinite and NaN against a long-double cell oracle; the same through frame chains; extents; creation by class name; pairs of grids moved by whole, half and fractional cells, turned, rescaled, resized and re-offset; distinct by geometry',
      must_see=['roundtrip', 'inside', 'outside', 'border', 'far', 'extents', 'frames', 'create'] + ['aligned.k%d' % k for k in range(8)])
check('P16', harness=['grid_rect.cpp'], repo=CORE + GRIDS, libs=CORELIBS, o0=GRIDO0,
      rule='random rectangles (axis-parallel, diagonal, nearly parallel, thin, partly outside) and concentric pairs on grids of 3-40 cells a side: every reported cell and every cell of the grid is judged by the analytic distance of its centre to the rectangle; lines between random cells in all forms of the interface; distinct by grid and rectangles',
      must_see=['corners', 'corners.parts', 'single', 'refused', 'cells', 'deep', 'both', 'both.ring', 'both.refused', 'line', 'line.flat', 'line.steep', 'line.reinit'],
      assumptions=['the interface announces aliasing at the rim: cells whose centre is less than 0.12 cells inside or 0.86 cells outside are not judged'])
check('P15', harness=['grid_bands.cpp'], repo=CORE + GRIDS, libs=CORELIBS, o0=GRIDO0 + ['grid_bands.cpp'],
      rule='histories of 3-14 operations on grids of all seven cell types and 1-12 cells a side: filling by index and by world coordinate, nodata, references, min/max, copying of bands and grids, binary events (whole and incomplete), scenes on disk, all compared cell by cell with a model; raster files with every orientation, reference, band and type, fitting and not; images, distance images, frames; distinct by operation log',
      must_see=['fill', 'createBand', 'references', 'minmax', 'minmax.negative', 'copyBand', 'copy', 'binary', 'binary.truncated', 'scene', 'absent', 'compared', 'raster.plain', 'raster.x', 'raster.y', 'raster.xy', 'raster.multi', 'raster.written', 'image', 'distance', 'frame'],
      assumptions=['GDAL is replaced by a raster store with the same interface'])
MLS = GRIDS + ['src/maps/MLSGrid.cpp']
MLSO0 = GRIDO0 + ['src/maps/MLSGrid.cpp']
check('P18', harness=['mls_grid.cpp'], repo=CORE + MLS, libs=CORELIBS, o0=MLSO0,
      rule='histories of 5-40 insertions at head and tail, erasures, moves, clears, copies, clones, assignments, index creations, configuration changes, binary events and writeMap/readMap on up to four grids of 1-9 cells a side; every patch of every cell compared bit by bit with a list model after every operation; files of the older versions built record by record; damaged files; distinct by operation log or file',
      must_see=['get.found', 'get.nothing', 'get.negative', 'matchHeight', 'weights', 'extents.empty', 'insertHead', 'insertTail', 'erase', 'clear', 'move.kept', 'move.lost', 'move.empty', 'initIndex', 'index.checked', 'copy', 'cloneShallow', 'assign', 'assign.self', 'assign.indexed', 'binary', 'writeMap', 'extents.exact', 'legacy.1.0', 'legacy.1.1', 'legacy.1.2', 'damaged.refused', 'damaged.read'])
check('P19', mult=3, harness=['mls_fusion.cpp'], repo=CORE + MLS, libs=CORELIBS, o0=MLSO0,
      rule='sum model: histories of 2-25 measurements in one cell against the clustering and the weighted statistics in extended precision; Kalman model: random pairs of horizontal, vertical and negative patches of all ages against the inverse-variance fusion, union and cutting rules; separated layers in all models through update() in any order; any history: count of measurements and coverage; whole grids merged and matched under rotations and shifts; colours; distinct by measurements',
      must_see=['merge.uncertainty', 'merge.stdev', 'sum.merged', 'sum.bridged', 'sum.var', 'pair.apart', 'pair.fused', 'pair.union', 'pair.union.negative', 'negative.same', 'negative.overwritten', 'negative.cut', 'negative.untouched', 'layers.model0', 'layers.model1', 'layers.model2', 'layers.get', 'slope.plane', 'cover.several', 'cover.one', 'color', 'merge.patch', 'merge.clash', 'merge.updated', 'match'],
      assumptions=['the sums of a patch are kept in single precision: variances are compared within that rounding; the plane solver of the numeric library is replaced by one with the same interface'])
check('P20', harness=['mls_map.cpp'], repo=CORE + MLS + ['src/maps/MLSMap.cpp', 'src/maps/MapSegment.cpp', 'src/maps/ElevationGrid.cpp'], libs=CORELIBS, o0=MLSO0 + ['src/maps/ElevationGrid.cpp'],
      rule='histories of 4-20 operations on one to three maps over shared grids: adding, creating (relative or not, aligned or not), selecting, moving and removing grids, inserting patches, cloning and assigning maps, with four queries per map after every operation answered independently from the frame matrices and the patches; extents; segments of 1-6 parts against weighted statistics; distinct by operation log',
      must_see=['patch.one', 'patch.overlap', 'patch.none', 'addGrid', 'createGrid.rel.aligned', 'createGrid.rel.exact', 'createGrid.abs.aligned', 'createGrid.abs.exact', 'select.present', 'select.new', 'frame.moved', 'grid.removed', 'clone', 'cloneDeep', 'assign', 'extents', 'extents.foreign', 'empty', 'scene', 'segment', 'segment.pose'])
check('P21', harness=['clouds.cpp'], repo=CORE + ['src/maps/' + f for f in ('Pointcloud.cpp', 'TriMesh.cpp', 'Featurecloud.cpp', 'LaserScan.cpp')] + ['src/tools/PlyFile.cpp'], libs=CORELIBS, o0=['src/tools/PlyFile.cpp', 'clouds.cpp'],
      rule='random clouds, meshes and feature clouds of 0-400 vertices with and without normals, colours and faces through PLY (double, single, cut, damaged, foreign ascii files), scenes, binary events and text; copies between frames; measured clouds; vertex normals of random meshes after repeated changes; laser scans through files, scenes, binary events and imports, malformed ones included; distinct by the bytes written or the operation log',
      must_see=['ply.double', 'ply.single', 'ply.mesh.as.cloud', 'ply.cut', 'ply.damaged.refused', 'ply.damaged.read', 'foreign.read', 'foreign.polygon', 'foreign.absent', 'normals', 'colors', 'faces', 'scene', 'binary', 'featurecloud', 'text', 'csv', 'csv.malformed', 'copy.transformed', 'copy.plain', 'copy.features', 'samples.colored', 'samples.plain', 'extents', 'normals.many', 'normals.none', 'normals.again', 'scan.line', 'scan.plain', 'scan.remission', 'scan.binary', 'scan.scene', 'scan.malformed', 'scan.import', 'scan.import.placed'],
      assumptions=['PLY files are parsed by a parser with the interface of libply, which is not installed'])
TRAV = GRIDS + ['src/maps/TraversabilityGrid.cpp', 'src/tools/BoxLookUpTable.cpp']
check('P22', harness=['traversability.cpp'], repo=CORE + TRAV, libs=CORELIBS, o0=GRIDO0 + ['traversability.cpp'],
      rule='histories of 5-40 operations on up to five traversability grids of 1-9 cells a side: class definitions up to 255, cell classes and probabilities (also out of range), copies, clones, assignments, binary events and scenes, all cells and classes compared with a model after every operation; statistics of random rectangles with and without border on square and rectangular cells against an analytic count; distinct by operation log',
      must_see=['setClass', 'register', 'register.full', 'set', 'probability', 'probability.clamped', 'get', 'get.unknown', 'class.range', 'clone', 'copy', 'assign', 'assign.self', 'binary', 'scene', 'compared', 'statistic', 'worst', 'outside', 'border', 'border.cells', 'outside.border', 'exact'],
      assumptions=['the interface of the rectangle iteration announces aliasing at the rim: cells whose centre is less than 0.12 cells inside or 0.86 cells outside may or may not be counted'])
TOPS = MLS + ['src/maps/TraversabilityGrid.cpp', 'src/tools/BoxLookUpTable.cpp', 'src/operators/TraversabilityGrowClasses.cpp', 'src/operators/SimpleTraversability.cpp', 'src/operators/TraversabilityGrassfire.cpp']
check('P32', harness=['trav_ops.cpp'], repo=CORE + TOPS, libs=CORELIBS, o0=MLSO0 + ['trav_ops.cpp'],
      rule='growing: random class grids, radii and unknown areas on square and rectangular cells, every output cell against the worst known class in reach; simple classification: random slope and step bands with and without nodata, every cell, every pair of obstacles for narrow passages, grown obstacles and class drivabilities judged, repeated updates and operators stored in scenes; grassfire: multi-level worlds with walls, overhangs, holes, upper and lower levels and outliers against flood fill and an independent plane fit; distinct by parameters',
      must_see=['grow.cell', 'grow.grown', 'grow.unknown', 'grow.refused', 'grow.incomplete', 'simple.drivable', 'simple.obstacle', 'simple.unknown', 'simple.passage', 'simple.closed', 'simple.grown', 'simple.scene', 'simple.refused', 'simple.absent', 'simple.incomplete', 'fire.run', 'fire.wall', 'fire.step', 'fire.steep', 'fire.drivable', 'fire.rim', 'fire.unreached', 'fire.overhang', 'fire.upper', 'fire.upper.only', 'fire.below', 'fire.outlier', 'fire.outside', 'fire.nowhere', 'fire.start.hole', 'fire.refused', 'fire.incomplete'],
      assumptions=['grassfire worlds have floors, walls and levels that are clearly separated, so that the order of the fire does not matter', 'the plane solver of the numeric library is replaced by one with the same interface'])
check('P36', harness=['elevation.cpp'], repo=CORE + MLS + ['src/maps/ElevationGrid.cpp', 'src/maps/Pointcloud.cpp', 'src/maps/TriMesh.cpp', 'src/tools/PlyFile.cpp', 'src/tools/GridAccess.cpp'], libs=CORELIBS, o0=MLSO0 + ['src/maps/ElevationGrid.cpp', 'src/tools/PlyFile.cpp', 'src/tools/GridAccess.cpp', 'elevation.cpp'],
      rule='elevation grids of 1-12 cells a side: every access form, normals (rim included) and interpolated heights against central differences; environments of 0-4 grids or clouds in chains of 0-3 frames queried 20-25 times per access object (so that its cached grid is right, wrong, or useless) against a search over all grids, points and patches; sequences of cells and curves laid on multi-level surfaces; distinct by queries and answers',
      must_see=['normal', 'normal.border', 'plane', 'outside', 'access.none', 'access.one', 'access.several', 'cloud.nearest', 'cloud.none', 'cloud.range', 'cloud.range.none', 'mls.none', 'mls.one', 'mls.several', 'project.cell', 'spline.point', 'spline.outside'],
      assumptions=['grids are turned about the vertical axis only, as a height is only meaningful there; the accessors are documented for static environments', 'curves are sampled by a piecewise linear stand-in with the interface of the spline library'])
check('P25', harness=['rays.cpp'], repo=CORE + GRIDS + ['src/maps/ElevationGrid.cpp', 'src/operators/GridIllumination.cpp'], libs=CORELIBS, o0=GRIDO0 + ['src/maps/ElevationGrid.cpp', 'rays.cpp'],
      rule='rays from every kind of start (inside, centre, outside) in every direction (axis-parallel, exact diagonals, vertical, scaled) through grids of 1-20 cells a side with square and rectangular cells, every visited and unvisited cell judged by the length of the ray in it; illumination of random terrain by light inside, above a cell centre, in line with a row and outside, every cell against an exhaustive search for shadows; distinct by ray and light',
      must_see=['voxel.outside', 'voxel.vertical', 'voxel.cell', 'voxel.axis', 'voxel.diagonal', 'voxel.ray', 'light.incomplete', 'light.full', 'light.dark', 'light.partial', 'light.exact', 'light.inside', 'light.above', 'light.row', 'light.free'])
check('P30', mult=2, harness=['mls_ops.cpp'], repo=CORE + MLS + ['src/maps/' + f for f in ('MLSMap.cpp', 'MapSegment.cpp', 'ElevationGrid.cpp', 'Pointcloud.cpp', 'TriMesh.cpp')] + ['src/tools/PlyFile.cpp', 'src/operators/MLSProjection.cpp', 'src/operators/MergeMLS.cpp'], libs=CORELIBS, o0=MLSO0 + ['src/maps/ElevationGrid.cpp', 'src/tools/PlyFile.cpp', 'mls_ops.cpp'],
      rule='one to three clouds of 0-120 points in one to three layers, with and without variances, colours, pose uncertainty (height only, full) and area of interest, projected in one or two rounds into grids through chains of turned frames, in the sum and the Kalman model; every cell compared with the layers and statistics of its points; free space along the rays of 1-4 measurements, every cell on and off the rays; one to three grids or maps merged forward and in reverse, then measured further; distinct by operation log',
      must_see=['project.layer', 'project.fused', 'project.several', 'project.incomplete', 'project.outside', 'project.cut', 'project.variance', 'project.height-uncertain', 'project.uncertain', 'project.again', 'project.sum', 'project.kalman', 'project.refused', 'absence.refused', 'absence.down', 'absence.up', 'absence.untouched', 'merge.layer', 'merge.fused', 'merge.map', 'merge.other-child', 'merge.outside', 'merge.forward', 'merge.reverse', 'merge.sum', 'merge.same-geometry', 'merge.refused', 'merge.incomplete', 'merge-later.layer'],
      assumptions=['layers are clearly separated, so that each measurement belongs to one layer whatever the order', 'free space is judged in the Kalman model, which is the one that knows negative patches'])
check('P31', mult=2, harness=['mls_convert.cpp'], repo=CORE + MLS + ['src/maps/' + f for f in ('ElevationGrid.cpp', 'Pointcloud.cpp', 'TriMesh.cpp')] + ['src/tools/PlyFile.cpp'] + ['src/operators/' + f for f in ('MLSSlope.cpp', 'MLSToGrid.cpp', 'MLSToPointCloud.cpp', 'GridFloatToMLS.cpp')], libs=CORELIBS, o0=MLSO0 + ['src/maps/ElevationGrid.cpp', 'src/tools/PlyFile.cpp', 'mls_convert.cpp'],
      rule='random, sloped and stepped terrain with holes, further levels and vertical patches on grids of 1-10 cells a side, every constructor and setting of the slope operator in reused memory, every cell against an extended-precision plane fit and the largest step to its neighbours; top-most surfaces; points of all patches through chains of turned and tilted frames; single and double precision grids laid on surfaces of other geometry and frame, repeated and stored; unfit inputs; distinct by parameters',
      must_see=['slope.ctor2', 'slope.ctor3', 'slope.incomplete', 'slope.refused', 'slope.border', 'slope.empty', 'slope.few', 'slope.step', 'slope.rim-step', 'slope.high', 'slope.low', 'slope.slope', 'slope.window', 'togrid.cell', 'togrid.empty', 'togrid.incomplete', 'togrid.refused', 'togrid.scene', 'tocloud.patch', 'tocloud.wall', 'tocloud.negative', 'tocloud.incomplete', 'tomls.cell', 'tomls.outside', 'tomls.same-geometry', 'tomls.incomplete', 'tomls.refused', 'tomls.scene'],
      assumptions=['slopes are judged where every surrounding surface has the required number of measurements', 'the plane solver of the numeric library is replaced by one with the same interface'])
check('P33', mult=2, harness=['cloud_ops.cpp'], repo=CORE + GRIDS + ['src/maps/' + f for f in ('ElevationGrid.cpp', 'LaserScan.cpp', 'Pointcloud.cpp', 'TriMesh.cpp')] + ['src/tools/PlyFile.cpp'] + ['src/operators/' + f for f in ('CutPointcloud.cpp', 'DistanceGridToPointcloud.cpp', 'MergePointcloud.cpp', 'ScanMeshing.cpp')], libs=CORELIBS, o0=GRIDO0 + ['src/maps/ElevationGrid.cpp', 'src/tools/PlyFile.cpp', 'cloud_ops.cpp'],
      rule='clouds of 0-80 vertices with every combination of normals, colours, attributes and variances, cut by up to four including and excluding boxes that come and go, merged (replacing, appending, unfit inputs) through chains of turned frames; distance images with missing values and with colours; scans of 0-8 lines of equal and different lengths, smooth and rough, with absent echoes, remissions on all, some or no lines, every vertex and every square of the scan judged; repeated updates and stored operators; distinct by parameters and sizes',
      must_see=['cut.short', 'cut.kept', 'cut.removed', 'cut.attributes', 'cut.incomplete', 'cut.same', 'cut.refused', 'merge.incomplete', 'merge.refused', 'merge.append', 'merge.replace', 'merge.data', 'merge.several', 'distance.point', 'distance.none', 'distance.color', 'distance.incomplete', 'distance.refused', 'mesh.vertex', 'mesh.edge', 'mesh.color', 'mesh.ghost', 'mesh.square', 'mesh.triangle', 'mesh.gap', 'mesh.behind', 'mesh.first', 'mesh.ragged', 'mesh.partly', 'mesh.scene', 'mesh.incomplete'],
      assumptions=['echoes next to an absent one, and echoes at the limit of the edge angle, may be dropped or kept'])
check('P34', harness=['grid_ops.cpp'], repo=CORE + TRAV + ['src/operators/Fold.cpp', 'src/operators/ObjectGrowing.cpp'], libs=CORELIBS, o0=GRIDO0 + ['grid_ops.cpp'],
      rule='random grids of 1-14 cells a side: folds with neighbourhoods of 0-9 cells into other grids and in place, repeated; objects of up to 256 classes with random (also tied) growth policies, radii and cell shapes, in named and first bands, in place; class projections between grids of three type pairs, aligned exactly, within half a cell and not at all, in different frames, with and without unknown classes; every cell of every output judged; distinct by parameters and cells',
      must_see=['fold.inner', 'fold.rim', 'fold.in-place', 'fold.separate', 'fold.zero', 'fold.again', 'fold.refused', 'fold.incomplete', 'object.cell', 'object.grown', 'object.in-place', 'object.separate', 'object.band', 'object.first-band', 'object.255', 'object.refused', 'class.cell', 'class.frames', 'class.misaligned', 'class.refused', 'class.unknown', 'class.incomplete', 'class.same-type', 'class.to-double', 'class.from-float'],
      assumptions=['growth policies rank the classes (ties allowed), so that the biggest class in reach does not depend on the order'])
check('P35', harness=['pairs.cpp', 'pairs2.cpp'], repo=CORE + ['src/maps/Pointcloud.cpp', 'src/maps/TriMesh.cpp', 'src/tools/PlyFile.cpp', 'icp/icp.cpp'], libs=CORELIBS, o0=['src/tools/PlyFile.cpp'],
      rule='0-60 random pairs in space, in a plane, on a line and coincident, turned by any angle, exact, noisy and unrelated, far from and near to the origin, trimmed and reused, against a singular value decomposition; consensus of 0-40 pairs with planted agreement of 30-100 %, kernels of 0-5, tight and loose thresholds, with and without uncertainties; random picks; golden section searches of unimodal functions with the minimum anywhere, rim included; distinct by parameters',
      must_see=['trim.cut', 'trim.all', 'trim.none', 'pairs.few', 'pairs.exact', 'pairs.unrelated', 'pairs.plane', 'pairs.line', 'pairs.repeated', 'pairs.turned', 'pairs.transform', 'ransac.impossible', 'ransac.none', 'ransac.found', 'ransac.planted', 'ransac.outlier', 'ransac.uncertain', 'pick.some', 'pick.none', 'fit', 'golden.rim', 'golden.inner'],
      assumptions=['the transform is judged by the remaining distance, as pairs on a line or a point have many best transforms'])
check('P37', harness=['align.cpp'], repo=CORE + ['src/maps/Pointcloud.cpp', 'src/maps/TriMesh.cpp', 'src/tools/PlyFile.cpp', 'icp/icp.cpp'], libs=CORELIBS, o0=['src/tools/PlyFile.cpp'],
      rule='clouds of 0-50 vertices below chains of 0-3 turned frames, read at five densities with and without normals and offsets; nearest pairs of random measurements against exhaustive search for several models, limits, normals and edge marks; measurements of known models displaced by less than half the point distance, with up to a quarter of strays, aligned with fixed and searched overlap, compared with where they belong; empty and too small clouds; distinct by parameters',
      must_see=['adapter.offset', 'adapter.normal', 'adapter.round', 'adapter.apply', 'nearest.cleared', 'nearest.pair', 'nearest.none', 'nearest.filtered', 'nearest.rejected', 'align.parts', 'align.truth', 'align.strays', 'align.normals', 'align.edges', 'align.search', 'align.once', 'align.repeated', 'align.nothing', 'nothing.cleared', 'nothing.few'],
      assumptions=['the true alignment is demanded where the displacement is smaller than half the distance of neighbouring points, so that the nearest model point is the right one'])
check('P38', harness=['stability.cpp'], repo=['icp/stability.cpp'], libs=[],
      rule='sigma points of random regular, diagonal and singular covariances with length limits against an extended-precision decomposition; clusters of 0-14 transforms around any yaw, with strays and tilts, against a reference removal; search regions sampled evenly and by sigma points, redefined; histograms of 0-200 sorted and unsorted distances, every bin counted; distinct by parameters',
      must_see=['sigma.bounded', 'sigma.free', 'sigma.singular', 'cluster.far', 'cluster.turned', 'cluster.none', 'cluster.reduced', 'cluster.complete', 'cluster.backward', 'cluster.negative', 'cluster.tilted', 'sampling.region', 'sampling.further', 'sampling.sigma', 'sampling.uniform', 'histogram.unsorted', 'histogram.filled', 'histogram.empty', 'histogram.below', 'histogram.above'],
      assumptions=['cases within rounding of a limit or with two equally far outliers are not judged', 'samples are drawn with a fixed generator type seeded by the clock, so evenness is only judged roughly'])
check('P39', harness=['localization.cpp'], repo=CORE + ['src/maps/Pointcloud.cpp', 'src/maps/TriMesh.cpp', 'src/tools/PlyFile.cpp', 'icp/icp.cpp', 'icp/icpLocalization.cpp'], libs=CORELIBS, o0=['src/tools/PlyFile.cpp'],
      rule='walks of up to 60 steps of a body with a nodding laser, every line accepted or refused and every cloud and sample compared with a model; environments of 1-3 stored clouds (or none) against which displaced, too small and repeated clouds are matched, saved, removed and written to disk; distinct by operation log',
      must_see=['lines.restart', 'lines.head', 'lines.new', 'lines.same', 'lines.ready', 'cloud', 'cloud.several', 'cloud.none', 'sample', 'match.removed', 'match.nothing-to-remove', 'match.few', 'match.fixed', 'match.unknown', 'match.mse', 'match.saved', 'match.no-path'],
      assumptions=['a cloud passed to a match belongs to the localization afterwards', 'scans are converted to points by a stand-in with the interface of the Rock base types'])
check('P40', harness=['graphviz.cpp'], repo=CORE + ['src/tools/GraphViz.cpp'], libs=CORELIBS,
      rule='the histories of P01 on one environment (other seeds) mixed with items whose ids and labels hold quotes, backslashes, arrows, brackets and spaces; drawn every 12 operations and parsed by an independent DOT reader; every node, label, shape, pose text and edge compared with the model; distinct by full operation log',
      must_see=['drawing', 'node.frame', 'node.layer', 'node.map', 'node.operator', 'node.plain', 'id.hostile', 'label.hostile', 'frame.rotated', 'edge.frame', 'edge.layer', 'edge.input', 'edge.output', 'edge.map', 'unwritable'])
check('P41', harness=['projection.cpp'], repo=CORE + GRIDS + ['src/maps/' + f for f in ('ElevationGrid.cpp', 'Pointcloud.cpp', 'TriMesh.cpp')] + ['src/tools/PlyFile.cpp', 'src/operators/Projection.cpp', 'src/operators/SimplifyPointcloud.cpp'], libs=CORELIBS, o0=GRIDO0 + ['src/maps/ElevationGrid.cpp', 'src/tools/PlyFile.cpp', 'projection.cpp'],
      rule='0-3 clouds of 0-12 points below chains of turned frames (a moved root frame included) projected once or twice onto grids of 1-9 cells a side: every cell with points against the highest and lowest of them, every gap against all triangles with an empty circumcircle around it, every cell outside of the hull; clouds of 0-60 points simplified with random settings, with normals and colours, into used clouds; distinct by geometry and cells',
      must_see=['project.incomplete', 'project.refused', 'project.input', 'point.outside', 'cell.several', 'cell.one', 'cell.flat', 'cell.gap', 'cell.gap.last', 'cell.outside', 'simplify.incomplete', 'simplify.same', 'simplify.refused', 'simplify.cells', 'simplify.outliers', 'simplify.smooth', 'simplify.empty', 'simplify.normal', 'simplify.color'],
      assumptions=['CGAL is replaced by a triangulation by definition and by simple point set operations with the same interface, which record their calls', 'points and grids share the frame in simplification'])

TOOLSRC = CORE + MLS + ['src/maps/' + f for f in ('ElevationGrid.cpp', 'LaserScan.cpp', 'MLSMap.cpp', 'MapSegment.cpp', 'Pointcloud.cpp', 'TraversabilityGrid.cpp', 'TriMesh.cpp')] + ['src/tools/' + f for f in ('BoxLookUpTable.cpp', 'GraphViz.cpp', 'PlyFile.cpp')] + ['src/operators/' + f for f in ('GridFloatToMLS.cpp', 'GridIllumination.cpp', 'MLSProjection.cpp', 'MLSSlope.cpp', 'MLSToGrid.cpp', 'MergePointcloud.cpp', 'Projection.cpp', 'ScanMeshing.cpp', 'SimpleTraversability.cpp', 'SimplifyPointcloud.cpp')]
check('P42', harness=['tools.cpp'], repo=TOOLSRC, libs=CORELIBS + ['-lboost_program_options'], o0=MLSO0 + ['src/maps/ElevationGrid.cpp', 'src/tools/PlyFile.cpp', 'tools.cpp'], flags=['-DHAVE_STD_REGEX'],
      tools=['env_create', 'env_update', 'env_delete_item', 'env_graphviz', 'env_create_grid', 'env_add_grid', 'env_grid_to_mls', 'env_mls_to_grid', 'env_grid_illumination', 'env_mls_to_pointcloud', 'env_mls_slopes', 'env_traversability', 'env_mls', 'env_dem', 'env_simplify', 'env_slam6d', 'env_mls_trajectory', 'asc2ply', 'env_grid_add_noise'],
      rule='each tool is built from the tree and started as a program (sanitized) on stored scenes of random frames, grids, surfaces, clouds and operators, with every documented form of its arguments, unknown ids, unfit types and missing arguments; exit code, output and the scene read back are compared with what the usage text says, item by item, everything else with its state before; distinct by result',
      must_see=['create', 'update', 'delete', 'delete.unknown', 'graphviz', 'grid.plain', 'grid.offset', 'grid.plain.frame', 'grid.offset.frame', 'grid.plain.frame.bands', 'grid.map', 'grid.map.frameless', 'refused', 'add.map', 'add.frame', 'add.root', 'add.offset', 'add.typed', 'add.refused', 'convert.grid_to_mls', 'convert.mls_to_grid', 'convert.light', 'convert.cloud', 'convert.ambiguous', 'slopes', 'trav.args0', 'trav.args1', 'trav.args2', 'trav.args3', 'mls', 'mls.area', 'mls.point', 'mls.single', 'dem.cell', 'simplify', 'simplify.default', 'slam.scan', 'slam.ids', 'slam.moved', 'slam.stranger', 'path.hit', 'path.none', 'asc2ply', 'asc2ply.sampled', 'noise.in', 'noise.out'])

LEAKSUBS = [p for p in sorted(CHECKS) if p not in ('P08', 'P42', 'P29', 'P38')]
check('P43', harness=[], flavors=[], leak=LEAKSUBS, leak_cases=(150, 3000),
      rule='the workloads of the other checks, each block of memory and each open file of every case followed to its release; a stack that allocated at least three blocks which outlive both their cases and the run, or three cases after which more files are open, is a violation; distinct as in the workloads',
      must_see=['leak.cases', 'leak.blocks'],
      assumptions=['one-time initialisations and caches of fixed number are allowed: fewer than three blocks from one place', 'memory that only the process holds until its end counts as left behind'])
