"""Per property: what is judged against what, and what is deliberately not judged."""
NOTES = {
'P01': ('Oracle: a plain model of items, ids and owners (`harness/envworld.hpp`), and a register of live objects filled by constructors and destructors.',
        'Worlds never put the root frame below another frame (an early version did; the documentation has the root as the top of the tree, so that was a false alarm).'),
'P02': ('Oracle: parent and frame maps of the same model, read back from both ends after every operation.', ''),
'P03': ('Oracle: matrices multiplied along the model tree, independent of the library.', ''),
'P04': ('Oracle: numerical derivatives of the composition.', 'The library uses truncated series for the Jacobians: rotations up to 0.5 rad are compared at 3 %.'),
'P05': ('Oracle: relation sets of the model; counters in test operators; modification events.', ''),
'P06': ('Oracle: every handler rebuilds a view from the events it got; the view must equal the model after every operation, and no event may contradict the view.', ''),
'P07': ('Oracle: the replica is compared with the source model item by item and relation by relation after every synchronisation.', 'A non-asynchronous event processor moves items instead of copying them, and context updates with asynchronous clones are not a supported use; neither is generated.'),
'P08': ('Oracle: ThreadSanitizer, replica invariants after every flush and equality at the end; the harness keeps no shared registers, whose locks would order the threads and hide races.', 'Schedules come from the real scheduler with random pauses, so only observed interleavings are judged.'),
'P09': ('Oracle: the scene read back equals the model item by item and link by link; damaged scenes throw or read as a consistent environment.', 'Known finding `names:slash-underscore`. Labels are UTF-8.'),
'P10': ('Oracle: an item decoded from an event equals the one encoded, byte by byte; a broken event throws or decodes to something consistent and leaves the serialization usable.', ''),
'P43': ('Oracle: AddressSanitizer allocation hooks; blocks of a case that are never freed, grouped by the stack that allocated them; open descriptors before and after each case.', 'Not run in this mode: the two-thread workload (P08), the programs (P42), and two that allocate nothing (P29, P38). Fewer than three blocks from one place are taken for one-time initialisation.'),
'P11': ('Oracle: register of live payloads.', ''),
'P12': ('Oracle: values read equal values written, bit for bit, under every key.', 'Text must be UTF-8, as YAML demands.'),
'P13': ('Oracle: map from names to classes.', ''),
'P14': ('Oracle: interval arithmetic on cell borders.', 'Points within rounding of a cell border may fall in either cell. One alignment case with a negative cell count was a harness error and was removed.'),
'P15': ('Oracle: cell-by-cell model of every band.', ''),
'P16': ('Oracle: analytic distance of every cell centre to the rectangle.', 'Cells whose centre lies within a margin of the rim are not judged.'),
'P17': ('Oracle: a list per cell plus a register of addresses.', ''),
'P18': ('Oracle: bitwise list model per cell; files of older versions built record by record.', 'A header cut just before its final newline is an empty map, not damage.'),
'P19': ('Oracle: reference fusion of patches in extended precision and a per-cell list of patches.', 'Variances are compared at float precision; point patches that touch negative blocks and slope layers with a gap smaller than the slope are ambiguous and not judged.'),
'P20': ('Oracle: independent transform and look-up of every query.', 'Known finding `scene:grids`.'),
'P21': ('Oracle: vertices, faces and data read equal those written; independent readers for each text format.', 'Known finding `featurecloud:keypoints`. Not claimed: ascii PLY with mixed coordinate types; "-" at the end of a scan line; for XYZR only the number of colours is judged; attributes and variances are not part of PLY.'),
'P22': ('Oracle: model of cells and classes; analytic counts.', 'Cells on the rim of an area may or may not be counted.'),
'P23': ('Oracle: distance to the box computed directly.', 'Values outside the requested margin are not promised (an early version judged them: false alarm).'),
'P24': ('Oracle: square root of the offset.', ''),
'P25': ('Oracle: cells of a ray by exact crossing; shadows by reference ray casting.', 'Rays through corners within rounding may pick either cell.'),
'P26': ('Oracle: long double density and two-pass statistics.', ''),
'P27': ('Oracle: reference EM step in long double; monotone likelihood.', ''),
'P28': ('Oracle: statistical bounds at 7 standard errors.', ''),
'P29': ('Oracle: inverse-variance fusion in long double.', 'Extreme ratios of deviations are limited by cancellation and are compared accordingly (false alarm of an early version).'),
'P30': ('Oracle: per-cell fusion of the points, moved by independently multiplied frames.', 'Layers are clearly separated. Not judged: slope model, deviation in SUM mode, negative information except KALMAN with square cells, whether operator parameters are stored.'),
'P31': ('Oracle: plane fit in extended precision, largest step over all neighbours.', 'A corrected step of zero, slopes with under-measured neighbours and negative patches are not judged; empty cells keep what they held.'),
'P32': ('Oracle: reference growth and passage closing; grassfire worlds with clearly separated regions.', 'Worlds whose classification hinges on rounding are not generated.'),
'P33': ('Oracle: vertex-by-vertex selection, square-by-square meshing reference.', 'Echoes next to absent ones or at the angle limit may be kept or dropped; no triangle is demanded over the end of a shorter line; merging variances and attributes is not claimed.'),
'P34': ('Oracle: the definition, cell by cell.', 'Growth policies are weak orders; the partly written output of a refused class projection is not judged.'),
'P35': ('Oracle: SVD solution and exhaustive counts.', 'Not judged: the error before a transform was computed, samples with zero uncertainty.'),
'P36': ('Oracle: plane interpolation and access by independent frame chains.', 'Frames turned about the vertical axis only; static environments.'),
'P37': ('Oracle: exhaustive nearest search; known displacement.', 'The adapter for edges and normals needs both for all vertices, as its contract says.'),
'P38': ('Oracle: extended precision decomposition, reference removal, exact counts.', 'Not judged: clusters of no points, sampling before a region is defined; histogram limits of the outlier bins are taken as given.'),
'P39': ('Oracle: model of accepted lines and stored clouds.', 'The default configuration is uninitialised and not claimed; a cloud passed to a match is consumed; the model kept by a second load is not judged.'),
'P40': ('Oracle: an independent DOT reader and the model of P01.', 'Colours of plain items are free.'),
'P41': ('Oracle: all triangles with an empty circumcircle; recorded calls of the point set operations.', 'CGAL is replaced by a shim. Not judged: measured cells all on one line, simplification across frames, whether parameters are stored.'),
'P42': ('Oracle: the scene is read back after each run and compared, item by item, with the usage text (and the operator the tool stands for).', 'Not judged: env_icp (a stub), env_surface (does not compile here), env_info, dem_helper; points that lie on the lower edge of a surface by rounding.'),
}
