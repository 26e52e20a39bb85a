NOTES = "Each check evaluates the property's contracts on the real code (bounded, labelled) and discharges the verification conditions generated from the current source where a contract file exists under contracts/."
COMMON = ["PyPy, numpy, Cython, the C compiler, coordstring, GDAL, pyproj and picogeojson behave as documented"]
T_RT = "contracts on the real functions, evaluated at run time over generated inputs (bounded stand-in)"
N_RT = "Bounded: the contract is evaluated on the real code over generated cases; no unbounded proof for this property yet."
NA = {}
T_VC = "contract-based deductive verification: verification conditions of the real functions, discharged by z3 and cvc5; the contracts are also evaluated on the compiled code"
REAL = "machine floats are treated as real numbers and machine integers as mathematical integers in the verification conditions"
PART = "loops are verified for partial correctness: termination of while loops is not proved"
EXTR = "the engine's symbolic semantics of the Python/Cython subset (vf/), the numpy stand-in and the coordstring model are trusted; Cython type declarations and directives are dropped"


def P(note, *more, **kw):
    return dict(level="proof", technique=T_VC, note=note, assumptions=[REAL, PART, EXTR] + list(more))


BND = " The rest of the statement is only evaluated on the compiled code over generated cases (bounded)."
TABLE = {
    "P01": P("Proved for every array size, chunk size, block position and content: CompressedBand.setblock and getblock act as one array (a block written is read back, all other cells keep their value, unwritten cells read as the initial value), chunk enumeration, SimpleBand likewise." + BND,
             "blosc returns the bytes it was given (the _store/_retrieve round trip)"),
    "P02": P("Proved for any grid and any number of bands: reading and writing by integers, slices (with steps from a fixed set) and masks reads or sets exactly the cells addressed and refuses indices out of range." + BND,
             "slices with steps other than 1, 2, 3, -1, -2, -3 are evaluated, not proved"),
    "P03": P("Proved for every transform with nonzero determinant and every size: get_positions, get_positions_vec and get_indices agree with the affine formula and invert one another." + BND),
    "P04": P("Proved for every transform and size: extent and bbox are the tight hull of the centres and of the corners; data_extent and data_bbox are the tight hull of the cells with data in all bands (one or two bands, a number as nodata)." + BND,
             "the bands of the grid of data_extent are SimpleBands"),
    "P05": P("Proved: corner, edge and cell-centre reading of resolution, transform and coordinates." + BND),
    "P06": P("Proved for every grid size, transform, content and number of points: nearest sampling (points, lists, one- and two-dimensional arrays), its coordinate systems, resampling to a new resolution or aligned origin, and profiles." + BND,
             "the bands of the grid sampled are SimpleBands", "positions is the inverse of the transform (P03)", "points along a line are equally spaced (Line.to_points, bounded)"),
    "P07": P("Proved for every grid size, transform and content: clip and resize of grids with one or two bands; clipping without skew keeps exactly the cells whose centres are in the box." + BND,
             "the bands of a clipped or resized grid are SimpleBands", "positions is an affine map of the point (P03)"),
    "P08": P("Proved for grids of every size, position and content (one grid; two grids of floats with one or two bands and any positive weights; two grids of integers): the merge covers the union, each cell is the weighted mean of the data there, nodata without any, and grids that do not fit together are refused." + BND,
             "three grids and more are evaluated, not proved", "the bands of the grids merged are SimpleBands, without skew"),
    "P09": P("Proved for any number of points and any grid size: the kernel and gridpoints give each cell the mean of its values and NaN without any, on a grid that just covers the points." + BND,
             "the cells of points are those of RegularGrid.indices (P03)"),
    "P10": P("Proved for every grid size, resolution and content: gradient, slope, aspect and divergence follow their finite-difference formulas at every interior cell, also next to nodata, and skewed grids are refused." + BND,
             "a grid has one band of floats"),
    "P11": P("Proved for every grid size, nodata value and content: data masks, NaN masks, set_nodata_value, apply, addition, subtraction, refusals, minimum and maximum." + BND),
    "P14": P("Proved for every tree, leaf capacity and number of points, function by function on the C code: pools, qt_insert and qt_split keep the tree's invariant and every point stored, and qt_search_within finds a stored point exactly when it is strictly inside the box, once." + BND,
             "in the C contracts doubles and ints are mathematical numbers, malloc does not fail, free does nothing, and nothing is said of termination; clang's syntax tree of the current source is what is verified (vf/cprog.py)",
             "the tree an invariant speaks of is the one built by qt_insert; the Cython wrapper and Multipoint's subsets are evaluated, not proved"),
    "P13": P("Proved for tables of any number of rows and up to three fields: construction (columns, rows, records), access to rows and fields, slices, extend, updated, merge, and the row indexer; a table handed out does not change its source." + BND,
             "the values of tables are numbers or None"),
    "P15": P("Proved for every tree satisfying its invariant (function by function on the C code): the two searches give each entry inside, respectively overlapping, the box exactly once, pools of any size included; creating nodes, adding entries, tightening boxes, picking seeds and entries and choosing the leaf keep their parts of the invariant." + BND,
             "rt_insert, rt_split_* and rt_adjust_tree, which put the invariant of the whole tree together, are evaluated, not proved",
             "in the C contracts doubles and ints are mathematical numbers, malloc does not fail, free does nothing, and nothing is said of termination; clang's syntax tree of the current source is what is verified (vf/cprog.py)"),
    "P16": P("Proved for all rings: contains equals the signed crossing count, rings of any size." + BND,
             "that the signed crossing count is the winding number is the standard theorem, not proved here"),
    "P17": P("Proved: intersection, iscollinear and bboxes_overlap for all inputs; all_intersections gives the common points of all pairs of edges in order, for any number of edges." + BND),
    "P18": P("Proved: the segment kernel for all inputs; _nearest_to_point gives the least of the edge distances for lines and polygons of any number of edges." + BND),
    "P19": P("Proved for any number of vertices: length, cumulength, perimeter, area, centroid, orientation, bbox, extent."),
    "P20": P("Proved for every matrix and any number of vertices, with and without heights: points, lines, polygons with their sub-polygons and multipoints under apply_transform, shift and rotate; other matrix sizes are refused." + BND),
    "P21": P("Proved: distance, azimuth, walk, shift, CartesianCRS forward/inverse/project and their round trip." + BND,
             "sin, cos, atan2 are functions satisfying their defining identities"),
    "P22": P("Proved: reductions, isbetween_circular, crosses_dateline, _canonical_configuration, sph2cart." + BND,
             "sin, cos, atan2 are functions satisfying their defining identities"),
    "P23": P("Proved: Ellipsoid, parse_ellipsoid, coordinate system wrappers." + BND,
             "pyproj's transformations are inverse to one another"),
    "P24": P("Proved: crosses_dateline and bbox for any number of vertices, the latitude bounds of one edge by contract." + BND,
             "bndlat_sph bounds the latitudes of the great circle between two points (evaluated, not proved)"),
    "P31": P("Proved for any number of vertices: lines, polygons and multipoints as sequences (index, slice, iteration, segments, equality, merging), and multilines and multipolygons of up to three members." + BND,
             "a multiline or multipolygon has at most three members", "Table.merge and row access follow their contracts (P13)"),
    "P32": P("Proved: two edges meet exactly when they share a point (all inputs), the order of the sweep line and its neighbours (any number of segments), the test of boxes, and the members of a multipart geometry touching or within another (any number)." + BND,
             "the sweep itself (intersects in intersection.pyx: that it compares every pair of edges that has to be compared) is evaluated, not proved",
             "the spatial index gives every member whose box overlaps the box asked for, once (P15)",
             "what contains the first vertex of a member, or intersects it, has a box overlapping the member's (P16, P17)"),
    "P12": dict(technique=T_RT + "; " + T_VC, note="Bounded as a whole. Proved for grids of any size under an assumed contract of GDAL: a GeoTIFF written and read back, in memory or from disk, has the size, transform, cells, type, nodata value, projection and ellipsoid written and gives any block of itself; selected bands; from_geotiffs; the header of an ASCII grid and read_aai on what was parsed. Writing and parsing the text of an ASCII grid, and GDAL, are evaluated on the compiled code over generated cases (bounded)."),
    "P28": dict(technique=T_RT + "; " + T_VC, note="Bounded as a whole. Proved for grids of any size and up to three polygons: mask_by_poly keeps the cells in the mask of some polygon and sets nodata elsewhere, in place or not. The mask of one polygon (mask_poly) is evaluated on the compiled code over generated cases (bounded)."),
    "P35": dict(note="Bounded: elliptic integrals and truncated series in floating point are beyond the contract language, so the contract is evaluated on the real code against PROJ's geodesic library."),
    "P26": P("Proved for every zoom level and point: the point lies in its tile, tiles at one zoom level share edges, tile corners map back, tile equality, points in any coordinate system via its inverse projection." + BND),
    "P27": P("Proved: a remembered result is the result of the current geometry, for any history of edits by the cache decorator, Line.extend and Multipoint.__setitem__." + BND,
             "methods are functions of the vertices and their arguments"),
    "P29": P("Proved for every continuous function: result in the bracket, root or sign change within the tolerance, refusals."),
}
