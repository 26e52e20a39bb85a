"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G, B, V = "karta/raster/grid.py", "karta/raster/band.py", "karta/vector/geometry.py"


def P(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": a}


PROPS = [
 P("P01", "A raster band returns exactly what was last stored in each cell",
   "After any sequence of block writes to a raster band, reading any window returns, for each cell, the last value written to it, or the initial value if none was. Neither the internal chunking, the shape or position of the blocks, nor the value type changes this, and a write changes no cell outside its block.",
   ["inputs", "histories"], "every band shape, chunk size, value type, initial value and history of block writes and window reads",
   "tests write a few blocks; the chunk arithmetic has corner cases at every alignment of block and chunk borders",
   [B], [("CompressedBand block reads and writes", B + ": CompressedBand.getblock, setblock, _getchunks, _store, _getstored"), ("SimpleBand", B + ": SimpleBand.getblock, setblock")]),
 P("P02", "Indexing a grid reads and writes the addressed cells",
   "Reading a grid with any integer, slice, pair, triple or boolean-mask key gives what the same key gives on the array of rows, columns and bands, and assigning with such a key changes exactly the addressed cells. Integer indices out of range raise an IndexError and change nothing.",
   ["inputs"], "every grid size, number of bands, key (negative and stepped slices included) and assigned value",
   "tests index a handful of keys; normalisation of negative, stepped and empty slices needs all of them",
   [G, B], [("RegularGrid item access", G + ": RegularGrid.__getitem__, __setitem__, values"), ("BandIndexer", B + ": BandIndexer")]),
 P("P03", "Grid indices and world coordinates are inverse",
   "Cell centres and vertices, and the coordinate generators, are those given by the grid's affine transform (origin, resolution, skew), and the positions and indices computed from world coordinates invert it: a cell's centre has that cell's index, and a world position maps back from the position computed for it. Coordinates beyond the grid's outermost cells raise an error where an index is asked for.",
   ["inputs"], "every affine transform with non-zero determinant (negative resolutions and skew included), size and point",
   "tests use a few transforms, mostly without skew and with positive resolution",
   [G, "karta/raster/coordgen.py"], [("positions and indices", G + ": RegularGrid.get_positions, get_indices"), ("centres, vertices", G + ": RegularGrid.center_llref, vertex_coords, center_coords"), ("coordinate generator", "karta/raster/coordgen.py: CoordinateGenerator")]),
 P("P04", "Grid extents and bounding boxes are tight",
   "The extent and the bounding box of a grid are the smallest axis-parallel boxes holding all cell centres and all cell corners, respectively, whatever the sign of the resolution and the skew. The variants for data only consider exactly the cells with data in every band.",
   ["inputs"], "every transform, size and placement of missing cells",
   "tests use single transforms; sign and skew combinations decide which corner is extreme",
   [G], [("extents", G + ": RegularGrid.get_extent, bbox, get_data_extent, data_bbox")]),
 P("P05", "Bilinear sampling is the bilinear interpolant",
   "Sampling a grid bilinearly at a point inside the hull of the cell centres returns, for every band, the bilinear interpolant of the four surrounding cell values, equal to the cell value at a centre; outside it returns the grid's nodata value. The result does not depend on whether points are given singly or as arrays, nor on the value type, up to rounding.",
   ["inputs"], "every grid, transform, value type, band count and sample position",
   "tests sample a few positions on float grids; borders, single rows, integer types and negative resolutions need all positions",
   [G, "karta/raster/crfuncs.pyx"], [("sampling kernels", "karta/raster/crfuncs.pyx: sample_bilinear_double, _int, _uint, ..."), ("sampling", G + ": RegularGrid.sample_bilinear, sample")]),
 P("P06", "Nearest sampling, resampling and profiles pick the nearest cell",
   "Nearest-neighbour sampling returns every band of the cell whose centre is nearest to the point and nodata outside the grid. Resampling to a new resolution (or an aligned origin, at most half a step away) keeps the first cell's centre and gives each new cell the value of the nearest old one, and a profile returns the samples at the points it reports, equally spaced along the line by the step asked for or the shorter step between cells.",
   ["inputs"], "every grid, transform, sample position, new resolution and line",
   "tests sample few points; rounding towards the wrong neighbour shows only near cell borders",
   [G], [("nearest sampling", G + ": RegularGrid.sample_nearest, get_indices"), ("resampling", G + ": RegularGrid.resample"), ("profile", G + ": RegularGrid.profile")]),
 P("P07", "Clipping, chunking and resizing keep values at their world position",
   "Clipping a grid to a box keeps exactly the cells whose centres lie in it (at least those, with skew), each with its value at its world position. Dividing a grid into chunks covers every cell, once when there is no overlap, and resizing keeps each value at its world position and fills new cells with nodata.",
   ["inputs"], "every grid, transform, box, chunk size, overlap and new bounding box",
   "tests clip a few boxes; off-by-one errors depend on the alignment of box and cells and the sign of the resolution",
   [G], [("clip", G + ": RegularGrid.clip"), ("chunks", G + ": RegularGrid.aschunks"), ("resize", G + ": RegularGrid.resize")]),
 P("P08", "Merging grids averages overlapping data and covers the union",
   "The merge of aligned grids covers the union of their extents; every cell is the weighted mean of the grids having data there, and nodata where none has. Grids that are not a whole number of cells apart, or whose structures differ, are rejected.",
   ["inputs"], "every number of aligned grids, weights, offsets, missing cells and value type",
   "tests merge two or three grids of fixed offsets",
   ["karta/raster/grid.py", "karta/raster/misc.py"], [("merge", G + ": merge")]),
 P("P09", "Gridding points averages the points falling in each cell",
   "Gridding scattered points gives each cell the mean of the values of the points inside it and NaN where there are none, with a grid that just covers the points. Points outside a given grid raise an IndexError rather than being put elsewhere.",
   ["inputs"], "every set of points, values and transform",
   "tests grid one fixed set of points",
   [G], [("gridpoints", G + ": gridpoints, mean_ew")]),
 P("P10", "Terrain stencils follow their neighbourhood formulas",
   "Gradient, slope, aspect, divergence and normalised potential vectors of a grid equal their finite-difference formulas over the neighbouring cells in the grid's units on every interior cell, and are missing where a needed neighbour is. Skewed grids are refused.",
   ["inputs"], "every grid, resolution and placement of missing cells",
   "tests evaluate one analytic surface",
   ["karta/raster/misc.py"], [("stencils", "karta/raster/misc.py: slope, aspect, gradient, divergence, normed_potential_vectors")]),
 P("P11", "Missing cells are exactly those holding nodata",
   "The data mask, extremes, cell-wise functions and arithmetic of a grid treat exactly the cells equal to nodata (NaN included) as missing, in every band. Redefining nodata keeps every data value and moves every missing cell, and sums and differences are missing where either operand is and refused for grids of different structure.",
   ["inputs"], "every value type, nodata value, band count and placement of missing cells",
   "tests use one nodata value and type each; NaN, integer and multiband cases differ",
   [G], [("masks", G + ": RegularGrid.data_mask, data_mask_full, mask_nodata, set_nodata_value"), ("apply and arithmetic", G + ": RegularGrid.apply, __add__, __sub__, max, min, minmax")]),
 P("P12", "Raster files read back as they were written",
   "A grid written to a GeoTIFF or ASCII grid and read again has the same transform (where the format can express it), values, missing cells and, for GeoTIFF, value type, nodata value and ellipsoid, whether read into memory or lazily from disk. Incomplete ASCII headers are rejected.",
   ["inputs", "configurations"], "every grid, value type, compression and tiling option, reading mode and header",
   "tests round-trip a couple of grids",
   ["karta/raster/_gdal.py", "karta/raster/_aai.py", "karta/raster/read.py", G], [("GeoTIFF", "karta/raster/_gdal.py: read, write, GdalFileBand"), ("ASCII grid", "karta/raster/_aai.py: aairead"), ("reading", "karta/raster/read.py")]),
 P("P13", "Attribute tables behave as lists of records",
   "A table of attributes behaves, after every sequence of operations, like a list of records with the same fields: row and field access, slices, assignment, extension and merging give what the list gives. Mismatched fields or lengths are refused, and copies and arguments are not affected by later changes.",
   ["inputs", "histories"], "every set of fields and rows and every history of operations",
   "tests run each operation once on small tables",
   ["karta/vector/table.py"], [("Table", "karta/vector/table.py: Table, Indexer")]),
 P("P14", "Box searches over indexed points are exact",
   "Searching indexed points with a box returns exactly the indices of the points strictly inside it, each once, whatever the distribution, duplicates and leaf capacity (five or more). The box, radius and polygon subsets of a multipoint built on it hold exactly the right members, in order, with their coordinates, data and properties, with or without an index and after edits.",
   ["inputs", "histories"], "every set of points, leaf capacity, insertion order and box",
   "tests search random points once; splits, coincident points and boundary points need all configurations",
   ["karta/vector/quadtree.h", "karta/vector/quadtree.pyx", V], [("quadtree", "karta/vector/quadtree.h: qt_insert, qt_split, qt_search_within, iswithin, overlaps, get_quadrant"), ("subsets", V + ": Multipoint.within_bbox, within_radius, within_polygon")]),
 P("P15", "Bounding-box queries over indexed geometries are exact",
   "A query for indexed geometries overlapping a box returns exactly those whose bounding boxes share a point with it, and a containment query returns all strictly inside and none outside, each once and at most the requested number. This holds for any insertion history and node capacity (five or more), at the index's single precision.",
   ["inputs", "histories"], "every set of boxes, node capacity, insertion order, query box and result limit",
   "tests index one random set; node splits and the parents' boxes need all histories",
   ["karta/vector/rtree.h", "karta/vector/rtree.pyx", V], [("R-tree", "karta/vector/rtree.h: rt_insert, split, adjust_tree, tighten_bbox, rt_search_within, rt_search_overlapping, is_within, is_overlapping"), ("subsets", V + ": MultiGeometry within_bbox, touching_bbox")]),
 P("P16", "Planar point-in-polygon follows the winding number",
   "In planar coordinates a point off the boundary is contained in a polygon exactly when the ring winds around it a non-zero number of times, whatever the orientation, first vertex or self-crossings of the ring. Points inside a sub-polygon are not contained.",
   ["inputs"], "every ring, sub-polygons and point off the boundary",
   "tests try a few points in a few polygons; vertices level with the point and closing edges are the corner cases",
   ["karta/vector/contains.pyx", "karta/vector/intersection.pyx", V], [("winding test", "karta/vector/contains.pyx: contains"), ("crossing count", "karta/vector/intersection.pyx: count_crossings, intersects_cn"), ("Polygon.contains", V + ": Polygon.contains")]),
 P("P17", "Planar segment intersections are exact and symmetric",
   "Two planar segments that cross give their common point whatever the order of segments and ends, segments that share no point give none, and any point reported lies on both. The intersections of two geometries include every crossing of their edges, the closing edge of rings included, and bounding boxes overlap exactly when their closed ranges do.",
   ["inputs"], "every pair of segments, geometries and boxes",
   "tests intersect a few segments",
   ["karta/vector/intersection.pyx", V], [("segment intersection", "karta/vector/intersection.pyx: intersection, iscollinear, overlaps"), ("all pairs", "karta/vector/intersection.pyx: all_intersections, bboxes_overlap"), ("intersections", V + ": ConnectedMultiVertexMixin.intersections")]),
 P("P18", "The nearest boundary point is on the boundary and nearest",
   "In planar coordinates the nearest point reported for a line or polygon lies on its boundary (the closing edge included), the distance reported is the distance to it, and no point of the boundary is nearer. Tests for lying within a distance agree with it.",
   ["inputs"], "every geometry and query point, zero-length edges included",
   "tests query a few points",
   ["karta/vector/vectorgeo.pyx", V], [("segment kernel", "karta/vector/vectorgeo.pyx: pt_nearest_planar, min_distance"), ("geometry methods", V + ": ConnectedMultiVertexMixin.shortest_distance_to, nearest_on_boundary, within_distance")]),
 P("P19", "Planar lengths, areas and centroids equal their definitions",
   "In planar coordinates length, cumulative length, perimeter, area, centroid, orientation, bounding box and extent equal their definitions summed over every edge, the closing edge of polygons included and sub-polygons subtracted from areas. Area and perimeter do not depend on the orientation or first vertex.",
   ["inputs"], "every geometry, rank and sub-polygons",
   "tests measure a few shapes",
   [V], [("measures", V + ": Line.length, cumulength, Polygon.perimeter, area, centroid, isclockwise, bbox, get_extent")]),
 P("P20", "Affine transforms move every vertex and nothing else",
   "Applying an affine transform, shift, rotation or scaling to a geometry maps every vertex of every part, ring and sub-polygon by the matrix, and keeps type, order, heights, properties, data and coordinate system. The original is not changed, and the transform fitted to exactly matching control points is that transform.",
   ["inputs"], "every geometry and matrix",
   "tests transform a few geometries",
   [V], [("transforms", V + ": apply_transform, shift, rotate, scale"), ("fit", V + ": affine_matrix")]),
 P("P21", "Planar distance, azimuth and walking agree",
   "In planar coordinates walking a distance along an azimuth leads to a point at that distance and azimuth (degrees clockwise from north, up to whole turns), the distance is Euclidean, and walking the azimuth and distance from one point to another arrives at it. Points laid along a line are on it, equally spaced, starting at its first vertex, in the stated number.",
   ["inputs"], "every pair of points, azimuth, distance, line and spacing",
   "tests check a few directions; quadrant errors need all of them",
   ["karta/geodesy.py", "karta/crs.py", V], [("plane", "karta/geodesy.py: plane_distance, plane_azimuth"), ("systems", "karta/crs.py: CartesianCRS.forward, inverse"), ("points", V + ": Point.azimuth, distance, walk; Line.to_points, to_npoints")]),
 P("P22", "Angles are reduced correctly and spherical conversions invert",
   "Reduced angles lie in their range and differ from the argument by whole turns, and the dateline crossings between two longitudes follow the shorter way round. Spherical and Cartesian coordinates convert back and forth, and spherical distance and azimuth lead from one point to the other.",
   ["inputs"], "every angle, longitude pair and pair of points on the sphere (azimuths away from antipodes)",
   "tests check a few angles",
   ["karta/geodesy.py", "karta/vector/vectorgeo.pyx", "karta/vector/dateline.pyx"], [("angles", "karta/geodesy.py: unroll_rad, unroll_deg, reduce_rad, reduce_deg, isbetween_circular, cross_dateline, _canonical_configuration"), ("sphere", "karta/geodesy.py: sphere_distance, sphere_azimuth; karta/vector/vectorgeo.pyx: sph2cart, cart2sph")]),
 P("P23", "Ellipsoids and coordinate systems are consistent with their definition",
   "An ellipsoid given by any pair of its axes and flattening, in any order within a definition string, or by a name known to PROJ, has consistent semi-axes and flattening, and a definition without one is refused. Projecting and unprojecting a point is the identity, and the geodesic forward and inverse computations of a coordinate system agree, with azimuths normalised.",
   ["inputs", "configurations"], "every ellipsoid definition, coordinate system and point in its domain",
   "tests build a few systems",
   ["karta/crs.py"], [("ellipsoids", "karta/crs.py: Ellipsoid, parse_ellipsoid, ellipsoid_major_axis..."), ("systems", "karta/crs.py: GeographicalCRS, ProjectedCRS, Proj4CRS")]),
 P("P24", "Geographical bounding boxes cross the dateline the short way",
   "The bounding box of a geographical geometry less than half a turn wide has longitudes in [-180, 180), spans exactly the longitudes swept by its edges, across the dateline if need be, and holds every vertex and the great circles between them.",
   ["inputs"], "every vertex string spanning less than half a turn, wherever it lies",
   "tests use a few shapes near the dateline",
   ["karta/vector/dateline.pyx", "karta/vector/vectorgeo.pyx", V], [("dateline box", "karta/vector/dateline.pyx: crosses_dateline, bbox"), ("latitude bounds", "karta/vector/vectorgeo.pyx: bndlat_sph")]),
 P("P25", "The planar convex hull is convex, tight and complete",
   "The vertices of a planar convex hull are input points, in counter-clockwise order, strictly convex, and every input point lies inside or on the hull. Degenerate inputs give the single point or the extreme pair.",
   ["inputs"], "every set of points, duplicates and collinear points included",
   "tests hull a few sets",
   ["karta/vector/convexhull.pyx", V], [("hull", "karta/vector/convexhull.pyx: convexhull"), ("sorting", "karta/vector/convexhull.pyx")]),
 P("P26", "Web map tiles partition the map",
   "At every zoom level the tile computed for a point contains the point, each point belongs to one tile, neighbouring tiles share their edges, and the corner coordinates of a tile map back to that tile.",
   ["inputs"], "every zoom level and point",
   "tests compute a few tiles",
   ["karta/tile.py"], [("tiles", "karta/tile.py: Tile, tile_from_lonlat")]),
 P("P27", "Remembered results follow the geometry",
   "After any sequence of edits and queries, the bounding box, extent, length and spatial searches of a geometry are those of its current vertices and of the coordinate system asked for, never of an earlier state.",
   ["histories"], "every interleaving of vertex edits, extensions, transforms and queries",
   "tests query once per object; stale results need an edit between two queries",
   ["karta/vector/decorators.py", V], [("cache", "karta/vector/decorators.py: cache_decorator; " + V + ": _cache"), ("invalidation", V + ": __setitem__, extend, build_quadtree, build_rtree")]),
 P("P28", "Masking a grid by polygons keeps exactly the cells inside",
   "Masking a grid by polygons keeps, in every band, the cells that lie clearly inside some polygon unchanged and sets those clearly outside all of them to nodata, for polygons of any shape, orientation and position, partly off the grid included. The original grid is unchanged unless masking in place is asked for.",
   ["inputs"], "every grid, polygon list and band count",
   "tests mask one polygon",
   [G, "karta/raster/crfuncs.pyx"], [("mask kernel", "karta/raster/crfuncs.pyx: mask_poly"), ("mask", G + ": RegularGrid.mask_by_poly")]),
 P("P29", "The bracketing root finder returns a root inside its bracket",
   "For a function of one variable the root finder returns a point inside the given interval at which the function is zero or within the tolerance of a change of sign. An interval whose ends have the same sign is refused, and an end that is itself a root is returned.",
   ["inputs"], "every function with a sign change, interval and tolerance",
   "tests solve one equation",
   ["karta/geodesy.py"], [("Brent's method", "karta/geodesy.py: fzero_brent")]),
 P("P30", "GeoJSON and the geo interface describe the geometry completely",
   "A geometry written as GeoJSON, to a string or file, and read again has the same type, vertices, rings (closed, in either direction), properties and member data, with coordinates converted and labelled as WGS84 when that is asked for. Writing leaves the geometry unchanged, collections are read completely and in order, and the geo interface carries the same coordinates and properties.",
   ["inputs", "configurations"], "every geometry type, rank, properties, data and option",
   "tests write and read a few geometries",
   ["karta/vector/_geojson.py", "karta/vector/read.py", V], [("writer", "karta/vector/_geojson.py: GeoJSONOutMixin"), ("reader", "karta/vector/read.py: read_geojson, from_shape")]),
 P("P31", "Multipart geometries behave as sequences of their members",
   "Indexing, slicing and iterating a multipoint, multiline or multipolygon yields its members in order, each with its own vertices, rings, data row and the shared properties, and lines and polygons do the same for vertices and segments. Merging keeps every member of every item in order with the shared fields, and equal geometries compare and hash equal while different ones compare different.",
   ["inputs", "histories"], "every geometry, index, slice and list of items to merge",
   "tests index a few members",
   [V], [("members", V + ": Multipart.__getitem__, __iter__, Multipoint, Multiline, Multipolygon"), ("merge", V + ": merge class methods, multipart_from_singleparts")]),
 P("P32", "Planar intersection tests agree with the edges",
   "In planar coordinates two simple lines or polygons in general position (no vertex of one on the other) intersect exactly when some edge of one crosses some edge of the other, whichever is asked. The touching and contained members of multipart geometries are exactly those this and point containment imply.",
   ["inputs"], "every pair of simple geometries in general position",
   "tests intersect a few geometries; the sweep's order of events and neighbours needs all arrangements",
   ["karta/vector/intersection.pyx", V], [("sweep", "karta/vector/intersection.pyx: intersects, SweepLinePlaceholder, EventQueuePlaceholder"), ("members", V + ": MultiGeometry.touching, within")]),
 P("P33", "Shapefiles read back as they were written",
   "Geometries written to a shapefile are complete on disk when writing returns, and are read back in order with the same horizontal vertices, rings (in either direction), coordinate system and attributes: text, 32-bit whole numbers and real numbers to fifteen digits, also mixed or missing within one attribute, under names cut to ten characters and kept distinct. Writing leaves the geometries unchanged and replaces an existing file.",
   ["inputs", "configurations"], "every list of geometries of one type and every set of attributes",
   "tests write a few geometries",
   ["karta/vector/_shp.py", "karta/vector/read.py"], [("writer", "karta/vector/_shp.py: ogr_write, ogr_write_feature"), ("reader", "karta/vector/_shp.py: ogr_read_geometry; karta/vector/read.py: ogr_read_shapefile")]),
 P("P34", "GPX documents read back as they were written",
   "Waypoints, tracks and routes put in a GPX document and written to a file are read back in order, each point within a millionth of a degree and with its own properties, extensions and point data, and each track segment and route with its properties. Parts left out when writing are absent, nothing else is.",
   ["inputs"], "every list of waypoints, track segments and routes with properties and data",
   "tests write one document",
   ["karta/vector/_gpx.py", "karta/vector/read.py"], [("document", "karta/vector/_gpx.py: GPX"), ("reader", "karta/vector/read.py: read_gpx_waypts, read_gpx_tracks")]),
 P("P35", "Geodesics and areas on ellipsoids are accurate",
   "Between points within 80 degrees of the equator, and not opposite one another near it, the distance and azimuths computed on an ellipsoid of small flattening are those of the shortest geodesic to within millimetres, and walking along an azimuth arrives where the geodesic does. Lengths, perimeters and areas of geographical geometries away from the poles are those of their geodesic edges, across the equator and the dateline included, sub-polygons subtracted.",
   ["inputs"], "every ellipsoid, pair of points and simple geographical polygon in the domain",
   "tests compare a table of geodesics and one quadrilateral in one hemisphere",
   ["karta/geodesy.py", V], [("geodesics", "karta/geodesy.py: ellipsoidal_inverse, ellipsoidal_forward, solve_astroid, solve_vincenty"), ("areas", "karta/geodesy.py: ellipsoidal_area, spherical_area; " + V + ": Polygon.area, perimeter, Line.length")]),
]

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(PROPS))
