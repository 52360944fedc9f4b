#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit here, then run."""
import json, os
C = "pasture-core/src/containers/"
L = "pasture-core/src/layout/"
M = "pasture-core/src/math/"
A = "pasture-algorithms/src/"
IO = "pasture-io/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "A point buffer is one sequence of points, whatever its memory layout",
  "Whatever history of pushes, appends, resizes, clears, swaps and point- or attribute-wise writes a point buffer goes through, its length and every value read back from it, point-wise, attribute-wise, by range or by raw reference, are those of the abstract sequence of points that history describes. This holds identically for the interleaved vector buffer, the columnar hash map buffer and buffers over external memory, and an operation changes nothing beyond what it names; newly created points are zero. (What appending points without any attributes does is left open.)",
  ["histories", "inputs", "configurations"], "all operation histories, all point layouts (attribute sets, datatypes, packed or aligned), all three storage kinds, also fed by buffers of another kind",
  "The tests push once and read back, on four fixed point types; interactions between operations (append after resize, swap after attribute write, cross-layout append) and layouts with padding or unusual datatypes are not sampled.",
  [C+"point_buffer.rs", C+"mod.rs"],
  [("VectorBuffer", C+"point_buffer.rs: impl BorrowedMutBuffer/OwningBuffer for VectorBuffer"), ("HashMapBuffer", C+"point_buffer.rs: impl BorrowedMutBuffer/OwningBuffer for HashMapBuffer"), ("ExternalMemoryBuffer", C+"point_buffer.rs: impl BorrowedMutBuffer for ExternalMemoryBuffer")],
  ["return values of every read access of the buffer traits"],
  [("attribute storages", "one byte vector per attribute, all of the same number of points", "HashMapBuffer::attributes_storage")])

p("P02", "A buffer slice is an exact, isolated window onto its buffer",
  "A slice of a buffer, immutable or mutable and also a slice of a slice, has exactly the length of its range, its element i is the buffer's element (start + i), and everything written through a mutable slice arrives at exactly that place. Points outside of the range can be neither read nor changed through the slice: an access to an index at or past its length is refused, as is one past the end of the underlying buffer.",
  ["histories", "inputs"], "all buffers, ranges (empty, full, interior), nesting depths, and accesses through every accessor of a slice",
  "Tests slice a few fixed ranges, mostly starting at zero, and compare the content; no test looks for leaks across the boundary of a window that does not start at zero, nor slices a slice up to its end.",
  [C+"slice.rs"],
  [("local to global index translation", C+"slice.rs: get_and_check_global_point_index, get_and_check_global_point_range and their BufferSliceMut counterparts"), ("re-slicing", C+"slice.rs: SliceBuffer::slice / SliceBufferMut::slice_mut of the slice types")],
  ["reads through the slice and through the underlying buffer after the slice is dropped"])

p("P03", "Views and iterators yield every element exactly once, in order",
  "Typed point views and attribute views (shared, mutable and converting) show element i of the buffer as their element i, and their iterators obey the iterator contract: every element exactly once and in order, size hints that enclose the remaining count, and skipping or stepping any distance, also past the end, gives what a plain sequence gives and never touches memory outside of the buffer. Writing through a mutable view changes exactly the addressed value, and sorting by a view is a stable permutation of whole points.",
  ["inputs", "histories"], "all buffers and layouts, all element types, empty buffers included, all consumption patterns of the iterators (next, nth, skip, step_by, zip, partial consumption)",
  "Tests only collect whole views of non-empty buffers; positional skipping, stepping past the end, empty buffers, and stability or whole-point integrity of the sort under ties are never exercised.",
  [C+"buffer_views.rs", C+"attribute_iterators.rs", C+"point_iterators.rs", C+"raw_attribute_view.rs"],
  [("attribute iterators", C+"attribute_iterators.rs"), ("point iterators", C+"point_iterators.rs"), ("views and sorting", C+"buffer_views.rs: PointView, PointViewMut, AttributeView, AttributeViewMut, AttributeViewConverting"), ("raw attribute views", C+"raw_attribute_view.rs")],
  ["iterator items, size hints, buffer content after mutation"])

p("P04", "Attributes of a point layout never overlap and sit where the rules put them",
  "In every point layout that can be built through the public constructors, attributes are unique, lie inside of the point record without overlapping, respect the requested alignment (natural, or capped by the packing), and the record size is rounded up to the record's alignment exactly as the C layout rules do for the corresponding struct with or without packing. All lookups (by definition, name, index, offset, position) agree with each other, and adding an attribute leaves the earlier ones where they were.",
  ["inputs", "histories"], "all sequences of attributes, datatypes and alignments, all constructors, additions to layouts whose attributes are not stored in memory order",
  "Tests check a handful of attribute lists; the interaction of mixed datatypes with packings larger than one and additions to reordered layouts is not sampled.",
  [L+"point_layout.rs"],
  [("field placement", L+"point_layout.rs: PointLayout::add_attribute, from_attributes, from_attributes_packed, from_members_and_alignment"), ("lookups", L+"point_layout.rs: get_attribute*, has_attribute*, index_of, offset_of, at")],
  ["offset, size and lookup results of the layout"])

p("P05", "The derived layout of a point struct is the memory layout of that struct",
  "For every struct that derives the point type trait, whether C layout, packed or packed to n bytes (with or without C), aligned further or not, the derived layout lists the fields in order with the attribute name and datatype they were declared with, at the byte offsets and with the total size and alignment that the compiler gives the struct. A value written into any buffer as a struct and read back attribute by attribute, or the other way round, is the same value.",
  ["programs", "inputs"], "all structs over the supported field types, field orders, representations, built-in and custom attribute names",
  "The derive tests fix a few hand written structs; field order, padding and packing combinations are unbounded.",
  ["pasture-derive/src/lib.rs", "pasture-derive/src/layout.rs", L+"point_layout.rs"],
  [("derive macro", "pasture-derive/src/lib.rs: derive_point_type"), ("offset calculation", "pasture-derive/src/layout.rs"), ("primitive types", L+"point_layout.rs: PrimitiveType implementations")],
  ["Layout of the derived type against offset_of! and size_of of the compiler"])

p("P06", "Attribute value conversion has the semantics of the numeric cast",
  "Every supported conversion between attribute datatypes yields, component by component, the value of the language's numeric cast (exact where representable, saturating, truncating towards zero, NaN to zero), reads and writes exactly one value of the two types, and does not depend on how the values are aligned in memory. Exactly the pairs of equal component count are supported in both directions, identical types need no conversion and are copied verbatim, and a converting view shows the same values.",
  ["inputs"], "all ordered pairs of supported datatypes and all values, including extreme, negative, fractional and non-finite ones, at every alignment",
  "Tests convert a few hand picked values for some pairs; there are over a hundred pairs with unbounded value ranges.",
  [L+"conversion/attribute_conversion.rs", L+"conversion/mod.rs", C+"buffer_views.rs"],
  [("conversion table", L+"conversion: get_converter_for_attributes, get_generic_converter"), ("converting view", C+"buffer_views.rs: AttributeViewConverting")],
  ["bytes written by the conversion function"])

p("P07", "Layout conversion carries every shared attribute of every point to its place",
  "Converting points between two layouts puts into point i of the target, for every attribute both layouts name, the converted value of point i of the source, in the same order and number, whatever combination of interleaved and columnar buffers is involved; an attribute of the target that the source lacks is refused, or default (zero) when defaults were requested. The source is unchanged, the choice of memory layouts never changes the result, and raw single-point conversion agrees with it.",
  ["inputs", "configurations"], "all pairs of layouts (reordered, dropped, added, retyped attributes), all combinations of buffer kinds, all point counts",
  "Tests convert one pair of layouts; layout pairs with differing offsets, strides and datatypes crossed with four memory layout paths are not covered.",
  [L+"conversion/buffer_conversion.rs", L+"conversion/attribute_conversion.rs"],
  [("four memory layout paths", L+"conversion: BufferLayoutConverter::convert*"), ("raw point converter", L+"conversion: RawPointConverter")],
  ["target buffer against a per-point model"])

p("P08", "Custom mappings, transformations and ranges of a conversion apply exactly",
  "A custom mapping makes the target attribute come from the mapped source attribute only, a transformation is applied exactly once to each value on the requested side of the datatype conversion, and later mappings for the same target replace earlier ones. Converting a range into a range touches exactly the points of the target range, pairing them in order with the source range, leaves attributes without a mapping and all other points as they were, and refuses ranges that do not fit.",
  ["inputs", "histories", "configurations"], "all mapping sets, transformation sides, source and target ranges, memory layout combinations, repeated use of one converter",
  "One test applies one mapping and one transformation to whole buffers; offset ranges, transformation with and without type conversion and untouched neighbours are not sampled.",
  [L+"conversion/buffer_conversion.rs"],
  [("mappings", L+"conversion: set_custom_mapping, set_custom_mapping_with_transformation"), ("ranged conversion", L+"conversion: convert_into_range")],
  ["target buffer before and after", "number of calls of the transformation per value"])

p("P09", "Collecting, filtering and appending keep exactly the chosen points in order",
  "Collecting an iterator of points, filtering a buffer by a predicate, and appending one buffer or slice to another produce exactly the selected points, each once, in their original order and with all attributes intact, whatever the storage kinds on the two sides and whatever the iterator can say about its length. Points already in the target keep their place and the source is unchanged.",
  ["inputs", "histories"], "all selections (none, all, sparse), iterators with exact, inexact, absent or unbounded size hints, all source and target kinds, targets larger than needed",
  "Tests collect vectors of known length and filter with one predicate; adapters whose upper bound is larger than their length and prefilled targets are not sampled.",
  [C+"point_buffer.rs"],
  [("FromIterator", C+"point_buffer.rs: impl FromIterator for VectorBuffer, HashMapBuffer"), ("filter, filter_into", C+"point_buffer.rs: HashMapBuffer::filter*"), ("append*", C+"point_buffer.rs: OwningBuffer::append, append_interleaved, append_columnar")],
  ["content and length of the result"])

p("P10", "Attribute-wise pushing adds complete points or nothing",
  "Pushing points attribute by attribute adds exactly the pushed number of points, each combining the i-th value of every attribute, behind the points that were there before. If attributes are missing, have the wrong type, or were given different numbers of values, the push is refused and the buffer keeps its content and stays consistent.",
  ["histories", "inputs"], "all orders, repetitions, omissions and lengths of attribute pushes, on empty and non-empty buffers",
  "One doc example pushes each attribute once in order; duplicate, missing or differing pushes are not sampled.",
  [C+"point_buffer.rs"],
  [("attribute pusher", C+"point_buffer.rs: HashMapBufferAttributePusher::push_attribute_range, done")],
  ["buffer content after the push or its refusal"],
  [("pending attribute storages", "values pushed but not yet committed", "HashMapBufferAttributePusher")])

p("P11", "An untyped point reads and writes each attribute at its own place",
  "An untyped point over any layout returns for every attribute the value last written to it, converted to the requested type by the numeric cast where the types differ, and writing one attribute changes no byte of another. Raw and typed access agree with each other and with the same bytes seen through a buffer; unknown attributes and wrongly sized data are refused and leave the point unchanged.",
  ["histories", "inputs"], "all layouts, all write and read sequences, all datatypes and requested types",
  "Tests write and read two or three attributes of one layout.",
  [C+"untyped_point.rs"],
  [("untyped points", C+"untyped_point.rs: UntypedPointBuffer, UntypedPointSlice")],
  ["values and raw bytes of the untyped point"])

p("P12", "Safe use of point buffers never causes undefined behaviour",
  "No sequence of calls to the safe interface of buffers, slices, views, iterators, conversions and algorithms, whether its requests are valid or not, reads or writes memory outside of the buffer's own, creates misaligned or aliasing references, or reads uninitialised memory; neither do the unsafe functions when their documented requirements are met.",
  ["histories", "inputs", "configurations"], "all safe call sequences, including empty buffers, out-of-range requests and odd alignments",
  "Ordinary test runs do not notice undefined behaviour; it needs an interpreter or sanitizer watching executions that reach the raw pointer code with hostile inputs.",
  [C+"point_buffer.rs", C+"attribute_iterators.rs", C+"point_iterators.rs", C+"buffer_views.rs", C+"raw_attribute_view.rs", L+"conversion/attribute_conversion.rs", L+"conversion/buffer_conversion.rs"],
  [("raw pointer code", C+"attribute_iterators.rs, point_iterators.rs: mutable iterators; point_buffer.rs: swap"), ("byte casts", C+"buffer_views.rs")],
  ["Miri and AddressSanitizer reports"])

p("P13", "Bounding boxes obey the laws of sets of points",
  "A bounding box contains a point exactly if every coordinate lies between its minimum and maximum; the union of boxes is the smallest box containing both, extending by points gives the smallest box containing the box and the points, two boxes intersect exactly if they share a point, and center, extent and the cubic box are consistent with the corners. These hold for every numeric scalar type offered, and a box with a minimum above its maximum cannot be created.",
  ["inputs"], "all boxes and points, degenerate boxes and touching faces included",
  "Tests use a few boxes; boundary cases per axis and combinations are unbounded.",
  [M+"bounds.rs"],
  [("AABB", M+"bounds.rs: AABB")], ["results of the box operations"])

p("P14", "Math helpers compute their bit and ordering functions exactly",
  "Aligning a number gives the smallest multiple of the alignment not below it (where value plus alignment is representable), spreading bits puts bit i of the input at position 3i and nothing else, reversing bits mirrors the whole word, and minimum and maximum of values and of vectors are taken component by component. This holds for every value of every supported width.",
  ["inputs"], "all values of all supported integer widths and scalar or vector types",
  "Tests check single values.",
  [M+"arithmetic.rs", M+"bitmanip.rs", M+"minmax.rs"],
  [("Alignable", M+"arithmetic.rs"), ("bit manipulation", M+"bitmanip.rs"), ("MinMax", M+"minmax.rs")], ["function results against bit-by-bit references"])

p("P15", "Computed bounds and attribute ranges are tight",
  "The bounds of a point cloud contain every point and every face touches one, and the computed minimum and maximum of an attribute are component-wise the smallest and largest values that occur, whatever the storage kind, slice, datatype or order of the points. An empty cloud, or one without the needed attribute, is reported as having none, and the buffer is not changed.",
  ["inputs", "configurations"], "all point clouds, sizes, storage kinds and slices, all attribute datatypes",
  "Tests use one fixed cloud.",
  [A+"bounds.rs", A+"minmax.rs"],
  [("calculate_bounds", A+"bounds.rs"), ("minmax_attribute", A+"minmax.rs")], ["returned bounds and ranges"])

p("P16", "Voxel filtering leaves exactly one true representative per occupied voxel",
  "Grid markers stand on every axis one leaf size apart, beginning at the minimum of the cloud, and a cell is what lies nearest to one marker on each axis. Filtering produces exactly one point for each grid cell that holds at least one input point, and each output attribute is the documented reduction (average, most common, or maximum) of the values of that cell's points, up to rounding of the averages. It works the same for all buffer kinds, leaves the input unchanged, and attributes not in the target layout are ignored. Leaf sizes that are not positive are refused.",
  ["inputs", "configurations"], "all clouds, cell sizes and attribute sets of the target",
  "One test filters one fixed grid whose cell contents are constant by construction.",
  [A+"voxel_grid.rs"],
  [("cell assignment", A+"voxel_grid.rs: create_markers_for_axis, find_leaf"), ("reductions", A+"voxel_grid.rs: centroid_*")], ["output buffer against an independent partition of the input"])

p("P17", "RANSAC returns a best sampled model and exactly its inliers",
  "The plane and line segmentations return a model through sampled input points together with exactly the points within the given distance of it, each index once and in order, and the serial and parallel variants promise the same. If enough of the cloud lies on one plane or line for the sampling to find it, the returned inliers are at least those points' share.",
  ["inputs", "schedules", "configurations"], "all clouds, distance thresholds, iteration counts and thread schedules",
  "Tests use one cloud with a perfect model; exactness of the inlier set, degenerate samples and scheduling are not examined.",
  [A+"segmentation.rs"],
  [("ransac variants", A+"segmentation.rs: ransac_plane_par, ransac_plane_serial, ransac_line_par, ransac_line_serial")], ["model and inlier indices, recomputed independently"])

p("P18", "The convex hull encloses every point with vertices taken from the input",
  "The hull of a point cloud consists of input points only, every input point lies inside or on it (up to floating point tolerance), and for points in general position or with exactly representable coordinates the mesh is closed and consistently oriented outwards: every edge belongs to exactly two triangles, in opposite directions. The set of hull points is the set of mesh vertices and does not depend on the storage kind of the buffer.",
  ["inputs", "configurations"], "all clouds in general position, also with interior, duplicate and large-coordinate points, in any order",
  "Tests cover a few hand made shapes of up to a dozen points.",
  [A+"convexhull.rs"],
  [("incremental hull", A+"convexhull.rs: convex_hull_as_triangle_mesh, convex_hull_as_points")], ["triangles and point indices, checked by half-space tests"])

p("P19", "Centroids are means and normals are the directions of least variance",
  "The centroid of a cloud is the mean of its finite points, and the normal estimated at each point is, up to sign, length and tolerance, the direction in which its k nearest neighbours vary least, with a curvature that is the share of the variance in that direction. The points are finite. One normal is returned per point in point order, and requests with too few neighbours are refused.",
  ["inputs"], "all clouds and neighbourhood sizes",
  "Tests use exactly planar toy clouds of four to eight points in axis-aligned planes.",
  [A+"normal_estimation.rs"],
  [("centroid", A+"normal_estimation.rs: compute_centroid"), ("normals", A+"normal_estimation.rs: compute_normals")], ["returned normals against an independent eigen decomposition"])

p("P20", "Reprojection transforms every position and nothing else",
  "Reprojecting a cloud with double precision positions replaces the position of every point by the transformed position of that same point, exactly as the single-point transformation between the two reference systems gives it, and changes no other attribute, the order, or the number of points. Reprojecting between two clouds leaves the source as it was and refuses clouds of different length or without positions, and unknown reference systems are refused.",
  ["inputs", "configurations"], "all clouds, storage kinds and pairs of reference systems",
  "Tests reproject four points between one pair of systems.",
  [A+"reprojection.rs"],
  [("Projection", A+"reprojection.rs: Projection"), ("cloud reprojection", A+"reprojection.rs: reproject_point_cloud_within, reproject_point_cloud_between")], ["positions before and after, single-point transformations"])

p("P21", "Invalid requests are refused and leave the buffer unchanged",
  "Indices and ranges outside of a buffer, data of the wrong size, attributes a buffer does not have, views of the wrong type, and combining buffers of different layouts are refused; no such request returns data of other points. After a refusal the buffer has the length it had before, no point outside of the request has changed, and it remains fully usable.",
  ["histories", "inputs", "fault_sequences"], "all invalid requests to every storage kind, at any point of any history",
  "Hardly any test makes an invalid request, none checks the state afterwards.",
  [C+"point_buffer.rs", C+"buffer_views.rs", C+"slice.rs", L+"conversion/buffer_conversion.rs"],
  [("bounds and type checks", C+"point_buffer.rs and buffer_views.rs: assertions and slice indexing")], ["outcome of the request, full content before and after"])

p("P22", "Layouts and attribute definitions survive serialization",
  "Serializing a point layout, an attribute definition or a datatype and reading it back yields an equal value with the same offsets, sizes, alignment behaviour and lookups, so that a buffer interpreted with the restored layout has the same content.",
  ["inputs"], "all layouts, attribute names and datatypes including byte arrays and custom ones",
  "One test round-trips one layout.",
  [L+"point_layout.rs"],
  [("serde support", L+"point_layout.rs: Serialize/Deserialize implementations behind the serde feature")], ["restored layout"])

p("P23", "Text output of a point cloud reads back as the same point cloud",
  "Writing points as text with any format string, delimiter and precision writes one line per point with one column per format literal holding that attribute of that point, and reading the text back with the same format gives the same points: integers exactly, decimal numbers to the chosen precision. Values never lose digits that the precision keeps.",
  ["inputs", "configurations"], "all formats, delimiters, precisions, clouds and storage kinds, more points than an internal chunk holds",
  "Tests write ten fixed points in a format where several columns hold the same values.",
  [IO+"ascii/raw_writer.rs", IO+"ascii/raw_reader.rs", IO+"ascii/ascii_format_util.rs"],
  [("writer", IO+"ascii/raw_writer.rs: RawAsciiWriter::write"), ("reader", IO+"ascii/raw_reader.rs: parse_point")], ["text produced, buffer read back"])

p("P24", "Reading text reports exactly the points it read and rejects bad lines",
  "Reading from a text source stores each line's values in the attributes its columns name, converted to the datatypes of the target by the numeric cast, ignoring columns marked as skipped and attributes the target lacks, reports exactly how many points it read, also when the source ends early or is read in several calls, and leaves points beyond those untouched. A line with too few columns, an unparsable or out-of-range value is an error.",
  ["inputs", "histories", "fault_sequences"], "all texts, formats, delimiters, call sequences and target layouts",
  "Tests read ten lines of one file in one call, and a few single-line errors.",
  [IO+"ascii/raw_reader.rs", IO+"ascii/ascii_reader.rs", IO+"base/reader.rs"],
  [("reader", IO+"ascii/raw_reader.rs: RawAsciiReader::read_into"), ("format literals", IO+"ascii/ascii_format_util.rs: get_parse_layout")], ["reported counts, buffer content, errors"])

p("P25", "A 3D Tiles point file reads back as the points that were written",
  "Writing any cloud as a 3D Tiles point file, in one or several writes, and reading it back gives the same number of points in the same order with the supported attributes equal after conversion to the types of the format, whatever the storage kinds and extra attributes; positions are offset by the file's center exactly once per read position when absolute positions are requested. The file's declared lengths match its bytes and its sections start on the required boundaries.",
  ["inputs", "histories", "configurations"], "all clouds, layouts, write splits, centers, read modes and target layouts",
  "Tests write a handful of fixed points once.",
  [IO+"tiles3d/pnts_writer.rs", IO+"tiles3d/pnts_reader.rs", IO+"tiles3d/feature_table.rs", IO+"tiles3d/batch_table.rs", IO+"tiles3d/common.rs"],
  [("writer", IO+"tiles3d/pnts_writer.rs: write_cached_points"), ("reader", IO+"tiles3d/pnts_reader.rs: read_into")], ["file bytes parsed independently, points read back"])

p("P26", "Partial reads and seeks of a point file see the same points",
  "Reading a 3D Tiles point file in any sequence of partial reads and seeks returns at each read exactly the points at the current position, as many as asked or remain, advances the position by that number, and writes nothing into the target beyond the points it reports. Seeking reports the position reached, clamped to the file.",
  ["histories", "inputs"], "all interleavings of reads of any size and seeks from start, end and current position, with all target layouts",
  "Tests read everything at once.",
  [IO+"tiles3d/pnts_reader.rs", IO+"base/seek.rs"],
  [("position handling", IO+"tiles3d/pnts_reader.rs: read_into, seek_point")], ["points and positions returned"])

p("P27", "Tileset documents and table headers survive a round trip through JSON",
  "Every tileset tree and every feature or batch table header that is written and read back is equal to the original, and the serialized headers end on the eight byte boundary required at the file position they were written for.",
  ["inputs"], "all tileset trees, header contents and file positions",
  "Tests round-trip one document and one header at position zero.",
  [IO+"tiles3d/tileset.rs", IO+"tiles3d/feature_table.rs", IO+"tiles3d/batch_table.rs", IO+"tiles3d/common.rs"],
  [("header serialization", IO+"tiles3d/common.rs: write_json_header"), ("tileset", IO+"tiles3d/tileset.rs")], ["restored values, byte lengths"])

p("P28", "A LAS or LAZ file has the points, counts and records that were written",
  "Writing points to a LAS or LAZ file of any supported point format and version, through a writer made from a header or from a point layout, in any number of writes and flushes, from buffers of any storage kind and of any layout whose attributes can be converted, gives after a flush a file as the LAS specification describes it, that holds exactly these points in order: positions rounded to the nearest step of the file's scale, all other attributes (described extra bytes included) exactly, attributes that the points don't have as zero. Its point counts, counts by return, bounds, transform, variable length records, extended records and padding are those of the points and the header, and it reads back as the same points. A failing output is reported as an error, and after a successful flush the underlying writer is flushed.",
  ["inputs", "histories", "configurations", "fault_sequences"], "all point formats, versions, headers, clouds, layouts, storage kinds, write splits and outputs",
  "Tests need the las and laz crates, and write ten points once in each format.",
  [IO+"las/raw_writers.rs", IO+"las/las_writer.rs", IO+"las/raw_readers.rs", IO+"las/las_layout.rs", IO+"las/las_types.rs", IO+"las/write_helpers.rs", IO+"las/read_helpers.rs"],
  [("writers", IO+"las/raw_writers.rs: RawLASWriter, RawLAZWriter"), ("positions and bit fields", IO+"las/write_helpers.rs")], ["bytes of the file, points read back, errors"])

p("P29", "Concurrent readers of a buffer see what a sequential reader sees",
  "Any number of threads may at the same time read one buffer, its slices and views, convert and filter it into targets of their own, look up its layout, and run the algorithms on it, the parallel ones included; every one of them gets the result a sequential execution gives, and there is no data race.",
  ["schedules", "inputs"], "all thread schedules over shared buffers, views, converters and parallel algorithms",
  "Tests are single threaded apart from one call of the parallel algorithms, and do not watch for races.",
  [C+"point_buffer.rs", L+"conversion/buffer_conversion.rs", A+"segmentation.rs"],
  [("shared access", C+"point_buffer.rs: BorrowedBuffer on shared references"), ("parallel algorithms", A+"segmentation.rs: ransac_*_par")], ["results per thread, ThreadSanitizer reports"])

p("P30", "Partial reads and seeks of a LAS or LAZ file see the same points",
  "Reading a LAS or LAZ file of any point format, version, transform and amount of extra bytes in any sequence of partial reads and seeks returns at each read exactly the points at the current position, as many as asked or remain, decoded as the LAS specification describes the records and converted to the layout of the target, advances the position by that number, and writes nothing into the target beyond the points it reports. A target to which the points can't be converted, and a damaged file, is an error. Seeking reports the position reached, clamped to the end of the file.",
  ["histories", "inputs", "configurations"], "all files, layout modes, interleavings of reads of any size and seeks from start, end and current position, with all target layouts",
  "Tests need the las and laz crates and read fixed files with ten points.",
  [IO+"las/raw_readers.rs", IO+"las/las_reader.rs", IO+"las/las_layout.rs", IO+"las/las_types.rs", IO+"base/seek.rs"],
  [("readers", IO+"las/raw_readers.rs: RawLASReader, RawLAZReader"), ("layouts", IO+"las/las_layout.rs: point_layout_from_las_metadata")], ["points, positions and counts returned"])

p("P31", "Metadata, records, layouts and formats of LAS files say what the file says",
  "The metadata of a LAS file (point count, bounds, format, version, identifiers, date, named fields) and its typed records (classification names, text area, extra bytes with their types, options, names, scale, offset and least, greatest and no-data values) are those in the bytes of its header, typed accessors give a value only for their kind of data type, and all of it can be displayed. Extra bytes records that were made with the builder have the bytes of the specification and read back the same. The point layout of a file has the attributes of its format and extra bytes, in file order and at file offsets in exact mode; the format chosen for a layout exists, has all LAS attributes of the layout, and is the smallest such format. Damaged or contradictory records are an error, never a panic.",
  ["inputs", "configurations"], "all headers, records, formats and layouts",
  "Tests need the las crate and look at one file and a few layouts.",
  [IO+"las/las_metadata.rs", IO+"las/las_layout.rs", IO+"las/las_types.rs"],
  [("metadata and records", IO+"las/las_metadata.rs: LASMetadata, ExtraBytesVlr, ClassificationLookup"), ("layouts and formats", IO+"las/las_layout.rs: point_layout_from_las_metadata, las_point_format_from_point_layout")], ["values returned by the accessors, layouts, errors"])

p("P32", "Whole files are read and written by the kind that their extension names",
  "Writing a whole buffer to a path with write_all or GenericPointWriter makes the file that the LAS, LAZ or PNTS writer makes for the same points, whichever the extension names in upper or lower case, and replaces an old file; reading it with read_all or GenericPointReader gives the points of the reader of that kind, and read_all_into appends all of them, converted to the layout of the buffer, behind the points that the buffer has. Unknown extensions, missing files and paths that can't be written are errors that leave the buffer as it was.",
  ["inputs", "configurations"], "all buffers, layouts, kinds of files, extensions and paths",
  "No test writes or reads a file through these functions; they need the las and laz crates.",
  [IO+"base/mod.rs", IO+"base/io_factory.rs", IO+"las/las_writer.rs", IO+"las/las_reader.rs", IO+"tiles3d/pnts_writer.rs", IO+"tiles3d/pnts_reader.rs"],
  [("whole files", IO+"base/mod.rs: read_all, read_all_into, write_all"), ("choice by extension", IO+"base/io_factory.rs: GenericPointReader, GenericPointWriter")], ["bytes of the files, points read, errors"])

p("P33", "The info tool reports the metadata, attributes and value ranges of a file",
  "Run on any LAS, LAZ or PNTS file, the info tool of pasture-tools prints the path and the metadata of the file; in detailed mode it also lists every attribute of the file in order and prints, for each attribute it knows that the file has, in whatever datatype, the smallest and largest value over all points, also for files with more points than it reads at a time and files without points. It leaves the file as it is. A missing file and an unknown kind of file end it with an error.",
  ["inputs", "configurations"], "all files, formats, sizes and options",
  "The tool has no tests, and its crate is not built by the tests.",
  ["pasture-tools/src/bin/info.rs"],
  [("tool", "pasture-tools/src/bin/info.rs: analyze_file, main")], ["output and exit status of the tool"])

p("P34", "A point type can be derived exactly for the documented declarations",
  "Every struct without generic parameters that is repr(C) and/or repr(packed), with any alignment or packing, whose fields are all of the primitive types of pasture and each carry exactly one well formed pasture attribute (a builtin one or a custom name), with all names different, compiles with derive(PointType), and its layout has the names, datatypes, offsets, size and alignment of the type. Declarations that break one of these rules, in whichever field and next to whatever else, do not compile; two fields with the same attribute name do not compile or have no layout.",
  ["programs"], "all type declarations",
  "The tests derive a few hand written structs; none tries a declaration that must be refused.",
  ["pasture-derive/src/lib.rs", "pasture-derive/src/layout.rs"],
  [("fields", "pasture-derive/src/lib.rs: get_field_layout_descriptions, get_attribute_name_from_field"), ("representation", "pasture-derive/src/layout.rs")], ["errors of the compiler per declaration, layouts of the compiled ones"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
