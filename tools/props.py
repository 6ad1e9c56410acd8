PB = CORE + "containers/point_buffer.rs"
SL = CORE + "containers/slice.rs"
BV = CORE + "containers/buffer_views.rs"
PI = CORE + "containers/point_iterators.rs"
AI = CORE + "containers/attribute_iterators.rs"
RV = CORE + "containers/raw_attribute_view.rs"
UP = CORE + "containers/untyped_point.rs"
AC = CORE + "layout/conversion/attribute_conversion.rs"
BC = CORE + "layout/conversion/buffer_conversion.rs"
PL = CORE + "layout/point_layout.rs"

prop("C01", "core", "Every point buffer behaves as a growable sequence of points of its layout",
     "After any sequence of resizing, clearing, typed pushes, appends of any buffer kind and point/attribute writes, every point buffer (interleaved, columnar, borrowed external memory) holds exactly the points a plain sequence of points would hold: same length, same bytes for every point and every attribute, grown points zero/default initialised. Operations outside the documented preconditions are refused and leave the buffer unchanged.",
     ["histories", "inputs"], "every history of buffer operations up to the depth bound, over every buffer kind and the listed layouts (interleaved, packed, aligned with padding, empty)",
     "The suite drives each operation once or twice from a fresh buffer; the guarantee is about every history and every buffer kind, including histories that shrink, clear and regrow.",
     [PB], [("VectorBuffer push/append/resize/clear", PB + " impl OwningBuffer for VectorBuffer"), ("HashMapBuffer push/append/resize/clear", PB + " impl OwningBuffer for HashMapBuffer"), ("borrowed memory", PB + " ExternalMemoryBuffer")],
     "quick: all histories of depth 3 (depth 2 on pre-sized buffers) over {push, append from each of 4 source kinds, resize to 0..6, clear, write point, write attribute, illegal variants}, buffers up to 6 points, 4 layouts and the empty layout; plus size sweep up to 130 points. thorough: additionally all histories of depth 6 by breadth-first search with state hashing, and the larger layout family. Plus buffers of 100 to 65537 points (sizes around powers of two), points of 33 attributes and points of 1.5 KiB, each decided in linear time.",
     "Explicit-state search over the real containers: each node is a history, replayed on a fresh buffer; the reference is a `Vec` of point byte-vectors. After each step the whole buffer is read back through every read path (point ranges, attribute, views, slices) and compared.",
     state=[("point bytes", "the bytes of every point, row-major or per attribute", PB + " VectorBuffer::storage / HashMapBuffer::attributes_storage"), ("length", "number of points", PB + " VectorBuffer::length / HashMapBuffer::length")])

prop("C02", "core", "A write changes exactly the points and attributes it names and nothing else",
     "Writing a point, a point range, an attribute value or an attribute range through any mutable access path changes exactly the addressed bytes to the supplied bytes and leaves every other attribute, every other point and the length unchanged. Subsequent reads through every other access path see the written values.",
     ["histories", "inputs"], "every index/range/attribute of buffers of 1, 3 and 5 points; all sequences of writes up to the depth bound",
     "Tests write a random buffer once and read it back by the same path; aliasing between ranges, attributes and access paths is a statement about all combinations.",
     [PB, BV, RV], [("set_point / set_point_range / set_attribute / set_attribute_range", PB), ("mutable views", BV + " PointViewMut, AttributeViewMut"), ("strided columns", RV)],
     "quick: all sequences of writes of depth 2 on 1 and 3 points (depth 1 on 5 points) over every (path, index, range, attribute) on VectorBuffer, HashMapBuffer and ExternalMemoryBuffer, 8 layouts. thorough: depth 3 on 3 points. Plus buffers of 100 to 65537 points (sizes around powers of two), points of 33 attributes and points of 1.5 KiB, each decided in linear time.",
     "Stateless enumeration of write sequences on the real buffers against a byte-matrix model; the complete buffer is read back by all read paths after every write.")

prop("C03", "core", "Collecting or extending from an iterator keeps every element, in order",
     "Building a buffer from an iterator, extending a buffer by an iterator, or copying a slice of points stores exactly the yielded points in order, whatever size hint the iterator reports.",
     ["inputs"], "all lengths up to the bound and all lower/upper size-hint combinations, both owning buffer kinds",
     "Tests collect from exact-size iterators only.",
     [PB], [("FromIterator", PB + " impl FromIterator for VectorBuffer / HashMapBuffer")],
     "quick: n in 0..6 plus the sizes 16, 17, 33, 64, 65, 130; hints: exact, (0,None), lower too low, upper too high by 1..3, huge upper. thorough: n in 0..9 as well. Plus buffers of 100 to 65537 points (sizes around powers of two), points of 33 attributes and points of 1.5 KiB, each decided in linear time.",
     "Every iterator shape is run against the real FromIterator/Extend implementations and compared with the plain Vec.")

prop("C04", "core", "The columnar attribute pusher inserts complete points or refuses",
     "Pushing per-attribute ranges into a columnar buffer and calling done either appends exactly the given points, when every attribute of the layout was pushed exactly once with equal lengths, or is refused. It never leaves a buffer whose attribute columns disagree in length.",
     ["histories"], "every sequence of attribute pushes up to one more than the number of attributes, on empty and filled buffers",
     "The suite pushes one complete well-formed set.",
     [PB], [("HashMapBufferAttributePusher", PB + " push_attribute_range / done")],
     "quick: all push sequences up to min(attributes+1,5) with lengths 0..3 and foreign attributes; thorough: attributes+2. Every attribute datatype alone and next to another one. Plus buffers of 100 to 65537 points (sizes around powers of two), points of 33 attributes and points of 1.5 KiB, each decided in linear time.",
     "Exhaustive enumeration of push histories; the oracle computes accept/refuse and the resulting points.")

prop("C05", "core", "Filtering keeps exactly the matching points in order",
     "Filtering a buffer by a predicate over point indices yields a buffer with the same layout holding exactly the points for which the predicate is true, in their original order, whatever source and target buffer kinds are used. Filtering into an existing buffer of sufficient size and into one that is too small behaves as documented.",
     ["inputs"], "all 2^n predicates for n points, every source and target buffer kind",
     "Tests filter with one or two fixed predicates.",
     [PB], [("filter / filter_into", PB + " BorrowedBuffer::filter, filter_into")],
     "quick: every bitmask for n<=6 (thorough n<=9) and patterned masks at n in {16,17,33,64,65,130}; source kinds x target kinds x 4 layouts; filter_into with 0..2 spare points and with refused targets. Plus buffers of 100 to 65537 points (sizes around powers of two), points of 33 attributes and points of 1.5 KiB, each decided in linear time.",
     "Every predicate is executed on the real code and compared with Vec filtering.")

prop("C06", "core", "Typed and untyped access refuse what would misread memory",
     "Views, attribute views, pushes and slices over a buffer are only handed out for layouts, attributes and lengths that match; a mismatching point type, attribute datatype, unknown attribute, wrong slice length or out-of-bounds index is refused (panic, error or None) instead of reading or writing foreign bytes. Matching requests are always granted.",
     ["inputs"], "every pair (layout, requested type/attribute/index) of the family, for every access path",
     "A handful of negative tests exist; soundness of the unsafe casts depends on every mismatching combination being refused.",
     [PB, BV, UP, RV], [("layout assertions of views", BV + " PointView::new, AttributeView::new"), ("range and size assertions", PB + " get_point/set_point/get_attribute"), ("untyped points", UP)],
     "all pairs of 8 layouts/point types x access paths x indices around 0..n, attribute names x datatypes; appends and filters between every layout and each of its neighbours (one attribute missing, renamed, retyped with and without the same size, moved, exchanged with another, added in padding; other order, larger points) in both directions; identical in both tiers except for the larger layout family.",
     "Exhaustive request enumeration with an accept/refuse oracle computed from the layouts; refusals must leave the buffer unchanged.")

prop("C07", "core", "A slice of a buffer is exactly the selected sub-sequence, at any nesting depth",
     "Every read operation on a slice of a buffer, including a slice of a slice to any depth, returns the same points as the corresponding sub-range of the buffer; indices and ranges outside the slice are refused even when they are inside the underlying buffer.",
     ["inputs", "histories"], "all ranges of small buffers, nested to depth 3, for every sliceable buffer kind and every read path",
     "Tests slice once with one fixed range.",
     [SL], [("BufferSlice index translation", SL + " BufferSlice, get_absolute_range")],
     "all ranges of n=6 at depth 1, all pairs of nested ranges of n=4, all triples for n=3/5; every read path, every in- and out-of-range index; reversed ranges (refused or empty). Plus buffers of 100 to 65537 points (sizes around powers of two), points of 33 attributes and points of 1.5 KiB, each decided in linear time.",
     "All slice expressions are evaluated on the real code and compared with Vec slicing.")

prop("C08", "core", "Writes through a mutable slice stay inside the slice",
     "A write through a mutable slice (nested or not) changes exactly the addressed points of the underlying buffer, offset by the slice start, and never a point outside the slice; out-of-range writes are refused without changing anything.",
     ["inputs", "histories"], "all mutable slice ranges of small buffers, nested to depth 2, all write paths and indices",
     "Tests write through one slice; containment is a statement about every range and index.",
     [SL], [("BufferSliceMut index translation and checks", SL + " BufferSliceMut")],
     "every range of n=4 with every write path, index and range inside and outside; nested slices of n=3; sequences of 2 writes for n=2; sort/swap through slices. Plus buffers of 100 to 65537 points (sizes around powers of two), points of 33 attributes and points of 1.5 KiB, each decided in linear time.",
     "All writes are executed on the real code and the complete underlying buffer is compared with the model.")

prop("C09", "core", "Views read, write, compare and sort points exactly as a slice of points would",
     "Point and attribute views (strongly typed, converting, by value, by reference, mutable) return element i of the buffer for every i, mutable access writes exactly that element, equality of views is element-wise equality, and sorting a buffer by a key is a stable sort of the points for every buffer kind. All of it also holds for empty buffers.",
     ["inputs"], "all key sequences up to the bound, all indices, every buffer kind and 8 layouts",
     "Tests sort and compare random data of one size.",
     [BV, PB], [("views", BV), ("sort_by", BV + " sort_by"), ("equality", BV + " PartialEq")],
     "access on n in {0..5,9,17} (thorough 0..40); sort_by over all 3^n key sequences n<=5 (thorough 8) and patterned sequences up to 100 points with 4 comparators; equality for all pairs of short sequences, also between views of buffers with different layouts and kinds. Plus buffers of 100 to 65537 points (sizes around powers of two), points of 33 attributes and points of 1.5 KiB, each decided in linear time.",
     "All inputs are executed on the real views and compared with Vec operations (slice::sort_by as the stable reference).")

prop("C10", "core", "Point and attribute iterators obey the Iterator contract",
     "Every point and attribute iterator (by value, by reference, by mutable reference, converting, over interleaved, columnar and sliced buffers) yields element 0..n in order exactly once under any mix of next and nth, stays exhausted after the end, and reports a size_hint / len consistent with what is left. Mutable iterators never hand out the same element twice.",
     ["histories"], "all sequences of next/nth calls up to the bound over all iterator kinds and lengths",
     "Tests run plain for-loops; adaptors such as skip, step_by and zip call nth and size_hint.",
     [PI, AI], [("point iterators", PI), ("attribute iterators", AI)],
     "all sequences of length <=4 (thorough 5) over {next, nth(0), nth(1), nth(2), nth(9), nth(usize::MAX)} for n<=4 (thorough 6) on 10 iterator kinds x 5 buffer kinds x 3 point types; complete drains with step_by/skip/last/count for n in {15,16,17,31,64,65,130}. Plus buffers of 100 to 65537 points (sizes around powers of two), points of 33 attributes and points of 1.5 KiB, each decided in linear time.",
     "Stateless exploration of call histories; reference is slice::iter() driven by the same calls.")

prop("C11", "core", "Converting attribute views equal reading the raw attribute and casting it",
     "A converting attribute view over any buffer returns, for every point, the value of the stored attribute converted to the requested datatype by the library's conversion rule (numeric cast semantics), when such a conversion exists, and is refused otherwise; converting writes store the converted value in exactly that attribute.",
     ["inputs"], "all 16 x 16 pairs of stored and requested primitive/vector datatypes with boundary values",
     "Tests use two or three datatype pairs.",
     [BV, AC], [("converting views", BV + " AttributeViewConverting(Mut)"), ("converter table", AC + " get_converter_for_attributes")],
     "all datatype pairs x boundary value sets x buffer kinds; every untyped access with another datatype or width, which has to be refused; cursors over untyped points. Plus buffers of 100 to 65537 points (sizes around powers of two), points of 33 attributes and points of 1.5 KiB, each decided in linear time.",
     "Every pair is executed; the oracle is an independent implementation of Rust `as` casts per component.")

prop("C13", "core", "Point layouts place attributes without overlap, aligned, and with the right size",
     "Building a layout from a sequence of attributes keeps the attributes in that order with their names and datatypes, gives each an offset that respects the requested alignment, lets no two attributes overlap, and gives the layout the alignment and size a C compiler would choose; duplicate names are refused and queries by name, datatype and index agree with the sequence.",
     ["inputs"], "all attribute sequences up to the bound over all datatypes, default and packed alignments",
     "Tests use a few fixed layouts.",
     [PL], [("from_attributes / add_attribute", PL + " PointLayout::add_attribute, from_attributes_packed"), ("queries", PL + " get_attribute, has_attribute, index_of, offset_of")],
     "all sequences of length <=3 over 23 datatypes, length 4 over a reduced set (thorough 6), default and packed(1,2,4,8,16); all sequences of up to three explicitly placed members in every order of offsets; names that differ in case, spaces or one character; custom datatypes aligned to up to 64 bytes.",
     "Exhaustive enumeration against an independent C-struct layout algorithm.")

prop("C14", "core", "Growing a layout never moves or overlaps existing attributes",
     "Adding an attribute to any existing layout, including layouts whose attributes were placed by offset in arbitrary memory order, keeps every existing attribute where it is, places the new one outside all of them with the requested alignment and keeps size and alignment consistent; illegal member placements (overlap, out of size) are refused.",
     ["histories", "inputs"], "all growth histories up to the bound from every start layout; all member placements in a small struct",
     "Tests grow layouts that are already in memory order.",
     [PL], [("add_attribute", PL + " PointLayout::add_attribute"), ("from_members_and_alignment", PL)],
     "growth depth 2 (thorough 3) from 7 start layouts; all placements of up to 3 members.",
     "History enumeration with a non-overlap/alignment/stability monitor after each step.")

prop("C15", "core", "The derived PointLayout of a struct is its true memory layout",
     "For every struct that derives PointType, the layout lists the fields in declaration order with the declared attribute names and datatypes, and every offset, the total size and the alignment equal those of the compiled type, for repr(C), repr(packed) and repr(align) in any spelling and combination, named and tuple structs and any attribute name.",
     ["programs"], "a generated family of 938 structs: all field sequences up to the bound over the supported field types, all repr spellings, builtin and custom attribute names",
     "Tests derive two or three structs; the guarantee is about every program.",
     [DER + "lib.rs", DER + "layout.rs"], [("derive macro", DER + "lib.rs derive(PointType)"), ("offset/alignment computation", DER + "layout.rs")],
     "938 generated structs: all field sequences of length 1 over 16 types x 5 representations, of length 2 with a small type, length 3 over a reduced set; 23 further spellings of packed (also without C) and align, alone, repeated and combined; tuple structs; every builtin attribute; names with spaces, quotes, dots and other scripts.",
     "Program enumeration: the structs are compiled with the real macro and compared with core::mem::offset_of/size_of/align_of.")

prop("C16", "core", "Layouts and bounds survive a serde round trip",
     "Serialising and deserialising a point layout, attribute definition, attribute member or bounding box yields an equal value whose offsets, sizes, datatypes and alignment are unchanged.",
     ["inputs"], "all layouts of up to 2 (3) attributes over all datatypes, custom attribute datatypes and packed/aligned variants",
     "One round-trip test at most per type.",
     [PL, CORE + "math/bounds.rs"], [("serde derives and manual impls", PL)],
     "all layouts of length <=2 (thorough 3), attributes, datatypes (incl. ByteArray and Custom), alignments, AABBs on a dyadic grid.",
     "Exhaustive enumeration with equality and full accessor comparison.",
     assume=["serde_json's decimal float parsing is not exact without its float_roundtrip feature; boxes use short dyadic coordinates."])

prop("C17", "core", "Attribute conversion between datatypes is exact cast semantics",
     "For every ordered pair of attribute datatypes, the conversion function either does not exist, or maps every source value to the value of Rust's numeric cast applied per component, reading and writing exactly the sizes of the two datatypes and nothing outside them.",
     ["inputs"], "all datatype pairs; all values of 1- and 2-byte sources, boundary values (thorough: all 2^32 values of 4-byte sources) for larger ones",
     "Tests cover a few random values per pair.",
     [AC], [("converter table", AC + " get_generic_converter, impl_conversion")],
     "all pairs of 23 datatypes; all u8/i8/u16/i16 values; boundary sets for 32/64 bit, among them the neighbourhood of every tie between two floating point numbers; thorough: all 2^32 values for 4-byte sources.",
     "Input enumeration against an independent per-component cast table with guard bytes around both buffers.")

prop("C18", "core", "Buffer conversion moves every attribute of every point by its mapping",
     "Converting a buffer into another layout gives a buffer of the target layout in which every point attribute equals the mapped source attribute after datatype conversion and transformation, for all points of the range, and unmapped target attributes keep their default. Mapping by name, custom mappings in any order, range conversion and in-place targets agree, for all source and target buffer kinds.",
     ["inputs", "histories"], "all sequences of custom mappings up to the bound, all range pairs, all buffer kind pairs and layout pairs of the family",
     "Tests convert between two fixed layouts with the default mapping.",
     [BC], [("BufferLayoutConverter", BC + " for_layouts, set_custom_mapping, convert, convert_into_range"), ("chunked conversion", BC + " convert_general_to_general and friends")],
     "mapping histories of depth 2 (thorough 3), all source/target ranges for n<=4, sizes up to 1025 for every buffer-kind pair, all layout pairs, every sequence of source values over {0,v1,v2} of up to 3 (thorough 5) points with transformations. Plus buffers of 100 to 65537 points (sizes around powers of two), points of 33 attributes and points of 1.5 KiB, each decided in linear time.",
     "Exhaustive enumeration of mapping histories; oracle computes each target attribute independently.")

prop("C19", "core", "Raw point conversion equals attribute-wise conversion",
     "Converting a single untyped point from one layout to another by the raw converter writes every shared attribute of the target with the converted source value at the target offset and leaves every other byte of the target untouched.",
     ["inputs"], "all layout pairs of the family", "Two layouts are tested.",
     [BC, UP], [("RawPointConverter", CORE + "layout/conversion")],
     "all ordered pairs of the layout family and all convertible pairs of datatypes with every boundary value (every bit position, every exponent).",
     "Enumeration against the attribute-wise oracle with guard bytes.")

prop("C20", "core", "Bounding boxes are exact under union, extension, containment and intersection",
     "For all boxes and points, containment, intersection, union, extension, extent, center and construction from corner points or point iterators of axis-aligned boxes agree with their set definitions: union and extension give the smallest box containing both, contains is closed containment per axis and intersects is non-empty closed overlap. Invalid corner order is refused.",
     ["inputs"], "all pairs of boxes and points on a small integer grid, plus far/negative coordinates",
     "Tests use one or two boxes.",
     [CORE + "math/bounds.rs", CORE + "math/minmax.rs"], [("AABB", CORE + "math/bounds.rs"), ("component-wise min/max", CORE + "math/minmax.rs")],
     "all box pairs and points of a 4^3 (thorough 5^3) grid, several scales and datatypes, boxes and points of mixed magnitudes, boxes of up to three points over 14 coordinates from -infinity to infinity.",
     "Exhaustive grid enumeration against interval arithmetic on integers.",
     assume=["Center and cubic box are asserted where the sum of the corners is representable."])

prop("C21", "core", "Alignment, bit and component math helpers are exact on their whole domain",
     "Rounding up to an alignment returns the smallest multiple not below the value, bit interleaving/expansion (Morton) helpers place exactly the requested bits, and the component-wise min/max equals applying it per component, for every representable input.",
     ["inputs"], "exhaustive for 8-bit types, boundary windows for wider types, all 21-bit Morton inputs",
     "Tests check a few values.",
     [CORE + "math/arithmetic.rs", CORE + "math/bitmanip.rs", CORE + "math/minmax.rs"], [("align_to", CORE + "math/arithmetic.rs"), ("expand bits", CORE + "math/bitmanip.rs")],
     "all u8/i8 pairs, boundary windows for 16..128 bit, all 2^21 Morton inputs.",
     "Exhaustive enumeration against definitions computed in wider integers.")

BO, MM, CH, VG, NE, SE, RE = (ALGO + f for f in ("bounds.rs", "minmax.rs", "convexhull.rs", "voxel_grid.rs", "normal_estimation.rs", "segmentation.rs", "reprojection.rs"))

prop("C22", "algo", "The bounds of a point cloud are the exact per-axis range of its positions",
     "For every point cloud with 3D positions, in any buffer kind and any position datatype that converts to f64, the calculated bounds are exactly the per-axis minimum and maximum over all positions, independent of point order and of negative, mixed, extreme or infinite magnitudes. A cloud without points or without positions has no bounds.",
     ["inputs"], "all sequences of positions up to the length bound over an alphabet with negative, zero, tiny and huge coordinates; every buffer kind; positions stored as f64, f32, i32, u16 and u8 vectors",
     "The tests compute the bounds of one cube.",
     [BO], [("bounds", BO + " calculate_bounds"), ("positions of another datatype", BO + " calculate_bounds, view_attribute_with_conversion")],
     "quick: all sequences of length <=5 over 5 values per axis, all buffer kinds and 5 stored datatypes, single extremes at every index of clouds of up to 130 points; thorough: length <=7. Plus all sequences of up to 4 (thorough 5) positions with infinite coordinates, and clouds of up to 10000 (thorough 65537) points with the extremes around powers of two.",
     "Every cloud is run through the real function; the oracle folds min/max per axis.",
     assume=["NaN coordinates are not explored."])

prop("C23", "algo", "Attribute minima and maxima are exact, component by component",
     "The calculated minimum and maximum of an attribute are exactly the component-wise minimum and maximum of the stored values for every scalar and vector datatype and buffer kind; an empty cloud has none. Asking for an attribute that is not in the layout or with the wrong datatype is refused.",
     ["inputs"], "all value sequences up to the length bound over datatype-specific boundary alphabets (MIN, -1, 0, 1, MAX), all scalar and vector datatypes",
     "The tests use two attributes of one point type.",
     [MM, CORE + "math/minmax.rs"], [("minmax_attribute", MM + " minmax_attribute"), ("component-wise comparison", CORE + "math/minmax.rs MinMax")],
     "quick: all sequences up to length 5 (vectors of four: 4) over boundary values for 10 scalar and 6 vector datatypes x buffer kinds, all mismatching (stored, requested) datatype pairs; thorough: lengths 7 and 5. Plus up to 4097 (thorough 65537) values.",
     "Exhaustive enumeration with a fold as the oracle.")

prop("C24", "algo", "Convex hulls enclose all points with a closed mesh of hull corners",
     "The convex hull mesh of a point cloud has only non-degenerate triangles over points of the cloud, is closed, is oriented outwards, has every point of the cloud inside or on it and uses every corner of the hull (and, for points in general position, nothing else), independent of the order of the points, of repeated points and of the buffer. A flat cloud yields a mesh that covers both sides of its hull polygon, points on a line or fewer are an error, and the hull point set is exactly the vertices of the mesh.",
     ["inputs", "histories"], "all insertion orders of all point subsets of small grids (general position, planar, cubes, slabs, with repetitions), translated, scaled and skewed",
     "The tests check a cube, a tetrahedron and some random points for few facts; degeneracies depend on the order of insertion.",
     [CH], [("incremental hull", CH + " create_convex_hull, iteration"), ("planar clouds", CH + " create_planar_hull"), ("as mesh / as points", CH + " convex_hull_as_triangle_mesh, convex_hull_as_points")],
     "quick: all orders of all k-subsets (k<=5, selected 6) of line, plane, cube, slab and general-position sets with up to 9 points, all words of length <=6 with repetition, all buffer kinds and f32/f64 positions, general sets of up to 40 points, units from 2^-200 to 2^200, hulls that are wide and one unit thin, bowls of up to 1681 points that are all corners, positions stored as f32, i32, u16 and u8 near the ends of their range and across the ends of the smaller types, small shapes far from the origin in f32 and f64; thorough: k<=8 and 27-point grids. Plus clouds of up to 90 (thorough 130) points in general position.",
     "The insertion orders are the histories of the incremental algorithm; each one is executed on the real code and the resulting mesh is decided with exact integer predicates (orientation, coplanarity, edge pairing, brute-force extreme points).",
     assume=["Coordinates are small integers (exact predicates in f64); rounding behaviour for ill-conditioned coordinates is not covered."])

prop("C25", "algo", "The voxel grid filter yields exactly one centroid per occupied cell",
     "Filtering a point cloud by a voxel grid appends exactly one point per occupied cell to the target: positions, intensities, colours, normals and near infrared values are the mean of the points of the cell, classifications, return data, scan angles, scanner data and ids of the source are a most frequent value, times, point ids and classification flags the maximum. Every point counts for exactly one cell, the nearest grid line per axis, the source is unchanged and earlier target points stay. Clouds without positions and targets with waveform or other attributes that no rule exists for are refused.",
     ["inputs"], "all clouds up to the length bound over a coordinate alphabet that includes cell borders, six leaf sizes, all buffer kinds and target kinds, many attribute patterns",
     "The tests filter one big cloud with one leaf size and compare counts.",
     [VG], [("grid markers", VG + " create_markers_for_axis"), ("cell search", VG + " find_leaf"), ("centroid attributes", VG + " set_all_attributes"), ("filter", VG + " voxelgrid_filter")],
     "quick: all clouds of <=4 points over 7 coordinates (5 points over 6) x 6 leaf shapes with 3 axis patterns, source and target kinds rotating; all multiplicity patterns for up to 12 points in a cell; clouds of up to 100 points, up to 1350 cells along an axis, a different leaf per axis; coordinates far from the origin with decimal leaf sizes; attribute values up to their type's largest and times no smaller type can hold. thorough: <=6 points. Plus up to 1025 points in one cell.",
     "Every cloud is filtered by the real code; the oracle bins the points by its own definition of nearest grid line and matches output points to cells, accepting any most frequent value.",
     assume=["Coordinates and leaf sizes are dyadic, so cell borders are exact; shard far, with decimal leaf sizes, keeps points away from the borders."])

prop("C26", "algo", "Estimated normals are the least-variance direction of the k nearest points",
     "For every point the estimated normal is a unit vector parallel to the direction of least variance of its k nearest neighbours (any choice among equally distant ones) and the curvature is the share of the least variance of the total, independent of scale, translation, point order and buffer kind. Points with undefined coordinates in the neighbourhood do not count. Less than three points or neighbours are refused.",
     ["inputs"], "all subsets of 3..5 (6) points of a skewed 3x3x3 grid, all neighbourhood sizes, three similarity transforms, the same at magnitudes from 2^-300 to 2^300, tilted sheets with all deviation patterns, up to two points with undefined coordinates at every place",
     "The tests check a plane and one point set.",
     [NE], [("neighbourhood", NE + " find_nearest_points"), ("covariance", NE + " compute_covariance_matrix"), ("eigen solver", NE + " solve_plane_parameter, eigen_33"), ("compute_normals", NE + " compute_normals")],
     "quick: all subsets of 3 and 4 points, a third of the 5-point subsets, k=3..n; sets of 3..5 points with undefined points; sheets with 64 deviation patterns x 3 sizes x 5 tilts; thorough: all subsets up to 6, 1024 deviation patterns. Plus irregular clouds of up to 1025 points with up to all points as neighbours.",
     "Every neighbourhood is computed by the real code; the oracle is an independent Jacobi eigen decomposition of the exact covariance over every admissible neighbour choice.",
     assume=["Asserted only where the least eigenvalue is separated by 5 % of the trace (otherwise the direction is not determined).", "The sign of a normal is free."])

prop("C27", "algo", "The centroid is the mean of all points with defined positions",
     "The centroid of a point cloud is the mean of all its positions in every buffer kind; points with NaN or infinite coordinates do not contribute when there are such points, wherever they are in the cloud. An empty cloud is refused.",
     ["inputs"], "all sequences up to the length bound over coordinate alphabets with and without undefined values",
     "The tests average one cloud.",
     [NE], [("compute_centroid", NE + " compute_centroid, is_dense"), ("finite check", NE + " is_finite")],
     "quick: all sequences of length <=5 over dyadic coordinates, <=4 with NaN coordinates at every position, all buffer kinds, sizes up to 130; all sequences of length <=4 over coordinates of every magnitude up to 2^1023 (alone and next to NaN) whose magnitudes still add up to a finite number; all sequences of length <=4 over tiny coordinates down to subnormal ones; thorough: 7, 5, 5 and 6. Plus clouds of up to 65537 points (10000 with undefined points) and every combination of NaN and infinities in the three coordinates of a point.",
     "Exhaustive enumeration with an exact mean as the oracle.")

prop("C28", "algo", "RANSAC planes are the best of the drawn planes with exactly their inliers",
     "For every sequence of random choices and every schedule, plane segmentation (serial and parallel) returns a plane through three distinct points of the cloud, its inliers are exactly the points closer than the threshold in increasing order, the ranking is their number, and no other iteration had more inliers. Clouds with fewer than three points are refused.",
     ["schedules", "inputs"], "all sequences of random choices up to the bound (the explorer owns the generator), clouds with points at exactly the threshold, on lines and repeated; 1 to 8 workers",
     "A random test can only look at the best case; whether a bad draw or repeated index is handled depends on choices a test does not control.",
     [SE], [("distinct choices", SE + " generate_rng_plane"), ("inliers", SE + " generate_plane_model, distance_point_plane"), ("best model", SE + " ransac_plane_serial / ransac_plane_par")],
     "quick: all choice sequences up to the budget (1500 parallel, 5000 serial) per cloud x threshold x iterations<=3, structured sequences for up to 33 iterations (up to 300, thorough 1025, of which one is good) on 24 points, 1..8 workers; thorough: budget 60000, 4 iterations. Plus clouds of up to 10000 (thorough 65537) points under scripted choices, good models that are drawn as late as in iteration 66000, clouds thousands of units wide, and thresholds 1e-9 above and below every distance of a cloud in four units of length.",
     "Choice-sequence exploration: rand's thread generator is replaced by one whose outputs the explorer enumerates. Each execution is judged by exact integer geometry and against single iterations under the same choices; for several workers each worker's choices are scripted and decoded afterwards, so the result is judged for whatever schedule occurred.",
     assume=["With one worker the schedule is fixed; with several workers rayon's work distribution is not controlled, every distribution that occurs is judged.", "If the code stops using rand's thread generator only self-consistency is judged."])

prop("C29", "algo", "RANSAC lines are the best of the drawn lines with exactly their inliers",
     "For every sequence of random choices and every schedule, line segmentation (serial and parallel) returns a line through two distinct points of the cloud, its inliers are exactly the points closer than the threshold in increasing order, the ranking is their number, and no other iteration had more inliers. Clouds with fewer than two points are refused.",
     ["schedules", "inputs"], "all sequences of random choices up to the bound (the explorer owns the generator), clouds with points at exactly the threshold and repeated points; 1 to 8 workers",
     "As for planes.",
     [SE], [("distinct choices", SE + " generate_rng_line"), ("inliers", SE + " generate_line_model, distance_point_line"), ("best model", SE + " ransac_line_serial / ransac_line_par")],
     "quick: all choice sequences up to the budget per cloud x threshold x iterations<=3, structured sequences for up to 33 iterations (up to 300, thorough 1025, of which one is good), 1..8 workers; thorough: budget 60000, 4 iterations. Plus clouds of up to 10000 (thorough 65537) points under scripted choices, good models that are drawn as late as in iteration 66000, clouds thousands of units wide, and thresholds 1e-9 above and below every distance of a cloud in four units of length.",
     "As C28, with exact point-line distances.",
     assume=["As C28."])

prop("C30", "algo", "Reprojection transforms every position and nothing else",
     "Reprojecting a cloud in place or into another cloud of the same size replaces every position by the transformed position of the same point and leaves all other attributes, the source and points outside of a slice unchanged, for every buffer kind and layout. Transformed bounds contain all transformed corners of the box. Transformations agree with the closed forms on a sphere. Invalid reference systems, clouds without positions and clouds of different sizes are refused without changing anything.",
     ["inputs"], "all sequences of up to two (three) positions of a lattice, all pairs of five systems, all pairs of buffer kinds and layouts, all boxes between lattice points and under rotated, swapped and polar systems",
     "The tests compare three printed positions of one projection.",
     [RE], [("pointwise transformation", RE + " Projection::transform, reproject_point_cloud_within / _between"), ("bounds", RE + " Projection::transform_bounds"), ("errors", RE + " Projection::new")],
     "quick: 25 system pairs (a geocentric one among them) x 48 positions x all boxes, all sequences of length <=2 over 12 positions x 5 buffer kinds x 6 system pairs, all buffer kind and layout pairs at 7 sizes up to 65, every sequence of up to 4 of four positions between and within buffers; thorough: length 3 and 6. Plus clouds of up to 4097 (thorough 65537) points, positions that have no image (the pole, latitudes beyond it, 1e300, NaN, infinities) among others, and positions that differ in one coordinate only.",
     "Exhaustive execution of the real code against PROJ's own pointwise results (bit-exact) and against closed forms of the spherical projections.",
     assume=["PROJ itself is trusted for non-spherical systems."])

AW, AR, AC = IO + "ascii/raw_writer.rs", IO + "ascii/raw_reader.rs", IO + "ascii/ascii_format_util.rs"
PW, PR, PC, TC, TS = IO + "tiles3d/pnts_writer.rs", IO + "tiles3d/pnts_reader.rs", IO + "tiles3d/pnts_metadata.rs", IO + "tiles3d/common.rs", IO + "tiles3d/tileset.rs"
SHIM = "The crate is compiled from /repo with stand-ins for the four crates that are not available offline (see *Stand-ins* in DESIGN.md)."

prop("C31", "io", "The ASCII writer writes every attribute value into its column",
     "An ASCII file has exactly one line per written point, in order, across any sequence of writes, flushes and changes of delimiter and precision; each line has one column per literal of the format with the value of the attribute the literal stands for (to the chosen number of decimals). Points of any buffer kind, layout and attribute datatype give the same text; missing or unconvertible attributes and failing outputs are errors.",
     ["inputs", "histories", "faults"], "all formats up to the length bound, all attribute datatypes, all write histories up to the bound, every failing output operation",
     "The tests write one file with one format.",
     [AW, AC], [("columns", AW + " write, write_attr_*"), ("format", AC + " parse_format")],
     "quick: all formats of <=3 of 16 literals x 2-5 buffer kinds, every literal x 10 datatypes x sizes, 30 values x 13 precisions, 11 delimiters, all histories of <=4 operations x 3 outputs, sizes around the chunk size, every output operation failing, outputs that take 1 to 4 bytes at a time; thorough: formats of 4, histories of 5.",
     "Every format and history is executed by the real writer into an in-memory device of the explorer; each column is parsed again and compared with the value.", assume=[SHIM])

prop("C32", "io", "The ASCII reader delivers the value of every column of every line",
     "For every format, line ending, input chunking and sequence of read calls the reader delivers each line exactly once, in order, with every attribute equal to the value of its column (converted to the target's datatype), reports how many points it has read, and leaves points behind them unchanged; columns beyond the format are ignored. Malformed tokens, missing columns, impossible targets and failures of the input are errors, never points.",
     ["inputs", "histories", "faults"], "all formats up to the length bound, all read histories up to the bound, valid and malformed tokens of every column, every failing input operation",
     "The tests read one file with two formats.",
     [AR, AC], [("lines and columns", AR + " read_into, parse_*"), ("format", AC)],
     "quick: all formats of <=3 literals into 6 targets, all read histories of <=3 calls x 5 file sizes x 3 endings x 3 inputs x 4 targets, every token of every column, 16 target datatypes per column, all read operations failing; write-read round trips of all formats of <=2; thorough: formats of 4, histories of 5.",
     "Exhaustive execution of the real reader on generated text, compared with the numbers that the text was made from.", assume=[SHIM])

prop("C33", "io", "The pnts writer writes a complete and correct tile for every history",
     "After every flush and after dropping the writer the output is a valid .pnts tile: magic, version, lengths that add up to the file, 8-byte alignment of tables and bodies, and a feature table whose offsets lead to the positions, colours and normals of all points written so far, relative to RTC_CENTER if it is set, wherever in the output the tile starts and however the tables change between flushes. Attributes are converted to the datatype of their semantic or refused, and a failing or short-writing output is reported, never silently incomplete.",
     ["histories", "inputs", "faults"], "all arrangements of attributes and storage types, all histories of writes, flushes and centers up to the bound, every failing operation and every size of a full device",
     "The tests write one file in one go.",
     [PW, TC], [("tile assembly", PW + " write, write_header / flush"), ("attribute conversion", PW), ("tables", TC + " ser_feature_table_header")],
     "quick: all arrangements of <=4 of 6 attributes x 3 type sets x 3 packings x 4 histories; all histories of <=5 of 7 operations x 3 layouts x 4 outputs; every operation failing x 3 error kinds x once/forever, every capacity, tiles embedded at offsets 1 to 13, centers that no f32 holds; thorough: 6 attributes, histories of 6.",
     "Fault and history enumeration on the real writer; the oracle is an independent parser of the .pnts specification.", assume=[SHIM])

prop("C34", "io", "The pnts reader delivers the points of the tile for every read and seek history",
     "For every valid .pnts tile and every sequence of reads, seeks and position modes the reader delivers the points at its current position, in the target's layout, with positions absolute or relative as chosen; the position after reads and seeks, the point count and the metadata are those of the tile; points of the target that were not read stay. Damaged tiles are errors or unaffected points, never panics or invented points. What the writer writes is what the reader reads.",
     ["histories", "inputs", "faults"], "all arrangements of semantics with gaps, centers, extra tables; all histories of up to 3 (4) of 21 operations; all truncations and header bit flips",
     "The tests read one file from start to end.",
     [PR, PC, TC], [("reading", PR + " read_into_*, seek_point"), ("header", PR + " PntsReader::from_read"), ("metadata", PC)],
     "quick: all arrangements of 4 semantics x 3 gaps x 8 flag sets x 3 sizes x 3 inputs; all histories of <=3 of 21 operations for 0..3 points; 14 target datatypes; all truncations, 220 bit flips, 16 wrong feature tables; round trips; thorough: histories of 4.",
     "Explicit enumeration of operation histories on the real reader against a model of the tile (list of points + position).", assume=[SHIM])

prop("C35", "io", "3D Tiles table headers survive writing and reading",
     "Every feature table and batch table header survives serialization and deserialization unchanged, is padded with spaces such that it ends on an 8-byte boundary for every offset in the file, consumes exactly its bytes when read, refuses entries that the specification does not allow and reports failures of the output (also on short writes).",
     ["inputs", "faults"], "all combinations of entries up to the bound, all eight alignments of the offset, every failing write",
     "The tests have one table each.",
     [TC, IO + "tiles3d/feature_table.rs", IO + "tiles3d/batch_table.rs"], [("padding", TC + " write_json_header"), ("parsing", IO + "tiles3d/ deser_feature_table_header, deser_batch_table_header")],
     "quick: all tables of <=3 entries from an alphabet of values x offsets 0..8 x trailing padding; faults at every write x 3 chunk sizes; thorough: 4 entries.",
     "Exhaustive enumeration with serde_json values as the oracle.", assume=[SHIM])

prop("C36", "io", "Tilesets are written as the JSON of the 3D Tiles specification and read back",
     "Every tileset built with the builder - any bounding volume, content, transform (column-major), refinement and tree of children - serializes to the JSON of the 3D Tiles 1.0 schema and deserializes to an equal tileset; JSON with missing or malformed members is refused.",
     ["inputs"], "all combinations of fields, all trees up to the bound",
     "The tests compare two tilesets.",
     [TS], [("serialization", TS), ("builder", TS + " TilesetBuilder")],
     "quick: all 1440 combinations of fields, all trees of <=5 nodes built in four ways, 24 root tilesets, malformed JSON; thorough: trees of 7.",
     "Exhaustive enumeration against JSON values written from the specification.", assume=[SHIM])

TI = "pasture-tools/src/bin/info.rs"
LW, LR, LM, LL, LT, LH, LRH = [IO + "las/" + f for f in ("raw_writers.rs", "raw_readers.rs", "las_metadata.rs", "las_layout.rs", "las_types.rs", "write_helpers.rs", "read_helpers.rs")]
BG = IO + "base/"
LASA = "The las and laz crates are stand-ins; what they do (header encoding, transforms, entropy coding) is not judged, the bytes of the file and the points that come back are."

prop("C37", "io", "The LAS writer writes every attribute of every point into its record",
     "A LAS file written through any sequence of writes and flushes, from any kind of buffer and any layout, holds exactly the written points, in order, for every point format: each attribute of the format at its place in the record, positions rounded to the nearest multiple of the scale, extra bytes behind the record as they are described or as undescribed bytes; VLRs, paddings and EVLRs stay where the header says they are. Attributes that the layout does not have are zero.",
     ["histories", "inputs"], "all 11 point formats, all shapes of headers, all histories of writes and flushes up to the bound, a grid of positions x scales x offsets, sizes around the writer's chunk",
     "The tests write ten points once per format and read them with the same helpers.",
     [LW, LH, LL], [("records", LW + " write_points_default_layout / write_points_custom_layout"), ("bit fields", LH), ("header", LW + " flush")],
     "quick: 11 formats x 10 header shapes x 8 layouts x buffer kinds x all words of <=3 of write(0,1,2,..)/flush; position grid of scales, offsets and half-steps; 49,999 to 100,001 points; thorough: longer words and all kinds.",
     "Explicit enumeration of histories on the real writer; every flushed file is parsed by a decoder written from the LAS 1.4 specification and read back.", assume=[SHIM, LASA])

prop("C38", "io", "The header of a LAS file describes the points that were written",
     "After every flush and after dropping the writer the header's number of points, numbers of points by return, legacy counts and bounds are those of all points written so far, for every format, layout, buffer kind and history.",
     ["histories", "inputs"], "as C37, with all return numbers and points at every corner of the bounds",
     "The tests look at the header of one file.",
     [LW, LL], [("header", LW + " write_points_*, flush")],
     "quick: 11 formats x header shapes x 8 layouts x kinds x words of <=3; all return numbers; thorough: longer words.",
     "As C37; the oracle recomputes the header from the written points.", assume=[SHIM, LASA])

prop("C39", "io", "The LAS reader delivers the points of the file for every read and seek history",
     "For every LAS file and every sequence of reads and seeks the reader delivers the points at its current position, with every attribute of the format (and every extra byte attribute) equal to the record's value, in the default layout or converted to any other layout and any kind of buffer; positions after reads and seeks (also seeks far behind the end and before the start), the point count and the header with its VLRs are those of the file; points of the target behind the read ones stay. Files that end early are errors, never invented points; a description of the extra bytes that contradicts the points is refused or ignored, never a panic.",
     ["histories", "inputs", "faults"], "all point formats and shapes of files, all layouts and kinds of buffers, all histories of reads and seeks up to the bound, every length a file can be cut to",
     "The tests read one file per format, in one or two chunks.",
     [LR, LRH, LL], [("reading", LR + " RawLASReader read_into, read_into_default_layout, read_into_custom_layout"), ("seek", LR + " seek_point")],
     "quick: 11 formats x all shapes of files x 3 sizes: all histories of 1 of 18 operations (2 for plain files), 9 target layouts x 5 buffer kinds x 3 input chunkings x 2 histories with seeks, files cut at every fifth length and around every record, sizes around the reader's chunk with histories of far seeks, 220 extreme seeks around 2^31, 2^32, 2^63 and 2^64 in 36 histories each, all Extra Bytes records of <=2 entries of 8 types x 10 names; thorough: histories of 2 (3), every cut, 3 entries.",
     "Files come from an encoder written from the specification; every history is executed on the real reader against a model (list of points + position).", assume=[SHIM, LASA])

prop("C40", "io", "LAZ files hold and deliver the points like LAS files",
     "A LAZ file written through any sequence of writes, from any layout and kind of buffer, holds exactly the written points, is marked as compressed, has one LASzip VLR and keeps all other VLRs, EVLRs and extra bytes; its header describes the points; the reader delivers them for every history of reads and seeks like C39.",
     ["histories", "inputs"], "point formats 0 to 8, all layouts, kinds of buffers, histories up to the bound",
     "The tests write ten points once per format.",
     [LW, LR], [("writing", LW + " RawLAZWriter"), ("reading", LR + " RawLAZReader")],
     "quick: 9 formats x header shapes x 8 layouts x kinds x words of <=3; reader histories as C39 with the extreme seeks; sizes around the chunk; thorough: longer.",
     "As C37 and C39 with a pass-through codec in place of LASzip's.", assume=[SHIM, LASA, "LASzip's entropy coding is replaced by a pass-through; EVLRs are checked with one flush only; seeking before the first point may be refused in any way."])

prop("C41", "io", "Reading and writing whole files by path is lossless and chooses the right format",
     "read_all, read_all_into, write_all and the generic reader and writer choose the format by the extension in any case; what is written and read is every point in order; read_all_into appends in the target's layout and leaves existing points; unknown extensions and missing or malformed files are errors that change neither the buffer nor a file that exists.",
     ["inputs"], "all extensions, spellings and point formats, all layouts and kinds of buffers to append to, sizes up to the bound",
     "The tests read one LAS file.",
     [BG + "io_factory.rs", BG + "reader.rs", BG + "writer.rs"], [("choice of the format", BG + "io_factory.rs"), ("whole files", BG + "reader.rs read_all, read_all_into / writer.rs write_all")],
     "quick: every extension and spelling x layouts x buffer kinds x sizes 0..5 x layouts to append to, all sequences of <=2 writes through the generic writer and all seeks and reads through the generic reader, files that are missing, empty, cut or something else; thorough: up to 50,001 points, 3 writes.",
     "Exhaustive execution in a scratch directory; files are made and judged by the independent encoder and decoder.", assume=[SHIM, LASA])

prop("C42", "io", "LAS readers and writers report every failing input and output operation",
     "If any operation of the underlying input or output fails (once or forever, with any error kind that is not a retry), transfers fewer bytes than asked or has no space left, then the LAS reader or writer either does its complete work or reports an error; points that were read are those of the file, and there is no panic.",
     ["faults"], "every operation of the device failing, every transfer size, every capacity",
     "No test has a failing device.",
     [LW, LR], [("errors", LW), ("errors", LR)],
     "quick: all device operations x 3 error kinds x once/forever, transfers of 1 to 7 bytes, all capacities, for formats 0 to 10; thorough: more points and histories.",
     "Fault enumeration on the real reader and writer over an in-memory device owned by the explorer.", assume=[SHIM, LASA])

prop("C43", "io", "LAS metadata are those of the file",
     "VLR parsers (Classification Lookup, Text Area Description, Extra Bytes) give the values in the bytes, refuse malformed records without panic, and build the same bytes again; typed accessors of extra bytes give the value for exactly the types they are for; the metadata of a file give its bounds, point count and named fields.",
     ["inputs"], "all data types and options of extra bytes, all lengths of records, all offsets of the bytes in memory",
     "The tests parse one record per kind.",
     [LM], [("VLRs", LM), ("metadata", LM + " LASMetadata")],
     "quick: all 256 data types x all 32 option sets x values at the limits, all histories of <=3 calls of the builder, malformed lengths and all alignments in memory, lookup records, all named fields x formats; thorough: more values, histories of 4.",
     "Exhaustive enumeration against records encoded from table 27 of the LAS specification.", assume=[SHIM, LASA])

prop("C44", "io", "The packed bits of LAS records hold exactly the bits of their fields",
     "Return number, number of returns, scan direction, edge of flight line, classification flags and scanner channel are packed at the bit positions of the specification for every combination of values, in basic and extended records; a value that does not fit changes no other field. (Unpacking is part of C39.)",
     ["inputs"], "all values of all fields",
     "The tests use one combination.",
     [LH, LRH, LT], [("bit fields", LT)],
     "quick: all combinations of 0..17 and the values around every power of two of the wide fields with all values of the narrow ones; thorough: all 256 values in basic records, 0..63 in extended ones.",
     "Complete enumeration against shifts and masks from the specification.", assume=[SHIM])

prop("C45", "io", "LAS point formats and point layouts correspond",
     "The layout of every point format (exact or with world positions) has exactly the attributes of the format, in order, with the size of the record, and combinations that are no point format are refused; the format found for any layout is a LAS point format that holds as many attributes of the layout as any format can, and the smallest such format; a writer for the layout uses it. Exactly the attributes of the point formats are known LAS attributes.",
     ["inputs"], "all point formats x all extra bytes up to the bound, all subsets of the known attributes",
     "The tests map the predefined layouts only.",
     [LL], [("layout from format", LL + " point_layout_from_las_point_format"), ("format from layout", LL + " las_point_format_from_point_layout")],
     "quick: all 64 combinations of format flags x extra bytes x exact; all 2^14 subsets of the attributes that tell formats apart (plus two others) with standard datatypes, and a fifth of them in reverse order and with other datatypes; 23 attributes x 5 datatypes; thorough: all subsets in all styles.",
     "Exhaustive enumeration against the tables of the specification.", assume=[SHIM, LASA])

prop("C46", "io", "The info tool reports the true metadata, minima and maxima of every file",
     "For every LAS, LAZ or PNTS file the command line tool `info` prints the file's point count, bounds, header values and text area, and with -d exactly the attributes of the file in order and, for each attribute that it knows, the exact minimum and maximum over all points, however many million they are; without points it prints no extrema. Calls without a file, with unknown arguments or with files that are missing or malformed end with a message and a failing exit status, never with a panic or a report.",
     ["inputs"], "all point formats, compressed or not, all sequences of the alphabet's points up to the bound, files around the tool's million-point chunks, all invalid calls of a list",
     "The tool has no test.",
     [TI], [("the tool", TI)],
     "quick: 11 formats (LAZ 0 to 8) x 3 to 5 shapes of files x all sequences of <=3 points of an alphabet of 4 (with and without -d), tiles with 4 layouts x all sequences of <=3 points, files of 1,000,001 and 1,000,002 points of 3 formats with the extreme point at the start, on both sides of the seam and at the end, 30 invalid calls; thorough: 4 of 5 points, 999,999 to 2,000,001 points.",
     "The real program, built from the working tree, runs on every file; its report is judged against the points that the independent encoder put into the file.", assume=[SHIM, LASA])

prop("C47", "io", "A point of the las crate becomes the same point of its LAS format",
     "Converting a point of the las crate into pasture's record type of point format 0 to 5 gives a point whose attributes are exactly the fields of the point (a missing GPS time is 0, the scan angle becomes a whole number of degrees); points without the colour or waveform that the format needs are refused; the record types have exactly the attributes of their formats, in order and without gaps.",
     ["inputs"], "all values of every byte and flag, all bits of the wide fields, all pairs of fields, all combinations of optional fields",
     "No test converts a point.",
     [LT + ""], [("conversions", IO + "las/las_types.rs From<las::Point>"), ("record types", IO + "las/las_types.rs LasPointFormat0..10")],
     "all 256 values of bytes, every bit of wider fields (thorough: all 65,536 intensities), 1,401 scan angles of -175 to 175 degrees, all pairs of fields x 2 values, all 64 combinations of optional fields and flags, for 6 formats; layouts of all 11 record types.",
     "Exhaustive enumeration; every attribute is read back through a point buffer and judged byte for byte.", assume=[SHIM, LASA])

prop("C48", "core", "Layouts and attributes are equal exactly if they are the same",
     "Two point layouts are equal exactly if they list the same attributes in the same order with the same datatypes and offsets and have the same size and alignment, attribute definitions if name and datatype are the same, members if the offset is too; equal values have equal hashes; comparing without offsets says exactly whether both layouts have the same set of attributes.",
     ["inputs"], "all pairs of a closed pool of layouts, attributes, members and datatypes",
     "Tests compare a layout with itself or with an obviously different one.",
     [PL], [("equality", PL + " PointLayout, PointAttributeMember, PointAttributeDefinition, PointAttributeDataType"), ("without offsets", PL + " compare_without_offsets")],
     "all pairs of about 1,460 layouts (thorough: 2,700) of up to three attributes with 4 names, 10 datatypes, default, packed and explicit offsets and alignments; all pairs of 370 attributes at 4 pairs of offsets.",
     "Exhaustive enumeration of pairs against the descriptions from which the values were built.")

prop("C49", "core", "The derive macro refuses every type whose layout it cannot describe",
     "derive(PointType) refuses at compile time every enum, union and generic type, every struct that is neither repr(C) nor repr(packed), every field (at any place) whose type is not a primitive type of pasture, and every field without exactly one well-formed pasture attribute that names a builtin attribute or a custom name; a struct in which two fields share an attribute name has no layout: layout() panics. It accepts every struct that lacks such a flaw.",
     ["inputs"], "all structs that differ from a legal one in one part, with that part at every place",
     "A type that is accepted although its layout is unknown makes every typed access misread memory; tests only contain programs that compile, so they cannot show that one is refused.",
     [DER + "lib.rs", DER + "layout.rs"], [("field types and attributes", DER + "lib.rs get_primitive_type_for_*, get_attribute_name_from_field"), ("items and representations", DER + "lib.rs derive_point_type, " + DER + "layout.rs get_struct_member_layout")],
     "41 illegal field types and 31 illegal field attributes at every place of named and tuple structs of 1 to 3 fields under 2 (thorough: 4) representations; 162 illegal items (6 representations, generics, unions, enums); 15 duplicates of names; the 500 (thorough: 900) legal structs they differ from.",
     "Every program is expanded and compiled by the real macro in the real compiler (one program per line of one compilation per set; a program that is not refused there is compiled again without the refused ones, so that a refusal in a later phase counts too), and the verdict is compared with the grammar that the program was built from.")

NA = {}

# Planted bugs that no check catches
MISSED = set()
