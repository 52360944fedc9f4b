BASE = ("Nothing is claimed beyond the executions observed; they are random and seeded. Trusted: the reference model and oracle of the harness, rustc and its standard library. ")
M = "runtime monitoring: "
CLAIMS = {
 "P01": (M + "lockstep reference model over random operation histories", BASE + "Every read accessor of every buffer kind is compared with an abstract sequence of points after each step."),
 "P02": (M + "window model and leak monitor over nested slices", BASE + "Reads and writes through slices are compared with the model, the whole underlying buffer is compared afterwards."),
 "P03": (M + "iterator protocol monitor against the model sequence", BASE + "Typed views and iterators over six point types are driven by random mixtures of next, nth, skip, step_by, size_hint and comparisons."),
 "P06": (M + "independent reference casts over boundary-biased values", BASE + "The reference is Rust's `as` between the primitive types, written out separately."),
 "P07": (M + "per-attribute reference conversion over random layout pairs", BASE),
 "P08": (M + "reference model of custom mappings and target ranges", BASE),
 "P11": (M + "shadow model of untyped points", BASE),
 "P21": (M + "refusal monitor with full state comparison after each refused request", BASE),
 "P04": (M + "C layout reference model over random attribute histories", BASE),
 "P05": (M + "compiler offsets as oracle over 198 generated structs and all buffers", BASE + "The structs are a fixed generated family; values are random."),
 "P09": (M + "reference model of collected, filtered and appended points", BASE),
 "P10": (M + "reference model of attribute-wise pushes with refusal monitor", BASE),
 "P13": (M + "independent interval oracle over random boxes and probes", BASE + "Centers and cubes are compared up to rounding."),
 "P14": (M + "bit-by-bit and 128-bit reference over random operands", BASE),
 "P22": (M + "round trip monitor through two serialization formats", BASE),
 "P15": (M + "independent minimum and maximum over random buffers", BASE),
 "P16": (M + "reference voxel grid with per-attribute pooling rules", BASE + "Sums of floating point attributes are compared up to rounding."),
 "P17": (M + "every possible model enumerated, consistency of the returned inliers", BASE + "Distances within a relative 1e-9 of the threshold are left open."),
 "P18": (M + "exact half-space tests on lattice clouds, closedness of the surface", BASE + "Degenerate clouds are covered on lattices, where the arithmetic is exact; other clouds are in general position."),
 "P19": (M + "compensated means and Jacobi eigen decomposition of brute force neighbourhoods", BASE + "Neighbourhoods with ties or without a unique direction are counted only."),
 "P20": (M + "single-point transformations and written out projection formulas", BASE + "The PROJ library is trusted beyond the three formulas."),
 "P23": (M + "independent parser and formatter over every format, delimiter and precision", BASE + "Decimal columns are compared up to the chosen precision; the text goes through sinks and sources that split writes and reads."),
 "P24": (M + "line-by-line reference over valid and corrupted texts and call sequences", BASE),
 "P25": (M + "reference of the written points, decoded from the bytes of the file and through the reader", BASE + "Attributes are written in the datatypes the format knows or convertible ones."),
 "P26": (M + "cursor model in lockstep with reads and seeks", BASE),
 "P12": (M + "AddressSanitizer and the Miri interpreter (Tree and Stacked Borrows) over hostile random call sequences and the workloads of the other checks", BASE + "AddressSanitizer and Miri judge what was executed. Unsafe functions get data of the size their documentation asks for."),
 "P34": (M + "random allowed and forbidden declarations run through the compiler, its errors and the resulting layouts monitored", BASE + "The compiler is the oracle for offsets, size and alignment."),
 "P29": (M + "ThreadSanitizer, and every threaded job repeated alone and compared", BASE + "ThreadSanitizer with an instrumented standard library judges the interleavings that occurred."),
 "P30": (M + "cursor model in lockstep with reads and seeks, independent decoder of the records", BASE + "The crates las, laz, chrono, bitfield and array-init are not available offline; small stand-ins of /verif/stubs take their place, with the identity as LAZ codec."),
 "P28": (M + "reference of the written points, decoded from the bytes of the file by an independent parser of the specification and through the reader", BASE + "The crates las, laz, chrono, bitfield and array-init are not available offline; small stand-ins of /verif/stubs take their place, with the identity as LAZ codec. Positions are in the range of the transform, a LAZ file is flushed once after the last write."),
 "P31": (M + "independent decoder of headers and records", BASE + "The crates las, laz, chrono, bitfield and array-init are not available offline; small stand-ins of /verif/stubs take their place, with the identity as LAZ codec."),
 "P32": (M + "the files that the writers of each kind make in memory, and an independent parser of LAS", BASE + "The crates las, laz, chrono, bitfield and array-init are not available offline; small stand-ins of /verif/stubs take their place, with the identity as LAZ codec."),
 "P33": (M + "output of the tool compared with an independent decoder of the file", BASE + "The crates las, laz, chrono, bitfield and array-init are not available offline; small stand-ins of /verif/stubs take their place, with the identity as LAZ codec. Attributes with NaN values are not judged."),
 "P27": (M + "round trip and an independent JSON reading of the documents", BASE),
}
NOT = {}
