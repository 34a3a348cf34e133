API = ["Src/libCZIAPI/src/libCZIApi.cpp", "Src/libCZIAPI/inc/libCZIApi.h"]
prop("A01", "No C++ exception ever leaves a C-API function",
     "Whatever the arguments, the file contents, the callbacks supplied by the caller or the failures of the machine, a call of a C-API function returns an error code; no C++ exception propagates out of it.",
     ["inputs", "fault_sequences"], "for every exported C function, every argument, every file and every failure of a callback or an allocation",
     "The C-API tests call the functions with well-formed files and a handful of wrong arguments; none injects a failing allocation, a throwing stream or a malformed file at every call site.",
     API, [("try/catch around every implementation, conversion of exception types to error codes", "Src/libCZIAPI/src/libCZIApi.cpp")],
     technique="whole-program exception-escape analysis (call graph with class-hierarchy and std::function resolution, landing-pad clauses)",
     note="Sound over-approximation: each exported function is shown to have no path on which an exception type can unwind out of it." + IR)
prop("A02", "C-API functions never dereference a null argument",
     "A null pointer passed for any handle or pointer parameter of a C-API function leads to an error code (or is documented as optional and ignored); it is never dereferenced.",
     ["inputs"], "for every exported C function, every pointer parameter and every combination of null arguments",
     "Tests pass null for a few parameters of a few functions; there are well over a hundred pointer parameters.",
     API, [("explicit null tests at the start of each function", "Src/libCZIAPI/src/libCZIApi.cpp")],
     technique="dominance-based null-check dataflow on every pointer parameter of every exported function",
     note="Every access through a parameter is shown to be dominated by a test that excludes null." + IR)
prop("A03", "C-API handles are validated and their kinds cannot be confused",
     "Every C-API function that receives an object handle verifies, before using the object, that the handle denotes a live object of the kind it expects, and answers any other handle with an error code; handles of different kinds are always distinguishable, and a released handle is no longer accepted.",
     ["inputs", "histories"], "for every exported C function and every handle of any kind passed to it, in any sequence of calls",
     "Tests use handles of the right kind nearly everywhere; a confusion of two kinds or a missing validation only shows with a wrong or stale handle.",
     API, [("magic number at the start of every handle object, IsValid", "Src/libCZIAPI/src/sharedptrwrapper.h")],
     technique="dataflow from handle parameters to payload accesses (must be dominated by the kind's magic test) plus pairwise distinctness of the magic constants",
     note="Every access to a handle's payload is dominated by the magic comparison of its own kind; magics are pairwise distinct; release invalidates the magic." + IR)
PARSE = ["Src/libCZI/CziParse.cpp", "Src/libCZI/CziParse.h"]
prop("R01", "Incomplete or failed reads are never accepted as data",
     "Whenever the library reads a structure or a payload of a document from a stream, an error raised by the stream or a transfer of fewer bytes than requested makes the operation fail with an error; it never continues with partially filled data.",
     ["inputs", "fault_sequences"], "for every read of every segment kind, every file length and every error of the stream",
     "The tests read intact in-memory files; a short or failing read at each of the individual read sites is not exercised.",
     PARSE, [("comparison of bytes read with bytes requested after each read; nested rethrow of stream errors", "Src/libCZI/CziParse.cpp")],
     technique="path analysis: after each virtual stream read every path to a normal return passes the edge 'transferred == requested'",
     note="Must-pass-through check at every read site, including the exceptional successor." + IR)
prop("R02", "Every segment is recognised by its full signature before use",
     "No field of a segment (file header, sub-block directory, attachment directory, sub-block, attachment, metadata) is interpreted unless all sixteen bytes of its identification were found to equal the signature the file format prescribes for exactly that kind of segment; otherwise the operation fails.",
     ["inputs"], "for every segment kind and every content of the file at the segment's position",
     "Tests corrupt few signatures; a weakened comparison (shorter length, another kind's constant, a skipped path) still accepts all well-formed files.",
     PARSE, [("memcmp of the segment id with the magic constants", "Src/libCZI/CziParse.cpp")],
     technique="dominance check: every use of the read buffer is behind memcmp(id, expected constant, 16)==0, per segment kind (constant-specialised where the kind is an argument)",
     note="All uses are dominated by the full comparison with the constant of the format." + IR)
prop("R03", "Counts and sizes found in a file never drive accesses out of bounds",
     "While a document is parsed, no count, size or offset taken from the file lets the parser read or write outside the buffer that was provided for the data; values that do not fit are rejected with an error.",
     ["inputs"], "for every value of every count and size field of every segment kind",
     "Out-of-range values of the individual fields form a space the sample files do not touch; the parser accepts files from untrusted sources.",
     PARSE, [("range tests of dimension count, directory size and entry counts", "Src/libCZI/CziParse.cpp")],
     technique="value-range and allocation-size dataflow over all copies, stream-read destinations and indexed accesses of the parser",
     note="Each access is proved inside its object from dominating conditions, or reported." + IR)
prop("R04", "Reported payload sizes are always backed by data that was read",
     "For every payload the parser hands out (image data, sub-block metadata, attachments, XML), the size it reports is zero or the buffer handed out with it holds exactly that many bytes that were read from the file.",
     ["inputs", "fault_sequences"], "for every size recorded in a file, every allocation result and every stream behaviour",
     "Needs negative or huge sizes, failing allocations or truncated streams, which the sample files do not contain.",
     PARSE, [("allocation and complete read of each part before the pair is returned", "Src/libCZI/CziParse.cpp")],
     technique="path analysis on (pointer,size) result pairs: every path to the return passes a verified complete read of that size into that pointer, or the edge size==0",
     note="Decided for each pointer/size pair of the reader functions' results." + IR)
prop("W01", "Incomplete or failed writes are never reported as success",
     "Whenever the library writes to an output stream, an error raised by the stream or a transfer of fewer bytes than requested makes the operation fail with an error.",
     ["fault_sequences"], "for every write the writer or the in-place editor issues and every failure of the stream",
     "The tests write to memory streams which never fail.",
     ["Src/libCZI/CziWriter.cpp", "Src/libCZI/CziReaderWriter.cpp"], [("comparison of bytes written with bytes requested", "Src/libCZI/CziWriter.cpp, Src/libCZI/CziReaderWriter.cpp")],
     technique="path analysis: after each virtual stream write every path to a normal return passes the edge 'transferred == requested'",
     note="Must-pass-through check at every write site, including the exceptional successor." + IR)
FMT = ["Src/libCZI/CziStructs.h", "Src/libCZI/FileHeaderSegmentData.h", "Src/libCZI/CziStructs.cpp"]
prop("F01", "The on-disk structures have exactly the layout of the file format",
     "Every structure that is read from or written to a file byte by byte has the total size, and each of its fields the offset and width, that the CZI file format specifies.",
     ["inputs"], "for every segment kind and every field of its fixed part, in every file read or written",
     "Reader and writer share the structure definitions, so a shifted or resized field cancels out in every test that reads back what the library wrote; it only shows with files of other software.",
     FMT, [("packed structure definitions", "Src/libCZI/CziStructs.h")],
     technique="type-level layout check of the compiled structure definitions (record layouts from debug info) against the table of the file format",
     note="Offsets and sizes of all fields are compared with a frozen table transcribed from the format; padding and spare fields are not." + IR)
prop("F02", "Pixel-type, compression and pyramid-type codes are those of the file format",
     "Pixel types, compression methods and pyramid types are written with the numeric codes the file format assigns to them, the codes are read back as the same values, codes the format does not define are reported as invalid, and every pixel type counts with its true number of bytes.",
     ["inputs"], "for every pixel type, compression method and pyramid type and for codes without a meaning",
     "Tests use two or three pixel types and mostly uncompressed data, and a consistent swap in both directions is invisible to any round trip.",
     ["Src/libCZI/CziUtils.cpp", "Src/libCZI/libCZI_Utilities.cpp"], [("conversion tables", "Src/libCZI/CziUtils.cpp, Src/libCZI/libCZI_Utilities.cpp")],
     technique="constant propagation through the conversion functions against a table of the file format (compile-time witnesses)",
     note="One obligation per code and direction; discharged when the marker is unreachable in the simplified IR." + IR)
prop("F03", "Dimension letters and dimensions correspond one to one",
     "Each dimension is written with its own letter, that letter in either case is recognised as exactly this dimension both in files and in texts, the letters X, Y and M are never taken for one of these dimensions, and an unknown letter in a file is rejected.",
     ["inputs"], "for every dimension and every letter in either case",
     "Sample files use few dimensions; H, V, B, I or R are hardly ever present.",
     ["Src/libCZI/libCZI_Utilities.cpp", "Src/libCZI/CziParse.cpp"], [("letter tables", "Src/libCZI/libCZI_Utilities.cpp, Src/libCZI/CziParse.cpp")],
     technique="constant propagation through the conversion and parsing functions against the letter table (compile-time witnesses)",
     note="One obligation per letter and direction." + IR)
WIT = " Each witness is a small client compiled with the library; partial evaluation and value numbering over the library's IR must make its violation marker unreachable for all values of its parameters. Assumes allocations succeed, one thread, and external libraries that do not throw."
prop("F04", "Directory entries carry exactly the sub-block they describe",
     "A directory entry that is written, and the copy of it inside the sub-block, state the rectangle, stored size, coordinate in every dimension, M-index (or its absence), pixel type, compression, pyramid type and file position of the sub-block with the values requested; parsing an entry yields exactly the values it states, for every value.",
     ["inputs"], "for every value of every field, for every dimension, with and without an M-index",
     "Tests check a handful of values, few of them negative or large, and mostly use Z, C, T and S; a swapped or truncated field of a rarely used dimension stays unseen.",
     ["Src/libCZI/CziWriter.cpp", "Src/libCZI/CziParse.cpp"], [("filling and parsing of entries", "Src/libCZI/CziWriter.cpp, Src/libCZI/CziParse.cpp")],
     technique="compile-time witnesses with symbolic field values, decided by partial evaluation and value numbering of the library's IR",
     note="One obligation per field group and dimension." + WIT + IR)
WR = ["Src/libCZI/CziWriter.cpp", "Src/libCZI/CziWriter.h"]
prop("W02", "A written segment describes exactly what follows it",
     "Every sub-block, attachment and metadata segment is written at its position with the right signature, its used size is the sum of its parts, its allocated size is at least that, the recorded part sizes are the true ones, and the parts follow each other without gap or overlap in the order the format prescribes.",
     ["inputs"], "for every position and every size of the parts, with the smallest and with the largest number of dimensions",
     "Tests write a few sizes at a few positions; boundaries such as the minimal fixed part, the alignment or sizes beyond two gigabytes in total are not sampled.",
     WR, [("composition of the fixed part and writing of the parts", "Src/libCZI/CziWriter.cpp")],
     technique="compile-time witnesses with symbolic positions and sizes and a recording stream, decided by partial evaluation, value numbering and difference bounds on the library's IR",
     note="Sizes below 1 GB per part, positions below 2^60; each part non-empty." + WIT + IR)
prop("W03", "What was written is what is read back",
     "A document written and closed successfully shows, when it is opened again, exactly the sub-blocks, attachments, metadata and identification that were written, with the same coordinates, rectangles, M-indices, pixel types and bytes, and nothing else.",
     ["inputs", "histories"], "for every value of coordinates, rectangles, sizes, indices, identifiers and payload bytes of the document shapes that are analysed",
     "Tests round-trip a few documents with fixed values; field mix-ups, truncations and boundary cases depend on values and shapes they do not use.",
     WR + PARSE + ["Src/libCZI/CZIReader.cpp"], [("writer, file structures and reader together", "Src/libCZI/CziWriter.cpp, Src/libCZI/CziParse.cpp, Src/libCZI/CZIReader.cpp")],
     technique="compile-time witnesses: write-then-read clients with symbolic values over a memory stream, decided by partial evaluation and value numbering of the library's IR",
     note="All values for documents of the shapes stated by the witnesses (up to a few sub-blocks, attachments, payloads of a few bytes)." + WIT + IR)
RW = ["Src/libCZI/CziReaderWriter.cpp", "Src/libCZI/CziReaderWriter.h"]
prop("W05", "In-place editing changes exactly what was asked for",
     "After a sub-block, an attachment or the metadata of an existing document has been added, replaced or removed in place and the document was closed, opening it again shows exactly this change: the edited item has the new content, and every other item still has its old content. What is added lies behind all that the document already holds, and the segment of what was removed or moved, and no other one, is marked as deleted.",
     ["inputs", "histories"], "for every content of the items, every edit operation, larger and smaller replacements, and positions in the document as analysed by the witnesses",
     "The tests perform few edits and hardly ever compare the items that were not touched; an overlap of two segments needs a particular order and particular sizes.",
     RW, [("edit operations, position of the next segment, directories rewritten on close", "Src/libCZI/CziReaderWriter.cpp")],
     technique="compile-time witnesses: create-edit-reopen clients with symbolic contents over a memory stream, decided by partial evaluation and value numbering of the library's IR",
     note="All contents for the document shapes and edit sequences stated by the witnesses." + WIT + IR)
prop("S01", "Operations on documents that are not open are rejected",
     "A reader, writer or in-place editor that has not been opened, failed to open or was closed rejects every operation on a document with an error, opening an object that is already open is rejected, and an object that is opened again shows only the new document.",
     ["histories", "fault_sequences"], "for every operation of the three kinds of objects and every way in which they can be not open",
     "Tests cover a few operations in one of the states; a missing test of the state leads to a null dereference or data of the previous document only in one operation and state.",
     ["Src/libCZI/CZIReader.cpp"] + WR + RW, [("operational state tested at the start of each operation", "Src/libCZI/CZIReader.cpp, Src/libCZI/CziWriter.cpp, Src/libCZI/CziReaderWriter.cpp")],
     technique="typestate witnesses: per operation and state a client whose marker must be unreachable (partial evaluation of the library's IR, exceptions followed to their handlers)",
     note="All operations of the public interfaces in the states new, failed, open and closed." + WIT + IR)
prop("W06", "Requests contradicting the document or announced bounds are rejected",
     "A writer or in-place editor rejects, with an error and without changing the document, a sub-block or attachment that duplicates one already present, a coordinate or M-index outside the bounds announced when writing began, and descriptions with invalid indices or missing data; indices that no item of the document has are reported as not found.",
     ["inputs", "histories"], "for every value of coordinates, indices and bounds",
     "Tests try one or two rejected requests with fixed values; whether a check compares every component and both ends of an interval depends on values they do not use.",
     WR + RW + ["Src/libCZI/CziSubBlockDirectory.cpp", "Src/libCZI/CziAttachmentsDirectory.cpp"], [("comparison of entries in the directories, check of announced bounds, argument validation", "Src/libCZI/CziWriter.cpp, Src/libCZI/CziSubBlockDirectory.cpp, Src/libCZI/CziReaderWriter.cpp")],
     technique="compile-time witnesses with symbolic coordinates, bounds and indices; the marker behind an accepted request must be unreachable (partial evaluation of the library's IR, exceptions followed to their handlers)",
     note="One obligation per kind of request, including requests at the edge of the bounds which must be accepted." + WIT + IR)
prop("T01", "Statistics describe exactly the sub-blocks that are present",
     "The statistics of a document (number of sub-blocks, bounding boxes overall, per scene and for layer zero, bounds of every dimension, smallest and largest M-index, pyramid layers) equal those computed from the sub-blocks it contains, whether it is being written, was read from a file, or was edited by adding, replacing or removing sub-blocks.",
     ["inputs", "histories"], "for every position, coordinate and M-index of the sub-blocks and every order in which they were added, removed or replaced",
     "Tests compare the statistics of a few documents; mistakes in the union of rectangles or after removals need particular relative positions and histories.",
     ["Src/libCZI/CziSubBlockDirectory.cpp", "Src/libCZI/CziReaderWriter.cpp"], [("statistics accumulated while entries are added, recomputed after modifications", "Src/libCZI/CziSubBlockDirectory.cpp, Src/libCZI/CziReaderWriter.cpp")],
     technique="compile-time witnesses with symbolic positions, coordinates and indices, decided by partial evaluation, value numbering and signed difference bounds on the library's IR",
     note="Documents of up to three sub-blocks, coordinates within 2^28; relative positions are split into cases, each decided for all values." + WIT + IR)
prop("E01", "Queries return exactly the matching sub-blocks and attachments",
     "A query for the sub-blocks of a plane, of a region and of layer zero returns every sub-block that matches all given conditions exactly once and no other: equal in every dimension the query mentions, sharing at least one pixel with the region, stored without minification; the index it delivers denotes that sub-block, the caller can end the enumeration, and queries for a channel's sub-block or for attachments by name and type are exact in the same sense.",
     ["inputs"], "for every coordinate in every dimension, every region and every sub-block position",
     "Tests query a few documents with matching coordinates; the boundaries (touching regions, one axis matching, a dimension missing on one side, prefix names) are rarely sampled.",
     ["Src/libCZI/CziReaderCommon.cpp", "Src/libCZI/CziUtils.cpp", "Src/libCZI/utilities.h"], [("filter of the enumeration: layer, plane coordinate, region", "Src/libCZI/CziReaderCommon.cpp, Src/libCZI/CziUtils.cpp, Src/libCZI/utilities.h")],
     technique="compile-time witnesses with symbolic coordinates and regions, decided by partial evaluation and signed difference bounds on the library's IR",
     note="Coordinates of regions within 2^28, one to three sub-blocks; the relative position of region and sub-block is split into nine cases per axis, each decided for all values." + WIT + IR)
PIX = ["Src/libCZI/BitmapOperations.cpp", "Src/libCZI/BitmapOperations.hpp", "Src/libCZI/BitmapOperationsBitonal.cpp", "Src/libCZI/SingleChannelTileCompositor.cpp"]
prop("P01", "Composing tiles changes exactly the covered pixels",
     "When a tile is drawn into a bitmap at any offset, with or without a mask, every destination pixel it covers (and the mask allows) receives the corresponding pixel converted to the destination's pixel type, every other pixel, padding and surrounding byte keeps its value, and later tiles lie on top of earlier ones. The same holds for tiles drawn with a border and for filling a bitmap with a colour; unsupported combinations of pixel types are rejected, and no bitmap stays locked.",
     ["inputs"], "for all pixel values, every supported pair of pixel types, offsets that clip the tile at each edge, and every position outside of the destination",
     "Tests compose a few pixel types at one or two offsets and mostly without masks; conversions between the pairs of pixel types, clipping and masks combine to a space they do not sample.",
     PIX, [("intersection with the destination, addresses of the first pixels, conversion per pair of pixel types, masks", "Src/libCZI/BitmapOperations.cpp, Src/libCZI/BitmapOperations.hpp, Src/libCZI/BitmapOperationsBitonal.cpp")],
     technique="compile-time witnesses with symbolic pixel values and constant geometry, decided by partial evaluation and value numbering of the library's IR",
     note="Tiles of 2x2 in destinations of 3x3 pixels at 64 offsets, all 21 pairs of pixel types with and without clipping and masks; all pixel values." + WIT + IR)
prop("P02", "Bitonal bitmaps report and change exactly the requested pixels",
     "Reading, setting and filling pixels of a one-bit-per-pixel bitmap concerns exactly the pixels requested, clipped to the bitmap, and no other pixel or surrounding byte; pixels outside of the bitmap and inconsistent descriptions of its memory are rejected. A decimated bitmap has half the width and height, and each of its pixels is set exactly if every existing pixel in the neighbourhood of the corresponding source pixel is set.",
     ["inputs"], "for all contents of the bitmap, for rectangles that begin and end at, before and behind byte boundaries and edges of the bitmap, for neighbourhoods from 0 to 7",
     "Tests decimate two or three patterns and fill rectangles inside of the bitmap; bit positions relative to byte and row boundaries form a space they do not enumerate.",
     ["Src/libCZI/BitmapOperationsBitonal.cpp", "Src/libCZI/BitmapOperationsBitonal.h", "Src/libCZI/libCZI_Utilities.cpp"], [("bit masks at both ends of a row, clipping, decimation by words", "Src/libCZI/BitmapOperationsBitonal.cpp")],
     technique="compile-time witnesses with symbolic contents and constant geometry, decided by partial evaluation and value numbering of the library's IR",
     note="Fills of 21x3 pixels at 22 rectangles and at any offset outside; decimation of up to 40x5 pixels with one cleared pixel at 7 kinds of positions." + WIT + IR)
ACC = ["Src/libCZI/SingleChannelTileAccessor.cpp", "Src/libCZI/SingleChannelAccessorBase.cpp", "Src/libCZI/SingleChannelScalingTileAccessor.cpp", "Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp", "Src/libCZI/RectangleCoverageCalculator.cpp"]
prop("C01", "The image of a region is the composition of its plane's tiles",
     "An image requested for a region of a plane shows at each pixel the tile of this plane (and of the allowed scenes and the requested pyramid layer) with the highest M-index that covers it, or the background or previous content where no tile does. Skipping hidden tiles and using a cache of decoded tiles do not change the image, masks take effect exactly if requested, and planes that the document cannot have are rejected.",
     ["inputs"], "for all pixel values, M-indices, scenes and plane coordinates, for arrangements of one to three overlapping, clipped and hidden tiles, with and without cache, masks and the check of visibility",
     "Tests compare a few composed images with stored ones, mostly with default options; options, orders and overlaps combine to a space they do not sample, and several options were not exercised at all.",
     ACC, [("selection, order and composition of tiles; check of visibility; cache and masks; checks of plane coordinates", "Src/libCZI/SingleChannelTileAccessor.cpp, Src/libCZI/SingleChannelAccessorBase.cpp")],
     technique="compile-time witnesses over a stand-in document with symbolic pixels, M-indices and coordinates, decided by partial evaluation and value numbering of the library's IR",
     note="Up to three tiles of 2x2 pixels in a destination of 3x2; scaling with factor 1 only (other factors are floating-point geometry, not decided)." + WIT + IR)
prop("K01", "The sub-block cache returns what was stored and respects its limits",
     "A lookup in the cache of decoded sub-blocks returns exactly the bitmap and mask last stored under this index, or nothing; the number of entries and the memory it reports equal those of the entries present. Pruning removes the least recently used entries first and no more than needed, and afterwards the given limits on memory and number hold.",
     ["inputs", "histories"], "for all indices, sizes and limits, for histories of storing, looking up, replacing and pruning as analysed by the witnesses",
     "Tests run a few histories with fixed sizes; accounting errors on replacement or at limits met exactly need particular sizes and orders.",
     ["Src/libCZI/subblock_cache.cpp", "Src/libCZI/subblock_cache.h"], [("accounting of size and count, order of use, pruning", "Src/libCZI/subblock_cache.cpp")],
     technique="compile-time witnesses with symbolic indices, sizes and limits, decided by partial evaluation and value numbering of the library's IR",
     note="Histories with up to three entries; concurrency of the cache is not part of this property." + WIT + IR)
prop("D01", "The bitmap of a sub-block shows exactly the pixels it stores",
     "The bitmap created for a sub-block that is uncompressed or compressed with zstd has the pixel type and size which the sub-block states and exactly the pixels its data contain, also if low and high bytes are stored separately. Missing data appear as zero and superfluous data are ignored; if this was not allowed, or if the data are damaged, have an invalid header or an unknown compression, an error is reported.",
     ["inputs"], "for all contents, for data of exact, smaller and larger size, all pixel types, all values of the header, every way in which decompression can fail",
     "Tests decode a few stored bitmaps with matching sizes; the combinations of pixel type, arrangement of bytes, option and mismatch are not enumerated (one of them gave wrong pixels by default).",
     ["Src/libCZI/CreateBitmap.cpp", "Src/libCZI/decoder_zstd.cpp", "Src/libCZI/utilities.cpp"], [("comparison of sizes, padding with zeroes, header of the compressed data, separation of low and high bytes", "Src/libCZI/CreateBitmap.cpp, Src/libCZI/decoder_zstd.cpp")],
     technique="compile-time witnesses with symbolic contents over a model of the zstd library, decided by partial evaluation and value numbering of the library's IR",
     note="Bitmaps of up to 3x2 pixels; the zstd library itself is represented by a model of its interface (any content, every kind of error). JPEG XR is not decided." + WIT + IR)
prop("D02", "Compressing a bitmap with zstd keeps every pixel",
     "Compressing a bitmap with either zstd variant produces, for every stride and pixel type, a header and a content from which decoding gives the same pixels, never writes outside of the destination, and reports failure if the destination is too small. Separating and joining low and high bytes are inverse to each other and concern exactly the given lines; invalid arguments are rejected.",
     ["inputs"], "for all pixel values, strides with and without padding, pixel types, preprocessing options and destination sizes as analysed by the witnesses",
     "Tests compress a few random bitmaps of one geometry; padding, sizes of the destination and options combine to a space they do not sample.",
     ["Src/libCZI/zstdCompress.cpp", "Src/libCZI/utilities.cpp", "Src/libCZI/decoder_zstd.cpp"], [("removal of padding, separation of low and high bytes, header, size of the result", "Src/libCZI/zstdCompress.cpp, Src/libCZI/utilities.cpp")],
     technique="compile-time witnesses with symbolic pixels over a model of the zstd library, decided by partial evaluation and value numbering of the library's IR",
     note="Bitmaps of up to 17 words per line and 2 lines; the zstd library is represented by a model in which decompression inverts compression. The variants of the byte separation for special processors are not part of this build." + WIT + IR)
prop("D03", "The chunks of a sub-block's attachment are found exactly",
     "The chunks in the attachment of a sub-block are delivered one after the other, each with its index, identification, position and size; a chunk exceeding the attachment is reported as an error. The mask of valid pixels found this way is exactly the stored one, and a missing, incomplete or inconsistent mask is rejected.",
     ["inputs"], "for all identifications, sizes, contents and mask geometries, for attachments of up to three chunks",
     "Tests use attachments with one chunk; errors in advancing to the next chunk or in the validation of sizes show only with several chunks or damaged attachments.",
     ["Src/libCZI/SubblockAttachmentAccessor.cpp"], [("advance from chunk to chunk, comparison with the size of the attachment, validation of the mask", "Src/libCZI/SubblockAttachmentAccessor.cpp")],
     technique="compile-time witnesses with symbolic chunks, decided by partial evaluation, value numbering and constant ranges on the library's IR",
     note="Attachments of up to three chunks; whether an attachment is a container is stated by its metadata, whose parsing is not part of this property." + WIT + IR)
prop("G01", "Intersections and coverage of rectangles are exact",
     "The intersection of two rectangles consists of exactly the points both contain, and whether they intersect is answered accordingly, for every relative position. The area of a rectangle covered by a set of rectangles is that of its intersection with their union, whatever order and overlap, and complete coverage is stated exactly if this is the whole area.",
     ["inputs"], "for all positions and sizes below 2^28 (intersection) and all positions for 121 arrangements of two and one of three overlapping rectangles (coverage)",
     "Tests use a few pairs; relative positions in two directions, touching and equal edges form a space they do not enumerate, and hidden tiles are skipped on the ground of this answer.",
     ["Src/libCZI/libCZI_Pixels.h", "Src/libCZI/utilities.h", "Src/libCZI/utilities.cpp"], [("comparisons of edges, splitting of a rectangle by another one, sum of areas", "Src/libCZI/libCZI_Pixels.h, Src/libCZI/utilities.cpp")],
     technique="compile-time witnesses with symbolic rectangles, one per relation of the intervals, decided by partial evaluation and value numbering of the library's IR",
     note="Coordinates near the limits of 32-bit integers are not covered (sums are not checked for overflow)." + WIT + IR)
prop("U01", "Coordinates and bounds keep, compare and enumerate dimensions exactly",
     "A plane coordinate and bounds hold for each dimension exactly the value last set, independently of the other dimensions, and copies are equal. Coordinates are ordered consistently dimension by dimension with missing dimensions first, and enumerating the coordinates of bounds delivers each exactly once, in order, until it is stopped.",
     ["inputs", "histories"], "for all values, for each dimension and neighbouring pairs of dimensions, for bounds with up to twelve coordinates",
     "Tests use two or three dimensions with small values; confusion of dimensions or wrong carries show for particular dimensions only.",
     ["Src/libCZI/libCZI_DimCoordinate.h", "Src/libCZI/libCZI_Utilities.cpp"], [("bit and slot of a dimension, comparison, enumeration with carry", "Src/libCZI/libCZI_DimCoordinate.h, Src/libCZI/libCZI_Utilities.cpp")],
     technique="compile-time witnesses with symbolic values, decided by partial evaluation and value numbering of the library's IR", note=WIT + IR)
prop("U02", "Texts of index sets, coordinates and colours mean exactly what they say",
     "The text of an index set describes exactly the indexes in its intervals, including open ones; the text of a coordinate gives exactly the dimensions and values it names, in either case and with any separator; a colour text gives exactly its components. A malformed, duplicate or out-of-range part is rejected and changes nothing.",
     ["inputs"], "for every index with 16 kinds of index sets, and for 15 malformed sets, 25 texts of coordinates and 11 of colours",
     "Tests parse a few texts and probe a few indexes; whether an index is contained is a statement about every integer, and texts outside of the tested ones led to a crash.",
     ["Src/libCZI/IndexSet.cpp", "Src/libCZI/DimCoordinate.cpp", "Src/libCZI/utilities.cpp"], [("hand-written parsers, ranges of numbers, hexadecimal digits", "Src/libCZI/IndexSet.cpp, Src/libCZI/DimCoordinate.cpp, Src/libCZI/utilities.cpp")],
     technique="compile-time witnesses with symbolic indexes over representative texts, decided by partial evaluation of the library's IR with models of the C character and number functions",
     note="One witness per kind of text; the texts of bounds and compression options use regular expressions and are not decided." + WIT + IR)
prop("S02", "State shared between threads is only touched under its lock",
     "Objects that may be used by several threads at once (the sub-block cache, the reader's reference to its stream, the streams which position and then read) access the state they share only while their lock is held, complete a positioning and the transfer belonging to it within one critical section, and read related counters consistently. A reader that is closed by one thread while another one reads never uses a released stream, and no operation acquires a lock it already holds.",
     ["schedules", "histories"], "for every interleaving of any number of threads calling any operation of these objects",
     "Data races need a particular interleaving of two threads; the tests call these objects from one thread or do not control the schedule, and a missing or too narrow lock passes them.",
     ["Src/libCZI/subblock_cache.cpp", "Src/libCZI/CZIReader.cpp", "Src/libCZI/StreamsLib/simplefileinputstream.cpp", "Src/libCZI/StreamsLib/curlhttpinputstream.cpp"], [("mutex members and the guards acquired in each operation", "Src/libCZI/subblock_cache.cpp, Src/libCZI/CZIReader.cpp, Src/libCZI/StreamsLib/simplefileinputstream.cpp, Src/libCZI/StreamsLib/curlhttpinputstream.cpp")],
     technique="lock-set dataflow: for every class with a mutex, the members it protects are derived from the accesses, and every access in every operation must be made with the mutex held (followed through private helpers); iterators, raw pointers and positions must not outlive the critical section",
     note="All classes of the library that contain a mutex. Construction, destruction and opening are taken to precede sharing; state without a lock (operational flag, lazily computed statistics) is not part of this property." + IR)
prop("R05", "Options given when opening a document are honoured exactly",
     "With strict checks, opening rejects a document exactly if a sub-block lacks X or Y, a dimension other than X, Y and M has a size or stored size other than one, or M has a size other than one (this last point can be waived for tiles of pyramids only); without them it is opened. A sub-block whose own header contradicts the directory in any field is rejected when read unless discrepancies are to be ignored, and it then shows the description to which the options give precedence; points are converted between the frames of reference by the document's origin, the default frame being the one given.",
     ["inputs"], "for all values of the fields concerned, all combinations of these options",
     "Tests use a few documents with one irregularity each; each option, field and kind of tile has to be combined, and a field left out of the comparison is noticed only with a document that differs in this field.",
     ["Src/libCZI/CZIReader.cpp", "Src/libCZI/CziParse.cpp", "Src/libCZI/CziParse.h"], [("translation of the options, checks of dimension entries, comparison of directory and header, transformation of points", "Src/libCZI/CZIReader.cpp, Src/libCZI/CziParse.cpp")],
     technique="compile-time witnesses over documents given byte by byte with symbolic fields, decided by partial evaluation and value numbering of the library's IR",
     note="Documents with one sub-block and up to five dimensions." + WIT + IR)
prop("R06", "What lies in a document is read in full, wherever it lies",
     "A document laid out as the format prescribes is listed and read with exactly its content (sub-blocks with their pieces, metadata, attachments), by reading and by editing alike, whatever the order and the 64-bit positions of its parts. This includes directories that do not state their used size, entries of different lengths and sub-blocks whose description exceeds the space reserved for it; parts that are absent are shown as absent and are never read.",
     ["inputs"], "for all contents, positions from the first segment up to far beyond 2^32 in any order",
     "Tests read a handful of small files whose parts lie in the usual order; a position cut to 32 bits, or a size taken from the wrong field, is noticed only in files of many gigabytes or unusual layout.",
     ["Src/libCZI/CziParse.cpp", "Src/libCZI/CZIReader.cpp", "Src/libCZI/CziReaderWriter.cpp"], [("parsing of segments and directories, reading of sub-blocks, attachments and metadata", "Src/libCZI/CziParse.cpp")],
     technique="compile-time witnesses over documents given byte by byte with symbolic content at given positions, decided by partial evaluation of the library's IR",
     note="Four layouts (adjacent, beyond 4 GB, near 2^62, reverse order) of a document with two sub-blocks, one attachment and metadata; sub-blocks of up to twelve dimensions." + WIT + IR)

prop("N01", "Lossless compression returns the pixels that went in",
     "A bitmap compressed with a lossless method of the library and decoded again has the same pixels.",
     ["inputs"], "for every bitmap, pixel type and lossless method",
     "Tests compress a handful of bitmaps.",
     ["Src/libCZI/decoder_zstd.cpp", "Src/libCZI/decoder.cpp"], [("compression and decoding", "Src/libCZI/decoder_zstd.cpp")],
     na="The result depends on the entropy coders of zstd and JPEG XR, whose behaviour over all inputs no static argument in reach bounds; the library's own part around them is decided by D01 to D03.")
prop("N02", "Scaled composition places every pixel where the zoom says",
     "For every zoom, the scaled composition shows at each pixel the source pixel which the zoom maps to this place.",
     ["inputs"], "for every zoom, region and arrangement of tiles",
     "Tests use few zooms.",
     ["Src/libCZI/SingleChannelScalingTileAccessor.cpp"], [("scaling composition", "Src/libCZI/SingleChannelScalingTileAccessor.cpp")],
     na="The placement is floating-point geometry with rounding; its correctness depends on runtime values no sound static argument in reach bounds. Factor one is decided by C01.")
prop("N03", "Metadata written and parsed again has the same content",
     "Metadata built with the library, stored as XML and parsed again yields the same values.",
     ["inputs"], "for every metadata tree",
     "Tests round-trip a few values.",
     ["Src/libCZI/CziMetadata.cpp", "Src/libCZI/CziMetadataBuilder.cpp"], [("building and parsing of metadata", "Src/libCZI/CziMetadataBuilder.cpp")],
     na="Building, printing and parsing are done by an external XML library over heap trees of unbounded shape; the byte transport of the XML is decided by W03, W05 and R06.")
