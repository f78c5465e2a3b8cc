#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as data so that it can be edited in one place)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))


p("C01", "Untrusted bytes never panic the reader",
  "For any bytes given to the reading side of the library (file and page metadata, page buffers, levels, encoded values, statistics, indexes, bloom filters), the call returns a value or an error and never panics: no out-of-bounds index or slice, no unwrap of a missing value, no explicit panic, and no division by zero or arithmetic overflow.",
  ["inputs"], "every byte sequence handed to a public reading or decoding entry point",
  "tests decode a few well-formed files and hand-written buffers; the malformed ones are unbounded",
  ["src/read", "src/page/mod.rs", "src/encoding", "src/deserialize", "src/statistics", "src/indexes", "src/bloom_filter", "src/schema"],
  [("bounds and length checks before slicing", "src/page/mod.rs, src/encoding/*"), ("checked conversions from thrift integers", "src/metadata, src/page")],
  observe=["return value of the public reader and decoder functions"])
p("C02", "Stack use does not depend on the input",
  "No reading, decoding or writing operation recurses once per element, page, run or row of its input; iterating over arbitrarily many pages, runs or values uses a bounded call depth.",
  ["inputs"], "every file, page sequence, run sequence and filter outcome",
  "tests iterate over a handful of pages and runs, far too few to exhaust a stack",
  ["src/read/page/reader.rs", "src/read/page/indexed_reader.rs", "src/encoding/hybrid_rle", "src/deserialize", "src/schema"],
  [("iteration instead of self-calls in iterators", "src/read/page/*.rs, src/encoding/hybrid_rle/mod.rs")])
p("C03", "Declared sizes never drive unchecked allocation",
  "A size declared inside a file (page sizes, footer length, counts in encodings, offsets of indexes and bloom filters) is never used as the size of an allocation unless it has first been bounded by the caller's limit or by the data actually available, or the allocation reports failure instead of aborting.",
  ["inputs"], "every value of every length field in a file",
  "tests never declare lengths larger than the data; an abort on allocation cannot be caught by a test",
  ["src/read", "src/encoding", "src/bloom_filter/read.rs"],
  [("max_page_size checks, try_reserve", "src/read/page/reader.rs"), ("metadata length check", "src/read/metadata.rs")])
p("C04", "Truncated input is an error, never shorter data",
  "Whenever the library asks the source for a given number of bytes and gets fewer, the operation fails with an error; truncated pages, chunks, footers, indexes and bloom filters are never returned as if they were complete.",
  ["inputs", "fault_sequences"], "every truncation point of every read request, sync and async",
  "tests read complete files",
  ["src/read/metadata.rs", "src/read/stream.rs", "src/read/page", "src/read/column", "src/read/indexes/read.rs", "src/bloom_filter/read.rs"],
  [("length comparison after take(n).read_to_end, or read_exact", "src/read/page/reader.rs")])
p("C05", "Async reading agrees with sync reading",
  "The asynchronous metadata, page and column readers perform the same requests, validations and conversions as their synchronous counterparts: on the same bytes they yield the same values or both fail.",
  ["inputs"], "every file and every position in it",
  "tests of the async path cover a few well-formed files",
  ["src/read/metadata.rs", "src/read/stream.rs", "src/read/page/reader.rs", "src/read/page/stream.rs", "src/read/column/mod.rs", "src/read/column/stream.rs"],
  [("shared helpers build_page / deserialize_metadata", "src/read")])
p("C06", "Async writing agrees with sync writing",
  "The asynchronous file, row-group, column-chunk, page and index writers emit the same bytes in the same order and return the same sizes and metadata as their synchronous counterparts, and fail on the same conditions.",
  ["inputs", "programs"], "every sequence of row groups and pages",
  "tests write single small files with each writer and do not compare them",
  ["src/write/file.rs", "src/write/stream.rs", "src/write/row_group.rs", "src/write/column_chunk.rs", "src/write/page.rs", "src/write/indexes/write.rs"],
  [("mirrored sync / async functions", "src/write")])
p("C07", "Every byte written is counted exactly once",
  "Each writing function that reports a size reports exactly the number of bytes it handed to the output, on every path, and the writers advance their file offset by exactly that amount; every offset stored in metadata is the position at which the described bytes start.",
  ["inputs", "programs"], "every sequence of pages, columns and row groups, including empty ones",
  "a wrong count shows only for particular shapes (dictionary page, several row groups, indexes enabled)",
  ["src/write/file.rs", "src/write/stream.rs", "src/write/row_group.rs", "src/write/column_chunk.rs", "src/write/page.rs", "src/write/indexes/write.rs"],
  [("returned byte counts summed into self.offset", "src/write/file.rs")],
  state=[("offset", "position of the next byte in the output", "FileWriter / FileStreamer")])
p("C08", "Chunk and row-group metadata describe what was written",
  "The metadata recorded for a column chunk and row group (value count, compressed and uncompressed sizes, encodings, codec, type, path, offsets, row count, statistics) is computed from all of the pages and columns actually written and from nothing else; sizes include the page headers and the compressed/uncompressed totals are not interchanged. The file's footer lists every row group written, with the sum of their rows and the key-value metadata and creator given to the writer.",
  ["inputs", "programs"], "every sequence of pages in a chunk and of chunks in a row group",
  "tests write one page per chunk, where sums, firsts and lasts coincide",
  ["src/write/column_chunk.rs", "src/write/row_group.rs", "src/write/page.rs"],
  [("build_column_chunk aggregates over PageWriteSpec", "src/write/column_chunk.rs")])
p("C09", "File writers enforce start, row groups, end-once",
  "A file writer emits the header magic exactly once and before any row group, emits the footer exactly once, and after a successful end rejects any further row group or end with an error without writing a byte; the synchronous and asynchronous writers follow the same protocol.",
  ["histories", "programs"], "every sequence of start / write / end calls",
  "tests perform one well-ordered sequence",
  ["src/write/file.rs", "src/write/stream.rs"],
  [("State machine Initialised/Started/Finished", "src/write/mod.rs, src/write/file.rs, src/write/stream.rs")],
  state=[("state", "phase of the file being written", "FileWriter / FileStreamer")])
p("C10", "No failure is swallowed",
  "An error returned by the underlying reader or writer, by a codec, by thrift, by a user-provided iterator of pages or columns, or by an internal conversion always reaches the caller as an error; it is never dropped, replaced by a default or turned into an early end of iteration. (Two documented exceptions: the legacy LZ4 framing is tried before plain LZ4 blocks, and a row-group ordinal that does not fit its optional 16-bit field is left out.)",
  ["fault_sequences", "inputs"], "every fallible call failing at every point",
  "tests never inject failures",
  ["src"], [("`?` propagation everywhere", "src"), ("From conversions into Error", "src/error.rs")])
p("C11", "Enum codes map one-to-one and match the format",
  "Compression codecs, encodings, page types, repetitions, boundary orders, time units, integer types, physical, converted and logical types are translated to and from their on-disk codes by mutually inverse mappings that agree with the Parquet format specification; unknown codes are rejected with an error, except that an unknown integer width reads as a signed 32-bit integer.",
  ["inputs"], "every code and every variant, in both directions",
  "round trips of a few variants cannot see two variants swapped consistently or a rare variant mapped wrongly",
  ["src/parquet_bridge.rs", "src/schema/types/physical_type.rs", "src/schema/types/converted_type.rs"],
  [("From / TryFrom impls", "src/parquet_bridge.rs")])
p("C12", "Schema and metadata conversions keep every field",
  "Converting file, row-group, column-chunk, sorting and schema descriptors between their in-memory form and the on-disk (thrift) form preserves every field both forms have, each into its own counterpart, and walks schema trees completely and in order.",
  ["inputs"], "every schema and metadata value",
  "tests round-trip a few schemas in which most optional fields are absent",
  ["src/metadata", "src/schema/io_thrift", "src/parquet_bridge.rs"],
  [("try_from_thrift / into_thrift", "src/metadata, src/schema/io_thrift")])
p("C13", "Physical-type dispatch is complete and consistent",
  "For every physical type, statistics and column indexes are parsed, serialised, compared and reduced as values of exactly that type; no physical type is sent to another type's code or silently skipped, except that INT96 and other unsupported cases are reported explicitly.",
  ["inputs"], "every physical type",
  "tests use two or three of the eight physical types",
  ["src/statistics/mod.rs", "src/write/statistics.rs", "src/read/indexes", "src/indexes/index.rs", "src/write/column_chunk.rs"],
  [("match on PhysicalType with typed downcast", "src/statistics/mod.rs, src/write/statistics.rs, src/read/indexes")])
p("C14", "Compression and decompression use matching codecs",
  "For every codec the decompressor applies the algorithm that the compressor of the same codec applied; a codec whose feature is not enabled, or that is unsupported, yields an error in both directions instead of data.",
  ["inputs", "configurations"], "every codec and every feature selection",
  "tests run with one feature set and do not read every codec they write",
  ["src/compression.rs", "src/parquet_bridge.rs"],
  [("match on CompressionOptions / Compression with cfg(feature)", "src/compression.rs")])
p("C15", "Decompression fills exactly the declared size",
  "A successful decompression has produced exactly as many bytes as the page header declared; a stream that decompresses to fewer (or, where the codec reports it, more) bytes is an error, never a buffer with stale or zero bytes at its end.",
  ["inputs"], "every compressed payload and declared size, every codec",
  "tests decompress payloads whose declared size is right",
  ["src/compression.rs", "src/read/compression.rs"],
  [("read_exact into the output slice", "src/compression.rs")])
p("C16", "Levels of V2 pages stay uncompressed",
  "For version-2 data pages the repetition and definition levels are stored verbatim in front of the compressed values by the compressor and taken verbatim by the decompressor, both splitting the page at the sum of the two level lengths in the page header; version-1 pages are compressed and decompressed as a whole.",
  ["inputs"], "every page, codec and level length",
  "tests of V2 pages have empty or tiny levels and check values, not the stored layout",
  ["src/read/compression.rs", "src/write/compression.rs"],
  [("decompress_v1 / decompress_v2, compress_data", "src/read/compression.rs, src/write/compression.rs")])
p("C17", "No data page is yielded before its header is validated",
  "Every data page that a reader (sequential, indexed or asynchronous) yields has had its encodings checked to be known and its value count checked to be non-negative, and the page type selects the header that is used; a page with a missing or invalid header is an error.",
  ["inputs"], "every page header",
  "tests read valid headers through the sequential reader",
  ["src/read/page/reader.rs", "src/read/page/stream.rs", "src/read/page/indexed_reader.rs"],
  [("get_page_header, finish_page", "src/read/page/reader.rs")])
p("C18", "Reduced statistics bound all pages",
  "Reducing the statistics of several pages yields a minimum no larger, and a maximum no smaller, than that of every page that has one, for every physical type, and a null count that is the sum of the pages' null counts; distinct counts are not invented.",
  ["inputs"], "every number of pages, every presence pattern of min/max/null count, every ordering of the values",
  "tests reduce two pages with one ordering per type",
  ["src/write/statistics.rs", "src/types.rs"],
  [("reduce_* functions", "src/write/statistics.rs")])
p("C19", "Column-index lists stay aligned with the pages",
  "When a column index is written, every data page contributes exactly one entry, in page order, to each of its null-page, minimum, maximum and null-count lists, with the values of that page's own statistics; a page without statistics makes the write fail instead of misaligning the lists.",
  ["inputs", "programs"], "every sequence of pages with and without statistics",
  "tests write indexes for one or two uniform pages",
  ["src/write/indexes/serialize.rs"],
  [("serialize_column_index", "src/write/indexes/serialize.rs")])
p("C20", "Offset index locates every data page",
  "The offset index written for a column chunk has one entry per data page and none for the dictionary page, in order, holding that page's own start offset, its stored size including the header, and the number of rows in the data pages before it.",
  ["inputs", "programs"], "every sequence of dictionary and data pages",
  "tests use chunks of one or two pages",
  ["src/write/indexes/serialize.rs"],
  [("serialize_offset_index", "src/write/indexes/serialize.rs")])
p("C21", "Iteration over a chunk yields every value",
  "The sequential page reader ends without an error only after it has seen as many values as the column-chunk metadata declares; until then each call yields a page or an error, and the value count advances by the count of each data page read, whether or not the page was filtered out.",
  ["inputs"], "every sequence of pages in a chunk and every page filter",
  "tests read chunks with one or two pages",
  ["src/read/page/reader.rs", "src/read/page/stream.rs"],
  [("seen_num_values against total_num_values", "src/read/page/reader.rs")])
p("C22", "Page filters drop only whole data pages",
  "A page filter is consulted exactly once for each data page with that page's own header and the column's descriptor, is never applied to dictionary pages, and a rejected page is skipped without affecting the pages after it.",
  ["inputs", "programs"], "every filter and page sequence",
  "tests use the accept-all filter",
  ["src/read/page/reader.rs", "src/read/page/stream.rs"],
  [("PageFilter calls in next / _get_page_stream", "src/read/page")])
p("C23", "Reused buffers never leak earlier contents",
  "Scratch buffers that are handed back to readers, decompressors and compressors are emptied or fully overwritten before each use, so that what an operation produces never depends on what a buffer held before.",
  ["histories", "inputs"], "every previous content of every reusable buffer",
  "tests pass empty buffers or reuse them with equal sizes",
  ["src/read", "src/write/compression.rs", "src/write/page.rs", "src/read/indexes/read.rs"],
  [("clear / truncate before fill", "src/read/page/reader.rs, src/read/compression.rs, src/write/compression.rs")])
p("C24", "Page decoding dispatch follows the page's encoding",
  "Decoding a data page picks the decoder by its encoding, by whether a dictionary was supplied and by whether the column is optional, and every combination without a decoder is an error; dictionary-encoded pages are never decoded as plain ones nor the reverse.",
  ["inputs"], "every combination of encoding, dictionary presence, optionality and row selection",
  "tests exercise a few of the combinations",
  ["src/deserialize"],
  [("match (encoding, dict, is_optional, is_filtered)", "src/deserialize/*.rs")])
p("C25", "Readers and writers stay thread-safe and free of unsafe",
  "The library contains no unsafe code and no mutable global or thread-local state, its metadata, page, schema, statistics and error types can be sent to and shared between threads, and its readers, writers and page iterators can be sent to another thread whenever their source or sink can.",
  ["programs", "schedules"], "every multi-threaded use",
  "a missing auto trait shows only when a downstream program is compiled",
  ["src/lib.rs", "src"],
  [("forbid(unsafe_code), Send + Sync bounds on trait objects", "src/lib.rs, src/read/page, src/statistics, src/indexes")])
p("C26", "All multi-byte values are little-endian",
  "Every fixed-width value, level prefix and footer length in a file is written and read in little-endian byte order whatever the host, except for the big-endian frame lengths of the Hadoop LZ4 format.",
  ["inputs", "configurations"], "every value and every host byte order",
  "tests run on one little-endian host, where native and little-endian coincide",
  ["src/types.rs", "src/encoding", "src/deserialize", "src/statistics", "src/write", "src/compression.rs"],
  [("to_le_bytes / from_le_bytes", "src/types.rs")])
p("C27", "File framing is written and checked",
  "A written file starts with the magic PAR1 and ends with the metadata, its exact length as four little-endian bytes and the magic; a reader accepts a footer only if the trailing magic is present and the declared metadata length fits in the file, and decodes the metadata starting exactly at the first of the declared bytes.",
  ["inputs"], "every file content and length",
  "tests check well-formed files and a few malformed ones",
  ["src/write/file.rs", "src/write/stream.rs", "src/read/metadata.rs", "src/read/stream.rs", "src/lib.rs"],
  [("start_file / end_file, read_metadata", "src/write/file.rs, src/read/metadata.rs")])
p("C28", "Bloom filters have no false negatives",
  "Inserting a hash sets every bit that a later membership test of that hash examines, inserting never clears a bit, and hashing a value uses the same byte representation and seed for insertion and lookup.",
  ["inputs", "histories"], "every hash, every filter size, every insertion history",
  "tests insert a few values into one filter size",
  ["src/bloom_filter"],
  [("block index and mask shared by insert and is_in_set", "src/bloom_filter/split_block.rs")])
p("C29", "Levels follow from the schema",
  "Each leaf column's maximum definition level counts the optional and repeated fields on its path, its maximum repetition level counts the repeated ones, its path holds the names from below the root to the leaf, and leaves are listed in schema order.",
  ["inputs"], "every schema tree",
  "tests cover a few schemas of small depth",
  ["src/metadata/schema_descriptor.rs"],
  [("build_tree", "src/metadata/schema_descriptor.rs")])
p("C30", "The schema parser maps names to the right types",
  "Parsing a textual schema maps every repetition, physical type, logical type, converted type and time unit name to exactly the value of that name, and rejects names it does not know.",
  ["inputs"], "every keyword of the message format",
  "tests parse some of the keywords and compare with hand-written types",
  ["src/schema/io_message/from_message.rs"],
  [("string tables in the parser", "src/schema/io_message/from_message.rs")])
p("C31", "Column sort order matches the specification",
  "The sort order derived for a column from its physical, converted and logical type is the one the Parquet specification assigns.",
  ["inputs"], "every physical, converted and logical type",
  "tests list a subset of the types",
  ["src/metadata/sort.rs", "src/metadata/column_order.rs"],
  [("get_sort_order and helpers", "src/metadata/sort.rs")])
p("C32", "Annotations are accepted only on the types they may annotate",
  "A primitive type is accepted with a converted or logical annotation exactly when the Parquet specification allows that annotation on its physical type, including the width and precision limits of decimals, intervals and integers.",
  ["inputs"], "every combination of physical type, converted type, logical type, precision, scale and length",
  "tests cover a few allowed and disallowed pairs",
  ["src/schema/types/spec.rs", "src/schema/types/parquet_type.rs"],
  [("check_converted_invariants, check_logical_invariants, check_decimal_invariants", "src/schema/types/spec.rs")])
p("C33", "The library is deterministic and touches only its arguments",
  "Reading and writing depend only on the arguments: the library uses no clock, randomness, environment, global state or hash-map iteration order, and performs input and output only through the reader or writer the caller supplied, with no printing, file-system, network, process or thread side effects.",
  ["inputs", "configurations", "schedules"], "every call in every environment",
  "tests run in one environment and do not compare repeated outputs",
  ["src"], [("no use of std::fs, net, env, process, thread, time; maps used for lookup only", "src")])
p("C34", "Row-interval arithmetic keeps page selections exact",
  "Selecting pages by row intervals keeps, for every page, exactly the part of each requested interval that overlaps the page's rows, expressed relative to the page's first row, and drops only the pages that no interval overlaps.",
  ["inputs"], "every list of intervals and of page row ranges",
  "tests use a few hand-picked intervals",
  ["src/indexes/intervals.rs", "src/indexes/mod.rs"],
  [("compute_rows, is_in, select_pages", "src/indexes")])
p("C35", "Indexed page reads cover the selected pages",
  "The indexed page reader reads each selected page from its own recorded offset and length, reads the dictionary page first when the chunk has one, and attaches to every page the row selection computed for it.",
  ["inputs"], "every page selection",
  "tests select one or two pages of one file",
  ["src/read/page/indexed_reader.rs"],
  [("IndexedPageReader::next, read_dict", "src/read/page/indexed_reader.rs")])
p("C36", "Written row groups match the schema",
  "A row group is accepted only if it has exactly one column chunk per leaf column of the schema, written under that column's own descriptor in order, and all of its chunks have the same number of rows; otherwise the write fails.",
  ["inputs", "programs"], "every iterator of columns handed to the writer",
  "tests always supply the right number of columns",
  ["src/write/row_group.rs"],
  [("compute_num_rows, zip of descriptors and columns", "src/write/row_group.rs")])
p("C37", "Integer and byte-array encodings round-trip",
  "Decoding the output of the delta, RLE/bit-packed, ULEB128, zigzag and delta-byte-array encoders returns the encoded values.",
  ["inputs"], "every sequence of values and bit width",
  "tests sample some sequences; the space is unbounded",
  ["src/encoding"], [("encode / Decoder pairs", "src/encoding")])
p("C38", "A written file reads back to the same values",
  "Reading a file produced by the writer yields the same pages, levels, values and statistics that were given to it.",
  ["inputs", "programs"], "every table of values and write options",
  "tests write and read a few small tables",
  ["src/write", "src/read", "src/deserialize"], [("writer and reader as inverses", "src")])
p("C39", "Row selections return exactly the selected rows",
  "Decoding with a row selection yields the same values as decoding everything and keeping the selected rows.",
  ["inputs"], "every selection, level sequence and run layout",
  "tests select a few rows of small pages",
  ["src/deserialize/filtered_rle.rs", "src/deserialize/utils.rs"], [("FilteredHybridRleDecoderIter, SliceFilteredIter", "src/deserialize")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
