#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the long texts stay reviewable)."""
import json, os
R = "src/rust/fcb_core/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": [f if f.startswith("src/rust") else R + f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "City objects and geometry survive a write/read round trip",
 "Writing any CityJSONSeq dataset to the binary format and reading it back yields exactly the same set of features: same identifiers, the same city objects with the same types, parent/child links, extents, vertices, and geometries (type, lod, boundary nesting and indices, template instances). No feature, object, geometry, ring or vertex is lost, duplicated, reordered inside its container or moved to another feature (template instances come after the explicit geometries of their object).",
 ["inputs", "configurations"],
 "Every well-formed CityJSON 2.0 feature (all geometry types, any nesting depth and number of rings/surfaces/shells/solids, 0..n objects, geometries and vertices, 32-bit vertex indices and coordinates, CityJSON or extension object types), with and without spatial index, attribute index and feature counts from 0 upward.",
 "Existing tests round-trip three sample files plus a few hand-written boundaries; the guarantee is over every nesting shape, ordering and size, and every combination with index options.",
 ["writer/serializer.rs","writer/geom_encoder.rs","writer/feature_writer.rs","writer/mod.rs","reader/deserializer.rs","reader/geom_decoder.rs"],
 [("boundary flattening/recovery","writer/geom_encoder.rs encode_boundaries; reader/geom_decoder.rs decode"),("feature (de)serialisation","writer/serializer.rs to_fcb_city_feature/to_fcb_city_object; reader/deserializer.rs to_cj_feature/to_cj_co"),("feature re-ordering by hilbert value and offset bookkeeping","writer/mod.rs FcbWriter::write")],
 ["FcbWriter::write output","FeatureIter::cur_cj_feature"])

prop("C02", "Dataset-level metadata survives a write/read round trip",
 "The dataset header read back from a file reports what the writer was given: CityJSON version, transform, title, identifier, reference date, reference system, extent, point of contact, extension declarations, geometry templates with their vertices, and the declared feature count. Values that were not given are not invented and values that were given are not dropped or swapped.",
 ["inputs", "configurations"],
 "Every CityJSON header with any subset of the supported metadata members present, any finite transform, any EPSG-style reference system, any number of templates and template vertices.",
 "Tests compare one or two sample headers in which most members are present; subsets (a missing member next to a present one) and boundary values are not sampled.",
 ["writer/header_writer.rs","writer/serializer.rs","reader/deserializer.rs","reader/mod.rs"],
 [("header serialisation","writer/serializer.rs to_fcb_header, to_transform, to_reference_system, to_point_of_contact"),("header deserialisation","reader/deserializer.rs to_cj_metadata")],
 ["FcbReader::header","deserializer::to_cj_metadata"])

prop("C03", "Attribute values survive a write/read round trip with value and type",
 "Every attribute of every city object (and semantic surface) whose name is in the declared schema and whose value matches its declared type is returned with the same name and an equal value of the same JSON type; attributes never leak to another object, and a value is never silently replaced by a default. A schema gathered from the objects themselves holds every value gathered. Unicode text, integer extremes, floating-point values, booleans, dates and nested JSON are all preserved bit for bit.",
 ["inputs", "configurations"],
 "Every attribute map over the supported column types, in every presence/absence pattern across objects (so any schema order and any sparse subset), strings of any length and content, all 64-bit integers, all finite doubles, arbitrary nested arrays/objects.",
 "Tests cover one or two attribute maps per type; alignment of variable-length values after each other, sparse rows and type extremes are combinatorial.",
 ["writer/attribute.rs","writer/serializer.rs","reader/deserializer.rs"],
 [("attribute row encoding","writer/attribute.rs encode_attributes_with_schema, attr_size"),("attribute row decoding","reader/deserializer.rs decode_attributes"),("schema inference","writer/attribute.rs add_attributes, guess_type")],
 ["FeatureIter::cur_cj_feature"])

prop("C04", "Spatial bbox and point queries return exactly the intersecting features",
 "A bounding-box query returns exactly the features whose 2D vertex bounding box intersects the query box (boundaries inclusive), and a point query exactly those whose box contains the point: no false negatives, no false positives, each once. This holds for every reading mode and every dataset size.",
 ["inputs", "configurations"],
 "Every dataset (0..thousands of features, coincident, degenerate, collinear, far-apart boxes) and every query box or point including touching edges, inverted, empty, infinite and whole-world boxes; seekable, sequential and HTTP readers; in-memory tree.",
 "Tests query a handful of fixed boxes over one or two files; correctness of the packed tree depends on level boundaries, sort order and exact touching coordinates.",
 ["packed_rtree/mod.rs","reader/mod.rs","http_reader/mod.rs","writer/mod.rs","writer/feature_writer.rs"],
 [("tree construction and search","packed_rtree/mod.rs PackedRTree::build/search/stream_search/http_stream_search"),("bbox of a feature","writer/feature_writer.rs actual_bbox"),("predicates","packed_rtree/mod.rs NodeItem::intersects/contains_point")],
 ["FcbReader::select_query","FcbReader::select_query_seq","HttpFcbReader::select_query","PackedRTree::search"])

prop("C05", "Nearest-neighbour queries return a true nearest feature",
 "A nearest-point query on a non-empty dataset returns exactly one feature, and no other feature's bounding-box centre is closer to the query point. All reading modes agree on the distance obtained.",
 ["inputs", "configurations"],
 "Every non-empty dataset with a spatial index and every finite query point, including points inside, on the edge of and far outside the data, ties and duplicates, trees of any height.",
 "Tests check a few fixed points on small trees; branch-and-bound pruning errors need particular geometry (a near box with a far centre) to appear.",
 ["packed_rtree/mod.rs","reader/mod.rs","http_reader/mod.rs"],
 [("best-first search with pruning","packed_rtree/mod.rs search/stream_search/http_stream_search PointNearest arms"),("distance bounds","packed_rtree/mod.rs min_distance_squared, centroid_distance_squared")],
 ["FcbReader::select_query","HttpFcbReader::select_query","PackedRTree::search"])

prop("C06", "Attribute queries return exactly the features satisfying every condition",
 "For any conjunction of comparisons (equal, not equal, less, less-or-equal, greater, greater-or-equal) over indexed attributes, the attribute query returns exactly the features having, for each condition, a city object whose indexed value satisfies it, each feature once. Strings are compared by their first 50 bytes, padded with NUL. Features lacking the attribute are not returned for it, a condition on an attribute without an index is an error as is one with a key of another type, and the result does not depend on branching factor or reading mode.",
 ["inputs", "configurations"],
 "Every dataset and every indexed scalar type (boolean, unsigned, signed, floating, string, date-time), duplicate-heavy or unique values, missing values, several objects per feature, all six operators, query keys below/between/equal/above stored keys, one to several conditions, any branching factor, seekable/sequential/HTTP.",
 "Tests run a few equality/range queries over one file with one branching factor; errors sit at node boundaries, extreme keys, duplicates and missing values.",
 ["writer/attr_index.rs","writer/attribute.rs","reader/attr_query.rs","static_btree/stree.rs","static_btree/query/memory.rs","static_btree/query/stream.rs","static_btree/query/http.rs","http_reader/mod.rs"],
 [("index entries from attributes","writer/attribute.rs attribute_to_index_entries"),("index build","writer/attr_index.rs"),("query evaluation","static_btree/query/*.rs execute_query_condition, query"),("offset to feature mapping","reader/attr_query.rs select_attr_query")],
 ["FcbReader::select_attr_query","FcbReader::select_attr_query_seq","HttpFcbReader::select_attr_query"])

prop("C07", "The static B+tree index behaves as a sorted multimap",
 "An index built from any list of (key, value) entries answers exact lookups and inclusive range lookups with exactly the values a sorted multimap would give, with every duplicate present (keys other than NaN). The in-memory, serialized-then-reloaded, streaming and HTTP forms of the same index give the same answers. A conjunction of conditions over several indexes selects the intersection, and a condition on a field without an index is an error. Answering a query over several streaming indexes leaves the input at the position it had, whether or not anything matched.",
 ["inputs", "configurations"],
 "Every non-empty list of entries for every key type, every branching factor from 2 up, any duplicate multiplicity, query keys equal to stored keys, between them, at and beyond the type's extremes, and reversed ranges.",
 "Tests use a few trees of fixed size; off-by-one faults depend on the number of entries relative to powers of the branching factor and on which separator a key equals.",
 ["static_btree/stree.rs","static_btree/payload.rs","static_btree/entry.rs","static_btree/query/memory.rs","static_btree/query/stream.rs","static_btree/query/http.rs"],
 [("layout and search","static_btree/stree.rs build, find_exact, find_range, find_partition and stream_/http_ variants"),("duplicate payloads","static_btree/payload.rs; stree.rs prefetch_payload, PayloadCache")],
 ["MemoryIndex::find_exact/find_range","StreamIndex::find_*_with_reader","HttpIndex::find_*"])

prop("C08", "Seekable, sequential and HTTP reading are equivalent",
 "For the same file and the same request (everything, a spatial query, or an attribute query) the seekable reader, the sequential reader and the HTTP reader deliver the same features with identical contents and the same header. Full scans and spatial queries deliver them in the same (file) order in all three.",
 ["inputs", "configurations"],
 "Every file produced by the writer, every query, any read granularity of the underlying stream, any HTTP over-fetch, server behaviour at end of file as the HTTP standard allows.",
 "Tests exercise each reader on separate fixed files (the HTTP ones need the network and are not run); no test compares the three on the same inputs.",
 ["reader/mod.rs","reader/attr_query.rs","http_reader/mod.rs"],
 [("seekable iteration","reader/mod.rs FeatureIter<R,Seekable>"),("sequential iteration","reader/mod.rs FeatureIter<R,NotSeekable>"),("HTTP iteration and batching","http_reader/mod.rs FeatureBatch, SelectBbox, SelectAttr")],
 ["all select_* entry points"])

prop("C09", "Files are laid out as the format specifies, with every index entry sound",
 "A written file is magic bytes, a size-prefixed header, the spatial index, the attribute indexes in schema order, then the features back to back, with no gap, overlap or trailing byte, and all sizes declared in the header are the true ones. Every spatial leaf points at the start of exactly one feature and bounds exactly that feature, every parent box covers its children, and every attribute index entry points at a feature holding that value.",
 ["inputs", "configurations"],
 "Every dataset and every writer configuration (spatial index on/off, any set of attribute indexes in any order, any branching factor, zero to thousands of features).",
 "Tests only observe files through the same library's reader, on fixed data; compensating errors and unsound-but-unqueried entries are invisible to them.",
 ["writer/mod.rs","writer/attr_index.rs","writer/header_writer.rs","packed_rtree/mod.rs","static_btree/stree.rs"],
 [("file assembly","writer/mod.rs FcbWriter::write"),("index serialisation","packed_rtree/mod.rs stream_write; static_btree/stree.rs stream_write")],
 ["bytes written by FcbWriter::write, parsed by an independent reader"])

prop("C10", "Corrupt, truncated or hostile files cause errors, never memory unsafety",
 "Opening, scanning and querying arbitrary bytes through the checked entry points ends in finite time with either results or a reported error: no panic, no out-of-bounds access or other undefined behaviour, no memory demand out of proportion to the file and no endless loop. The checked readers verify what they are about to interpret before interpreting it; after an error or at the end there is no current feature, or a verified one.",
 ["inputs", "fault_sequences"],
 "Every byte string, in particular every truncation and every bit-, byte-, word- or block-level corruption of valid files, offered to the seekable, sequential and HTTP readers (scan, spatial query, attribute query).",
 "Tests feed only valid files; the quantifier is over adversarial bytes, which only instrumented execution (sanitizers, allocation and I/O monitors) can judge.",
 ["reader/mod.rs","reader/city_buffer.rs","reader/deserializer.rs","reader/geom_decoder.rs","reader/attr_query.rs","packed_rtree/mod.rs","static_btree/stree.rs","static_btree/payload.rs","static_btree/key.rs"],
 [("verification before unchecked access","reader/mod.rs read_header, read_feature; city_buffer.rs"),("raw byte views","packed_rtree/mod.rs read_node_vec/read_node_items"),("length-driven allocation","static_btree/payload.rs deserialize; reader/mod.rs feature size")],
 ["FcbReader::open and every select_*"])

prop("C11", "Iterators keep their contract: counts, exhaustion and exactly-once",
 "A reader iterator yields each selected feature exactly once and then reports exhaustion forever; the number it announces in advance equals the number it delivers. The current feature stays stable until the next advance, and dropping an iterator early or re-opening the file gives the same sequence again.",
 ["inputs", "histories"],
 "Every file and selection and every interleaving of next / current-feature / count / size-hint calls, including calls before the first advance is exhausted and after the end.",
 "Tests loop once to the end on a fixed file; call histories past the end and announced-versus-delivered counts for filtered selections are not checked.",
 ["reader/mod.rs","reader/attr_query.rs","http_reader/mod.rs"],
 [("iterator state machine","reader/mod.rs FeatureIter::advance, size_hint, features_count"),("HTTP iterator","http_reader/mod.rs AsyncFeatureIter::next, features_count")],
 ["FeatureIter::next/features_count/size_hint","AsyncFeatureIter::next/features_count"],
 state=[("iterator position","how many features were delivered and where the stream stands","reader/mod.rs FeatureIter fields")])

prop("C12", "Read faults surface as errors and never as silently missing data",
 "When the underlying input fails, ends early or is interrupted while a file is opened, scanned or queried, the reader either still delivers the complete correct answer or reports an error; it never ends an iteration quietly with features missing and never delivers altered features. Short reads and interrupted calls alone never change the outcome, and a reader asked again after an error, or after a step was given up before it finished (a dropped future), skips nothing it failed to deliver.",
 ["fault_sequences", "inputs"],
 "Every I/O operation index at which the input returns an error, a short count, an interruption or end-of-file, for the seekable, sequential and HTTP readers over full scans, spatial and attribute queries.",
 "No existing test injects a fault; the quantifier runs over every fault position.",
 ["reader/mod.rs","reader/attr_query.rs","http_reader/mod.rs","packed_rtree/mod.rs","static_btree/stree.rs"],
 [("feature-size read at a record boundary","reader/mod.rs read_feature_size"),("HTTP fetch and batching","http_reader/mod.rs FeatureBatch::next_buffer; stree.rs prefetch_payload")],
 ["FeatureIter::next result","AsyncFeatureIter::next result"])

prop("C13", "A successful write means a complete, reproducible file",
 "If writing reports success, the output received every byte of the file; if the output fails at any point, writing reports an error. However writing ends, nothing is left behind in temporary storage. Writing the same input (re-parsed or not) with the same options always produces the same bytes, in any process and however the output splits its writes.",
 ["fault_sequences", "inputs", "configurations"],
 "Every output operation index at which the sink fails, accepts only part of the buffer or is interrupted; every dataset and writer configuration; repeated runs in the same and other processes.",
 "Tests write to healthy in-memory or temp-file sinks once each.",
 ["writer/mod.rs","writer/attr_index.rs","static_btree/stree.rs","static_btree/key.rs","static_btree/payload.rs","packed_rtree/mod.rs"],
 [("file assembly","writer/mod.rs FcbWriter::write"),("key and node writers","static_btree/key.rs Key::write_to; stree.rs stream_write")],
 ["FcbWriter::write result and sink contents"])

prop("C14", "The command-line tool converts there and back without loss",
 "Serialising a CityJSONSeq stream with the command-line tool and deserialising the result gives a CityJSONSeq stream with the same header and the same features, whatever index options are chosen; with a bounding-box option, exactly the features having a vertex inside the box are kept, and the header's extent is the computed one unless that is switched off. The indexes asked for are there, information output agrees with the file, the CBOR and BSON outputs decode to the input document, failures are reported with a non-zero exit status, and data sent to standard output is not mixed with messages.",
 ["inputs", "configurations"],
 "Every well-formed CityJSONSeq input (integers in a column which also holds fractions compare as numbers), every combination of the serialisation options, file or standard-stream input and output, and invalid or truncated inputs.",
 "The command-line tool has no tests.",
 ["src/rust/cli/src/main.rs","cj_utils.rs"],
 [("serialise / deserialise commands","cli/src/main.rs serialize, deserialize, show_info"),("CityJSONSeq parsing","cj_utils.rs read_cityjson_from_reader")],
 ["process exit status, stdout, output files of the fcb binary"])

prop("C15", "Stored keys keep their order and value for every key type",
 "Encoding any key and decoding it again gives an equal key of the declared width, and comparison of decoded keys agrees with the natural order of the values they came from, including the type's extremes. Declared minimum and maximum keys bound every other key but NaN.",
 ["inputs"],
 "Every value of every key type (all integer widths, booleans, floats including infinities, signed zeros and NaN, fixed-width strings of every length and content, date-times across the representable range).",
 "Tests check a few values per type.",
 ["static_btree/key.rs","static_btree/entry.rs"],
 [("key codecs and orders","static_btree/key.rs impl Key/Max/Min for each type"),("entry codec","static_btree/entry.rs")],
 ["Key::write_to/read_from/from_bytes, Ord"])

prop("C16", "The packed R-tree stands alone: any boxes, any node size, any form",
 "A tree built from any set of boxes with any node size finds, in memory, reloaded from its bytes, streamed from a reader and over HTTP, exactly the boxes a linear scan finds, and reports each with its own offset. Its serialized size is the size announced beforehand, its extent is the union of all boxes, and sorting by Hilbert order loses and changes no box.",
 ["inputs", "configurations"],
 "Every list of boxes (1..thousands), every node size from 2 to 65535, every query; extents degenerate in one or both dimensions.",
 "Tests use node size 16 and a few fixed layouts; level arithmetic depends on the item count modulo powers of the node size.",
 ["packed_rtree/mod.rs"],
 [("level bounds","packed_rtree/mod.rs generate_level_bounds, index_size"),("hilbert sort","packed_rtree/mod.rs hilbert_sort, hilbert"),("search variants","packed_rtree/mod.rs search, stream_search, http_stream_search")],
 ["PackedRTree public functions"])

prop("C17", "HTTP access is well-formed, bounded by the file and frugal",
 "Every range request an HTTP reader issues is well-formed (start not after end, start inside the file) and a selective query does not fetch the whole file: the bytes requested stay within the index pages and selected features it needs plus a fixed read-ahead for each of them. Iteration issues no request after the last selected feature.",
 ["inputs", "histories"],
 "Every file and query, with recorded request logs checked offline.",
 "The HTTP tests need the network and check result counts, not the request log.",
 ["http_reader/mod.rs","packed_rtree/mod.rs","static_btree/stree.rs"],
 [("request batching","http_reader/mod.rs FeatureBatch::make_batches"),("index page fetches","packed_rtree/mod.rs http_stream_search; stree.rs http_stream_*")],
 ["the range client handed to HttpFcbReader::new"])

prop("C18", "Materials, textures and templates survive a write/read round trip",
 "Appearance data written with a dataset or a feature (materials, textures, texture vertices, default themes) and every geometry's per-theme material and texture assignment read back equal to what was written, with the same themes, nesting and null entries. Geometry templates and the instances referring to them keep their index, anchor and transformation.",
 ["inputs", "configurations"],
 "Every well-formed appearance object and per-surface assignment over all geometry types and theme sets.",
 "Tests round-trip a few literal appearance objects.",
 ["writer/geom_encoder.rs","writer/serializer.rs","reader/geom_decoder.rs","reader/deserializer.rs"],
 [("material/texture mapping encoding","writer/geom_encoder.rs encode_material, encode_texture"),("decoding","reader/geom_decoder.rs decode_materials, decode_textures"),("appearance","writer/serializer.rs to_appearance; reader/deserializer.rs to_cj_appearance")],
 ["FeatureIter::cur_cj_feature","deserializer::to_cj_metadata"])

prop("C19", "Independent readers and writers do not influence one another",
 "Any number of readers and writers working at the same time on the same or different files, from several threads, each produce exactly what they would produce alone, free of data races.",
 ["schedules"],
 "Every interleaving of concurrent scans, queries and writes in one process.",
 "Tests run each reader alone; schedules are not explored.",
 ["reader/mod.rs","writer/mod.rs","writer/attr_index.rs","http_reader/mod.rs"],
 [("per-reader state and temporary files","reader/mod.rs FcbReader; writer/mod.rs tempfile use")],
 ["results of concurrent select_* and write"])

prop("C20", "Reading streams: memory stays bounded and nothing is left behind",
 "While features are read one after another, a reader holds memory in proportion to the header, the largest feature, the list of what was selected and the index being searched (over HTTP, a few MiB of read-ahead more), not to the number of bytes of features in the file or in the selection. When the reader and what it delivered have been dropped, everything it allocated has been given back.",
 ["inputs", "histories"],
 "Every file and selection, read to its end by the seekable, sequential and HTTP readers, the features dropped as they come.",
 "Tests read small files and do not look at memory; what is held depends on the sizes and positions of all features.",
 ["reader/mod.rs","reader/attr_query.rs","http_reader/mod.rs","packed_rtree/mod.rs","static_btree/stree.rs"],
 [("feature buffer","reader/mod.rs FeatureIter::read_feature"),("skipping","reader/mod.rs skip_bytes"),("request sizes","http_reader/mod.rs FeatureBatch::request_size")],
 ["allocations observed by a counting allocator around FcbReader and HttpFcbReader"])

prop("C21", "Selective reading takes from the input only what the selection needs",
 "The seekable reader reads the header, the pages of the index on the way to what is selected (for comparisons other than equality, up to the whole queried attribute index) and the selected features, not the rest of the file, up to a few KiB around each place it visits. The sequential reader reads nothing beyond the last feature it delivers (the size of the first feature if there is none), up to a few KiB.",
 ["inputs", "histories"],
 "Every file and selection, with the bytes taken from the input counted.",
 "Tests look at results, not at what was read to obtain them.",
 ["reader/mod.rs","reader/attr_query.rs","packed_rtree/mod.rs","static_btree/stree.rs"],
 [("seeking to selected features","reader/mod.rs FeatureIter::advance"),("index search by page","packed_rtree/mod.rs stream_search; stree.rs stream_find_*")],
 ["the Read + Seek object handed to FcbReader::open"])

prop("C22", "An indexed file keeps neighbours together",
 "In a file written with a spatial index, features that are close to one another in the plane are close to one another in the file, whatever order they were written in and whatever the shape of the area: consecutive features are near each other, blocks of consecutive features cover compact areas, and a square window is read in few runs. The placement follows a space-filling curve over the extent of all features in both axes.",
 ["inputs", "configurations"],
 "Every arrangement of features spread over an area or along a line (grids, jittered, uniform, with holes, with one far outlier), every order of writing, aspect ratio, scale and offset.",
 "Tests assert that queries answer correctly, which any order satisfies; locality is a property of the whole arrangement.",
 ["packed_rtree/mod.rs","writer/mod.rs"],
 [("curve","packed_rtree/mod.rs hilbert, hilbert_bbox, hilbert_sort, calc_extent"),("order of features in the file","writer/mod.rs FcbWriter::write")],
 ["order of features delivered by select_all on an indexed file"])

prop("C23", "What the format cannot hold is refused, never damaged",
 "Creating a writer and adding features either fails with an error or leads to a file that all readers can read completely, with the ids, vertices, boundaries and template references that were added and without changed numbers; neither panics. A refused feature does no harm: writing goes on, and the file holds exactly the accepted features, each of them unchanged, with sound counts. Features within the limits of the format (coordinates of 32 bits) are accepted.",
 ["inputs", "histories"],
 "Every header and feature the CityJSON types can be parsed from: any numbers, nesting, missing or superfluous members, any lengths, alone or among other features.",
 "Tests write well-formed data only.",
 ["writer/mod.rs","writer/serializer.rs","writer/geom_encoder.rs","writer/feature_writer.rs","reader/deserializer.rs","reader/geom_decoder.rs"],
 [("encoding","writer/serializer.rs to_geometry, to_vertex, to_transform, to_geometry_instance; writer/geom_encoder.rs encode"),("checks","writer/check.rs check_header, check_feature"),("checks when reading","reader/geom_decoder.rs check_nesting")],
 ["results of FcbWriter::new, add_feature and write, and what is read back"])

prop("C24", "CityJSON text is read whole and exactly, or refused",
 "Reading CityJSON text, as one document or as a sequence of lines, from a file or from any reader, delivers exactly what the text says: the document, or the first line's metadata and every further line's feature in order, whatever the line ends, with or without a final one, and however the input splits its reads. If a line cannot be parsed, the text is empty, cut inside a line or not UTF-8, the file cannot be opened, or the input fails at any point, the result is an error: never a shorter sequence, never a panic.",
 ["inputs", "faults"],
 "Every text, every way of splitting and interrupting reads, every place at which the input may fail, both kinds and both sources.",
 "The only test reads one sound sequence of three features from a file.",
 ["cj_utils.rs"],
 [("reading lines","cj_utils.rs CityJSONReader::read_lines"),("parsing","cj_utils.rs parse_cityjson, read_cityjson, read_cityjson_from_reader")],
 ["results of read_cityjson and read_cityjson_from_reader"])

prop("C25", "The statistics tool reports true figures for every dataset",
 "Given a directory, the stats tool reports one row for every pair of an .fcb file and its .city.jsonl (or else .jsonl) text, below the directory only if asked to recurse, with names selected by the given prefixes at every level, sorted by name. All figures are true of the files: sizes, numbers of features, city objects, vertices and attribute columns, the averages and compression factors derived from them (0 where there is nothing to divide by). The table, CSV and JSON forms report the same under the right column names and the machine-readable ones are alone on standard output. A file without partner or that cannot be read is named and left out and the others are still reported; a directory that cannot be read is an error.",
 ["inputs", "configurations"],
 "Every tree of files, sound, damaged, without partner or foreign, with any selection, and every output format.",
 "No test runs the tool.",
 ["bin/stats.rs"],
 [("search for pairs","bin/stats.rs find_fcb_files, find_dataset_pairs"),("figures","bin/stats.rs analyze_fcb, analyze_jsonl"),("output","bin/stats.rs output_table, output_csv, output_json")],
 ["standard output, standard error and exit status of the stats binary"])

prop("C26", "The browser reader answers as the native HTTP reader does",
 "For every file and every question (all features, a box, a point, the nearest, attribute conditions with string, number, boolean and date keys), the reader of the browser package delivers the same header, the same features in an order of the same kind, each once, and announces the same number as the native HTTP reader; keys are taken in the type of their column, and a query that means nothing is refused. A failed, refused, short or interrupted fetch is reported and no feature is passed over because of it, also when reading is continued; damaged files are refused without panic. What it asks for lies within the file and is hardly more than the native reader asks for. Features put together to one CityJSON object keep every object, geometry and position, and the OBJ text made of the list and of the whole is the same, with every vertex and no face beyond them.",
 ["inputs", "faults", "configurations"],
 "Every file the native reader accepts or refuses, every query a page can put, and every failure of any of the fetches.",
 "The package has no tests that run here.",
 ["src/rust/wasm/src/lib.rs","src/rust/wasm/src/gloo_client.rs","src/rust/wasm/src/util.rs"],
 [("opening and searching","wasm/src/lib.rs HttpFcbReader"),("iterating","wasm/src/lib.rs AsyncFeatureIter, FeatureBatch"),("queries","wasm/src/lib.rs WasmSpatialQuery, WasmAttrQuery"),("fetching","wasm/src/gloo_client.rs"),("searching the attribute indexes in the browser","fcb_core/src/static_btree/query/http.rs, what is written for wasm32")],
 ["results of HttpFcbReader, AsyncFeatureIter, WasmSpatialQuery, WasmAttrQuery, cjseqToCj and cjToObj"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
