"""What each check runs: id -> monitored processes, what counts as a non-trivial execution, and what the check claims."""
def part(name, cmd, build="dev", **kw):
    return dict(name=name, cmd=cmd, build=build, **kw)

def simple(pid, rule, note, level="exploration", technique="runtime monitoring: offline oracle over recorded executions", extra=(), build="dev", **kw):
    return {"parts": [part("monitor", pid, build)] + list(extra), "rule": rule, "level": level, "note": note, "technique": technique, **kw}

def kinds(pid, tier):
    spec = PLAN[pid]
    return {p["build"] for p in spec["parts"] if tier in p.get("tiers", ("quick", "thorough"))} | set(spec.get("needs", []))

MODEL = "runtime monitoring: executions compared with a reference model"
RT = "runtime monitoring: offline round-trip oracle over recorded executions"

PLAN = {
    "C01": simple("C01", "one evaluation = one random dataset written, read back and compared member by member; non-trivial = at least one feature, distinct by file bytes",
        "Sampled datasets over all geometry types, object types, nestings and coordinate ranges; the oracle is the JSON that was written. Debug assertions and overflow checks are on.", technique=RT),
    "C02": simple("C02", "one evaluation = one random dataset header written and read back by one of the three reading modes and compared member by member; non-trivial = a header with optional members, templates or extensions, distinct by file bytes",
        "Sampled headers: transforms, metadata with every contact and reference-system form, templates, appearance, extension declarations, column tables and feature counts; the oracle is the JSON that was written. Extension documents come from a server on the loopback interface.", technique=RT),
    "C03": simple("C03", "one evaluation = one dataset with random typed attributes written, read back and compared bit by bit; non-trivial = at least one feature, distinct by file bytes",
        "Sampled schemas (all 15 column types), given or gathered from mixed values, and values with type extremes, on objects, semantic surfaces and templates; the oracle is the JSON that was written, numbers compared by bits.", technique=RT),
    "C04": simple("C04", "one evaluation = one bbox or point query run through seekable, sequential and HTTP reading; non-trivial = the model's answer is neither empty nor everything, or the query touches/just misses a box",
        "Sampled layouts (including degenerate, touching and extreme ones), 0 to 70 000 features, index node sizes 2..65535, up to five levels of the index; the oracle is a linear scan over boxes computed from the JSON vertices.", technique=MODEL),
    "C05": simple("C05", "one evaluation = one nearest query run through the three readers; non-trivial = more than one feature",
        "Sampled layouts and query points, 1 to 70 000 features, node sizes 2..65535; the oracle is the minimum over all centre distances, compared with relative tolerance 1e-9.", technique=MODEL),
    "C06": simple("C06", "one evaluation = one query of one to four conditions run through the three readers; non-trivial = the model selects some but not all features",
        "Sampled datasets over all 13 indexable types, duplicate-heavy and wide value domains, sparse columns, several objects per feature, branching factors 2..65535, up to 70 000 features, conditions without an index and keys of another type; the oracle evaluates the conditions on the JSON values.", technique=MODEL),
    "C07": simple("C07", "one evaluation = one exact, range or bounded lookup asked of the built, reloaded, streamed and remote index; non-trivial = a tree of more than one node and an answer neither empty nor everything, or an answer with duplicates",
        "Sampled entry lists for all 15 key types, branching factors 2..65535, sizes around powers of the branching factor and up to 70 000, conjunctions over several indexes; the oracle is a BTreeMap.", technique=MODEL),
    "C08": simple("C08", "one evaluation = one selection (everything, bbox, point, nearest, attribute query) delivered by the seekable, sequential and HTTP readers, the first two also over inputs that split their reads; non-trivial = at least one feature selected, distinct by file and selection",
        "Sampled datasets with and without indexes, and files of large features; also files behind a real web server on the loopback interface, opened by URL; the three readers are compared with each other feature by feature and header by header, not with a model.", technique="runtime monitoring: differential oracle over recorded executions"),
    "C10": simple("C10", "one evaluation = one corrupt, truncated, spliced or made-up file opened and drained through the seekable, sequential and HTTP readers with five to eight selections; non-trivial = the bytes differ from the valid file; distinct by file bytes",
        "Sampled mutations of valid files aimed at every length, count, offset, type and link of the format, and made-up files; monitors: panics and aborts, an allocation meter, an operation and request budget, a watchdog, debug assertions and overflow checks, AddressSanitizer, and Miri in the thorough tier. Payload lists that refer to each other so that answers grow quadratically in the file size, and flatbuffers that alias their own parts, are bounded by the library's verifier limits, not by the file size, and not generated.",
        technique="runtime monitoring and sanitizers: AddressSanitizer, Miri, allocation and progress monitors over hostile inputs",
        extra=[part("asan", "C10", build="asan", args=["--scale", "0.4", "--case-limit", "100"], env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0", "FCBMON_CORPUS": ""}, sanitizer="asan"),
               part("miri", "C10small", build="miri", tiers=("thorough",), args=["--case-limit", "3000"], sanitizer="miri", timeout={"thorough": 7200})]),
    "C11": simple("C11", "one evaluation = one history of next/current/size-hint/count calls on one iterator watched by an online monitor of the iterator contract; non-trivial = the selection is not empty; distinct by call history",
        "Sampled datasets, selections and call histories (to the end and beyond, dropped early, reopened); what is current before the first and after the last advance is not specified and not judged.", technique="runtime monitoring: online monitor of the iterator's trace specification"),
    "C12": simple("C12", "one evaluation = one opening and draining of a file through an input that fails at one operation, ends at one byte, or splits and interrupts its reads, whose n-th range request fails or comes back short, or whose steps are given up while pending; non-trivial = the fault was actually reached",
        "Every operation of short runs and a sample of long ones fails in turn; small files are cut at every byte; features of several read-ahead sizes, going on after an error; the oracle is the answer of the fault-free run (itself checked by C01-C06). Interrupted seeks are out of scope.", technique="runtime monitoring: fault injection with an offline oracle over the delivered features"),
    "C09": simple("C09", "one evaluation = one written file taken apart by an independent byte-level parser and compared section by section with the dataset it was written from; non-trivial = at least one feature, distinct by file bytes",
        "Sampled datasets up to 70 000 features with and without indexes; the parser is written from the schema files and shares no code with the library. Separator keys inside attribute indexes are judged by C06/C07 through lookups.", technique="runtime monitoring: offline structural oracle over written files"),
    "C13": simple("C13", "one evaluation = one write to an output that splits, interrupts, fails at one byte, fails on flush or runs out of space, or one repeated write of the same dataset in this or another process; distinct by file and output behaviour",
        "Failures at every section boundary and at sampled bytes, one-shot and permanent, behind buffers of all sizes; temporary storage that is limited or missing, and looked at afterwards; reproducibility across processes with differently seeded hash maps.", technique="runtime monitoring: fault injection with an offline oracle over the bytes received"),
    "C14": simple("C14", "one evaluation = one conversion there and back, one encoded document, or one failing invocation of the fcb binary; non-trivial = at least one feature kept, or a failure; distinct by file bytes or by the failing invocation",
        "Sampled inputs, options and stream forms; every kind of failure the tool can meet from its arguments, inputs and outputs; decoders for the file, CBOR and BSON are the monitor's own. Numbers that the JSON parser reads exactly (see the known finding); what happens with unknown attribute names in the index list is judged only by the round trip.",
        needs=["cli"], technique="runtime monitoring: black-box oracle over recorded process runs"),
    "C15": simple("C15", "one evaluation = one key encoded, decoded, truncated, written to failing and splitting outputs and compared with six others; distinct by key type and encoding",
        "Sampled values of every key type with extremes (bytes and 16-bit integers exhaustively); the oracle is the plain value and its natural order.", technique=MODEL),
    "C16": simple("C16", "one evaluation = one query over one tree in five forms (memory, reloaded, loaded over HTTP, streamed, searched over HTTP); non-trivial = more items than one node holds and an answer that is neither empty nor everything, or a nearest query over more than one item",
        "Sampled sets of up to 70 000 boxes and node sizes 2..65535; the oracle is a linear scan.", technique=MODEL),
    "C17": simple("C17", "one evaluation = one HTTP session (open, select, drain, go on past the end) whose range-request log is judged; non-trivial = something was selected and more than one request was made; distinct by request log",
        "Sampled small files with every kind of selection, and one 22 MB file of 22500 features with point, box, line, nearest and attribute queries; the need is computed from the file by the independent parser of C09.", technique="runtime monitoring: offline monitor over recorded request logs"),
    "C18": simple("C18", "one evaluation = one dataset with materials, textures, themes and template instances written, read back and compared; non-trivial = at least one feature, distinct by file bytes",
        "Sampled appearances at feature and dataset level, all value nestings and nulls; the oracle is the JSON that was written.", technique=RT),
    "C19": simple("C19", "one evaluation = one execution of 2 to 18 readers and writers interleaved step by step in one thread or in two to six threads, each compared event by event with what it produces alone; distinct by the observed order of steps",
        "Sampled datasets, selections, faults, early drops and schedules; the order of steps actually observed is recorded; ThreadSanitizer watches the library and the standard library for races, Miri a few executions in the thorough tier.",
        technique="runtime monitoring and sanitizers: ThreadSanitizer, Miri, differential oracle over recorded interleavings",
        extra=[part("tsan", "C19", build="tsan", args=["--scale", "0.1"], env={"TSAN_OPTIONS": "halt_on_error=1"}, sanitizer="tsan"),
               part("miri", "C19small", build="miri", tiers=("thorough",), args=["--case-limit", "3000", "--threads", "1"], sanitizer="miri", timeout={"thorough": 7200})]),
    "C20": simple("C20", "one evaluation = one selection opened, read to its end and dropped under a counting allocator, three times, by one of the three readers; non-trivial = more than one feature selected; distinct by reader, file, selection and whether features are decoded",
        "Three files of 12 to 25 MB (many features, large ones, a few very large ones) with every kind of selection, and sampled small files; the allowance is computed from the file by the independent parser of C09 and several times what the library uses, memory of all allocations on the reading thread is counted.", technique="runtime monitoring: allocation monitor over recorded executions"),
    "C21": simple("C21", "one evaluation = one selection read by the seekable or the sequential reader from an input which counts the bytes taken; non-trivial = some but not all features selected; distinct by reader, file and selection",
        "Three files of 12 to 25 MB with every kind of selection, and sampled small files; the need is computed from the file by the independent parser of C09, with 8 KiB of slack for each place visited.", technique="runtime monitoring: offline monitor over recorded I/O"),
    "C22": simple("C22", "one evaluation = one indexed file written and read in file order, its steps, blocks and windows measured; non-trivial = enough features to measure; distinct by file bytes",
        "Sampled arrangements (grids, jittered, uniform, with holes, lines, an outlier) of up to 20 000 features, orders of writing, aspect ratios, scales and offsets; the bounds on step length, block area and side, and runs per window are half as large again or more as anything a Hilbert curve was seen to give.", technique="runtime monitoring: offline oracle over the recorded order of features"),
    "C23": simple("C23", "one evaluation = one dataset with odd, damaged or borderline members written and, as far as it was accepted, read back and compared; non-trivial = at least one feature accepted or refused; distinct by file bytes",
        "Sampled mutations of generated headers and features that still parse as CityJSON, and targeted ones at the limits of coordinates, indexes, nesting and references. Members the format has no place for (unknown members, types without '+', an empty geometry list), values lists shaped unlike their boundaries and boundaries of empty lists only are judged for readability, not for equality.", technique="runtime monitoring: offline round-trip oracle over hostile inputs"),
    "C24": simple("C24", "one evaluation = one text read as a CityJSON document or sequence, from a file or from a reader that splits, interrupts or fails; non-trivial = all of them; distinct by text, kind, form and place of failure",
        "Sampled documents and sequences in many spellings, damaged or not, with failures at sampled bytes; the oracle is the JSON parser applied to the text cut at its line ends. Lines without content may be refused or passed over.", technique="runtime monitoring: fault injection with a differential oracle"),
    "C25": simple("C25", "one evaluation = one run of the stats binary over one directory tree; non-trivial = at least one dataset to report; distinct by case and format",
        "Sampled trees with pairs, lone, damaged and foreign files, every option and format; the figures are computed from the JSON and by the independent parser of C09. Names with commas, quotes or bars, lines without content and text that is not UTF-8 are not generated.", needs=["stats"], technique="runtime monitoring: black-box oracle over recorded process runs"),
    "C26": simple("C26", "one evaluation = one question put to the browser reader, on a sound or damaged file, with or without a failing fetch, or one query as a page would say it, or one set of features put together; non-trivial = the answer holds something (browser), or the question was put at all (the rest); distinct by file bytes, question and fault",
        "The reader's own sources, compiled for this machine against small stand-ins for wasm-bindgen, js-sys, serde-wasm-bindgen and gloo-net, so JavaScript's own behaviour (number conversion, exceptions, garbage collection) and what 32-bit addresses would change are not exercised. Sampled files, questions, faults and damage; the answers are compared with those of the native HTTP reader, which the other checks judge.", build="browser", technique="runtime monitoring: differential oracle over recorded executions, with fault injection"),
}
NOT_APPLICABLE = {}
