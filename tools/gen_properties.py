#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
S="src/mpack/"
R,W,X,N,C,P=S+"mpack-reader.c",S+"mpack-writer.c",S+"mpack-expect.c",S+"mpack-node.c",S+"mpack-common.c",S+"mpack-platform.h"
RH,WH,XH,NH,CH=S+"mpack-reader.h",S+"mpack-writer.h",S+"mpack-expect.h",S+"mpack-node.h",S+"mpack-common.h"
props=[]
def P_(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    assert len(title)<=80,title
    props.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

P_("C01","Decoding never touches memory outside the supplied bytes",
 "Whatever bytes a message contains and however a source splits them into chunks, every byte that the Reader, Expect and Node parsing functions examine, copy or skip lies inside data the caller or the fill/read source has actually provided. No function advances its read position past the end of the available data, so remaining-byte counts never wrap. A read the data cannot satisfy reports an error instead.",
 ["inputs","histories","fault_sequences"],"all byte strings, all chunkings by fill/read functions, all sequences of read calls",
 "The tests run a finite set of messages and a few chunk sizes; an off-by-one in one of hundreds of size checks only shows on a truncation at one particular byte.",
 [R,RH,X,N],[("size check before each header/payload load","mpack_reader_ensure / mpack_parse_tag; mpack_tree_reserve_bytes / mpack_tree_parse_node_contents"),("straddling reads","mpack_read_native_straddle, mpack_reader_ensure_straddle, mpack_skip_bytes_straddle")],
 [("data/end","unread window of the reader","mpack_reader_t"),("data_length, size, possible_nodes_left","bytes available and consumed by the tree parser","mpack_tree_t")])
P_("C02","Encoding never writes outside the output buffer",
 "Whatever values are written and however small the buffer is, every byte a writer stores lies inside the buffer it was given, the buffer it allocated, or the builder pages it allocated. The write position never passes the end of the current buffer, so used and remaining byte counts never wrap.",
 ["inputs","histories","fault_sequences"],"all sequences of write calls, all buffer sizes at or above the documented minimum, all flush functions",
 "Tests use a handful of buffer sizes; a mismatch between the space reserved and the bytes stored matters only when the buffer ends exactly there.",
 [W,WH,CH],[("reserve-then-store","MPACK_WRITE_ENCODED, mpack_writer_ensure"),("straddling writes","mpack_write_native_straddle"),("builder pages","mpack_builder_add_page, mpack_builder_configure_buffer, mpack_builder_apply_writes")],
 [("buffer/position/end","output window","mpack_writer_t"),("bytes_used","fill level of a builder page","mpack_builder_page_t")])
P_("C03","Caller-supplied and allocated copy buffers are never overrun",
 "Functions that copy message data or text out to a buffer (read bytes, strings and C-strings, expect buffers, node copies, allocating getters, printing and describing) never store more than the capacity the caller passed or the size they allocated, including the terminating NUL. Data that does not fit is reported as an error (or truncated, for printing) instead.",
 ["inputs"],"all payload lengths, all buffer capacities, all content",
 "Tests try one or two sizes per function; the failing case is a length exactly equal to the capacity or one of its neighbours.",
 [R,X,N,C],[("capacity checks before copy","mpack_expect_*_buf, mpack_read_cstr_unchecked, mpack_node_copy_*"),("allocation of length+1","mpack_read_bytes_alloc_impl, mpack_node_cstr_alloc"),("print buffer","mpack_print_append")])
P_("C04","Node storage is never overrun",
 "While parsing any message, the node parser only writes nodes and parse-stack levels inside the node pool, pages and stack it owns, for every mix of nesting depth and child count. A pool that is too small or a limit that is exceeded yields an error, never an overflow.",
 ["inputs","fault_sequences"],"all messages, all pool sizes and page sizes, all allocation failures",
 "The tests parse a few messages against a few pool sizes; overflow needs a particular child count at a particular fill level of page or stack.",
 [N,NH],[("pool/page bookkeeping","mpack_tree_parse_children"),("stack growth","mpack_tree_push_stack"),("root allocation","mpack_tree_parse_start")],
 [("nodes, nodes_left","remaining slots of the current page","mpack_tree_parser_t"),("level, stack_capacity","parse stack","mpack_tree_parser_t")])
P_("C05","Every leading byte is decoded as the MessagePack spec says",
 "For each of the 256 leading bytes, the Reader and the Node parser both decode exactly the type, value, length, count and extension type the MessagePack specification assigns, big-endian and sign-extended as specified, and consume exactly the specified number of header bytes. The reserved byte 0xc1 is an invalid-data error, and extension bytes are an unsupported error when extensions are disabled. This holds in every build configuration, including size-optimised builds.",
 ["inputs","configurations"],"all 256 leading bytes, all payload header bits, all build configurations",
 "Tests decode sample values per format; a wrong shift or sign affects only values with particular bits, and some configurations are only sampled.",
 [R,N,CH],[("reader decode","mpack_parse_tag"),("node decode","mpack_tree_parse_node_contents"),("big-endian loads","mpack_load_*")])
P_("C06","Every value is written in its correct MessagePack encoding",
 "For every value of every type, the writer emits a header the MessagePack specification defines for that type, with the right opcode, big-endian payload bits taken from the value, and the right extension type, and moves its position by exactly the bytes stored. No value bits are lost by choosing a representation that is too narrow.",
 ["inputs","configurations"],"all argument values of all write functions",
 "Tests write boundary samples; the encodings of 64-bit values cannot be enumerated by running them.",
 [W,CH],[("encoders","mpack_encode_*"),("width ladders","mpack_write_u8..i64, mpack_start_*"),("big-endian stores","mpack_store_*")])
P_("C07","The writer picks the shortest encoding, and v4 mode only v4 formats",
 "Integers, strings, binary blobs, extensions, arrays and maps are always written with the shortest format that can represent the value or length. In v4 compatibility mode the str8, bin and ext formats are never emitted; strings and binary data use the original raw formats, and extension types are refused with an error.",
 ["inputs","configurations"],"all argument values, both compatibility versions",
 "Tests sample boundaries for some functions only; the guarantee is over whole ranges.",
 [W],[("width ladders","mpack_write_u8..i64, mpack_start_str_notrack, mpack_start_bin_notrack, mpack_start_ext"),("version switch","writer version checks")])
P_("C08","The first error sticks and the error handler runs exactly once for it",
 "Once a reader, writer or tree has an error, no later operation changes or clears it: the first error is the one reported. Every transition into an error state calls the installed error handler exactly once, and the handler is never called otherwise; the error is already visible when the handler runs.",
 ["histories","fault_sequences"],"all call sequences, all points of failure, including allocation and I/O failures",
 "Tests check a few error paths and rarely install handlers; a path that sets the error directly or clears it is invisible to them.",
 [R,W,N],[("single flagging function per object","mpack_reader_flag_error, mpack_writer_flag_error, mpack_tree_flag_error")],
 [("error","sticky error code","mpack_reader_t, mpack_writer_t, mpack_tree_t")])
P_("C09","No I/O callback is invoked once an error is set",
 "After an error is flagged, the library never again calls the fill, skip, flush or read function of that reader, writer or tree, also during the same operation and during destruction. If such a callback itself flags an error, the operation stops without calling it again.",
 ["histories","fault_sequences"],"all call sequences and all points at which a callback, allocation or check fails",
 "Tests use callbacks that rarely fail; the violating history needs an error in the middle of a multi-call operation.",
 [R,W,N],[("error check before callbacks","mpack_fill, mpack_skip_bytes, mpack_writer_flush_*, mpack_writer_destroy, mpack_tree_reserve_fill")])
P_("C10","A read that fails returns a neutral value",
 "Whenever a reading, expecting or node-accessing call finishes with its object in an error state, the value it returns is neutral: zero, false, NULL, nil, or an empty string or missing node. No value derived from unvalidated data escapes from a failed call.",
 ["inputs","histories"],"all inputs, all getters, all points of failure",
 "Tests check the error code, often not the value; each getter has several failure points that sample inputs do not all reach.",
 [R,X,N,NH,RH],[("error early-outs and neutral returns","all mpack_read_*, mpack_expect_*, mpack_node_* getters")])
P_("C11","Typed getters return the exact value or fail",
 "A typed numeric getter or expectation (any width, signed or unsigned, with or without range) succeeds exactly when the decoded value has an accepted type and lies in the requested range, and then returns that value unchanged. Otherwise it flags a type error; no value is ever truncated, wrapped or reinterpreted.",
 ["inputs"],"all decoded types and all 64-bit values, for all typed getters of the Expect and Node APIs",
 "The value space is 2^64 per type; tests probe a few boundaries per getter.",
 [X,N,NH],[("type switch and range checks","mpack_expect_u8..i64, mpack_node_u8..i64, *_range, *_match"),("strict variants","mpack_expect_float_strict, mpack_node_double_strict")])
P_("C12","Data is only interpreted as the type it was decoded as",
 "Values decoded from a message are only accessed as the kind of data they are: integers, floats, lengths, counts, child lists and byte ranges of a tag or node are used only after its type has been established. A call for the wrong type flags a type error and touches nothing.",
 ["inputs"],"all types of node or tag reaching every accessor",
 "Tests call each accessor with a few types; a type confusion on one of eleven types in one of a hundred accessors goes unseen.",
 [X,N,NH,CH],[("type test before payload access","mpack_node_* accessors, mpack_expect_*, mpack_tag_*")],
 [("type, value/v","discriminated union","mpack_tag_t, mpack_node_data_t")])
P_("C13","Allocation failure is always reported as a memory error, never used",
 "If any allocation made by the library fails, the result is never dereferenced, the operation ends in an out-of-memory error on its object (so that the caller sees it), and everything already allocated stays owned or is released.",
 ["fault_sequences","histories"],"failure of any one or more allocations in any call sequence",
 "Tests inject failures only for some messages and some functions; every allocation site on every path is not reached.",
 [R,W,X,N,C],[("null checks","all MPACK_MALLOC/MPACK_REALLOC call sites")])
P_("C14","No memory or file is leaked, freed twice or used after free",
 "On every path through every call, including errors, refused limits and failed allocations, each block the library allocates and each file it opens is released exactly once, or handed to the caller or kept by an object whose destruction releases it, and it is never used afterwards. A reader, writer or tree that has been destroyed holds no memory or file.",
 ["histories","fault_sequences"],"all paths of all functions, all points of failure",
 "Leak tests cover sample histories; each function has error exits that those do not take.",
 [R,W,X,N,C],[("ownership transfers","allocating getters, growable/file/builder/teardown functions")])
P_("C15","Escaping from an error handler leaks nothing and corrupts nothing",
 "An error handler may leave by longjmp or an exception. Whenever the library invokes an error handler, it holds no memory or file that is reachable only from its own local variables, and the object is in a state in which destroying it is safe and releases everything.",
 ["histories","fault_sequences"],"all points at which an error can be flagged",
 "Tests jump out of a handler in very few situations.",
 [R,W,X,N],[("release before flagging","mpack_read_bytes_alloc_impl, mpack_expect_*_alloc, node *_alloc, growable writer flush")])
P_("C16","Teardown runs exactly once on destruction, errors included",
 "Destroying a reader, writer or tree invokes its teardown function exactly once whether or not an error occurred, and reports the final error state. Data remaining in a writer is flushed before teardown if and only if no error occurred, and unclosed or unread elements are reported as errors when tracking is enabled.",
 ["histories","fault_sequences"],"all histories leading to destruction",
 "Tests destroy objects in a few states; error-in-final-flush histories are rare.",
 [R,W,N],[("destroy functions","mpack_reader_destroy, mpack_writer_destroy, mpack_tree_destroy")])
P_("C17","Size arithmetic for allocations and limits cannot wrap",
 "The byte counts passed to allocators, copies and limit checks are computed without wrap-around or narrowing for every length, count or limit a message or caller can supply, on 32-bit and 64-bit platforms. A size that cannot be represented is reported as an error instead of yielding a smaller block.",
 ["inputs","configurations"],"all 32-bit lengths and counts, all caller limits, 32-bit and 64-bit targets",
 "Tests cannot allocate the gigabytes needed to make these sums wrap.",
 [R,W,X,N],[("size computations","*_alloc functions, growable writer, mpack_tree_reserve_fill, mpack_tree_parse_children, mpack_track_grow")])
P_("C18","Configured limits bound what is accepted",
 "A tree never buffers more than its maximum message size nor creates more than its maximum number of nodes, getters with a maximum never accept or allocate for longer data, and the node parser never creates more nodes than the message has bytes. Exceeding a limit is reported with the documented error (too-big for message sizes, node counts and most lengths; a type error for element counts, exact sizes and the maxima of mpack_expect_bin_max, mpack_expect_ext_max and their allocating forms), and data within all limits is not refused for exceeding them, however it is chunked.",
 ["inputs","histories"],"all messages, all limits, all chunkings",
 "Tests use a few limit values; resource use for hostile length fields cannot be sampled.",
 [N,X,R],[("limit checks","mpack_tree_reserve_fill, mpack_tree_parse_children, mpack_expect_*_max, *_alloc maxlen")])
P_("C19","C-string getters terminate, and reject NUL and invalid UTF-8",
 "Every getter that produces a C-string leaves a NUL-terminated string on success and an empty string or NULL on any failure, and succeeds only for strings without embedded NUL bytes. Every getter or check with UTF-8 in its name succeeds only if the whole string was checked to be valid UTF-8.",
 ["inputs"],"all string contents, lengths and capacities, all failure points",
 "Tests check a few strings; the missing check or terminator shows only on one failing path.",
 [R,X,N,W],[("validation then termination","mpack_read_cstr*, mpack_expect_*cstr*, mpack_node_copy_*cstr, mpack_node_*cstr_alloc"),("writer","mpack_write_utf8*")])
P_("C20","The UTF-8 check accepts exactly well-formed UTF-8",
 "For every byte string, the UTF-8 check accepts it if and only if it is well-formed UTF-8: no overlong forms, no surrogates, nothing above U+10FFFF, no truncated or stray bytes, and, in the no-NUL variant, no NUL. It reads no byte beyond the given length.",
 ["inputs"],"all byte strings of all lengths",
 "Tests contain a list of sample sequences; there are over a million code points and many more malformed strings.",
 [C],[("validator","mpack_utf8_check_impl")])
P_("C21","An interrupted incremental parse resumes as if never interrupted",
 "When a non-blocking parse stops because no more data is available, it reports neither error nor progress beyond complete elements: a later call continues and gives the same nodes, counts and errors as if all data had been available at once. Waiting for data never consumes message bytes or node budget.",
 ["histories","inputs"],"all chunkings and all points of interruption",
 "Tests feed data one byte at a time for some messages; counters damaged by a retry only matter near a limit.",
 [N],[("retryable element parsing","mpack_tree_try_parse, mpack_tree_parse_node, mpack_tree_parse_children")],
 [("node_count, size, nodes_left, level","parser progress","mpack_tree_t")])
P_("C22","Stack use is bounded regardless of input",
 "No function's stack depth grows with the nesting or size of the message, and no stack buffer has a size taken from data, so hostile nesting cannot exhaust the stack.",
 ["inputs"],"all messages, all nesting depths",
 "Tests nest a few levels; exhaustion needs many thousands.",
 [R,N,W,X],[("iterative parsing with an explicit stack","mpack_tree_continue_parsing"),("recursion in helpers","mpack_discard, mpack_print_element, mpack_node_print_element")])
P_("C23","Nodes are immutable and the library keeps no hidden shared state",
 "Accessing nodes of a parsed tree never modifies the tree's data, nodes or bookkeeping other than to flag an error, and distinct readers, writers and trees share no mutable state. Separate objects can therefore be used from separate threads, and a parsed tree can be read from several threads.",
 ["schedules","histories"],"all interleavings of calls on distinct objects and of accessors on one tree",
 "Tests are single threaded.",
 [N,NH,C,R,W],[("no mutable globals; accessors without side effects","all sources")])
P_("C24","Timestamps are encoded and decoded losslessly and validated",
 "Every timestamp with nanoseconds up to 999999999 is written in the smallest of the three specified layouts and every specified layout is decoded to the same seconds and nanoseconds. Any other nanosecond value, extension type or length is refused with an error, by writer, reader, expect and node functions alike.",
 ["inputs"],"all 64-bit seconds, all 32-bit nanoseconds, all payload lengths and extension types",
 "The value space is 2^96; tests sample boundaries.",
 [W,R,X,N],[("layouts","mpack_write_timestamp, mpack_encode_timestamp_*, mpack_read_timestamp, mpack_node_timestamp")])
P_("C25","Every error code and type is handled wherever they are switched on",
 "Every error code and every data type has its own name, and every data type can be described, compared, written as a tag and converted from node to tag. No decodable type falls through to an unhandled case.",
 ["inputs","configurations"],"all enumerators in all configurations that define them",
 "Tests name some values in one configuration; a forgotten case appears only with optional features on.",
 [C,W,N,R],[("dispatch over enumerations","mpack_error_to_string, mpack_type_to_string, mpack_tag_cmp, mpack_write_tag, mpack_node_tag, debug description and printing")])
P_("C26","Tag comparison is a total order consistent with equality",
 "Comparing tags compares types and then the value that belongs to that type in full width, returns zero exactly for equal tags, is antisymmetric, and treats non-negative signed and unsigned integers of equal value as equal.",
 ["inputs"],"all pairs of tags",
 "Pairs of 64-bit values cannot be enumerated; tests compare a few.",
 [C,CH],[("comparison","mpack_tag_cmp, mpack_tag_equal, mpack_tag_make_*")])
P_("C27","Tracking accounts for every element and byte exactly once",
 "With tracking enabled, every element and every payload byte read or written through the public API is accounted for exactly once, and every opened map, array, string, blob or extension must be closed with its own type and full count. Any omission, excess or mismatched close is flagged as a bug, and correct programs are never flagged.",
 ["programs","histories"],"all call sequences with tracking enabled",
 "Tests exercise a few wrong sequences; the pairing must hold for each of some two hundred entry points.",
 [R,W,X,C],[("tracker","mpack_track_*"),("calls from API functions","mpack_writer_track_*, mpack_reader_track_*, mpack_done_*, mpack_finish_*")])
P_("C28","Failure reported by a source, sink or file is never swallowed",
 "A fill, read, write, seek, tell or open operation that fails or comes up short, or a close on destruction that fails, puts the object into an error state before any further data is delivered or success is reported; skipping never passes over data that is not there. No error result produced inside the library is dropped.",
 ["fault_sequences","histories"],"every failing call of every callback or stdio function",
 "Tests rarely make stdio fail; each call site has its own failure handling.",
 [R,W,N,C],[("result checks","mpack_fill_range, mpack_reader_ensure_straddle, mpack_file_* functions, callers of mpack_track_*")])
P_("C29","Only configured platform facilities are used",
 "Memory is only obtained and released through the configured allocator macros, and with stdio, malloc, the standard library or floating point disabled the library references none of them. Blocks obtained from one facility are returned to the same one.",
 ["configurations"],"all supported configurations",
 "The tests' configurations override the allocators in one way and cannot see a direct libc call that happens to work.",
 [P,C,R,W,X,N],[("platform layer","MPACK_MALLOC/FREE/REALLOC, MPACK_STDIO, MPACK_STDLIB, MPACK_FLOAT, MPACK_DOUBLE")])
P_("C30","Map lookups find exactly the matching key",
 "Looking up a key in a map node, or matching a key or enumeration string while reading, examines every pair and returns the value of the single key that is equal in type and content; a duplicate key is a data error. If none matches, a required lookup is a data error and an optional one gives a missing node.",
 ["inputs"],"all maps, all keys",
 "Tests look up keys in small maps; a skipped pair or wrong comparison depends on position and content.",
 [N,X],[("linear search","mpack_node_map_int_impl, mpack_node_map_uint_impl, mpack_node_map_str_impl, mpack_expect_key_*, mpack_expect_enum*")])
P_("C31","Built maps and arrays carry the true element count",
 "A map or array written with the automatic builder is emitted with the number of elements actually written at its own level, in the shortest header, with all nested contents in order, however the content is split over internal pages.",
 ["inputs","histories"],"all nestings of builders, all content sizes relative to page size",
 "Tests build a few shapes; page boundaries fall in only a few places.",
 [W],[("builder","mpack_builder_build, mpack_builder_complete, mpack_builder_resolve, mpack_writer_track_element")])
P_("C32","What is written can be read back equal",
 "Any sequence of values written without error and read back through the Reader, Expect or Node API yields equal values in the same order.",
 ["inputs","histories"],"all value sequences, all buffer sizes and chunkings",
 "The space of value sequences is unbounded.",
 [W,R,N,X],[("encode/decode agreement","all of the library")])
P_("C33","All readers of a message agree regardless of chunking",
 "The values and errors produced from a message do not depend on buffer size or on how the fill or read function splits the data.",
 ["inputs","histories"],"all messages, buffer sizes and chunkings",
 "Tests use few sizes and chunkings.",
 [R,N],[("straddling reads","mpack_reader_ensure_straddle, mpack_read_native_straddle, mpack_tree_reserve_fill")])
P_("C34","Library-internal assertions never fire on untrusted data",
 "With debug checks enabled, no message content, truncation, allocation failure or I/O failure can trigger an assertion or break; only misuse of the API by the calling program can.",
 ["inputs","fault_sequences"],"all messages and all failures, debug configurations",
 "Tests reach the assertions only with sample data.",
 [R,W,X,N,C],[("assertions","mpack_assert, mpack_break")])
path=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(path,"w") as f:
    for p in props: f.write(json.dumps(p)+"\n")
print(len(props))
