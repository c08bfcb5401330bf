#!/usr/bin/env python3
"""writes MANIFEST.json from the list of finished checks and the reasons for the rest"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the LLVM IR of /repo/src (clang -O0 + mem2reg, then an interprocedural, path-partitioned interpreter over intervals, linear relations and symbolic memory)"
TRUST = (" Assumes: clang's front end and the IR semantics; the models of libc and of user callbacks in engine/models.py and engine/entry.py; "
         "calls respect the documented preconditions. Undecided entry points are listed in the evidence.")
MEM = AI + "; bounds obligation at every memory access, position invariants at every exit"
CHECKS = {
    "C01": (MEM, "Every read made while decoding is proved to lie inside the object it is made from (the window of data supplied, a node, a block), and every exit keeps "
                 "the position within the data and leaves no data after an error."),
    "C04": (MEM + "; an inductive invariant of the tree parser (parse stack, remaining nodes, byte budget), checked at every join, at every exit and where a message is started",
            "Every access to a node, the parse stack, a node page or the caller's pool is proved to lie inside it, in parsing (from memory, a stream or a pool; started or resumed at any point) and in every node accessor."),
    "C02": (MEM, "Every store of every writing function and flush/teardown callback is proved to lie inside the writer's buffer, an open build's pages, or a block it allocated; "
                 "every exit keeps buffer <= position <= end with [buffer, end) accessible."),
    "C03": (MEM, "Every store to a caller's buffer (up to the size given), a local buffer or an allocated block is proved to lie inside it."),
    "C05": (AI + "; exact case split of the input: the 36 formats that partition the 256 leading bytes, with symbolic payload bytes, complete or cut short",
            "For each format, every exit of the tag readers, of the expect functions for compound types and of the node parser has the type, value term, consumed size or error the specification assigns, in normal, size-optimised and extension-free builds."),
    "C06": (AI + " of every writing function over classes of values",
            "For every class of values (cut at each format boundary) the bytes stored are terms over the value that match one format of the MessagePack specification for that type, payload right behind it, position moved by exactly that much."),
    "C07": (AI + " of every writing function over classes of values",
            "In each class of values the format written is the smallest one able to represent it; no v5-only opcode and no extension type in v4 mode."),
    "C08": (AI + "; typestate of the error field and the handler",
            "Every path of every public function and installed callback: the error field changes only 0 -> nonzero, every change calls the handler once, and no failure value is written elsewhere."),
    "C09": (AI + "; event rule at every fill/flush/skip/read callback call site",
            "At each indirect call of an I/O callback, in every calling context, the owner's error field is proved to be mpack_ok; exceptions are the teardown functions."),
    "C10": (AI + "; exit rule on the error case: value provenance of what is returned and stored through output parameters",
            "At every exit of every reader, expect and node function where the error can be nonzero, the result is a constant zero, nil, NULL or missing node, or a value passed in by the caller."),
    "C11": (AI + "; exact case split of the input: every first-byte class or node type x every interval between C integer limits x position relative to the caller's limits",
            "In each case all exits of each typed getter agree with the specification: success with the decoded value itself, or mpack_error_type. Whether a floating-point value lies in a caller's range is not tracked."),
    "C12": (AI + " of every getter over the kinds of values; type-state of the node's type field at loads of its value",
            "Each node and expect getter under each kind of value it is not documented to accept must end in a type error without reading the value; every load of a node's length or value, its own or a map key's, is under a type that has one."),
    "C13": (AI + "; every allocator call forked into success and failure",
            "Every allocator call site is followed through its failing outcome in all contexts: nothing is accessed through the null result, and the owning object ends in mpack_error_memory."),
    "C14": (AI + "; typestate of every allocated block and opened file, and ownership of the fields that hold them",
            "Every path of every entry point: blocks and files allocated by it are released once or stored in a field whose owner releases it, nothing released is used, and every destroy function releases each owning field."),
    "C17": (AI + "; a backward slice selects the arithmetic that sizes and limits are made of; an obligation at each operation and each narrowing conversion",
            "On 32-bit and 64-bit size_t, every addition, subtraction, multiplication, shift or narrowing that may become a size or one side of an unsigned limit comparison is proved to be exact in every calling context."),
    "C19": (AI + " of every C-string and UTF-8 getter; typestate of the validity check",
            "Every exit without error has passed the check the function's name promises on the start and full length of the string and left a zero byte behind it; every exit with an error leaves an empty string or NULL."),
    "C20": (AI + " of the check functions over the classes of the Unicode well-formedness table",
            "Each class of well-formed sequence is accepted and each way to violate the table (overlong, surrogate, too large, stray, missing or bad continuation byte) refused, at the start and behind every kind of sequence, with symbolic bytes; no load outside the length."),
    "C16": (AI + "; typestate of teardown and flush callbacks on every path through the destroy functions",
            "In every destroy function: teardown is called exactly once if installed, the flush exactly when there is no error and data is left, nothing is done with the object afterwards, the error returned is the object's, and unclosed elements are reported."),
    "C15": (AI + "; at each call of an error handler in every context: ownership of allocated blocks and pages by fields of live objects",
            "Wherever a handler may run and leave by a jump, no block, file or page is held by local variables only, and the object's owning fields hold blocks that destroying it can release."),
    "C30": (AI + "; exact case split: every map of up to three pairs and every list of up to three strings, each key in every class relative to the sought one, loops unrolled",
            "In each case all exits give the value of the single equal key, a data error for a duplicate, and an error, missing node or the count for none. Longer maps are covered by the pairs' independence, not by proof."),
    "C31": (AI + " of every writing function on open builds; exact case split over layouts of builds and pages, with symbolic contents, loops unrolled",
            "Counting is decided for all states of a build. Order and completeness of the contents are decided on a finite set of layouts (one to three builds, one to three pages, contents ending at each critical distance from the page end) with symbolic bytes and counts."),
    "C28": (AI + "; every stdio and callback operation forked into success, short result and failure",
            "Every exit with a failed or short operation behind it has the object's error set; no callback is called after it; every internal error result becomes the object's error; a forward seek is confirmed by a read."),
    "C21": (AI + "; ghost copies of the parser's position and node counts, compared at every exit that leaves a message in progress",
            "Whenever an attempt to parse stops for lack of data, in any state and at any element, the position, nodes counted and used and the open levels are proved to be what they were after the last complete element, and no error is left, so the next attempt repeats exactly that element. Together with C05 (each element's parse is a function of its bytes)."),
    "C22": ("points-to call graph over the IR; cycles and dynamic stack allocation",
            "No cycle in the call graph except the recorded findings, no alloca of non-constant size, and the worst-case chain of fixed frames is below a bound."),
    "C23": ("type-based write and effect analysis over the IR with interprocedural reference queries",
            "No function reachable from a node query stores to node data; no mutable global exists; all globals are constant."),
    "C24": (AI + " over classes of timestamps; bit-level comparison of terms",
            "In each class of seconds and nanoseconds the bytes written are, bit for bit, the smallest specified layout; from symbolic bytes of each layout the fields returned are exactly the specified bits; everything else is refused with zero returned."),
    "C26": (AI + " of the comparison over every pair of kinds and relation of values; consistency of the resulting signs",
            "The sign of the result is determined in each class, zero only for equal tags, and all signs describe one total order (floats: memcmp over the full width)."),
    "C25": ("dataflow over the IR: which constants reach the switch defaults and return sites of enum-handling functions, by " + AI,
            "Every mpack_error_t and mpack_type_t constant reaches a case of its own in the functions that describe or size it; never the unreachable default."),
    "C18": (AI + " of every getter with a maximum over each format with lengths within and beyond the limit (all three related symbolically), and of the tree parser with ghost counts of nodes and bytes",
            "In every state with the data beyond the limit the documented error is set and nothing was allocated or copied beyond it; with the data within it that error is not set. The node parser is proved never to count more nodes than the maximum or than there are bytes, to buffer no more than the maximum size, and to report too-big only when the limit is in fact exceeded."),
    "C27": (AI + " of the tracking configuration from given stacks of open elements: what each function leaves open, and when it flags a bug",
            "Every reading, writing, opening, closing and ending function is run with tracking from every kind of open element (type, some or none left, key waiting, built); what is open afterwards and whether a bug is flagged are as documented. mpack_write_tag, keyed and enumerated expect functions, discarding compounds and growing the tracker's stack are not covered."),
    "C34": (AI + " of the debug configuration: reachability of every assertion and break, and the origin of the condition that decides it",
            "Every branch that leads to a failing assertion or break is shown to be infeasible, or its condition is made only of the caller's arguments and settings and of which calls the caller made; message bytes, lengths, errors and positions never decide one. The trackers' own verdicts are C27; whole builds are analysed on concrete layouts."),
    "C29": ("reference query: external symbols of the IR in ten configurations against the allowed sets of each",
            "Exact: the set of external functions and globals referenced under a configuration contains nothing the configuration excludes."),
}
NA = {
    "C32": "A property of the composition of writer, transport and reader over whole histories of values; no static argument in reach relates two programs' outputs. Its static halves are C05, C06, C11 and C12.",
    "C33": "Equality of two executions under different chunkings of the same stream (a relational property over run-time chunk sizes); not decidable by a one-run dataflow analysis. Its safety half is C01/C09/C28.",
}
def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
         "notes": "No hooks in /repo. known_findings.json lists recorded and repaired defects; see DESIGN.md."}
    for i in ids:
        if i in CHECKS:
            t, n = CHECKS[i]
            m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --thorough" % i,
                                    technique="static analysis: " + t, level="other", level_note=n + TRUST))
        else:
            m["not_applicable"].append(dict(property=i, reason=NA[i]))
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
main()
