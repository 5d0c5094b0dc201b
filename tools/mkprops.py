#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, pathlib
F = "funcmap/src/"
D = "funcmap_derive/src/"
IMPLS = [F+"impls_core.rs", F+"impls_alloc.rs", F+"impls_std.rs", F+"array.rs", D+"map.rs", D+"derive.rs"]
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}
P = []
P.append(p("C01", "The first failure decides a fallible mapping, and stops it",
 "A fallible mapping returns an error if and only if the closure failed, and the error it returns is the very value produced by the first invocation that failed. After that invocation the closure is never invoked again during the call.",
 ["fault_sequences", "inputs", "histories"],
 "every supported standard-library and derived type, every value of it, every subset of invocations that would fail, alone or together with other calls in flight",
 "The suite fails one fixed invocation on a handful of three-element values; the position of the failure, the container's size and history, and what would fail later are not varied.",
 IMPLS, [("short-circuiting collect into Result", F+"impls_alloc.rs"), ("`?` in field order in derived bodies", D+"derivable.rs"), ("early return in the array helper", F+"array.rs")],
 ["closure invocations", "returned Result"]))
P.append(p("C02", "No value is lost, duplicated or corrupted, whatever fails midway",
 "Every value handed to a mapping call (elements, parts that are not mapped, the closure's own state) and every value the closure produces is, when the call ends, either in what the call returned or dropped exactly once; this holds whether the call succeeds, the closure returns an error, or the closure panics. When instead a comparison, hash or destructor panics, a comparison is inconsistent, or an allocation fails, still no value is dropped twice, used after being dropped or seen uninitialised, and no memory is released twice, released wrongly or overrun.",
 ["fault_sequences", "crash_points", "inputs", "schedules"],
 "every supported type and value, element types of any size, alignment and drop behaviour (zero-sized, over-aligned, heap-owning, growing or shrinking under the mapping), a fault of any kind at any point of the call",
 "Three unit tests with three-element arrays of one element type put a failure at index one; other positions, sizes, layouts, fault kinds and containers are never exercised.",
 [F+"array.rs"]+IMPLS[:3]+[D+"map.rs"],
 [("drop guard over the partially filled target array", F+"array.rs"), ("by-value iteration and collect", F+"impls_alloc.rs"), ("moving out of pattern-bound fields", D+"derive.rs")],
 ["destructor calls", "allocator calls", "closure arguments", "returned values"],
 [("initialised prefix length", "how much of the target array must be dropped on failure", F+"array.rs")]))
P.append(p("C03", "Each occurrence is mapped exactly once, into its own place",
 "When a mapping call succeeds, the closure has been invoked exactly once for every occurrence of the mapped parameter and never for anything else, and the result has the same structure (variant, length, nesting, field and element positions) with each occurrence replaced by what the closure returned for it. This holds for every type the documentation lists as supported, including every derived struct and enum over arrays, tuples of any length and nested generic types, however the value came to be and whatever calls are in flight or failed before.",
 ["inputs", "programs", "histories", "schedules"],
 "all supported standard types, all derivable type definitions, all values with all container histories (rotations, spare capacity, removals, partial consumption), all hash seeds, all interleavings",
 "Tests use one or two values per type with the integer 10 mapped to text; derived shapes are limited to about a dozen definitions and container histories to literals.",
 IMPLS, [("per-type implementations", F+"impls_core.rs, impls_alloc.rs, impls_std.rs"), ("field-wise recursion over the type syntax", D+"map.rs"), ("one match arm per variant", D+"derive.rs")],
 ["closure invocations", "returned values"]))
P.append(p("C04", "Occurrences are visited in definition and iteration order",
 "The closure sees the occurrences in a fixed order: fields in the order of the definition, elements of ordered containers in their iteration order, range bounds start before end. Where one field's type takes the mapped parameter at several argument positions, all occurrences at an earlier position are visited before those at a later one.",
 ["inputs", "programs", "histories", "fault_sequences"],
 "every supported type with a defined order and every value, up to the point where the call ends or is cut short",
 "The suite's closures are stateless, so any visiting order passes except for one two-field error test.",
 IMPLS, [("match arm and struct expression in field order", D+"derive.rs"), ("into_iter order of each container", F+"impls_alloc.rs"), ("marker loop over the type's arguments", D+"map.rs")],
 ["sequence of closure arguments"]))
P.append(p("C05", "What does not depend on the mapped parameter passes through untouched",
 "Every part of a value that does not depend on the mapped type parameter (other fields, map values when keys are mapped and keys when values are mapped, the other parameters' contents, variants without occurrences) is moved into a successful result as the identical value, in its place, never passed to the closure, copied, compared away or dropped early. The only exception is an entry displaced because the mapping made two keys equal, and mapping over the N-th parameter touches the N-th parameter only, constants counted and lifetimes not.",
 ["inputs", "programs", "histories", "schedules"],
 "all supported and derived types with unmapped parts, all choices of the mapped parameter, all values, histories and interleavings",
 "Tests check equality of a couple of Copy integers, which cannot tell a moved value from a copied, rebuilt or swapped one.",
 [D+"map.rs", D+"derive.rs", D+"input.rs", F+"impls_core.rs", F+"impls_alloc.rs", F+"impls_std.rs"],
 [("fields without dependency are moved as they are", D+"map.rs"), ("marker index assignment", D+"input.rs"), ("separate impls per parameter", F+"impls_alloc.rs")],
 ["identity of the unmapped values in the result", "destructor calls"]))
P.append(p("C06", "Calls in flight at the same time do not influence each other",
 "Any number of mapping calls may be in progress at once, on different threads or nested inside one another's closures, and be suspended, fail or panic at any point. Each behaves exactly as it would alone: same invocations, same result, same error or panic.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings at closure, destructor, comparison and hash callbacks of several threads, nesting of calls inside closures, faults in some of the calls",
 "No test runs two mapping calls at the same time or nests one in another's closure.",
 IMPLS, [("no state outside the call's own frame", F+"array.rs, impls_*.rs"), ("closure captured by unique reference", D+"map.rs")],
 ["per-call histories of concurrent versus solitary executions"]))
P.append(p("C07", "A panic passes through a mapping unchanged and leaves nothing poisoned",
 "If the closure, or a comparison, hash or destructor of the user's types, panics during a mapping call, that very panic payload comes out of the call: it is not swallowed, replaced, or turned into a result or error, and the closure is not invoked again. A call never panics on its own account or aborts the process, and calls made after a failed one behave as if it had not happened.",
 ["crash_points", "fault_sequences", "histories"],
 "every supported type, a panic at any callback of any call, any sequence of later calls on the same or other threads",
 "One unit test panics in one array element; propagation of the payload and later calls are not examined.",
 IMPLS, [("no catch_unwind anywhere", F+"impls_*.rs"), ("unwinding-safe guard", F+"array.rs")],
 ["panic payload caught by the caller", "later calls"]))
P.append(p("C08", "All four mapping methods agree",
 "Given the same value and a closure that behaves the same, the infallible and fallible mapping and their variants with an explicit parameter make the same invocations in the same order and produce the same result; if the closure panics at some invocation all of them end with that panic after the same invocations, and the two fallible variants agree on failures as well.",
 ["inputs", "fault_sequences", "histories"],
 "every supported and derived type, every value, every panic or failure position",
 "The two traits are tested by separate literals; nothing compares their histories.",
 [F+"lib.rs"]+IMPLS, [("two hand-written impls per type", F+"impls_core.rs"), ("same generator with bind/unit expressions", D+"derivable.rs"), ("default methods", F+"lib.rs")],
 ["closure invocations and results of twin executions"]))
P.append(p("C09", "The functor laws hold for closures that keep state and may fail",
 "Mapping with a closure that hands back its argument returns a value indistinguishable from the original. Mapping with one closure and then another gives the same result as mapping once with their composition, and mapping over two different parameters gives the same result in either order; with failing closures, the staged and the combined mapping succeed in the same cases and with the same value (for keyed collections: as long as distinct keys stay distinct).",
 ["inputs", "histories", "fault_sequences", "schedules"],
 "every supported and derived type, every value, closures whose answers depend on the occurrence and that may fail at any of them",
 "The laws are stated in prose; tests check single mappings only.",
 [F+"lib.rs"]+IMPLS, [("structure-preserving implementations", F+"impls_*.rs"), ("one impl per type parameter", D+"derive.rs")],
 ["results of staged versus combined executions"]))
P.append(p("C10", "Collections rebuilt by a mapping are valid under the new keys",
 "After mapping the keys of a map, or the elements of a set or heap, the result is well formed for the new values: every entry is found by its key, no two keys are equal, sorted collections iterate in ascending order and heaps yield in descending order. Keys that become equal collapse to a single entry that carries the value of the entry visited last, and mapping a map's values leaves its keys as they were.",
 ["inputs", "histories", "configurations"],
 "all keyed and ordered collections and their owning iterators, all sizes and histories, any mapping of keys (order reversing, collapsing, colliding hashes), any hash seed and source hasher",
 "Tests map one-element collections; order reversal, collisions and collapsing never occur.",
 [F+"impls_alloc.rs", F+"impls_std.rs"], [("collect into a fresh collection", F+"impls_alloc.rs, impls_std.rs")],
 ["lookups and iteration over the result"]))
P.append(p("C11", "A partly consumed iterator maps exactly what remains of it",
 "Mapping an owning iterator, or a range, of which any number of items has already been taken from either end yields an iterator over exactly the images of the remaining items, in the same order and from both ends (for collections that sort or hash their items, over the collection of those images); items already taken are not mapped, dropped or seen again, and an exhausted iterator stays exhausted.",
 ["histories", "inputs", "fault_sequences"],
 "all owning iterator types and range types, every split of their items into taken from the front, taken from the back and remaining",
 "Tests map fresh iterators over one or two items only.",
 [F+"impls_core.rs", F+"impls_alloc.rs", F+"impls_std.rs"], [("map, collect and into_iter", F+"impls_alloc.rs"), ("next().map().into_iter()", F+"impls_core.rs")],
 ["items yielded by the result"]))
P.append(p("C12", "Behaviour is the same in every feature configuration and build profile",
 "A type that can be mapped with only the core, the core and alloc, or all implementations enabled behaves identically in each of these configurations, with and without debug assertions and optimisation: same invocations, same results, same errors and panics under the same faults.",
 ["configurations", "inputs", "fault_sequences", "programs"],
 "feature sets {none, alloc, std} times {debug, release}, all types available in both configurations compared, all values and faults",
 "The suite is only ever run with default features in the debug profile.",
 [F+"lib.rs", "funcmap/Cargo.toml"]+IMPLS[:4], [("feature-gated modules without overlapping code", F+"lib.rs")],
 ["histories of the same execution in different builds"]))
P.append(p("C13", "Macro expansion is deterministic",
 "For the same input the derive macros produce exactly the same tokens, or the same error messages in the same order, in every execution: independent of the process's random hash seeds, of what was expanded before, and of expansions running on other threads.",
 ["schedules", "histories", "programs"],
 "all derive inputs, all hash seeds, all sequences and interleavings of expansions in one compiler process",
 "Each snapshot is expanded once per run and has few predicates; an order taken from a randomised hash container shows only under some seeds and with several entries.",
 [D+"predicates.rs", D+"opts.rs", D+"input.rs", D+"ident_collector.rs", D+"result.rs", D+"derive.rs"],
 [("insertion-ordered sets and maps", D+"predicates.rs, opts.rs"), ("hash sets used for membership only", D+"input.rs, ident_collector.rs")],
 ["expansion output under different seeds and histories"]))
P.append(p("C14", "Mapping types that need no heap never allocates",
 "Mapping any of the types available without heap support (arrays, options, results, cells, ranges, bounds, polls, control flow, phantom data, and types derived from these) performs no memory allocation, so such a call succeeds or fails exactly as its closure does even when no allocation can be satisfied, in every feature configuration.",
 ["fault_sequences", "inputs", "configurations"],
 "all types of the core configuration and derived combinations of them, any value, allocator failing throughout the call",
 "No test observes the allocator; the core-only configuration is not even built by the suite.",
 [F+"array.rs", F+"impls_core.rs", D+"map.rs"], [("in-place construction of the target array", F+"array.rs"), ("no_std crate", F+"lib.rs")],
 ["allocator calls made inside a mapping call"]))
P.append(p("C15", "Mapping adds no randomness of its own",
 "Apart from the iteration order of collections whose hasher is itself randomised, repeating a mapping call on an equal value with a closure that behaves the same makes the same invocations in the same order and gives the same result, including its iteration order, in every process. It does not depend on random hash seeds, memory addresses, or earlier calls.",
 ["histories", "inputs", "configurations"],
 "all supported and derived types, all values, all hash seeds and heap layouts",
 "Tests compare unordered equality within one process and one hash seed per run.",
 IMPLS, [("ordered, address-free algorithms", F+"impls_*.rs"), ("result hasher of maps and sets", F+"impls_std.rs")],
 ["histories of the same execution under different hash seeds and heap layouts"]))
P.append(p("C16", "The cost of a mapping stays in proportion to the value",
 "However many elements a value holds, a mapping call makes at most in the order of n log n comparisons and n hash computations of the user's types (n being the number of elements, hashes spreading), requests memory, counting every request it makes, at most in proportion to the sizes of value and result, and uses an amount of stack that does not grow with the number of elements in collections; so values of any size can be mapped without exhausting stack, memory or time, also when the call fails in the middle.",
 ["inputs", "histories", "fault_sequences"],
 "all supported and derived types that need the heap, values of any size and arrangement, any key mapping, a failure at any invocation",
 "The suite maps values of about three elements, for which every algorithm is cheap.",
 IMPLS, [("single pass over iterators, bulk construction", F+"impls_alloc.rs"), ("rebuilding hashed collections", F+"impls_std.rs")],
 ["comparisons and hash computations", "allocator calls", "stack pointer in callbacks"]))
# properties of the macro as a pure function of its input: listed, not claimed
NA = [
 ("D01", "Derived implementations compile for every supported type definition", "For every struct or enum whose fields use the mapped parameters only in supported ways, the derived implementation compiles and exists for all source and target types satisfying the type's own bounds.", [D+"derive.rs", D+"map.rs", D+"predicates.rs"], "derived where clauses and bodies"),
 ("D02", "Unsupported definitions are rejected with errors, and the macro never panics", "For every syntactically valid input that cannot be mapped (unions, references, function types, missing parameters and so on) the macros report a compile error for each offending item, and on no input do they panic or loop.", [D+"map.rs", D+"input.rs", D+"result.rs", D+"opts.rs"], "error accumulation"),
 ("D03", "Derived implementations demand no more bounds than needed", "The bounds on a derived implementation are those of the type itself plus those required to map its fields, so that the implementation is available whenever every field can be mapped.", [D+"predicates.rs", D+"derive.rs"], "unique predicates"),
 ("D04", "Generated code cannot clash with names in the user's code", "Whatever identifiers, type names, parameters, fields, shadowed prelude items or lints the surrounding code uses, the derived implementation compiles with its intended meaning.", [D+"ident_collector.rs", D+"derive.rs"], "reserved identifiers and absolute paths"),
 ("D05", "Types with a destructor cannot derive a mapping", "Deriving either mapping for a type that implements a destructor is a compile error, whatever its generics.", [F+"lib.rs", D+"derive.rs"], "conflicting marker implementation"),
 ("D06", "Helper attributes are honoured exactly or rejected", "The parameter selection yields implementations for exactly the listed type parameters, the crate path is used for every reference to the library, and every malformed, duplicate or misplaced attribute is an error.", [D+"opts.rs", D+"input.rs"], "attribute parser"),
 ("D07", "The output type is the source type with one parameter replaced", "For every implementation, the output type is the same generic type with exactly the mapped parameter replaced by the target type.", [F+"impls_core.rs", F+"impls_alloc.rs", F+"impls_std.rs", D+"derive.rs"], "Output associated types"),
]
for id, t, s, files, m in NA:
    P.append(p(id, t, s, ["programs"], "all derive inputs and type definitions", "Tests sample a fixed list of definitions.", files, [(m, files[0])], ["compiler output"]))
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
