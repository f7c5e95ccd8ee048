#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list lives here so it can be edited in one readable place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "A pipeline computes the same output under every schedule",
 "For every graph of funcs (elementwise, stencil, resampling, reduction, copy, pad, concatenate, stack, transpose, broadcast, multi-output, in-place) and every valid schedule (loops, split factors, serial/limited/parallel workers, compute_at, store_at, storage type), evaluating the built pipeline on buffers that satisfy its checks returns 0 and writes to every element of every output exactly the value a naive unscheduled evaluation of the graph gives. Nothing outside the passed output buffers' elements is modified, and inputs are never modified.",
 ["programs", "configurations", "inputs"],
 "all func graphs x all schedules x all buffer shapes/strides/offsets",
 "Tests pin about a hundred hand-written graph/schedule pairs with fixed sizes; the builder's sliding, folding, aliasing and simplification decisions depend on the combination of graph, schedule and symbolic bounds.",
 ["slinky/builder/pipeline.cc", "slinky/builder/slide_and_fold_storage.cc", "slinky/builder/optimizations.cc", "slinky/builder/simplify.cc", "slinky/runtime/evaluate.cc"],
 [("build_pipeline pass sequence", "slinky/builder/pipeline.cc:build_pipeline"), ("sliding window and storage folding", "slinky/builder/slide_and_fold_storage.cc"), ("allocation layout and crops for loops", "slinky/builder/pipeline.cc:pipeline_builder"), ("statement evaluation", "slinky/runtime/evaluate.cc")],
 ["output buffer contents, guard bytes around them, input buffer contents, return value of pipeline::evaluate"])

prop("C02", "Callbacks only see in-bounds, fully produced data covering what they asked for",
 "Whenever a func's callback runs, the output buffers it receives lie inside the requested output, and each input buffer it receives contains the whole region declared by that input's bounds for that output, is backed by live memory at every element of it, and every element of it already holds its final produced value. Across the run the callbacks' output regions cover everything that is required.",
 ["programs", "configurations", "inputs"],
 "every callback invocation of every scheduled pipeline",
 "A callback that receives stale, recycled, or out-of-bounds data only shows as a wrong output if the tested combination happens to consume it; tests assert final outputs on fixed graphs.",
 ["slinky/builder/pipeline.cc", "slinky/builder/slide_and_fold_storage.cc", "slinky/builder/optimizations.cc", "slinky/runtime/evaluate.cc"],
 [("bounds inference", "slinky/builder/pipeline.cc:compute_input_bounds"), ("sliding window warm-up", "slinky/builder/slide_and_fold_storage.cc"), ("crop/allocate evaluation", "slinky/runtime/evaluate.cc")],
 ["arguments of every callback (bounds, strides, folds, contents)"])

prop("C03", "Buffer aliasing is unobservable",
 "Building with aliasing enabled (copies elided into views, in-place calls, fused padding) gives exactly the results of building the same graph with aliasing disabled, never modifies an input or constant, never lets two simultaneously live values share memory in conflict, and respects the storage constraints (strides, fold factors, bounds) declared on buffers.",
 ["programs", "configurations", "inputs"],
 "graphs dominated by copies, pads, transposes, concats, stacks and in-place calls, with random storage constraints",
 "Aliasing legality depends on lifetimes, overlaps and offsets of particular graphs; tests check a few dozen fixed copy chains.",
 ["slinky/builder/optimizations.cc", "slinky/builder/pipeline.cc"],
 [("alias_copies", "slinky/builder/optimizations.cc:alias_copies"), ("alias_in_place", "slinky/builder/optimizations.cc:alias_in_place"), ("build_options::no_alias_buffers", "slinky/builder/pipeline.h")],
 ["outputs with aliasing on/off, inputs, buffers passed to callbacks"])

prop("C04", "Parallel execution equals serial execution under every thread schedule",
 "For every pipeline with parallel or worker-limited loops or asynchronous tasks, and for every interleaving a thread pool may choose (including one that runs work late, eagerly, nested or on one thread), evaluation terminates, returns the same status and produces the same outputs as the serial pipeline. Iterations of a worker-limited pipelined loop never overwrite storage that another iteration still needs, and concurrent tasks never touch each other's state.",
 ["schedules", "programs", "configurations"],
 "all interleavings of loop iterations and tasks the thread_pool interface permits",
 "Tests run on the real pool, observing whichever interleaving the OS picks; ordering bugs and deadlocks need specific interleavings.",
 ["slinky/runtime/evaluate.cc", "slinky/builder/slide_and_fold_storage.cc", "slinky/builder/optimizations.cc", "slinky/base/thread_pool_impl.cc"],
 [("semaphore insertion for pipelined loops", "slinky/builder/slide_and_fold_storage.cc"), ("parallel loop evaluation", "slinky/runtime/evaluate.cc"), ("closures for parallel bodies", "slinky/builder/optimizations.cc:optimize_symbols"), ("async evaluation", "slinky/runtime/evaluate.cc")],
 ["outputs, return value and termination under harness-owned schedulers; data races under TSan"])

prop("C05", "Simplifying an expression never changes its value",
 "For every expression and every assignment of values to its variables (consistent with any variable bounds and alignments supplied), the simplified expression evaluates to the same value as the original. Simplification terminates and gives a result that does not use variables the original did not use.",
 ["inputs", "programs"],
 "all expressions over all operators and intrinsics, all variable values in the supplied bounds/alignment",
 "There are ~600 rewrite rules whose side conditions interact; the test fuzzer in-tree samples few seeds without bounds or alignment context.",
 ["slinky/builder/simplify.cc", "slinky/builder/simplify_exprs.cc", "slinky/builder/simplify_rules.h", "slinky/builder/rewrite.h"],
 [("rewrite rules", "slinky/builder/simplify_rules.h"), ("expression simplifier", "slinky/builder/simplify.cc"), ("pattern matcher", "slinky/builder/rewrite.h")],
 ["evaluate(e) vs evaluate(simplify(e))"])

prop("C06", "Computed bounds always contain the value, and proofs are always true",
 "For every expression and every assignment of its variables within supplied bounds and alignments, the value lies within the interval reported by bounds analysis; constant lower and upper bounds are true bounds; and whenever a condition is reported proven true (or false), it is true (false) for every such assignment.",
 ["inputs", "programs"],
 "all expressions and conditions, all assignments within the supplied intervals and alignments",
 "Tests assert specific bounds for specific expressions; soundness quantifies over all operator nestings and sign combinations.",
 ["slinky/builder/simplify.cc", "slinky/builder/simplify_bounds.cc", "slinky/builder/simplify.h"],
 [("bounds_of", "slinky/builder/simplify_bounds.cc"), ("constant bounds and proofs", "slinky/builder/simplify.cc:attempt_to_prove")],
 ["bounds_of / constant_*_bound / attempt_to_prove results vs enumeration"])

prop("C07", "Every statement rewrite preserves the program's observable behaviour",
 "For every well-formed statement (buffer allocations, views, crops, slices, transposes, loops, lets, checks, calls), each rewriting pass for statements (simplify, deshadow, symbol optimization, node canonicalization, sibling fusion, early free, semaphore cleanup), and any sequence of them the builder applies, yields a statement which succeeds or fails as the original does and leaves the same contents in the user's buffers; all but simplify also make the same calls, in the same order, on buffers of the same shapes and contents, with the same scalars.",
 ["programs", "inputs"],
 "all statement trees, all buffer shapes and symbol values",
 "Tests compare a few hand-written statements against expected text; behaviour preservation quantifies over all nestings of buffer mutators.",
 ["slinky/builder/simplify.cc", "slinky/builder/optimizations.cc", "slinky/builder/substitute.cc", "slinky/builder/node_mutator.cc"],
 [("stmt simplifier", "slinky/builder/simplify.cc"), ("passes", "slinky/builder/optimizations.cc")],
 ["trace of callback invocations with the buffer elements they see; memory"])

prop("C08", "Substitution is capture-avoiding and node comparison is a total order",
 "Substituting a value for a symbol gives an expression or statement that evaluates as the original does with the symbol bound to that value, never capturing or replacing shadowed symbols (uses of the symbol where a declaration would capture the replacement are left alone). Structural comparison is a total order that is reflexive, antisymmetric and transitive, agrees with matching, and two nodes that match always behave identically.",
 ["programs", "inputs"],
 "all expressions/statements with nested, shadowing declarations; all symbol/replacement choices",
 "Tests cover a dozen hand-written substitutions; capture bugs need specific nesting of declarations.",
 ["slinky/builder/substitute.cc", "slinky/builder/substitute.h"],
 [("substitutor", "slinky/builder/substitute.cc"), ("compare/match", "slinky/builder/substitute.cc")],
 ["evaluate(substitute(e,x,v)) vs evaluate(e) with x=v; sign of compare"])

prop("C09", "Copy and pad write exactly the right elements with the right values",
 "Copying writes to every destination element the source element at the same coordinates if it is in bounds of the source, else the padding element at those coordinates if padding is given (without padding every destination element must be in bounds of the source); padding writes only elements outside the given bounds. No byte outside the destination's elements changes, for any rank, strides (including zero, negative and folded), extents, element size and overlap of the bounds.",
 ["inputs"],
 "all source/destination/padding shapes, strides, folds, ranks, element sizes",
 "The contiguous, repeated, interleaved and empty-overlap fast paths are selected by stride/extent coincidences that fixed tests do not enumerate.",
 ["slinky/runtime/buffer.cc", "slinky/runtime/buffer.h"],
 [("copy/pad", "slinky/runtime/buffer.cc"), ("optimize dims before copying", "slinky/runtime/buffer.h")],
 ["destination memory, guard bytes"])

prop("C10", "Element iteration visits each coordinate once with the right addresses",
 "Iterating elements or contiguous slices over one or more buffers of any rank, stride and fold visits each coordinate of the first buffer exactly once, giving for each buffer the address of that coordinate, or null where that buffer does not contain it. Contiguous slices are truly contiguous in every buffer and their lengths add up to the number of elements.",
 ["inputs"],
 "all sets of buffers: ranks, extents, strides, folds, partial overlaps",
 "The iteration planner fuses and specialises loops based on coincidences of shape; tests cover fixed families.",
 ["slinky/runtime/buffer.h", "slinky/runtime/buffer.cc"],
 [("for_each loop planning", "slinky/runtime/buffer.cc"), ("for_each_element / for_each_contiguous_slice", "slinky/runtime/buffer.h")],
 ["sequence of pointers passed to the callback"])

prop("C11", "Automatic strides and allocation give disjoint elements inside aligned memory",
 "For any dimensions (some with strides or folds given, some not), automatic stride assignment keeps the given strides and makes distinct (folded) coordinates occupy non-overlapping bytes, and the reported size and allocation cover exactly all addresses of in-bounds elements with the base at the requested alignment. Shapes whose size cannot be represented are reported invalid instead of wrapping.",
 ["inputs"],
 "all dims with known/unknown strides, folds, broadcasts, empty and huge extents, element sizes and alignments",
 "Tests enumerate a few stride permutations; overlap depends on interactions of constrained and automatic strides, folds and extents.",
 ["slinky/runtime/buffer.cc", "slinky/runtime/buffer.h"],
 [("init_strides", "slinky/runtime/buffer.cc"), ("size_bytes / allocate / validate_buffer", "slinky/runtime/buffer.cc")],
 ["strides, size, addresses of elements"])

prop("C12", "Sorting, fusing and optimizing dimensions preserve what buffers address",
 "Fusing contiguous dimensions, reordering dimensions, and optimizing dimensions jointly over several buffers yields buffers that enumerate exactly the same joint set of addresses with the same correspondence between the buffers. Fusion happens only when every buffer permits it.",
 ["inputs"],
 "all sets of buffers with any strides, folds, mins and extents",
 "Legality of fusing depends on min/extent/stride/fold coincidences across several buffers.",
 ["slinky/runtime/buffer.h", "slinky/runtime/buffer.cc"],
 [("can_fuse / fuse / fuse_contiguous_dims / optimize_dims / sort_dims", "slinky/runtime/buffer.h")],
 ["joint multiset of addresses before and after"])

prop("C13", "Buffer views keep addressing the same elements",
 "Cropping, slicing, unslicing and translating a buffer, in any sequence, changes only the set of addressable coordinates and their naming: every coordinate of the view addresses the same memory as the corresponding coordinate of the original, nothing outside the original bounds becomes addressable, and an element is reported contained exactly when it is in bounds. Copying and moving buffer objects preserves shape and data, and owned memory is freed exactly once.",
 ["histories", "inputs"],
 "all sequences of view operations on all buffers, including folded and broadcast dimensions",
 "Tests apply single operations to single shapes; folded and out of range cases depend on combinations.",
 ["slinky/runtime/buffer.h", "slinky/runtime/buffer.cc"],
 [("crop/slice/unslice/translate", "slinky/runtime/buffer.h"), ("dim::flat_offset_bytes with folds", "slinky/runtime/buffer.h")],
 ["addresses of coordinates before and after"])

prop("C14", "The thread pool runs every work item exactly once and never loses a wakeup",
 "For any history of enqueues (any item count, worker limit, nesting) and waits from any number of threads, every work item runs exactly once, never on more threads at once than the worker limit, waiting for a task returns only after all its items finished, waiting for a condition returns only when it held, atomic calls exclude each other, and everything terminates for any thread count including zero.",
 ["schedules", "histories"],
 "all histories of enqueue/wait/atomic operations and all interleavings",
 "Tests run a few fixed patterns and observe a handful of interleavings.",
 ["slinky/base/thread_pool_impl.cc", "slinky/base/thread_pool_impl.h", "slinky/base/thread_pool.cc", "slinky/base/atomic_wait.h"],
 [("task queue and work-item claiming", "slinky/base/thread_pool_impl.cc"), ("atomic waits", "slinky/base/atomic_wait.h")],
 ["per-item run counts, concurrent worker counts, values at return of waits; TSan"])

prop("C15", "Integer arithmetic primitives are exact, and saturate instead of overflowing",
 "Euclidean division and modulus satisfy a = b*q + r with 0 <= r < |b| (and give 0 for a zero divisor), floor and ceiling division, alignment, gcd and lcm equal their mathematical definitions, saturating operations equal the exact result clamped to the representable range, and the bounds of staircase sums contain every attained value.",
 ["inputs"],
 "all 64-bit operand combinations including extremes",
 "Tests enumerate small ranges; extremes and sign combinations are unbounded.",
 ["slinky/base/arithmetic.h", "slinky/base/arithmetic.cc", "slinky/base/util.h"],
 [("euclidean_div/mod, saturate_*, staircase_sum_bounds, gcd/lcm", "slinky/base/arithmetic.h")],
 ["return values vs 128-bit reference"])

prop("C16", "Alignment (modulus/remainder) analysis always contains the true value",
 "For every pair of value sets described by a modulus and remainder, every operation on the descriptions (add, subtract, multiply, divide, modulus, union, intersection) yields a description containing the result of applying the operation to any members. Alignment facts used while simplifying are therefore always true of the runtime value.",
 ["inputs"],
 "all modulus/remainder pairs and all members",
 "Tests check a few combinations; soundness quantifies over all moduli, signs and members.",
 ["slinky/base/modulus_remainder.h"],
 [("modulus_remainder operators", "slinky/base/modulus_remainder.h")],
 ["membership of concrete results"])

prop("C17", "Dependency analysis never misses a dependency",
 "If changing the value of a symbol, or the contents or metadata of a buffer, can change what an expression or statement evaluates to or does, the dependency analysis reports that dependency with the right kind; dependency listings contain every free symbol; expressions classified as pure give the same value whenever their variables do, and those without side effects cause none.",
 ["programs", "inputs"],
 "all expressions/statements with shadowing declarations and aliases (views) of buffers",
 "Tests list expected dependencies for a few hand-written statements; misses need specific combinations of views, shadowing and nesting.",
 ["slinky/runtime/depends_on.cc", "slinky/runtime/depends_on.h"],
 [("dependency visitor", "slinky/runtime/depends_on.cc")],
 ["reported dependencies vs behavioural perturbation"])

prop("C18", "Built-in checks accept exactly the buffers the pipeline can run on",
 "Evaluating a pipeline (with checks enabled) on buffers that are null, of the wrong rank or element size, too small for what the requested outputs need, too big for their memory to be addressed, or violating declared constraints on bounds, strides or folds returns an error through the check handler before any callback runs and without writing anything; buffers meeting all requirements are accepted.",
 ["inputs", "programs", "configurations"],
 "all pipelines x all valid and single-fault-perturbed buffer sets",
 "Tests perturb one or two pipelines by hand.",
 ["slinky/builder/pipeline.cc", "slinky/runtime/evaluate.cc", "slinky/runtime/pipeline.cc"],
 [("add_input_checks / buffer checks / constraint checks", "slinky/builder/pipeline.cc"), ("check evaluation", "slinky/runtime/evaluate.cc")],
 ["return value, check_failed calls, callback counter, output memory"])

prop("C19", "Any failure is reported, stops the work, and leaves no damage",
 "If any callback fails, any check fails or any allocation fails at any point of a run (serial, parallel or asynchronous), the evaluation terminates and returns a nonzero status, the matching failure handler is called, every allocation already made is freed exactly once, and the same pipeline and context then run correctly on the next evaluation.",
 ["fault_sequences", "programs", "schedules"],
 "all single and multiple fault points in all pipelines and schedules",
 "Tests inject one failure in one or two pipelines; the fault point space is every call, check and allocation in every schedule.",
 ["slinky/runtime/evaluate.cc", "slinky/base/thread_pool_impl.cc"],
 [("error propagation in loops, blocks, async", "slinky/runtime/evaluate.cc")],
 ["return value, handler calls, allocation ledger, later re-run"])

prop("C20", "Every internal allocation is valid, live for all its uses and freed exactly once",
 "In every run of every pipeline each internally allocated buffer is passed to the allocator with a shape covering all accesses to it, is freed exactly once with the pointer the allocator returned and after its last use, and no run leaks; choosing stack, heap or automatic storage (with any threshold), alignment settings or early freeing never changes results.",
 ["programs", "configurations", "histories"],
 "all pipelines x storage types x allocator configurations",
 "Tests compare allocation sizes on fixed pipelines; lifetime errors depend on the nesting of allocation, aliasing and early frees.",
 ["slinky/runtime/evaluate.cc", "slinky/builder/optimizations.cc", "slinky/builder/pipeline.cc"],
 [("allocate evaluation", "slinky/runtime/evaluate.cc"), ("insert_early_free", "slinky/builder/optimizations.cc"), ("lay_out_allocations", "slinky/builder/pipeline.cc")],
 ["ledger of allocate/free hook calls, ASan on freed memory, outputs"])

prop("C21", "The evaluator implements the documented semantics of every node",
 "Evaluating any well-formed expression or statement gives exactly the value, callback sequence, buffer shapes and memory effects the node documentation describes (euclidean division, short-circuit logic, scoped lets, clamped crops, slices, transposes, clones, made and allocated buffers, loops with step), and afterwards every symbol and buffer visible outside a scope has the value and shape it had before.",
 ["programs", "inputs"],
 "all expressions/statements over all nodes; all symbol values and buffer shapes",
 "Tests evaluate one node at a time; in-place mutation and restoration of shared buffer objects matter only in nested combinations.",
 ["slinky/runtime/evaluate.cc", "slinky/runtime/stmt.h", "slinky/runtime/expr.h"],
 [("evaluator", "slinky/runtime/evaluate.cc")],
 ["values and buffer snapshots seen by callbacks vs an independent reference interpreter"])

prop("C22", "Interval and box algebra is sound",
 "For every pair of intervals (possibly empty or unbounded) the union contains both, the intersection is exactly the common points, adding, subtracting, multiplying or dividing by scalars contains every pointwise result and attains its bounds, as do clamping, selecting and aligning, and boxes of different rank combine per dimension.",
 ["inputs", "programs"],
 "all intervals/boxes with symbolic or constant ends, including unbounded",
 "Tests check a few constants.",
 ["slinky/runtime/expr_stmt.cc", "slinky/runtime/expr.h"],
 [("interval_expr/box_expr operators", "slinky/runtime/expr_stmt.cc")],
 ["membership of points"])

prop("C23", "Tracing and disabling checks never change what a pipeline computes",
 "Building the same graph with tracing enabled or checks disabled computes identical outputs with the same callback work; with tracing, every begin event has exactly one matching end, properly nested per thread; without checks, no check is ever evaluated.",
 ["configurations", "programs"],
 "all pipelines x build options",
 "Tests enable these options on a few pipelines and do not look at event structure.",
 ["slinky/builder/optimizations.cc", "slinky/builder/pipeline.cc", "slinky/base/chrome_trace.cc", "slinky/runtime/evaluate.cc"],
 [("inject_traces", "slinky/builder/pipeline.cc"), ("no_checks removal", "slinky/builder/pipeline.cc")],
 ["outputs, sequence of trace events, check_failed calls"])

prop("C24", "A pipeline is a reusable, deterministic value",
 "A built pipeline can be evaluated any number of times, on buffers of any satisfying shapes, in any order, with the same or different contexts and concurrently from several threads, each evaluation giving the result a fresh build would give; building the same graph twice yields the same program.",
 ["histories", "configurations", "schedules"],
 "all histories of evaluations of one built pipeline",
 "Tests evaluate each pipeline once or twice with one shape.",
 ["slinky/runtime/pipeline.cc", "slinky/runtime/evaluate.cc", "slinky/builder/pipeline.cc"],
 [("pipeline::setup / evaluate", "slinky/runtime/pipeline.cc"), ("constant buffers shared across runs", "slinky/runtime/evaluate.cc")],
 ["outputs over histories of evaluations"])

prop("C25", "Sliding windows do not recompute or over-allocate",
 "When a producer is stored outside a serial loop of its consumer and computed inside it, each element of the producer required by the output is computed exactly once over the loop, and the storage allocated for it spans no more of the loop dimension than one iteration's requirement plus the loop step needs.",
 ["programs", "configurations", "inputs"],
 "all chains of stencil/elementwise funcs with serial loops and outer storage",
 "Tests assert this for about ten fixed stencils and split factors.",
 ["slinky/builder/slide_and_fold_storage.cc"],
 [("sliding window", "slinky/builder/slide_and_fold_storage.cc"), ("fold factors", "slinky/builder/slide_and_fold_storage.cc")],
 ["elements computed per producer; allocation sizes"])

prop("C26", "Printed and generated text means what the program means",
 "Printing any expression gives text which, read with the documented operator syntax, denotes an expression of the same value; and distinct symbols print as distinct names.",
 ["programs"],
 "all expressions and symbol names",
 "Tests compare a few strings against golden files.",
 ["slinky/runtime/print.cc", "slinky/runtime/expr.h"],
 [("expression printer", "slinky/runtime/print.cc"), ("node_context::insert_unique", "slinky/runtime/expr_stmt.cc")],
 ["text parsed back by an independent parser"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
