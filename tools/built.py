BUILT["C15"] = ("property-based testing: generated operands against a 128-bit integer oracle",
  "Random and boundary-biased 64-bit operands; not exhaustive over 64 bits. INT64_MIN/-1 and results that do not fit are outside the domain.")
BUILT["C16"] = ("property-based testing: generated operation trees with tracked members, 128-bit membership oracle",
  "Random trees of operations over small, power of two and full-range moduli; not exhaustive.")
BUILT["C09"] = ("property-based testing: generated shapes against an element-by-element reference copy, exact-size heap blocks under ASan/UBSan",
  "Random ranks up to 5, strides (permuted, padded, negative, zero), folds, element sizes; compares every byte of destination, source and padding. Not exhaustive.")
BUILT["C10"] = ("property-based testing: visited pointer tuples against an enumeration of coordinates by an independent address model",
  "1 to 6 buffers, ranks up to 6, folds, partial overlap, broadcasts, overlapping views. The order of visits is not specified.")
BUILT["C11"] = ("property-based testing: 128-bit size oracle, explicit disjointness of all elements, writes to all elements under ASan",
  "Given strides are generated not to overlap each other; extents are representable.")
BUILT["C12"] = ("property-based testing: metamorphic comparison of the joint address relation before and after",
  "1 to 4 buffers, ranks up to 6, optional dim_sets. Stride 0 dimensions of the first buffer are broadcasts.")
BUILT["C13"] = ("stateful property-based testing: operation sequences against a model of views, and of ownership with allocator hooks",
  "Sequences of up to 6 view operations and 14 ownership operations.")
BUILT["C14"] = ("stateful property-based testing of the thread pool under generated schedules (deterministic scheduler with race detection)",
  "Programs of enqueues, waits and atomic calls on 0 to 3 workers; schedules are sampled with a bounded number of preemptions, not enumerated.")
BUILT["C05"] = ("property-based testing: generated expressions (random, and instances of the shapes of the rewrite rules) simplified, and evaluated before and after with exact 128-bit arithmetic",
  "Expressions of up to 14 operators over up to 4 variables, 12 assignments each, with bounds, alignments, conditions, lets and buffer fields. Not exhaustive. Constants near the limits of 64 bits are excluded.")
BUILT["C06"] = ("property-based testing: the values of generated expressions must be in the reported bounds, and proven facts true, under exact 128-bit evaluation",
  "Expressions of up to 10 operators over up to 4 variables, 12 assignments each. Bounds of one operation are checked for operand intervals with up to 2 symbolic endpoints. Not exhaustive.")
BUILT["C01"] = ("stateful property-based testing: generated pipelines (stages, copies, schedules, shapes, layouts) built and run against an element-by-element reference evaluation",
  "Up to 7 stages of rank up to 3, extents up to about 12, serial, parallel and pipelined loops, padded and concatenated copies, in place calls. Not exhaustive. Domain restrictions are listed in DESIGN.md.")
BUILT["C02"] = ("stateful property-based testing: generated pipelines run with required regions inferred exactly, every element a callback reads compared with the reference value, memory checked by ASan",
  "Graphs of up to 7 stages, extents up to about 12; the same domain restrictions as C01. Not exhaustive.")
BUILT["C03"] = ("differential property-based testing: generated pipelines with copies and in place calls, built with and without aliasing, against the reference evaluation",
  "Graphs of up to 7 stages with copies, padded copies, concatenations, stacks and in place calls. Not exhaustive; the same domain restrictions as C01.")
BUILT["C18"] = ("fault injection by property-based testing: one input or output buffer of a run is made wrong (missing, rank, element size, bounds, fold, stride) and the run must fail its checks before any callback",
  "Generated graphs with constraints on the user's buffers; one fault per run. Not exhaustive.")
BUILT["C19"] = ("fault injection by property-based testing: a callback or an allocation of a generated run fails, in serial, parallel and pipelined loops",
  "One or several failing calls per run, at generated positions; the heap is checked for leaks, and the same pipeline must run correctly afterwards. Schedules of threads are those the machine produces.")
BUILT["C20"] = ("metamorphic property-based testing: the same generated graph evaluated with different memory types, stack thresholds, alignments and allocation hooks, against the reference evaluation, with a model of the heap and under ASan",
  "Every allocation made with the hooks is checked for alignment, shape, lifetime and being freed once. Generated graphs of up to 7 stages; not exhaustive.")
BUILT["C22"] = ("property-based testing: membership of points in the results of operations on generated intervals and boxes, with exact 128-bit arithmetic",
  "Constant, symbolic, empty and unbounded intervals; scalars of both signs. Not exhaustive.")
BUILT["C23"] = ("metamorphic property-based testing: the same generated graph built with tracing and without checks, outputs, calls and trace events compared",
  "Generated graphs; the trace events are checked as a history per thread. Not exhaustive.")
BUILT["C24"] = ("model-based property-based testing: histories of evaluations of one pipeline (different shapes, contexts, threads) against a fresh build and the reference evaluation",
  "Up to about 6 evaluations per history; two builds of a graph must print the same program (addresses of constants are not compared).")
BUILT["C26"] = ("round-trip property-based testing: generated expressions are printed and read back by an independent parser, and evaluated",
  "Expressions over all operators; names with numbered suffixes. Statements are not read back.")
BUILT["C04"] = ("property-based testing of generated pipelines under generated thread schedules (deterministic scheduler), every element a callback reads and every output compared with the reference evaluation, allocations under ASan",
  "Chains of up to 6 stages in serial, parallel and pipelined loops, 1 to 3 workers, up to 4 schedules per pipeline with a bounded number of preemptions; interleavings are sequentially consistent. Schedules are sampled, not enumerated.")
BUILT["C07"] = ("property-based testing: generated statements (buffers, views, loops, lets, checks, calls, with and without shadowing) rewritten by passes and sequences of passes, and evaluated before and after; call histories or memory compared",
  "Statements of up to 18 nodes over up to 3 external buffers of rank up to 3. Parallel loops run on one thread, in both orders. Copies and pure dimensions are covered by C01 to C03. Not exhaustive.")
BUILT["C21"] = ("model-based property-based testing: generated expressions and statements evaluated and compared with an independent reference interpreter (values, callback history, shapes, memory, state after scopes end)",
  "Statements of up to 14 nodes over all node types but copies, with shadowing, in place views, folds, async and parallel loops (run on one thread), failing calls and checks. Not exhaustive.")

BUILT["C08"] = ("property-based testing: generated expressions and statements evaluated before and after a substitution, with the symbol bound to the value and, where nothing can be captured, bound to another value; copies of nodes with and without one change compared pairwise and in triples",
  "Expressions of up to 12 nodes with shadowing lets, statements of up to 14 nodes, over all node types but copies. The capture avoidance offered is that of the code: where a declaration would capture a symbol of the replacement, nothing is replaced. Nodes with callbacks are compared by identity. Not exhaustive.")
BUILT["C17"] = ("metamorphic property-based testing: values, contents and metadata of every external symbol of generated expressions, statements and copies perturbed; any change of value, calls, checks or memory must have been reported by the dependency analysis; listings compared with an independent free symbol finder",
  "Statements of up to 14 nodes over all node types, copies under up to 4 declarations. Over-approximation is allowed, lets that rename buffers are only required to report the symbol. Not exhaustive.")
