#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so the long text stays editable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe or [],hook_needed=hook)))

p("C01","Garbage collection timing is unobservable",
  "The value or error an operation produces depends only on its arguments and the methods registered in the session: a garbage collection at any allocation or evaluation point inside the operation neither changes that outcome nor crashes the process. This holds for every operation of the package, on success paths, on error paths and around user callbacks.",
  ["schedules","inputs"],"every placement of collections (none, one, several, all; young-generation or full) over the allocation and evaluation points of every operation",
  "The suite runs under R's default collector, which almost never fires inside one small operation; a missing protection only shows when a collection lands between two specific allocations.",
  ["src/*.c","src/rlang/*.c","src/rlang/dyn-array.c","src/poly-op.c","src/order-groups.c","src/order-truelength.h"],
  [("PROTECT/KEEP discipline and shelters carried inside heap-allocated structs","src/poly-op.c, src/order.c, src/dictionary.c, src/lazy.h"),
   ("reprotection of growable buffers","src/growable.c, src/order-truelength.c, src/order-groups.c, src/rlang/dyn-array.c")],
  observe=["return value or condition of each exported function","process survival"],
  hook="none: R API calls made by the package are intercepted at link time (--wrap)")

p("C02","Running out of memory is a clean, repeatable failure",
  "If any single allocation an operation makes fails, the caller gets an ordinary R error (or exactly the value it would have got without the failure), never a wrong value, a crash or a hang. Arguments, options, cached strings and all other session state are as they were before the call, and every later operation, including the same one retried, behaves as if the failed call had never been made.",
  ["fault_sequences","histories","inputs"],"every allocation point of every operation, and every history of operations following one or more such failures",
  "No test makes an allocation fail; the cleanup code that restores shared string marks and half-filled buffers is never executed by the suite.",
  ["src/order.c","src/order-truelength.c","src/bind.c","src/c.c","src/names.c","src/rlang/*.c","R/c.R"],
  [("cleanup callbacks run on non-local exit","src/order.c: chr_order(), chr_appearance(), df_order() via R_ExecWithCleanup()"),
   ("results are built in fresh objects and only published on success","src/slice-assign.c, src/proxy-restore.c, src/type-data-frame.c"),
   ("temporary options restored by on-exit handlers","R/c.R: base_c_invoke()")],
  observe=["the condition raised","identity of arguments before/after","results of later operations","string marks visible to later sorts"],
  state=[dict(name="string marks",meaning="TRUELENGTH of cached strings, used as scratch by sorting",where="src/order.c")])

p("C03","A callback that fails, is interrupted or jumps out leaves no trace",
  "When user code run by an operation (class methods for proxying, restoring, coercing, casting or subsetting, a collation function, a name repair or name spec function) raises an error, is interrupted or exits non-locally, at any of its invocations, exactly that condition or exit reaches the caller. Arguments, session state and previously returned results are unchanged, and later operations behave as if the aborted call had never been made.",
  ["fault_sequences","histories","programs"],"every callback invocation of every operation that runs user code, each kind of exit (error, interrupt, restart or return to an outer frame), and every history that follows",
  "Tests use well-behaved methods, or one that errors on its first and only call; none aborts at the n-th callback and then checks arguments and later operations.",
  ["src/utils-dispatch.c","src/utils.c","src/proxy.c","src/proxy-restore.c","src/cast-dispatch.c","src/ptype2-dispatch.c","src/slice-assign.c","src/slice.c","src/c.c","src/names.c","src/order-collate.c","R/c.R","R/slice.R"],
  [("evaluation of methods from C through masked calls","src/utils.c: vctrs_eval_mask_n(), src/utils-dispatch.c"),
   ("conversion of coercion errors into a flag is limited to the intended error class","src/utils.c: r_try_catch(), src/ptype2.c, src/cast.c")],
  observe=["the condition or exit reaching the caller","arguments and earlier results afterwards","options() and handler state"])

p("C04","Callbacks may re-enter the package freely",
  "While an operation is running user code, that code may call any operations of the package, on the same vectors or strings or on others, to any depth. Each nested call returns what it returns on its own, and the outer operation returns what it returns when the callback makes no nested calls.",
  ["programs","schedules","inputs"],"every callback point, every nested operation and operand (shared with the outer call or not), with and without garbage collections between them",
  "Methods in the suite call at most a fixed helper; no test nests a sort, a match or an assignment inside another operation's callback on shared operands.",
  ["src/order-collate.c","src/order.c","src/utils.c","src/rlang/rlang.c","src/proxy.c","src/altrep-lazy-character.c","src/match.c"],
  [("per-call working memory instead of static scratch buffers","src/order.c: vec_order_info_impl(), src/dictionary.c, src/match.c"),
   ("shared evaluation environments are only used where the call cannot re-enter","src/rlang/eval.c, src/utils.c")],
  observe=["outer and nested return values"])

p("C05","Copy-on-write isolation of everything the caller can see",
  "No operation changes a vector the caller can still reach: its arguments, their columns, elements, attributes and names, other references to them, and results returned earlier all keep their values, while only the returned vector carries the change. This holds for every history of operations, however objects share memory, and also when the operation fails part-way.",
  ["histories","fault_sequences","inputs"],"every history of updating operations (assign, field and name setting, filling, binding, combining, casting, restoring) over a pool of vectors that share columns, elements and attributes, with failures at any point",
  "Each test looks at one result; in-place mutation is decided by reference counts, which depend on who else holds the object, and only shows on an alias no test inspects.",
  ["src/slice-assign.c","src/owned.h","src/proxy-restore.c","src/type-data-frame.c","src/names.c","src/fields.c","src/bind.c","src/c.c","src/fill.c","src/utils.c","src/slice-assign-array.c"],
  [("ownership argument and clone-if-referenced","src/owned.h: vec_owned(), vec_clone_referenced()"),
   ("shared constants marked immutable","src/utils.c, src/unspecified.c")],
  observe=["bitwise identity of every live vector with its snapshot after each operation"])

p("C06","Ordering is exact and stable, whatever happened before",
  "Ordering, sorting, ranking and sorted grouping return exactly the stable permutation (ranks, groups) defined by the values, the direction and missing-value placement of each key and C-locale string order. The answer does not depend on which internal algorithm a size, range or presortedness selects, nor on earlier sorts, including sorts of the same strings that were aborted midway by an error, an interrupt or a failed allocation.",
  ["histories","fault_sequences","inputs","configurations"],"every key type and data frame of keys, every history of completed and aborted sorts over shared strings, every internal threshold setting",
  "Sorting uses process-wide string marks as scratch; tests run each sort in a clean state, on inputs too small to reach most algorithm switches, and never abort one.",
  ["src/order.c","src/order-truelength.c","src/order-groups.c","src/order-sortedness.c","src/order-collate.c","src/rank.c","R/order.R","R/rank.R"],
  [("radix/counting/insertion selection by size and range","src/order.c"),
   ("string marks set and reset around each column","src/order.c, src/order-truelength.c")],
  observe=["results of vec_order_radix, vec_order, vec_sort, vec_rank, vec_locate_sorted_groups"],
  state=[dict(name="string marks",meaning="TRUELENGTH of cached strings",where="src/order-truelength.c")],
  hook="VCTRS_SIM: internal size thresholds become runtime knobs")

p("C07","Hash-based answers depend only on equality and first appearance",
  "Uniqueness, duplicate detection, matching, membership, counting, grouping, run grouping, splitting and set operations return exactly what pairwise equality and order of first appearance define. Hash values, collisions, table layout and the memory addresses of strings and objects never influence a result.",
  ["configurations","schedules","inputs"],"every assignment of hash values to elements (including all-equal), every address layout, every vector type, before and after failed attempts",
  "Strings and objects are hashed by address, so a given collision pattern depends on the memory layout of the run; tests cannot provoke chosen collisions.",
  ["src/dictionary.c","src/hash.c","src/equal.c","src/equal.h","src/poly-op.c","src/group.c","src/set.c","src/split.c","R/dictionary.R","R/group.R","R/set.R"],
  [("open addressing with quadratic probing and an equality test per probe","src/dictionary.c: dict_hash_with()"),
   ("hash consistent with equality","src/hash.c, src/equal.h")],
  observe=["results of vec_unique*, vec_duplicate*, vec_match, vec_in, vec_count, vec_group_*, vec_split, vec_set_*"],
  hook="VCTRS_SIM: final hash mixing goes through a simulator-controlled function")

p("C08","Locating matches returns exactly the relational answer",
  "Locating matches between needles and haystack returns exactly the pairs defined by the requested conditions per column, filters, missing/no-match/remaining handling and multiplicity, in needle order then haystack order, or the documented error when the requested relationship is violated. The answer is the same whatever sorting shortcuts, buffer growth, collections or earlier failed attempts occur.",
  ["inputs","configurations","fault_sequences"],"every combination of per-column conditions, filters, incomplete/no_match/remaining/multiple/relationship settings and inputs, every buffer growth pattern and failure history",
  "The algorithm combines nesting containers, binary search and growing buffers; tests cover chosen small tables, while failures need particular overlaps of containers with filters and buffer growth.",
  ["src/match.c","src/match-joint.c","src/match-compare.h","src/interval.c","R/match.R"],
  [("joint ranks, nesting containers, recursive binary search over columns","src/match.c, src/match-joint.c"),
   ("growable result buffers","src/match.c, src/rlang/dyn-array.c")],
  observe=["result or error class of vec_locate_matches"])

p("C09","Combining, chopping and repeating conserve every element",
  "Combining vectors, unchopping, chopping, splitting by key, interleaving, repeating and grid expansion place every input element exactly once where the definition says and invent, lose or swap none; chopping followed by unchopping restores the vector, with its names and class. This holds for native and custom classes, with or without fallback methods, and an input that cannot be combined yields an error and no partial effect.",
  ["inputs","programs","fault_sequences"],"every mix of types, sizes, names, locations and custom classes, after any failures of methods or allocations in earlier attempts",
  "The output buffer is filled in place under ownership and fallback decisions that depend on class, reference counts and proxies; tests check a handful of shapes without faults.",
  ["src/c.c","src/c-unchop.c","src/slice-chop.c","src/slice-interleave.c","src/rep.c","src/expand.c","src/split.c","src/runs.c","R/c.R","R/slice-chop.R","R/rep.R"],
  [("single typed output filled by location","src/c.c, src/c-unchop.c"),("fallback to base c() for foreign classes","src/c.c, R/c.R")],
  observe=["results of vec_c, list_unchop, vec_chop, vec_split, vec_interleave, vec_rep, vec_rep_each, vec_unrep, vec_expand_grid"])

p("C10","Binding and building data frames is all-or-nothing and exact",
  "Row-binding, column-binding and data frame construction return a data frame whose size, columns, names and row names are exactly those implied by the inputs, with absent cells missing and every present cell equal to its source, whatever mix of data frames, vectors, nulls, packed columns and custom classes is given. An input that cannot be bound, or any failure on the way, gives an error and changes nothing.",
  ["inputs","programs","fault_sequences"],"every list of inputs, id and naming options, and every failure point on the way",
  "Binding fills a shared output row block by row block with ownership shortcuts and recursive proxies; tests sample few shapes and never fail it midway.",
  ["src/bind.c","src/type-data-frame.c","src/proxy-restore.c","src/slice-assign.c","src/size-common.c","R/bind.R","R/type-data-frame.R"],
  [("df_assign into owned output","src/bind.c, src/slice-assign.c"),("recursive proxy and restore","src/proxy.c, src/proxy-restore.c")],
  observe=["results of vec_rbind, vec_cbind, data_frame, df_list, new_data_frame"])

p("C11","A vector behaves as a versioned store under slice and assign",
  "Any history of slicing, assigning, initialising, recycling, resizing and renaming, by position, negative position, logical mask, name or missing location, on any vector type, reads back exactly what the same history on a plain list of elements would. An operation that fails (out-of-bounds location, incompatible type or size, failing method or allocation) leaves every version unchanged and the history continues from there.",
  ["histories","inputs","fault_sequences"],"every finite history of such operations with failures at any point, over all vector types including data frames, nested data frames, records, arrays and custom classes",
  "Tests check single operations; wrong ownership, stale names or a half-applied update only show later in a history on a version that shares storage.",
  ["src/slice.c","src/slice-assign.c","src/slice-array.c","src/slice-assign-array.c","src/subscript-loc.c","src/subscript.c","src/names.c","src/utils.c","R/slice.R"],
  [("location resolution","src/subscript-loc.c"),("compact sequences and repetitions materialised before reaching user code","src/utils.c, src/slice.c")],
  observe=["vec_slice, vec_slice<-, vec_assign, vec_init, vec_recycle, vec_set_names, vec_names"])

p("C12","Names are valid or an error is raised, whatever the naming callback does",
  "Names produced by repair or by a name specification satisfy the requested contract (right length, no missing name and, for unique and universal repair, no empty, reserved or duplicated name), in the documented form, and are accepted unchanged when repaired again; names that are valid and carry no position suffix stay. A user-supplied repair or spec function that fails reports its own failure, and one that returns the wrong type, the wrong length or missing names produces an error, never invalid names, a crash or a changed input.",
  ["fault_sequences","inputs","programs"],"every vector of candidate names and every behaviour of the naming callback, at every invocation",
  "Tests use a few literal name sets and well-behaved functions; they cannot cover every callback misbehaviour at every invocation.",
  ["src/names.c","src/c.c","src/bind.c","R/names.R"],
  [("validation of callback results","src/names.c: vec_as_custom_names(), apply_name_spec()"),("suffix stripping and re-suffixing","src/names.c")],
  observe=["vec_as_names, vec_names2, vec_c/vec_rbind names, name specs"])

p("C13","Dispatch follows the methods registered at the time of the call",
  "At every call, coercion, casting, proxying and restoring use the method registered for the class at that time, in whichever order packages registered, replaced or re-registered methods, including registration deferred until a package loads or reloads. The outcome of a call never depends on which methods were registered when earlier calls were made, and common types do not depend on operand order.",
  ["histories","schedules","programs"],"every interleaving of method registration, replacement, package load, unload and reload with calls that dispatch on the affected classes",
  "Tests register a method and call it once; no test interleaves replacement, deferred registration and calls.",
  ["src/utils-dispatch.c","src/utils.c","src/ptype2-dispatch.c","src/cast-dispatch.c","src/proxy.c","R/register-s3.R","R/type2.R","R/cast.R","R/zzz.R"],
  [("method lookup in the generics' tables at each call","src/utils.c: s3_find_method(), s3_get_method()"),("load hooks","R/register-s3.R: s3_register()")],
  observe=["vec_ptype2, vec_cast, vec_proxy, vec_restore results; s3_register"])

p("C14","Lazy and compact vectors are indistinguishable from plain ones",
  "An operation gives the same result whether a vector argument is plain or one of R's alternative representations (compact sequence, wrapper, deferred string, run-length or lazily computed vector) in any state of materialisation, and never changes the argument's value. A lazily computed vector runs its computation at most once when it succeeds; when it fails the error reaches the caller and a later access starts afresh.",
  ["schedules","fault_sequences","inputs"],"every representation and materialisation state of every argument, every point at which materialisation happens, fails or triggers a collection",
  "When materialisation happens depends on which accessor an operation uses first; tests use plain vectors apart from a few dedicated cases.",
  ["src/altrep-lazy-character.c","src/altrep-rle.c","src/altrep.h","src/slice.c","src/slice-chop.c","src/slice-assign.c","src/names.c","src/utils.c"],
  [("materialise-once with cached data","src/altrep-lazy-character.c, src/altrep-rle.c"),("native subset method of alternative representations","src/slice.c: vec_slice_base()/altrep extract")],
  observe=["results of operations on ALTREP arguments; number of computations run"])

p("C15","String encoding and locale are transparent",
  "Strings that denote the same text are the same element for equality, matching, uniqueness, ordering, grouping and set operations, whatever encodings they are stored in, however they are mixed inside vectors, data frames and lists, and whichever character locale the session switches to between operations. Operations neither alter nor re-mark the caller's strings.",
  ["configurations","histories","inputs"],"every mix of encodings across and within operands, every schedule of locale switches and of failures during conversion",
  "Results depend on which operand is converted first and on session locale; tests fix the locale and mix encodings in a few pairs.",
  ["src/translate.c","src/translate.h","src/hash.c","src/equal.c","src/order.c","src/match-joint.c","src/dictionary.c","src/set.c"],
  [("normalisation to UTF-8 on proxies before comparing","src/translate.c: obj_encode_utf8()")],
  observe=["vec_equal, vec_match, vec_unique, vec_order_radix, vec_group_id, vec_set_*, vec_locate_matches"])

p("C16","Lossy conversions happen only when a handler allows them",
  "A conversion that would lose information yields a value only if a handler on the stack permits it for that very conversion; otherwise it raises the classed lossy-cast error describing the failing locations. The decision is honoured at each conversion separately, whatever sequence of permits, refusals, errors and jumps the handlers make, and permissions end with their scope.",
  ["programs","histories","fault_sequences"],"every schedule of handler decisions (permit, refuse, error, jump) over the conversions of an operation, nested scopes, and what runs afterwards",
  "Tests check one conversion under one always-allow or no handler; they do not mix decisions inside one operation or check that permissions end.",
  ["R/conditions.R","R/cast.R","src/cast.c","src/cast-bare.c","src/cast-dispatch.c","R/type-bare.R","R/type-date-time.R","src/type-factor.c"],
  [("restart established around each lossy error","R/conditions.R: maybe_lossy_cast()"),("selective handler","R/conditions.R: allow_lossy_cast()")],
  observe=["vec_cast, vec_c, vec_cast_common under handlers"])

p("C17","Date-times denote instants under any session time zone history",
  "Slicing, combining, casting between date-time classes, matching, ordering and grouping date-times with an explicit zone give the same instants whatever the session time zone is and however it changes between operations; values without an explicit zone are interpreted in the zone in force at the call. No operation changes the session's time zone.",
  ["histories","configurations","inputs"],"every schedule of session time-zone switches between operations on date-times of every class, around gaps and overlaps of local time",
  "The suite fixes the zone to UTC, where local and universal time coincide.",
  ["src/type-date-time.c","R/type-date-time.R","src/cast-bare.c","src/ptype2.c"],
  [("instants stored as seconds, broken-down time converted through proxies","src/type-date-time.c, R/type-date-time.R")],
  observe=["vec_c, vec_cast, vec_slice, vec_match, vec_unique, vec_order on Date/POSIXct/POSIXlt"])

p("C18","Repeated use, success or failure, accumulates nothing",
  "Once its result is dropped, an operation retains no memory: any number of repetitions of any operation, whether they succeed, fail or are aborted by callbacks or failed allocations, leaves the number of live objects and the protection stack where they were. Options, environment variables, registered methods, random seed, locale and working directory are never changed.",
  ["histories","fault_sequences"],"every operation repeated any number of times, with and without faults at every point",
  "Tests never measure live objects across repetitions, and aborted operations are not exercised.",
  ["src/utils.c","src/rlang/obj.c","src/order.c","src/globals.c","R/c.R","src/arg.c","src/lazy.h"],
  [("scoped protection and collectable working memory","src/*.c"),("options restored on exit","R/c.R")],
  observe=["live cell counts after full collection, protection stack depth, session state"])

p("C19","Interval operations return exactly the covering structure",
  "Grouping, locating groups of, complementing and finding containers of intervals return exactly what the set of points each interval covers defines, for any endpoint type, missing policy and abutting rule. The result does not depend on input order effects, buffer growth, collections or earlier failed attempts.",
  ["inputs","configurations","fault_sequences"],"every set of intervals and options, every buffer growth pattern and failure history",
  "Tests use a handful of small interval sets that never grow a buffer.",
  ["src/interval.c","R/interval.R","src/order.c"],
  [("sweep over sorted endpoints with growable outputs","src/interval.c, src/rlang/dyn-array.c")],
  observe=["vec_interval_groups, vec_interval_locate_groups, vec_interval_complement, vec_interval_locate_containers"],
  hook="VCTRS_SIM: initial buffer capacities become runtime knobs")

p("C20","The common type is a lattice join",
  "The common type of native types is commutative, associative up to the documented exceptions, idempotent, has the unspecified type as identity, and every input can be cast to it.",
  ["inputs"],"all pairs and triples of prototypes","Tests sample pairs of types.",
  ["src/ptype2.c","src/typeof2.c","src/typeof2-s3.c","src/ptype2-dispatch.c","R/type2.R"],[("type matrix","src/typeof2.c")])
p("C21","Casts preserve values",
  "A cast that succeeds without a lossy condition preserves every element's value, so casting back gives the original vector.",
  ["inputs"],"all values and pairs of native types","Tests sample values.",
  ["src/cast.c","src/cast-bare.c","src/type-factor.c"],[("lossiness test per element","src/cast-bare.c")])
p("C22","Element-wise scans agree with their definitions",
  "Equality, comparison, missingness, completeness, run identification and missing-value filling agree, element by element, with their documented definitions for every type.",
  ["inputs"],"all vectors and pairs of vectors","Tests sample small vectors.",
  ["src/equal.c","src/compare.c","src/missing.c","src/complete.c","src/runs.c","src/fill.c"],[("column-wise scans with row tracking","src/equal.c, src/compare.c, src/runs.c")])
p("C23","Arithmetic on vector classes follows the double-dispatch contract",
  "Arithmetic and math on vctrs classes return the type fixed by the pair of classes and element-wise values, with sizes recycled by tidyverse rules, or an incompatible-operation error.",
  ["inputs"],"all pairs of classes, operators and values","Tests sample operators and classes.",
  ["R/arith.R","R/numeric.R","R/type-vctr.R"],[("double dispatch","R/arith.R")])
p("C24","Sizes obey the recycling rules",
  "The size of a result is determined by input sizes alone through the recycling rules; incompatible sizes always raise an incompatible-size error naming the offending inputs.",
  ["inputs"],"all lists of input sizes and shapes","Tests sample sizes.",
  ["src/size.c","src/size-common.c","src/shape.c","R/recycle.R"],[("common size reduction","src/size-common.c")])
p("C25","Printing and formatting are total",
  "Formatting, printing and structure display of any vector succeed, one formatted element per element, and never alter the vector.",
  ["inputs"],"all vectors","Tests snapshot chosen vectors.",
  ["R/print-str.R","R/ptype-abbr-full.R","R/type-vctr.R"],[("format methods","R/type-vctr.R")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
