#!/usr/bin/env python3
"""Writes properties.jsonl (the property texts live here so they can be edited as plain text)."""
import json, os
L, U, S, UC, SC, I, D, P = ("dumpster/src/lib.rs", "dumpster/src/unsync/mod.rs", "dumpster/src/sync/mod.rs",
    "dumpster/src/unsync/collect.rs", "dumpster/src/sync/collect.rs", "dumpster/src/impls.rs",
    "dumpster_derive/src/lib.rs", "dumpster/src/ptr.rs")
props = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Reachable thread-local values are never destroyed",
  "A value owned by the thread-local collector is never dropped, and its memory never released or altered, while the program can still reach it: through a handle it holds, or through a chain of handles stored in other reachable values. This holds across explicit and automatic collections, whatever the shape of the reference graph.",
  ["histories", "inputs"], "every history of creating, cloning, storing, moving, removing and dropping handles and of collections, over every reference graph (cycles, multi-edges, self-edges, diamonds)",
  "the unit tests build about seven fixed graphs and check drop counters; they never vary the graph, the order of drops or which nodes are suspected when a collection starts",
  [U, UC], [("reference graph walk with unaccounted-reference counting", "unsync/collect.rs Dfs, collect_all"), ("mark phase from roots", "unsync/collect.rs Mark"), ("reference count", "unsync/mod.rs GcBox::ref_count")],
  ["value destructors", "allocator", "dereference of every reachable handle"])
p("C02", "A thread-local collection destroys everything unreachable",
  "When an explicit thread-local collection returns, every value of this thread's collector that the program can no longer reach has been dropped, cyclic or not, however it became unreachable. (Excepted are values kept from view by a borrow that is held or was leaked, and values that became garbage only through destructors run by this same collection; a later collection gets those that are visible then.)",
  ["histories", "inputs"], "every history and reference graph, any set of roots dropped in any order, with or without automatic collections in between",
  "tests check seven small garbage graphs; completeness depends on every way a node can lose its last outside reference (drop, overwrite, removal inside another value, destruction of its owner)",
  [U, UC], [("suspects recorded whenever a handle is dropped without freeing", "unsync/mod.rs Drop for Gc, Dumpster::mark_dirty"), ("collect_all", "unsync/collect.rs")],
  ["value destructors", "allocator"])
p("C03", "Reachable shared values are never destroyed, under any schedule",
  "A value owned by the thread-safe collector is never dropped, and its memory never released, while any thread can still reach it through live handles. This holds for every interleaving of collections (explicit or automatic, on any thread) with threads that concurrently create, clone, dereference, move, store, remove and drop handles.",
  ["schedules", "histories"], "every interleaving of mutator operations with the phases of a collection, for every reference graph and any number of threads",
  "the tests are single-threaded apart from two hand-written simulations of a malicious thread; no test runs a real concurrent mutation against a collection",
  [S, SC], [("strong count, generation and per-handle tag checks against the sweep tag", "sync/mod.rs Clone/Deref/Drop for Gc; sync/collect.rs Dfs"), ("weak count keeps boxes alive for suspects", "sync/mod.rs GcBox::weak")],
  ["value destructors", "allocator", "dereference through every held handle"], "schedule points at the collector's own atomic and lock operations (cfg dumpster_vp)",
  [("CURRENT_TAG", "number of the current sweep", "sync/mod.rs"), ("generation", "last sweep in which the allocation was touched", "sync/mod.rs GcBox")])
p("C04", "No shared garbage survives quiescence and a collection",
  "Once the threads that used shared handles have finished, at most two explicit collections on one remaining thread destroy every shared value that is unreachable, and its memory is released. No interleaving of concurrent drops, clones and collections can make an unreachable value leak for good.",
  ["schedules", "histories"], "every interleaving of concurrent drops, clones, mutations, collections and thread exits leading to quiescence",
  "tests drop handles on one thread only; a leak needs two threads to race on the last references, or a drop to race with a sweep",
  [S, SC], [("weak/strong protocol in Drop for Gc", "sync/mod.rs"), ("delivery of thread suspects to the global set", "sync/collect.rs Dumpster::deliver_to, Drop for Dumpster"), ("release of weak references after a sweep", "sync/collect.rs collect_all")],
  ["value destructors", "allocator"], "schedule points (cfg dumpster_vp)")
p("C05", "Each value is dropped once and its memory released once, correctly",
  "Over any history, the destructor of each garbage-collected value runs at most once and its memory is released at most once, after the destructor, with exactly the size and alignment it was allocated with; when a value is destroyed its memory is always released too (unless its destructor panics), and nothing is written to it afterwards. This holds for both collectors and for any value type, including zero-sized, large and over-aligned ones.",
  ["histories", "inputs"], "every history on either collector and every value layout",
  "tests count drops of pointer-sized values; none observes the allocator, so a wrong layout, a missed deallocation or a second one is invisible",
  [U, UC, S, SC], [("dealloc with Layout::for_value of the box", "Drop for Gc, drop_assist, DropAlloc, destroy_erased, drop_weak_zero")],
  ["global allocator", "value destructors"])
p("C06", "Reference counting alone reclaims promptly",
  "When the last handle to a thread-local value is dropped, the value (and everything it alone kept alive through acyclic references) is destroyed before that drop returns, with no collection needed. For a shared value that contains no handles, the value is destroyed by the time every drop of its handles, on any thread, and every collection then in progress, has returned.",
  ["histories", "schedules"], "every acyclic ownership history; for shared values every interleaving of the final drops",
  "tests check the one-thread, two-handle case",
  [U, S], [("last-reference branch of Drop for Gc", "unsync/mod.rs, sync/mod.rs"), ("values without handles are purely reference counted", "lib.rs contains_gcs")],
  ["value destructors immediately after drop returns"], "schedule points (cfg dumpster_vp)")
p("C07", "Handles to collected values are dead, never dangling",
  "During and after a collection, a handle that pointed to a value destroyed by that collection is dead: the fallible accessors return nothing, and the infallible ones (dereference, clone, raw pointer) panic rather than touch freed memory, also when the handle has been moved out by a destructor, and also when it ends up inside a live value that is collected or traversed later. A handle to a value that survives the collection keeps working, inside destructors and after being moved out of one.",
  ["histories", "inputs"], "every graph containing garbage that points at garbage and at survivors, and every use a destructor can make of its handles",
  "tests look at one self-loop and one escaped handle; the mixed case (garbage pointing at survivors) is never exercised",
  [U, UC, S, SC], [("nulling of handles between destroyed values", "unsync/collect.rs DropAlloc, sync/collect.rs PrepareForDestruction"), ("try_deref/try_clone/deref/clone null checks", "unsync/mod.rs, sync/mod.rs")],
  ["results of accessors inside destructors", "escaped handles"])
p("C08", "A live handle always denotes its one value",
  "For a live handle, every accessor (dereference, fallible dereference, as_ref, borrow, raw pointer, pointer formatting) yields the same address for the whole life of the value, clones alias the same value, pointer equality holds exactly between handles to the same value, and value equality compares the values. The contents are changed only by the program: no operation of the collector moves, copies or alters a live value.",
  ["histories", "inputs"], "every history of operations and collections, over all value types",
  "tests compare as_ptr for a handful of handles and never across collections or for many value types",
  [U, S], [("deref/as_ptr/ptr_eq/clone", "unsync/mod.rs, sync/mod.rs")], ["public accessors"])
p("C09", "The collection policy is honoured",
  "The current collection condition is consulted whenever a handle is dropped (outside a running collection), and exactly when it returns true a collection runs: of all the garbage of the calling thread for the thread-local collector, of the garbage already handed over by its threads for the shared one; a condition that always returns false means nothing cyclic is ever collected except by an explicit collect call. Setting a condition takes effect for the next drop: on the calling thread only for the thread-local collector, on all threads for the shared one, and restoring the default restores the default behaviour.",
  ["histories", "configurations"], "every sequence of drops, explicit collections and condition changes, on any number of threads",
  "the doc tests only install conditions; no test checks that one is called, obeyed, or scoped to its thread",
  [U, UC, S, SC], [("notify_dropped_gc evaluates the condition", "unsync/collect.rs, sync/collect.rs"), ("set_collect_condition", "unsync/mod.rs, sync/collect.rs")], ["calls of the condition", "value destructors"])
p("C10", "Handle counters given to conditions are exact",
  "The information handed to a collection condition is exact: the number of existing handles equals the number created and not yet dropped, where handles inside collected values count as gone with them, and the number dropped since the last collection equals the handle drops since then (it is immaterial whether drops performed by that collection's own destructors count). For the shared collector this holds whenever no other operation is in flight; drops during which a destructor panicked are excepted.",
  ["histories", "schedules"], "every history of creation, cloning, dropping and collecting, including many rounds of cyclic garbage; concurrent histories observed at quiescence",
  "no test reads the counters",
  [U, UC, S, SC], [("notify_created_gc/notify_dropped_gc", "unsync/collect.rs, sync/collect.rs")], ["CollectInfo inside a condition"])
p("C11", "The default policy collects automatically",
  "Under the default condition, as soon as more handles have been dropped since the last collection than exist (handles inside uncollected garbage included), a collection runs before that drop returns, so a long-running program that drops more handles than it leaves behind never accumulates cyclic garbage without bound and never needs to call collect. For the shared collector the same holds for garbage once its thread has handed it over, which happens at the latest after about one hundred thousand further drops by that thread or when the thread ends.",
  ["histories"], "every long-running history under the default condition",
  "one sync test drops 200000 handles after a single two-cycle; sustained production of cyclic garbage is never run",
  [U, UC, S, SC], [("default_collect_condition", "unsync/mod.rs, sync/mod.rs"), ("Dumpster::is_full and deliver_to", "sync/collect.rs")], ["live-value count over time"])
p("C12", "Traversal work is amortised constant per handle operation",
  "Under the default condition, the total number of value traversals the collector performs over any history is at most a constant times the number of handle operations performed (excluding explicit collections), and one collection traverses each value a constant number of times.",
  ["histories", "inputs"], "every history and graph shape, including large live heaps with steady churn and dense graphs",
  "tests have no cost oracle",
  [L, U, UC, S, SC], [("visited sets", "unsync/collect.rs Dfs/Mark/DropAlloc; sync/collect.rs ref_graph"), ("default_collect_condition", "unsync/mod.rs, sync/mod.rs")], ["calls of Collectable::accept"])
p("C13", "Borrowed, locked or poisoned contents are tolerated",
  "Dropping handles and collecting while a value's contents are borrowed, locked (by this or another thread) or poisoned never panics, blocks or destroys a reachable value; a value that is inaccessible during a collection is simply kept. Once the borrow or lock is released, such a value that is garbage is destroyed by a later collection after it has been suspected again, or immediately if it was still suspected.",
  ["histories", "fault_sequences", "schedules"], "every choice of which cells/locks are held, by whom and how, when drops and collections run, including guards that are leaked and locks that are poisoned",
  "tests hold one guard over one drop",
  [I, UC, SC, L], [("try_borrow/try_lock in Collectable impls", "impls.rs"), ("inaccessible allocations are treated as reachable", "unsync/collect.rs, sync/collect.rs"), ("contains_gcs(..).unwrap_or(true)", "unsync/mod.rs, sync/mod.rs")], ["panics", "value destructors", "lock operations"])
p("C14", "Destructors may use the collector freely",
  "A destructor run by a collection may create, clone, store and drop handles and request collections: it neither deadlocks nor panics, and every handle and value involved is accounted for afterwards exactly as if it had happened outside (nothing leaks, nothing is freed early). If a destructor panics, the panic reaches the caller and the collector stays usable: live values stay intact, nothing is dropped twice, and later garbage is still collected.",
  ["histories", "fault_sequences"], "every action a destructor can take on handles it owns or finds elsewhere, at every point of a collection, and a panic in any destructor",
  "tests' destructors only count; two examples touch a dead handle",
  [U, UC, S, SC], [("collecting flag", "unsync/collect.rs COLLECTING, sync/collect.rs CLEANING"), ("Drop for Gc", "unsync/mod.rs, sync/mod.rs")], ["destructor actions", "value destructors", "counters"])
p("C15", "Thread exit neither loses garbage nor breaks",
  "When a thread ends, the thread-local garbage it has left is destroyed, and the shared garbage it was responsible for is handed over so that a collection on another thread destroys it. Handles kept in thread-local variables can be dropped during thread teardown, whatever the order in which thread-local variables are destroyed, without panicking or aborting, and what they alone kept alive is destroyed (for shared cycles, by a later collection).",
  ["histories", "schedules"], "every set of pending garbage and thread-local roots at thread exit, every order of thread-local destruction, any number of threads",
  "no test ends a thread with pending garbage or keeps a handle in thread-local storage",
  [U, UC, S, SC], [("Drop for Dumpster", "unsync/collect.rs, sync/collect.rs")], ["value destructors after join", "process exit status"])
p("C16", "Built-in containers report every handle exactly once",
  "For every standard type the crate makes collectable (boxes, cells, locks, options, results, collections, maps, arrays, slices, tuples, cows, functions, scalars), accepting a visitor visits each handle owned by the value exactly once, through any nesting, and reports failure exactly when some part of the value is inaccessible; poisoned locks are accessible.",
  ["inputs", "programs"], "every nesting of the supported types with any number of handles at any position, in any borrow or lock state",
  "tests only use Mutex, RefCell, Vec and Option around handles",
  [I, L], [("Collectable impls", "impls.rs")], ["visitor callbacks"])
p("C17", "Derived implementations report every handle exactly once",
  "The derive macro works for any struct, and any enum with variants, whose fields are collectable (named, tuple and unit shapes, any number of fields, generic, lifetime and const parameters, where clauses). The derived implementation visits each handle in the fields of the current variant exactly once, and fails exactly when some field fails.",
  ["programs", "inputs"], "every type definition accepted by the macro and every value of it",
  "tests derive for seven definitions with at most two fields and no generics, and never check which fields are visited",
  [D], [("delegate_methods, add_trait_bounds", "dumpster_derive/src/lib.rs")], ["visitor callbacks", "value destructors"])
p("C18", "Unsized values are collected like sized ones",
  "With the coercion feature, a handle coerced to an unsized value (a slice, or a cell or lock around one) refers to the same value with the right length, and all guarantees hold for it: handles inside every element are traced, cycles through it are collected, live ones are kept, and the memory is released with the layout it was allocated with.",
  ["inputs", "histories"], "every slice length (including zero) and element type, graphs mixing sized and coerced handles to the same value, both collectors",
  "the only tests coerce one [u8; 3] and read its length",
  [P, U, S, UC, SC], [("Erased/Nullable carry the pointer metadata", "ptr.rs"), ("CoerceUnsized impls", "unsync/mod.rs, sync/mod.rs")], ["value destructors", "allocator"])
p("C19", "No data race or undefined behaviour in any use",
  "Safe programs using either collector, from any number of threads, never cause a data race or other undefined behaviour: conflicting accesses to values, handles, headers and collector state are ordered by happens-before, and no access is made to freed, uninitialised or wrongly typed memory.",
  ["schedules", "histories"], "every execution allowed by the memory model, not only the interleavings of one machine",
  "ordinary test runs cannot see a missing happens-before edge or an invalid pointer that happens to work",
  [P, S, SC, U, UC], [("memory orderings on strong/weak/generation/tag", "sync/mod.rs, sync/collect.rs"), ("type-erased pointers", "ptr.rs")], ["ThreadSanitizer", "Miri"])
p("C20", "Collector operations never deadlock",
  "Creating, cloning, dereferencing and dropping handles and collecting, from any number of threads at once and from inside destructors, always terminate as long as user code does: no interleaving of these operations blocks forever, on itself or on each other.",
  ["schedules", "histories"], "every interleaving of collections, drops that trigger collections, thread exits and destructors on any number of threads",
  "one test drops a handle while holding a value's lock on one thread",
  [S, SC], [("collecting_lock and contents lock", "sync/collect.rs"), ("CLEANING flag", "sync/collect.rs")], ["lock operations", "progress of every thread"], "lock operations routed through cfg dumpster_vp wrappers")
p("C21", "Collectors are independent and can be mixed",
  "Thread-local collectors on different threads never affect each other, and the thread-local and shared collectors never affect each other's values except by ordinary ownership: a shared handle stored in a thread-local value keeps its target alive until that value is destroyed and no longer than a handle held elsewhere would, and a collection of one kind destroys only values of its own kind and what those values owned.",
  ["histories", "schedules"], "every mix of thread-local and shared graphs, with collections of either kind interleaved on any threads",
  "no test uses both collectors or two threads with thread-local handles",
  [L, U, UC, S, SC], [("visit_sync/visit_unsync of the other kind are ignored", "unsync/collect.rs Dfs, Mark, DropAlloc"), ("thread-local collector state", "unsync/collect.rs DUMPSTER")], ["value destructors per thread and kind"])
p("C22", "Collections do not stop other threads",
  "While a shared collection runs on one thread, however long its traversal or the destructors it runs take, other threads can create, clone, dereference, compare, store and drop handles, set the condition, use thread-local collectors, and start and end, without waiting for it. Only explicit shared collections, and drops for which the condition asks for one, wait.",
  ["schedules", "histories"], "every point at which a collection can be held up, and everything other threads can do with handles meanwhile",
  "no test does anything while a collection is under way, let alone one that is held up",
  [S, SC], [("collecting_lock and contents lock", "sync/collect.rs GarbageTruck"), ("tags instead of stopping the world", "sync/mod.rs Clone, Deref, Drop")], ["progress of the other threads while a destructor or traversal of the collection is blocked"])
p("C23", "Repeating a workload does not use ever more memory",
  "After all handles have been dropped and collections have run, the memory in use (values, their headers and the collector's own bookkeeping) does not depend on how often the same workload has been executed before in the process. This holds for both collectors, with workloads on long-lived and short-lived threads, and whatever the condition.",
  ["histories"], "every workload that ends with all handles dropped, repeated any number of times",
  "tests look at destructors, not at memory, and run each workload once",
  [U, UC, S, SC], [("to_collect, ref graphs and visited sets", "unsync/collect.rs, sync/collect.rs"), ("release of memory by the last weak reference", "sync/mod.rs Drop, sync/collect.rs")], ["bytes allocated by the process"])
p("C24", "A traversal that panics does no harm",
  "If a value's own traversal code panics during a drop of a handle or a collection, the panic reaches the caller of that operation, no reachable value is destroyed or becomes unusable, and no destructor runs twice. Both collectors stay usable: garbage among values created afterwards is destroyed by later collections as usual. Values which existed at the time may be kept for good.",
  ["histories", "fault_sequences"], "every traversal that can panic, in every history, and every history that goes on afterwards",
  "no test has a traversal that panics",
  [U, UC, S, SC], [("suspects are taken out before the traversal", "unsync/collect.rs, sync/collect.rs collect_all"), ("flags which say that a collection is under way", "unsync/collect.rs, sync/collect.rs"), ("order of bookkeeping in drop", "unsync/mod.rs Drop, sync/mod.rs Drop")], ["panics, destructor runs and reads of values after a panic in a traversal"])
p("C25", "An explicit shared collection is complete for its caller",
  "When an explicit collection of shared values returns, every unreachable value to which no thread but the calling one ever held a handle has been destroyed, cyclic or not, even if other threads collect or use other values at the same time. (Destructors of such values are assumed not to use the collector.)",
  ["schedules", "histories"], "every interleaving of the call with collections, thread exits and handle operations of other threads",
  "tests collect on one thread at a time",
  [S, SC], [("delivery before and waiting in an explicit collection", "sync/collect.rs collect_all_await"), ("one collection at a time", "sync/collect.rs collect_all")], ["value destructors when the call returns"], "schedule points (cfg dumpster_vp)")
p("C26", "Collection conditions may use the collector",
  "While a collection condition runs, it may create, clone, read and drop handles, ask for collections and set the condition: none of that deadlocks or panics, and it has the same effect as elsewhere, so that nothing leaks and nothing reachable is destroyed. If a condition panics, the panic reaches the caller of the operation that asked it, that operation's handle still counts as dropped, and both collectors stay usable and complete.",
  ["histories", "fault_sequences"], "every act of a condition, or panic in it, at every point of every history at which the collector asks it",
  "tests only have conditions which return a constant or look at the counters",
  [U, UC, S, SC], [("bookkeeping before and after the condition is asked", "unsync/mod.rs Drop, sync/mod.rs Drop, unsync/collect.rs, sync/collect.rs notify_dropped_gc"), ("storage of the condition", "unsync/collect.rs, sync/collect.rs set_collect_condition")], ["panics, destructor runs and reads of values during and after acts of conditions"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in props: f.write(json.dumps(x) + "\n")
