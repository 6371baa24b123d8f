import json
P=[]
I="include/parlay/"
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[I+f for f in files],mechanism=[dict(name=a,where=I+b) for a,b in mech],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=I+c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)

p("C01","Fork-join: branches run exactly once before the join returns, effects visible",
 "par_do (and parallel_do, par_do_if, par_do3, par_do3_if), however nested and for any number of workers, runs each of its branches exactly once. It returns only after every branch and everything forked inside it has finished, and every memory effect of a branch is visible to the code after the join without further synchronisation.",
 ["schedules","programs","configurations"],"all interleavings (including weak-memory outcomes allowed by the language) of all fork-join programs on any number of workers, conservative or not (nesting below the documented deque capacity of 1000 pending forks per worker)",
 "The tests run a few fork-join programs under whatever schedule the OS picks; steal/pop races and missing release/acquire edges need specific interleavings.",
 ["scheduler.h","parallel.h","internal/work_stealing_deque.h","internal/work_stealing_job.h"],
 [("work-stealing deque push/pop/steal","internal/work_stealing_deque.h"),("fork_join_scheduler::pardo","scheduler.h"),("job done flag","internal/work_stealing_job.h")],
 [("age/bot","ABP deque indices and ABA tag","internal/work_stealing_deque.h"),("done","branch completed flag","internal/work_stealing_job.h")],["par_do return","branch start/end"])
p("C02","Parallel loops run every index exactly once",
 "parallel_for(start,end,f,granularity,conservative) calls f exactly once for every index in [start,end) and for no other index, for any granularity and worker count, and returns only after all calls finished with their effects visible. blocked_for calls f exactly once per block, with consecutively numbered disjoint blocks of the requested size that cover [start,end) in order; an empty or reversed range calls nothing.",
 ["schedules","inputs","configurations"],"all ranges, granularities, block sizes, worker counts, body costs (which steer the automatic granularity) and schedules",
 "The tests run a few fixed ranges; index loss or duplication depends on range/granularity/timing combinations and on the schedule.",
 ["parallel.h","scheduler.h"],[("parfor_ recursive splitting","scheduler.h"),("get_granularity prefix","scheduler.h"),("blocked_for block arithmetic","parallel.h")],None,["loop body calls"])
p("C03","The scheduler always makes progress, wakes sleepers, and shuts down",
 "Every fork-join computation whose branches terminate terminates, on every fair schedule: work that has been forked is eventually run although workers go to sleep when idle, and a blocked waiter on an atomic value is woken by a notification that follows a change of that value. Creating, using and destroying a private scheduler (execute_with_scheduler), also nested or concurrently from several threads, always returns with all its threads gone.",
 ["schedules","configurations","histories"],"all fair schedules of fork-join programs, idle periods, wake-ups and shutdowns, with spurious wake-ups, for any worker count",
 "Lost wake-ups and shutdown hangs need a notification to fall into a window of a few instructions; the tests never force one.",
 ["scheduler.h","internal/atomic_wait.h","parallel.h"],[("wait_for_work / wake_up_a_worker","scheduler.h"),("shutdown","scheduler.h"),("atomic_wait / atomic_notify","internal/atomic_wait.h")],
 [("num_awake_workers, wake_up_counter","sleep/wake protocol","scheduler.h")])
p("C04","Worker ids are unique, in range and scoped to the right scheduler",
 "Inside a computation worker_id() is always in [0,num_workers()), two threads of one scheduler never have the same worker id, and a thread keeps its id for as long as it works for that scheduler. Inside execute_with_scheduler(p,f) num_workers() is p and the caller is worker 0, and afterwards the caller's previous worker id and scheduler are back; worker_specific storage gives each worker its own element and iterates over each exactly once.",
 ["schedules","configurations","programs"],"all schedules and all nestings of schedulers of any size, on any threads",
 "Tests check ids in a single loop with one scheduler size.",
 ["scheduler.h","parallel.h","worker_specific.h"],[("workerInfo thread_local save/restore","scheduler.h"),("WorkerSpecific","worker_specific.h")])
p("C05","Thread ids are unique among live threads, dense and reused",
 "At any time no two live threads have the same thread id, a thread's id never changes, and every id is smaller than num_thread_ids(). An id is handed out again after its thread has ended, so that num_thread_ids() never exceeds the largest number of threads that held an id at the same time (counting threads still in the course of starting or ending).",
 ["schedules","histories"],"all interleavings of any number of threads starting, asking for their id and ending",
 "Tests spawn a handful of threads; a lost or doubly issued id needs an acquire to race with a release at one instruction.",
 ["internal/thread_id_pool.h","thread_specific.h"],[("lock-free free list of ids with a mutex on the pop side","internal/thread_id_pool.h")])
p("C06","Thread-local storage: one stable, initialised element per thread id",
 "A ThreadSpecific object gives each thread its own element: built by the supplied constructor, at an address that never moves, distinct from every element of another live thread, and keeping what was stored there until the object is destroyed. for_each (and iteration) visits the element of every thread id issued so far exactly once, and every element is constructed once and destroyed once.",
 ["schedules","histories","configurations"],"all interleavings of first accesses, growth and iteration, for any number of threads (across all chunk boundaries)",
 "Tests use few threads, so racing growth and chunk boundaries are not reached under adverse interleavings.",
 ["thread_specific.h"],[("chunk table, ensure_chunk growth under mutex","thread_specific.h"),("index arithmetic of chunks","thread_specific.h")])
p("C07","The concurrent stack is a linearizable LIFO stack",
 "Every concurrent history of push, pop, empty, size and clear on the library's concurrent stack is equivalent to some sequential order, consistent with real time, of operations on a LIFO stack: nothing is lost, duplicated or invented, pop returns empty only when the stack was empty, and size is the number of elements at some moment during the call (clear is a run of pops, the last of which finds the stack empty).",
 ["schedules","histories"],"all interleavings of any number of threads, including reuse of node memory",
 "The tests run threads freely and compare totals; ABA and ordering errors need an adversarial interleaving.",
 ["internal/concurrency/hazptr_stack.h","internal/concurrency/acquire_retire.h"],[("CAS on head under hazard-pointer protection","internal/concurrency/hazptr_stack.h")])
p("C08","Safe reclamation: nothing freed while protected, everything freed exactly once",
 "An object retired through the library's acquire/retire scheme is never destroyed while any thread that acquired it before the retirement still protects it, and a protected pointer is the value the source held at some moment during the acquire. Every retired object is destroyed exactly once, at the latest when the scheme itself is destroyed, including objects retired by destructors that run during reclamation.",
 ["schedules","histories"],"all interleavings of acquire, release, retire and reclamation by any number of threads, with threads coming and going",
 "The tests only see a use-after-free if the OS schedule happens to produce it.",
 ["internal/concurrency/acquire_retire.h","internal/concurrency/hazptr_stack.h"],[("announcement slots + scan before eject","internal/concurrency/acquire_retire.h"),("in_progress re-entrancy guard","internal/concurrency/acquire_retire.h")])
p("C09","Fixed-size allocator: a block has one owner, counts are exact",
 "A block returned by the block allocator (or type_allocator<T>) is properly sized and aligned, does not overlap any other block that has not been freed, and belongs to the caller until freed by any thread. num_used_blocks() at quiescence equals allocations minus frees, freed blocks are reused before new memory is claimed by the same thread, and clear() releases memory and succeeds exactly when no block is in use.",
 ["schedules","histories","configurations"],"all interleavings of allocations and frees by any threads (also freeing what another thread allocated) and all list and block sizes",
 "The tests allocate and free in simple symmetrical patterns; corruption of the half-list hand-over needs particular sequences across threads.",
 ["internal/block_allocator.h","alloc.h"],[("local lists with mid pointer, global stack of lists","internal/block_allocator.h")])
p("C10","General allocator: aligned, disjoint, reusable memory and truthful accounting",
 "p_malloc and parlay::allocator return memory of at least the requested size and alignment which is disjoint from all other live allocations and keeps its contents until freed, for every size (small, large, beyond the largest pool) and alignment. Freed memory becomes available again, and once everything allocated has been freed the memory reported in use returns to what it was before.",
 ["inputs","histories","schedules"],"all sequences of allocations and frees of any size and power-of-two alignment from any threads",
 "Tests allocate few sizes; bucket boundaries, header arithmetic and statistics depend on exact sizes and histories.",
 ["alloc.h","internal/pool_allocator.h"],[("size buckets","internal/pool_allocator.h"),("p_malloc header and padding","alloc.h")])
p("C11","Phase-concurrent hash table behaves as a set, whatever the schedule",
 "Within an insert phase or a delete phase executed concurrently by any threads, followed by lookups, the hash table holds exactly the keys a sequential set would hold: no key lost, duplicated or resurrected, find returns the right element, and the number of inserts that report true equals the number of keys added. The table's final contents, entries() and count() do not depend on the order or interleaving of the operations of a phase; update keeps the element its hash structure prefers.",
 ["schedules","inputs","histories"],"all phases of operations on all key sets (collisions, wrap-around, nearly full tables) under all interleavings",
 "Tests run one insert and one delete loop with benign hashes; the linear-probing deletion races need collisions and adversarial interleavings.",
 ["hash_table.h"],[("ordered linear probing with CAS, replacement search in deleteVal","hash_table.h")])
p("C12","Concurrent write_min, write_max and write_add are atomic",
 "After any set of concurrent write_min (write_max, write_add) calls on a location it holds the minimum (maximum, sum) of its initial value and all written values, under the given comparison. Each write_min/write_max call returns true exactly when it changed the location, so the true returns form a strictly improving chain.",
 ["schedules","inputs"],"all interleavings of any number of concurrent callers and all values and comparison functions",
 "There is no test that races them; a lost update needs an interleaving inside one CAS loop.",
 ["utilities.h"],[("CAS loops","utilities.h")])
p("C13","Comparison sorts return the sorted permutation, stably where promised",
 "sort, sort_inplace, stable_sort, stable_sort_inplace (and the sample sort, quicksort, merge sort and bucket sort behind them) yield a permutation of the input ordered by the given strict weak order, for every length, key distribution, element type and worker count. The stable versions keep equal elements in input order, copying versions leave the input untouched, and no element is lost, duplicated or read after being moved from.",
 ["inputs","schedules","configurations"],"all input sequences, comparison functions, element types (trivial, non-trivial, move-only for in-place), worker counts and schedules",
 "Tests sample a few sizes and distributions; errors at size thresholds, bucket boundaries and heavy duplication are input specific.",
 ["primitives.h","internal/sample_sort.h","internal/quicksort.h","internal/merge_sort.h","internal/bucket_sort.h","internal/transpose.h","internal/heap_tree.h"],[("sample sort with pivots and block transpose","internal/sample_sort.h"),("bucket sort for duplicates","internal/bucket_sort.h"),("merge sort","internal/merge_sort.h")])
p("C14","merge, rank, kth_smallest and sortedness queries agree with the order",
 "merge of two sorted ranges returns their sorted union in which equal elements keep their order, first range before second. kth_smallest(_copy) returns an element that has rank k, rank returns each element's position in the stable sorted order, is_sorted and is_sorted_until tell exactly whether and how far a range is sorted.",
 ["inputs","schedules","configurations"],"all inputs (duplicates, empty and skewed lengths), comparison functions and worker counts",
 "Tests use one or two random inputs per function.",
 ["primitives.h","internal/merge.h","internal/binary_search.h"],[("parallel merge by dual binary search","internal/merge.h"),("kth_smallest sampling","primitives.h")])
p("C15","Integer and counting sorts are stable sorts by key",
 "integer_sort, integer_sort_inplace, stable_integer_sort(_inplace), counting_sort and their by-keys/with-counts variants return the stable sorted permutation of the input by the unsigned integer key, for every key width, number of key bits, length and distribution. Reported bucket counts or offsets equal the true ones and copying versions leave the input untouched.",
 ["inputs","schedules","configurations"],"all key sequences of all unsigned key types and bit widths, lengths (around block and radix thresholds), element types and worker counts",
 "Tests use random keys of moderate range; radix-digit boundaries, extreme keys and bucket/block combinations are not covered.",
 ["primitives.h","internal/integer_sort.h","internal/counting_sort.h"],[("radix recursion and bit counting","internal/integer_sort.h"),("block histogram + transpose + scatter","internal/counting_sort.h")])
p("C16","reduce and scan equal the left-to-right fold for every associative operator",
 "reduce returns the combination of all elements in input order, scan the exclusive prefix combinations and the total, scan_inclusive the inclusive ones, for every monoid (also non-commutative), length, and worker count. The in-place versions give the same values in place, and the copying versions leave their input untouched.",
 ["inputs","schedules","configurations"],"all inputs and all associative (not necessarily commutative) operators with identity",
 "Tests mostly add integers, which hides reordering, and sample few lengths.",
 ["primitives.h","internal/sequence_ops.h","monoid.h"],[("two-level block scan and recursive reduce","internal/sequence_ops.h")])
p("C17","map, filter, pack, flatten and tabulate keep exactly the right elements in order",
 "tabulate/map/copy/append/reverse/rotate/zip/iota/remove/partition-like primitives, filter, pack, pack_index, map_maybe, flatten and their into-uninitialized/out variants return precisely the elements that the corresponding sequential operation would, in the same order, for every input and worker count. Functions and predicates are applied the promised number of times (exactly once per element for map, tabulate and map_maybe) and inputs not consumed are unchanged.",
 ["inputs","schedules","configurations"],"all inputs, predicates, block counts and nested structures (empty inner sequences, skewed sizes)",
 "Tests sample a few lengths and densities.",
 ["primitives.h","internal/sequence_ops.h"],[("block-wise filter/pack with offsets","internal/sequence_ops.h"),("flatten by scan of sizes","primitives.h")])
p("C18","Grouping, key reduction, histograms and duplicate removal are exact",
 "group_by_key/group_by_index partition the input by key with each group's values in input order and every group present once; reduce_by_key/reduce_by_index, histogram_by_key/histogram_by_index, count-style variants give each key the exact combination (count) of its values; remove_duplicates variants return each distinct key exactly once. Results hold for any key type, hash, equality, skew and worker count, and the ordered variants return keys in order.",
 ["inputs","schedules","configurations"],"all inputs and key distributions (all equal, all distinct, heavy hitters), bucket counts and worker counts",
 "Tests use random keys with few sizes; heavy-key handling, bucket-size and threshold combinations are input specific.",
 ["primitives.h","internal/group_by.h","internal/collect_reduce.h"],[("semisort by hash buckets, heavy-hitter sampling","internal/collect_reduce.h"),("group_by_key_sorted / unordered","internal/group_by.h")])
p("C19","Delayed sequences denote the same values as their eager counterparts",
 "Any composition of delayed operations (delayed_seq, tabulate, map, zip, zip_with, enumerate, scan, scan_inclusive, filter, map_maybe, flatten, views) when iterated, forced, reduced or applied produces exactly the elements, in order, with the size, that the eager operations would. This holds for owned and referenced operands, after copying or moving the delayed object, and for empty inputs and inputs spanning any number of blocks.",
 ["inputs","programs","schedules"],"all compositions of delayed operations over all inputs",
 "Tests check single operations with few sizes; composed pipelines, copies/moves of them and block-boundary sizes are unexplored.",
 ["delayed.h","delayed_sequence.h","internal/delayed/common.h","internal/delayed/map.h","internal/delayed/zip.h","internal/delayed/scan.h","internal/delayed/filter.h","internal/delayed/filter_op.h","internal/delayed/flatten.h","internal/delayed/terminal.h"],[("block-iterable views","internal/delayed/common.h"),("flatten block starts","internal/delayed/flatten.h")])
p("C20","Searches return the sequential answer, whatever the schedule",
 "find, find_if, find_if_not, find_first_of, find_end, search, adjacent_find, mismatch, equal, lexicographical_compare, all_of/any_of/none_of, count/count_if, min_element/max_element/minmax_element, is_partitioned and remove_if/unique return exactly what the corresponding C++ standard algorithm returns (the first match, the first minimum, the first maximum; minmax_element returns the first minimum and the first maximum), for every input including empty ranges and every worker count.",
 ["inputs","schedules","configurations"],"all inputs with matches at any positions, empty ranges, and all schedules",
 "Tests use one or two inputs each; a nondeterministic or off-by-block answer needs matches in particular blocks and schedules.",
 ["primitives.h"],[("find_if block search with write_min","primitives.h")])
p("C21","parlay::sequence behaves as std::vector",
 "For every sequence of operations (construction, assignment, copy, move, swap, push/emplace/insert/append/erase/pop/resize/reserve/clear, comparison, element access, subseq, including element arguments of push_back, emplace, insert, append and resize that refer into the sequence itself) a parlay::sequence holds the same elements as a std::vector would, whichever storage (inline small buffer or heap) it is in and whichever (stateless) allocator and element type are used. Moving from or copying a sequence never affects a third one, and out-of-range at() reports an error.",
 ["histories","inputs","configurations"],"all operation histories over several sequences, all element types and sizes around the small-buffer limit and growth points",
 "Tests exercise each operation once from a fixed state; errors depend on the state (inline, heap, capacity, aliasing) the history leads to.",
 ["sequence.h","internal/sequence_base.h"],[("small-size-optimised storage, capacity growth","internal/sequence_base.h"),("insert/append/erase relocation","sequence.h")])
p("C22","Every element is constructed once and destroyed once, and read only while alive",
 "Through any library operation on non-trivial element types (sequence operations, sorts, filters, grouping, relocation, in-place primitives), every object constructed is destroyed exactly once, nothing is destroyed or assigned to that was not constructed, no live object is overwritten without destruction, and no moved-from or dead object is read. After all containers are gone no element is left alive.",
 ["inputs","histories","configurations"],"all operations, inputs and element types (non-trivial, move-only, trivially relocatable)",
 "Tests check results, and leaks only for a few self-referential types and sizes.",
 ["relocation.h","utilities.h","internal/uninitialized_sequence.h","internal/sequence_base.h","internal/sample_sort.h","internal/integer_sort.h","primitives.h"],[("assign_dispatch / uninitialized_relocate","utilities.h"),("uninitialized_relocate_n","relocation.h")])
p("C23","Text: tokenising, integer parsing, formatting and file I/O round-trip",
 "tokens/map_tokens return exactly the maximal runs of non-separator characters in order, split_at/map_split_at the pieces between flagged positions, for every input and worker count. Parsing the formatted form of any integer of any supported type gives that integer back, formatting is the standard decimal (and bracketed, comma-separated list) form, and writing characters to a file and reading or mapping them back (in whole or in part) gives the same characters (an interval that lies outside the file or ends before it starts gives those of it that exist).",
 ["inputs","configurations"],"all character sequences, separator predicates, integers of every type (including extremes) and file contents including empty ones",
 "Tests use fixed short strings; block boundaries, extreme integers and empty inputs are sampled at best.",
 ["io.h","primitives.h","internal/file_map.h","internal/posix/file_map_impl_posix.h"],[("tokens by block scan of boundaries","primitives.h"),("chars_to_int_t","io.h"),("to_chars","io.h")])
p("C24","Results are deterministic: independent of worker count, schedule and repetition",
 "random_shuffle and random_permutation return a permutation of their input that is determined by the seed and input only, and a random generator's i-th value and i-th split are functions of seed and i. More generally, primitives documented as returning a definite value (sorts with stable order, scans, filters, group-bys with order, find) return identical results for every worker count, whatever else runs concurrently and when called from nested parallel code.",
 ["schedules","configurations","inputs"],"all worker counts, schedules, nesting depths and repetitions",
 "Tests run with one worker count in one process.",
 ["random.h","primitives.h","internal/counting_sort.h"],[("random_shuffle by counting sort into random buckets","random.h"),("random_generator split","random.h")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
assert all(len(x["title"])<=80 for x in P),[ (x["id"],len(x["title"])) for x in P if len(x["title"])>80]
