#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (development helper)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": ["include/itlib/" + f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "small_vector behaves as std::vector",
  "For every sequence of operations, small_vector holds exactly the elements, in exactly the order, that std::vector would hold after the same operations, and every observer, iterator and returned position agrees with it. This holds for every static capacity, revert threshold, element type and allocator, and regardless of whether the elements currently live in the static or in the dynamic storage.",
  ["inputs", "histories", "configurations"],
  "all operation histories over any number of vectors (incl. copy, move, swap, assign between vectors in any storage state), all StaticCapacity/RevertToStaticSize instantiations, all element types",
  "The upstream test walks one history per instantiation; storage transitions (static to dynamic, dynamic to static, swap/move between unlike states) interact with every operation at every size, which a fixed history cannot cover. (The upstream small_vector test is not even built here.)",
  ["small_vector.hpp"],
  [("grow/shrink at position, choosing storage", "small_vector::grow_at, shrink_at, choose_data"), ("storage hand-over", "small_vector::take_impl, swap, operator=, assign")],
  "public interface: contents, size, capacity, returned iterators")

p("C02", "small_vector storage policy: static while small, stable, reversible",
  "A small_vector allocates no dynamic memory as long as its size has never exceeded its static capacity and no larger capacity was reserved; growth uses dynamic memory with capacity at least the size (reallocating only logarithmically often while appending), and reducing operations return to static storage exactly as the revert threshold documents (never for 0, on shrink below it otherwise, always possible through revert_to_static/shrink_to_fit when the elements fit). While no operation documented as reallocating happens, capacity, data pointer and references stay put, reserve(n) guarantees that growing up to n elements does not reallocate, and moving a dynamic vector transfers its buffer without touching elements.",
  ["inputs", "histories", "configurations"],
  "all histories crossing the static/dynamic threshold in either direction, all StaticCapacity/RevertToStaticSize pairs including RevertToStaticSize 0, 1 and equal to the capacity",
  "Boundary sizes (exactly StaticCapacity, exactly the revert threshold) combined with every operation are not enumerated by the upstream test.",
  ["small_vector.hpp"],
  [("storage choice", "small_vector::choose_data"), ("shrink_to_fit / revert_to_static / reserve", "small_vector public members")],
  "allocator calls, capacity(), data(), is_static()")

p("C03", "Owning containers: every element and buffer is released exactly once",
  "Every element that small_vector, static_vector or a flat container over them constructs is constructed in dead storage, used only while alive, and destroyed exactly once; no element outlives its container and moved-from containers remain usable. Every block small_vector obtains from its allocator is returned exactly once to an equal allocator with the size it was requested with, and no access ever leaves the container's storage.",
  ["inputs", "histories", "configurations"],
  "all operation histories over element types with non-trivial copy/move/destroy, stateful and non-propagating allocators",
  "Leaks, double destroys and assignments to dead elements are invisible to value assertions, and each needs its own combination of position, count and storage state.",
  ["small_vector.hpp", "static_vector.hpp", "flat_map.hpp", "flat_set.hpp"],
  [("element relocation", "grow_at/shrink_at/emplace_at"), ("destruction", "destroy_all, ~small_vector, ~static_vector")],
  "per-address life registry of element constructions/destructions; allocator ledger; ASan")

p("C04", "static_vector behaves as a vector bounded by its capacity",
  "For every sequence of operations, static_vector holds exactly the elements that std::vector would hold, as long as they fit its capacity, stored inside the object itself. An operation that would exceed the capacity fails in the way the configured error handling documents (std::out_of_range when it throws), touches no memory outside, and leaves the vector valid; a failed insert, append or resize leaves it unchanged.",
  ["inputs", "histories", "configurations"],
  "all operation histories, capacities, element types, and all error handling configurations; all requested counts, including ones near the top of size_t",
  "The test uses few capacities and one history; overflow of every inserting operation at every fill level and huge counts are not sampled.",
  ["static_vector.hpp"],
  [("bounded growth", "static_vector::grow_at"), ("error handling", "I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF")],
  "public interface, exceptions")

p("C05", "pod_vector behaves as std::vector of trivial elements",
  "For every sequence of operations, pod_vector holds exactly the bytes that std::vector would hold after the same operations, in the same order, and every observer and returned iterator agrees with it, whatever the element size and alignment and whichever kind of allocator (with realloc, with in-place expand, or plain) it uses.",
  ["inputs", "histories", "configurations"],
  "all operation histories over several vectors, element sizes and alignments below, at and above the allocator's alignment, all allocator feature combinations",
  "Each allocator feature and alignment selects a different reallocation path, each multiplied by position, waste and size thresholds; tests sample a couple of points.",
  ["pod_vector.hpp"],
  [("reallocation strategies", "pod_vector::data_realloc / expand paths"), ("positional insert/erase", "pod_vector::grow_at, shrink_at")],
  "public interface: contents, size, capacity, returned iterators")

p("C06", "pod_vector memory contract: alignment, capacity, validity flags, recast",
  "Storage of pod_vector is always aligned for its element type and at least capacity() elements large; the operations which return whether iterators stayed valid tell the truth, reserved capacity is honoured without reallocation, and every block obtained from the allocator is given back exactly once through the allocator. recast_take_from transfers the whole buffer: bytes are preserved, size and capacity are converted by element size rounding down, the source is left empty, and the result is as correctly aligned and as correctly freed as any other vector.",
  ["inputs", "histories", "configurations"],
  "all histories incl. recasts between any two trivial types, all alignments and allocator alignments, all allocator feature combinations",
  "Misalignment, wrong free pointer and lying validity flags only show for particular alignment pairs and allocation addresses.",
  ["pod_vector.hpp"],
  [("over-aligned allocation", "pod_vector over-aligned data handling"), ("recast", "pod_vector::recast_take_from")],
  "allocator ledger, data() address, UBSan alignment, ASan")

p("C07", "flat_map is a sorted unique map equivalent to std::map",
  "After any sequence of operations a flat_map's keys are unique and sorted by its comparator, and lookups, bounds, insertions, erasures, operator[], at and iteration give the results std::map gives for the same operations, for every comparator, underlying container, and transparent key type, with a logarithmic number of comparisons per lookup. Insertion of an existing key leaves the stored pair and its value untouched and reports it.",
  ["inputs", "histories", "configurations"],
  "all operation histories, all strict weak orders (incl. coarse and stateful ones), all supported underlying containers, ordered and unordered initial ranges with duplicates",
  "Tests use a handful of keys in one order; position edge cases of every search/insert/erase at every size, with stateful or coarse comparators, are not sampled.",
  ["flat_map.hpp"],
  [("binary search and insertion", "flat_map::lower_bound, insert, emplace, operator[]"), ("ctor sort + unique", "flat_map ctors")],
  "public interface")

p("C08", "flat_set is a sorted unique set equivalent to std::set",
  "After any sequence of operations a flat_set's elements are unique and sorted by its comparator, and lookups, bounds, insertions, erasures and iteration give the results std::set gives for the same operations, for every comparator, underlying container and transparent key type, with a logarithmic number of comparisons per lookup. Insertion of an equivalent element leaves the stored one untouched and reports it.",
  ["inputs", "histories", "configurations"],
  "all operation histories, strict weak orders, underlying containers, initial ranges with duplicates",
  "As for flat_map: tests hit a handful of key orders.",
  ["flat_set.hpp"],
  [("binary search and insertion", "flat_set::lower_bound, insert, emplace"), ("ctor sort + unique", "flat_set ctors")],
  "public interface")

p("C09", "dynamic_bitset behaves as a sequence of independent bits",
  "For every sequence of operations and for every word type, dynamic_bitset equals a sequence of booleans: set, reset, flip, append, resize, copy of a range of bits from another bitset and the queries (size, test, any, none, all of a non-empty one) all give what the plain boolean sequence gives. Bits outside the addressed range never change and bits beyond the size never influence a result. A bitset which was moved from is empty and can be used again.",
  ["inputs", "histories", "configurations"],
  "all sizes and offsets relative to word boundaries, all word types, all histories of growth and shrink, all (from, to, offset) copies",
  "Bit/word misalignment cases are quadratic in word width for the copy alone; the test samples a few offsets.",
  ["dynamic_bitset.hpp"],
  [("bit range copy", "dynamic_bitset::copy"), ("partial word handling", "dynamic_bitset::resize, fill, append, all/any")],
  "public interface")

p("C10", "expected always holds exactly one of value and error",
  "At all times an expected holds exactly one of a live value or a live error, as its history of constructions, copies, moves and assignments dictates, and it constructs and destroys each payload exactly once and copies or moves from precisely the operand given. Accessors (value, error, value_or, dereference, conversions, in all value categories, and for the void and reference forms) return the payload that is present, and never touch the absent one.",
  ["inputs", "histories", "configurations"],
  "all transitions value/error x value/error over every special member and assignment, self assignment, every specialisation (T/E, void, reference), throwing payloads",
  "The transition matrix times specialisations is only partly covered, and the upstream expected test is not built here.",
  ["expected.hpp"],
  [("union storage and discriminator", "expected, expected<void,E>, expected<T,void>, expected<T&,E>, expected<void,void>")],
  "public interface; life registry of payload objects; sanitizers")

p("C11", "any owns exactly one value of the exact type it was given",
  "A basic any holds nothing or exactly one value: its own copy of what was put in, of the decayed type that was given. Casts to that type yield it, casts to any other type fail as documented, has_value/type/reset/emplace/swap/copy/move agree with std::any, each held object is destroyed exactly once, and all memory comes from and returns to the any's allocator.",
  ["inputs", "histories", "configurations"],
  "all histories of construction, assignment, emplace, copy, move, swap, reset over mixed payload types, allocators equal and unequal",
  "Tests use a few payload types in one order; ownership and allocator pairing are invisible to value assertions.",
  ["any.hpp"],
  [("type-erased holder", "basic_any::emplace, operator=, swap, any_cast")],
  "public interface; payload registry; allocator ledger")

p("C12", "ufunction calls exactly the callable it owns",
  "A ufunction invoked with arguments forwards them, and the result back, exactly as the wrapped callable would get and give them; it converts to bool exactly when it holds a callable. The callable (move-only ones included) is owned by exactly one ufunction at a time, is transferred by move and destroyed exactly once, and assigning or clearing releases the previous one.",
  ["inputs", "histories", "configurations"],
  "all histories of construct, assign, move, clear, swap, call; all argument/result kinds (value, lvalue/rvalue reference, move-only, void); callables small and large",
  "Tests sample a few signatures and single moves.",
  ["ufunction.hpp"],
  [("move-only type erasure", "ufunction")],
  "public interface; callable registry")

p("C13", "sentries run their cleanup exactly once, exactly when armed",
  "A scope sentry runs its function exactly once, at the end of its lifetime (a sentry which was moved from leaves that to the one it was moved to): also when the scope is left by an exception, a return or a jump, and in the reverse order of creation. The function which runs is the very object given when it is an lvalue, and a moved copy of it when it is an rvalue.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "all combinations of scope exit, nesting and moves, before and after C++17",
  "Tests exercise a single scope of each kind.",
  ["sentry.hpp"],
  [("scope guard", "sentry, make_sentry, I_ITLIB_SENTRY dtor")],
  "recorded order of cleanup events")

p("C14", "span and memory views never reach outside the viewed range",
  "A span (and a memory view) shows exactly the elements of the contiguous range it was made from, writing through it writes to them, and first, last, subspan, slicing, byte views and iteration in both directions give exactly the sub-range of the original that the arguments denote, clamped to the original range where clamping is documented or offset is beyond the end. No argument makes a derived view extend outside its parent.",
  ["inputs", "configurations"],
  "all ranges, offsets and counts including beyond-the-end and size_t extremes, all source container kinds and constness",
  "Tests use a few in-range offsets.",
  ["span.hpp", "memory_view.hpp"],
  [("slicing", "span::subspan/first/last/byte_slice, memory_view counterparts")],
  "begin/end addresses and contents")

p("C15", "strided and polymorphic spans visit exactly the strided elements",
  "A stride_span or poly_span over a buffer shows, at each index, exactly the element at that multiple of the stride (converted to the requested base for the polymorphic one). Indexing, iterators (all random access arithmetic and comparisons), reverse iteration, sub-spans and data observers all agree with one another, for every stride and length.",
  ["inputs", "configurations"],
  "all strides (including larger than the element), lengths, sub-ranges, element and base types, iterator arithmetic in both directions",
  "Tests iterate forward over one buffer; backward distances and extreme sub-ranges are not sampled.",
  ["stride_span.hpp", "poly_span.hpp"],
  [("stride arithmetic", "stride_span::iterator_impl, poly_span::iterator_impl"), ("sub-spans", "subspan, first, last")],
  "addresses and contents vs plain array arithmetic")

p("C16", "generator delivers exactly the coroutine's yields, then its end or error",
  "Consuming a generator, by next() or by iteration and in any mixture, delivers exactly the values and references the coroutine body yields, in order and once each, then reports done; it rethrows an escaping exception to the consumer at the point it occurred, and the body runs only as far as asked for. The coroutine frame and everything in it is destroyed exactly once, whenever and wherever the generator is abandoned or moved.",
  ["inputs", "histories", "programs", "fault_sequences"],
  "all coroutine bodies (lengths, exceptions at any point, reference and move-only yields, nested) x all consumption histories incl. early abandonment, moves, re-polling after the end",
  "The generator test is not built here, and upstream samples a few bodies.",
  ["generator.hpp"],
  [("promise and handle ownership", "generator::promise_type, next, iterator, operator=")],
  "values delivered, exceptions, life registry for frame locals")

p("C17", "mem_ostreambuf is a faithful in-memory output stream",
  "Writing through a mem_ostreambuf in any mixture of single characters, blocks and seeks yields a container holding exactly the bytes a standard in-memory stream would hold up to the put position, for every container type and initial contents; positions reported by tellp are exact. Taking or replacing the container leaves the buffer usable for further writes, bounded containers fail cleanly, and nothing is written outside the container.",
  ["inputs", "histories", "configurations"],
  "all histories of put/write/seek/clear/take over std::string, vectors, small and static vectors, pod_vector",
  "Tests do one write-through; reuse after taking the container and out-of-range seeks are not sampled.",
  ["mem_streambuf.hpp"],
  [("put area over container", "mem_ostreambuf::overflow, xsputn, seekpos/seekoff, get_container, reset_container")],
  "resulting container bytes, tellp, stream state, ASan")

p("C18", "mem_istreambuf is a faithful in-memory input stream",
  "Reading through a mem_istreambuf in any mixture of single characters, lines, formatted input, blocks, putbacks and absolute or relative seeks yields exactly what a standard input string stream over the same bytes yields, including positions, end-of-file behaviour and failures. It never reads outside the given buffer.",
  ["inputs", "histories", "configurations"],
  "all buffers (also empty), all read/seek histories including seeks out of range, char and wide types",
  "Tests read a short text and seek to two valid positions.",
  ["mem_streambuf.hpp"],
  [("get area over buffer", "mem_istreambuf::xsgetn, seekpos, seekoff")],
  "bytes, gcount, tellg, stream state, ASan")

p("C19", "A redirected read stream restores the stream it borrows",
  "A read stream redirected to a position inside an existing stream reads exactly the bytes from that position on, in order, and reports good, eof and fail exactly as the wrapped stream would. When the redirection ends the wrapped stream is back at the position it had before, whatever was read, over-read or failed in between, and however redirections are nested.",
  ["inputs", "histories", "fault_sequences"],
  "all stream contents, positions and read histories inside a redirect, including reads past the end, nesting, and scopes left by exceptions",
  "Tests redirect once and read once without failure.",
  ["rstream.hpp"],
  [("redirect guard", "basic_redirect_rstream ctor/dtor"), ("restricted read", "basic_rstream::read")],
  "bytes read, stream state, position after the redirect")

p("C20", "data_mutex gives access to its data only under the lock",
  "The data of a data_mutex is reachable only through a lock object, exclusive locks exclude every other access and shared locks exclude writers, each kind of lock uses the corresponding operation of the mutex, a try-lock that fails gives no access, and a lock is released exactly once when its (last, moved-to) lock object dies. If acquiring the underlying mutex fails or throws nothing is released.",
  ["schedules", "histories", "configurations", "fault_sequences"],
  "all interleavings of lock, try-lock, shared lock, move and release across threads; all standard mutex kinds; mutexes whose lock operation throws",
  "Tests are single threaded apart from trivial cases.",
  ["data_mutex.hpp"],
  [("RAII lock", "data_lock / data_mutex lock, try_lock, lock_shared")],
  "mutex call ledger, TSan, conservation of counters under contention")

p("C21", "strong_try_rec_mutex: mutual exclusion, recursion and honest try_lock",
  "The recursive mutex lets at most one thread in at a time, admits its owner again any number of times and becomes free exactly when unlocked as many times as locked. try_lock succeeds if and only if the mutex is free or held by the caller (never failing spuriously), and everything written inside is visible to the next owner.",
  ["schedules", "histories"],
  "all interleavings of lock, try_lock and unlock by any number of threads, any recursion depth",
  "The test runs one schedule; exclusion and spurious failures are schedule dependent.",
  ["mutex.hpp"],
  [("owner id and depth", "strong_try_rec_mutex::lock, try_lock, unlock")],
  "critical-section monitor, TSan, recorded lock histories")

p("C22", "atomic_shared_ptr_storage is a linearizable shared_ptr cell",
  "Concurrent load, store, exchange and compare-exchange on an atomic_shared_ptr_storage behave as if executed one at a time in an order consistent with real time; a load never returns a torn, stale-after-overwritten or dangling pointer, and a failed compare-exchange reports the value seen. Reference counts are conserved: every object put in is destroyed exactly once, after its last owner has let it go.",
  ["schedules", "histories", "configurations"],
  "all interleavings of all operations by any number of threads, all language standards",
  "The test is a short two-thread run; atomicity and ordering violations depend on schedules.",
  ["atomic_shared_ptr_storage.hpp"],
  [("spin-locked shared_ptr", "atomic_shared_ptr_storage::load/store/exchange/compare_exchange_*")],
  "recorded call/return histories with unique values, refcount ledger, TSan")

p("C23", "relaxed atomics lose no updates and behave as plain values",
  "Updates to the relaxed counter and to relaxed atomics are never lost or torn under any interleaving: the final value is the initial one plus increments minus decrements, and every result an operation returns is one the corresponding plain value operation would return at some instant. Copying and assigning takes a snapshot of the source's value, and conversions and arithmetic agree with the underlying type, including unsigned wrap-around.",
  ["schedules", "histories", "inputs"],
  "all interleavings of increments, decrements, fetches and copies; all underlying integer types and wrap-around values",
  "The test is single threaded.",
  ["atomic.hpp"],
  [("relaxed wrapper", "atomic_relaxed_counter and its operators")],
  "uniqueness and sum of returned values, TSan")

p("C24", "Time wrapper and strftime agree with the C library",
  "A time value is its number of seconds since the epoch: it converts to and from the C time, compares, adds and subtracts durations of any unit, and converts to and from broken-down UTC and local time exactly as the C library does, for every representable time. The string strftime returns is exactly the text the C function produces for that format and time, whatever its length, and the call always returns; concurrent conversions do not disturb each other.",
  ["inputs", "schedules", "configurations"],
  "all times (negative, far future, DST changes), all duration units, all formats incl. those with very long or empty output, time zones",
  "Tests use a couple of fixed dates and one format.",
  ["time_t.hpp"],
  [("conversion", "time_t::gmtime, localtime, from_gmtime, from_localtime"), ("arithmetic", "time_t operators"), ("formatting", "itlib::strftime")],
  "fields and text compared with libc")

p("C25", "pmr_allocator routes every request to its memory resource",
  "Every allocation and deallocation through pmr_allocator, directly or through a container, goes to the memory resource it was made with, with the exact size and alignment of the request, so that each block is returned to the same resource with the same size and alignment. Copies and rebinds share the resource, equality means interchangeability of the resources, and container copy/move/swap follow std::pmr's propagation rules.",
  ["inputs", "histories", "configurations"],
  "all element types (incl. over-aligned), counts incl. overflowing ones, histories of containers over equal and unequal resources, C++17 and C++20 forms",
  "The upstream pmr_allocator test is not built here; resource pairing is invisible to values.",
  ["pmr_allocator.hpp"],
  [("allocator over memory_resource", "pmr_allocator::allocate, deallocate, allocate_object, new_object, select_on_container_copy_construction")],
  "ledger memory_resource")

p("C26", "Pointer helpers share ownership correctly and never duplicate it",
  "make_shared and make_unique from a value own exactly one object of that value's type, copied from an lvalue and moved from an rvalue; make_aliased yields a pointer which keeps its owner alive and is null whenever there is no owner. Pointers obtained from an object through enable_shared_from share ownership with its existing owner, point to exactly what was asked for, including bases, derived objects, members and const access, and every object is destroyed exactly once, when its last owner goes.",
  ["inputs", "histories", "configurations"],
  "all types and value categories, inheritance (incl. multiple), const, aliasing, ownership histories, C++11 to C++20",
  "Tests check a few types and do not account for ownership over histories.",
  ["make_ptr.hpp", "shared_from.hpp"],
  [("ownership helpers", "make_shared, make_unique, make_aliased"), ("self pointers", "enable_shared_from::shared_from, weak_from, shared_from_this, weak_from_this")],
  "use_count, owner identity, destruction registry")

p("C27", "Algorithm, string and utility helpers agree with their plain definition",
  "The whole-container algorithms (qfind, pfind and their _if forms, erase_first/all, qall/qany/qnone_of), the string_view helpers (make_string_view, starts_with, ends_with, remove_prefix_all, remove_suffix_all), the utilities (force_move, owner_from_member, bit_cast, make_nullptr) and the type traits give exactly the result of their plain definition for every input, including empty, single, all-equal and no-match ones. They never read outside their input and never modify what they only query.",
  ["inputs", "configurations"],
  "all input sequences and containers, predicates, string contents, types",
  "Tests use a handful of literals.",
  ["qalgorithm.hpp", "strutil.hpp", "utility.hpp", "type_traits.hpp"],
  [("whole-container algorithms", "qalgorithm.hpp"), ("string helpers", "strutil.hpp"), ("utilities", "utility.hpp, type_traits.hpp")],
  "results vs naive reference, ASan on exact-size buffers")

p("C28", "Inserting an element of the vector itself inserts its old value",
  "Passing a reference to an element of the vector to push_back, emplace_back, insert, emplace, or resize inserts the value that element had before the call, exactly as std::vector does: whether or not the call reallocates, switches storage or shifts that element. This holds for small_vector, static_vector and pod_vector.",
  ["inputs", "histories", "configurations"],
  "all positions of source element and insertion, all fill levels relative to capacity, all three vectors",
  "Not tested at all; failures need a reallocation or shift exactly at the aliased call and often go unnoticed without a sanitizer.",
  ["small_vector.hpp", "static_vector.hpp", "pod_vector.hpp"],
  [("growth with live argument", "push_back, emplace, insert, resize")],
  "contents vs std::vector, ASan")

p("C29", "Failing element operations and allocations never corrupt a vector",
  "When an element's constructor or copy, or an allocation, throws in the middle of any operation of small_vector or static_vector that is not declared noexcept, the exception reaches the caller, no element is leaked, destroyed twice or used after its destruction, no memory leaks, and the vector stays valid: destructible, clearable, reassignable, its size consistent with its live elements. Appending at the end (push_back, emplace_back) and reserve that fail leave the vector exactly as it was when element moves do not throw.",
  ["fault_sequences", "inputs", "histories", "configurations"],
  "every failure point (n-th element operation or n-th allocation) of every operation in every storage state",
  "No test throws from an element or allocator.",
  ["small_vector.hpp", "static_vector.hpp"],
  [("partial construction", "grow_at, emplace_at, assign_*, constructors, resize")],
  "life registry, allocator ledger, contents")

p("C30", "transparent_umap finds by any key form what std::unordered_map finds",
  "A transparent_umap holds what a std::unordered_map with the same key and value types would hold after the same operations, and each lookup, insertion or erasure through a view form of the key (such as a string view or C string) gives precisely the result of the same operation with an owned key. A lookup never inserts, and a lookup by a view makes no owned key; an insertion under an existing key changes nothing.",
  ["inputs", "histories", "configurations"],
  "all operation histories with owned, view and C-string keys, colliding hashes, embedded zeros, C++20 (which the header needs)",
  "Test uses two keys.",
  ["transparent_umap.hpp"],
  [("heterogeneous lookup", "transparent_umap operations")],
  "public interface vs std::unordered_map")

p("C31", "throw_ex throws exactly the exception asked for with the streamed message",
  "A throw_ex expression throws an exception of exactly the requested type, exactly once, at the end of the full expression, whose message is precisely the concatenation of everything streamed into it in order, formatted as by a standard output string stream, for every value that can be streamed into it and any length (outside of stack unwinding, and where no streamed operand itself throws).",
  ["inputs", "configurations"],
  "all exception types, streamed value sequences and lengths, C++11 to C++20",
  "Test throws twice with a short message.",
  ["throw_ex.hpp"],
  [("throwing stream", "throw_ex::~throw_ex, operator<<")],
  "caught type and message")

p("C32", "Documented misuse is detected, in-contract use never is",
  "In every error handling configuration, the documented checked misuses (at() out of range, bad access of an expected or any, pop/front on empty where checked, exceeding a static capacity) are reported in the configured way, throw or assert, before memory outside the object is touched and without changing the container (a refused assignment may leave it empty). No in-contract call ever triggers such a report.",
  ["inputs", "configurations", "histories"],
  "all error handling configuration macros, all containers, all indices around the bounds and at the extremes of size_t",
  "Tests compile with a single configuration each.",
  ["small_vector.hpp", "static_vector.hpp", "pod_vector.hpp", "flat_map.hpp", "expected.hpp", "any.hpp"],
  [("error handling macros", "I_ITLIB_*_OUT_OF_RANGE_IF and assert-based checks")],
  "exceptions, intercepted assertion failures, contents after report")

p("C33", "No hidden shared state: threads and callbacks never interfere",
  "Apart from the synchronisation primitives, components keep no mutable state outside of their objects and modify no object in operations which only read it. So any number of threads may read the same object at once (const operations, copying from it, and non-const element access; also writing different elements of a vector), threads may use different objects at once, an object may be handed from one thread to another with ordinary synchronisation, and user code which runs within an operation (copying, moving, destroying, comparing or printing elements, predicates, callables, cleanups, generator bodies) may use other objects of the same or any other component. In each case there is no data race and every call gives the result it would give alone.",
  ["schedules", "inputs", "histories"],
  "all components, all pairs of concurrent reads, all interleavings of threads with own objects, all nestings of operations in callbacks (two levels are explored)",
  "Tests are single-threaded for all but the locking primitives and their elements never call back into the library.",
  ["small_vector.hpp", "static_vector.hpp", "pod_vector.hpp", "flat_map.hpp", "flat_set.hpp", "dynamic_bitset.hpp", "expected.hpp", "any.hpp", "ufunction.hpp", "generator.hpp", "mem_streambuf.hpp", "rstream.hpp", "span.hpp", "stride_span.hpp", "throw_ex.hpp", "time_t.hpp", "qalgorithm.hpp", "strutil.hpp", "transparent_umap.hpp", "shared_from.hpp", "make_ptr.hpp", "pmr_allocator.hpp", "sentry.hpp"],
  [("const members", "const member functions and copy constructors of all components"), ("statics", "function-local and class statics, thread-locals: there are none which are modified")],
  "ThreadSanitizer reports; results of every call compared with plain code")

p("C34", "Components compose: objects nested in each other behave as values",
  "Every component works as an element, key, mapped value, alternative, captured value, guarded value or buffer of any other component and of std containers, to any depth, as far as its copyability allows. A change made to a nested object, through the accessors of what encloses it, changes that object and nothing else; copies made at any level are independent of their originals; moving, swapping, relocating, sorting, inserting, erasing or erasing by a predicate at any level keeps the contents of everything within; an any may be replaced by (a copy of) the any it has within; equality follows the nested contents; and each element at the bottom is destroyed exactly once.",
  ["inputs", "histories"],
  "all compositions and depths (42 compositions of two to four levels are explored), all histories of changes at any level, element types which are copyable, copy-only, move-only, over-aligned",
  "Tests use elements of plain types nearly everywhere; how one component's copy, move and exception specifications make another behave is left to no test.",
  ["small_vector.hpp", "static_vector.hpp", "pod_vector.hpp", "flat_map.hpp", "flat_set.hpp", "dynamic_bitset.hpp", "expected.hpp", "any.hpp", "ufunction.hpp", "generator.hpp", "data_mutex.hpp", "transparent_umap.hpp", "pmr_allocator.hpp", "make_ptr.hpp", "qalgorithm.hpp", "span.hpp", "stride_span.hpp"],
  [("special members", "copy and move constructors and assignments of all components, their noexcept specifications"), ("element relocation", "grow_at, shrink_at, transfer_to, emplace_at in the vectors")],
  "contents of the nested objects against a plain tree after each step; life registry; ASan/UBSan")

p("C35", "Refused and failing operations leave bitsets, buffers and flat sets valid",
  "When an allocation, a comparison, an element operation or a bounded container refuses in the middle of an operation of pod_vector, dynamic_bitset, mem_ostreambuf, flat_set or flat_map which isn't declared noexcept, the exception reaches the caller (a stream reports it as a failed write), nothing leaks or is freed twice, and the object stays valid and usable. A failed growth, insertion, append or lookup leaves the contents, size and capacity as they were: a pod_vector's and a bitset's elements, everything a stream has written before (of the failing write at most a beginning is kept) and its position, and the sorted unique elements of a flat container over std::vector. A failed assignment of a pod_vector may empty it, and one of a bitset leaves it as it was when the assignment of its buffer does. Impossible sizes are refused and never taken for small ones.",
  ["fault_sequences", "inputs", "histories", "configurations"],
  "every failing allocation of every operation of pod_vector in every state (sizes to 9), random histories with faults for the others; vectors, strings, small, static and pod vectors as buffers and containers; all kinds of allocators",
  "No test makes an allocator, a comparator or a bounded buffer fail.",
  ["pod_vector.hpp", "dynamic_bitset.hpp", "mem_streambuf.hpp", "flat_set.hpp", "flat_map.hpp"],
  [("reallocation", "pod_vector::reserve, grow_at, safe_grow, recast_take_from"), ("growth", "dynamic_bitset::resize, append; mem_ostreambuf::cap_resize_by"), ("insertion", "flat_set, flat_map insert, emplace, operator[]")],
  "contents, sizes and positions after a failure against a model; allocator ledger; life registry; ASan")

p("C36", "The library may be used by several translation units and shared libraries",
  "Each header compiles on its own for every standard from its documented first, and any number of translation units, including the headers in any order, link into one program, and an object of the library made by one of them, or by a shared library which exports none of its symbols, may be used, copied, moved, swapped, called and destroyed by any other: each operation does and reports what it would have if one unit alone had done them all. The type of an any is the same type for all of them, callables of a ufunction and coroutines of a generator run the code of the unit they come from, a lock taken in one is owned by the thread in the others, and an exception the library throws is caught by its type in any of them.",
  ["histories", "inputs", "configurations"],
  "random histories over two objects of each of 16 kinds, each operation by one of four units picked at random: two of the executable (headers in opposite orders), two shared libraries loaded with local, hidden symbols; two compilers",
  "Every test is a single translation unit; no shared library is tested at all.",
  ["any.hpp", "ufunction.hpp", "generator.hpp", "strutil.hpp", "throw_ex.hpp", "mutex.hpp", "small_vector.hpp", "expected.hpp", "time_t.hpp"],
  [("identity of types", "any::type, any_cast"), ("functions which aren't templates", "strutil, time_t, expected"), ("type erasure", "ufunction, any, generator, poly_span")],
  "what every operation reports against the same history in one unit; ASan/UBSan; linking")

p("C37", "Only the operations an interface names are asked of the user's types",
  "Components work for every type which has the operations they document (copying, moving, comparing, calling, locking), whatever else it overloads: an overloaded operator& or operator comma, class-specific operator new and delete, functions of its namespace with the names of standard ones, no default constructor and no assignment from anything but itself. None of these is ever used in place of the language's or the standard library's own, except that objects the library creates on the heap on their own (make_unique) use the class's operator new and delete in pairs. In particular addresses the library hands out (pointers found, arrows, data(), locked data, references yielded, strided members and their owners) are those of the objects themselves. Whatever such a type overloads, each operation does and reports the same as for a type which overloads nothing.",
  ["inputs", "histories", "configurations"],
  "random histories over every component which holds or refers to objects of the user's types, elements, keys, errors, callables, comparators, predicates, mutexes; C++17 and C++20, two compilers",
  "Every test uses element types which overload nothing beyond what is called.",
  ["expected.hpp", "any.hpp", "data_mutex.hpp", "generator.hpp", "qalgorithm.hpp", "stride_span.hpp", "utility.hpp", "small_vector.hpp", "static_vector.hpp", "pod_vector.hpp", "flat_map.hpp", "flat_set.hpp", "ufunction.hpp", "sentry.hpp", "poly_span.hpp", "span.hpp", "memory_view.hpp", "make_ptr.hpp", "shared_from.hpp", "atomic_shared_ptr_storage.hpp", "throw_ex.hpp", "transparent_umap.hpp"],
  [("addresses", "uses of std::addressof; data(), operator->, pfind, locks, owner_from_member"), ("construction in place", "placement new in static_vector, expected and any, allocator_traits::construct in small_vector")],
  "counters in the overloads themselves, whose operator& returns another place; everything a history reports against the same history over a plain type; ASan/UBSan")

p("C38", "Operations cost what their standard counterparts cost",
  "Every operation does its work within the order of growth a user expects from its standard counterpart, at every size. Appending n elements, characters or bits one by one (small_vector, pod_vector, mem_ostreambuf, dynamic_bitset) reallocates about log n times; nothing is moved or allocated within the capacity; an insertion or erasure moves the elements behind it and no others; looking up, inserting and erasing by key in flat_map and flat_set compare about log n times, and making one of n unsorted elements about n log n times; the algorithms of qalgorithm stop at the element which decides; bits are appended, copied and examined by words. Moving or swapping a dynamic vector, a flat container, an any or a ufunction of a large callable touches no element. An rvalue is never copied, an lvalue is copied once, what is only read, compared, viewed, locked or found is neither copied, moved nor allocated for, and a value of a generator, a pointer maker or a ufunction's argument is only moved along.",
  ["inputs", "histories"],
  "every component which holds, finds or carries elements, at sizes from none to tens of thousands, with counting elements, comparators, predicates, hashes, words and allocators; C++17 and C++20, two compilers",
  "Tests check results, at sizes of a few elements, where another order of growth can't be seen.",
  ["small_vector.hpp", "static_vector.hpp", "pod_vector.hpp", "flat_map.hpp", "flat_set.hpp", "qalgorithm.hpp", "mem_streambuf.hpp", "dynamic_bitset.hpp", "expected.hpp", "any.hpp", "ufunction.hpp", "sentry.hpp", "data_mutex.hpp", "make_ptr.hpp", "span.hpp", "memory_view.hpp", "stride_span.hpp", "poly_span.hpp", "generator.hpp", "rstream.hpp", "transparent_umap.hpp"],
  [("growth", "get_new_capacity and choose_data in the vectors, cap_resize_by in mem_ostreambuf"), ("searches", "lower_bound and find of flat_map and flat_set, qfind and erase_*"), ("moves", "take_impl, the move constructors and assignments, std::forward throughout")],
  "counters in the elements, comparators, predicates, hashes, containers and allocators against bounds with a constant factor to spare; ASan/UBSan")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
