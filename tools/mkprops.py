import json
P=[]
H='include/dice/template-library/'
def p(id,title,st,over,qt,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=[H+f for f in files],mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
p('C01','channel delivers every accepted element exactly once, in FIFO order',
 'For any number of producers and consumers, the elements handed out by pop, try_pop and iteration are exactly the elements whose push/emplace/try_push/try_emplace call returned true, each at most once, unaltered, and in the order in which they were accepted. An element whose push call returned false or threw is never delivered. After all producers are done, draining the channel yields every accepted element that was not popped before, including those accepted before a close.',
 ['schedules','histories','inputs'],'every interleaving of concurrent push/emplace/try_push/try_emplace/pop/try_pop/iteration/close calls, every capacity and every history',
 'Unit tests run a few fixed thread scripts under whatever schedule the OS picks and assert the sum or count of elements; they cannot enumerate interleavings or histories.',
 ['channel.hpp'],[('queue protected by one mutex; emplace_back at the tail, front()/pop_front at the head','channel::emplace/try_emplace/pop/try_pop')],
 ['return values of the public operations'],[('queue_','accepted, not yet delivered elements','channel.hpp')])
p('C02','channel never exceeds its capacity; try operations report the exact state',
 'A channel of capacity n never holds more than n accepted, undelivered elements. A try_push/try_emplace returns without waiting, and succeeds exactly if at that moment the channel is open and holds fewer than n elements; a try_pop returns without waiting, and yields an element exactly if one is present. A blocking push waits while the channel is full and a blocking pop waits while it is open and empty, and otherwise neither waits.',
 ['schedules','histories','configurations'],'every capacity, every history and every interleaving of operations',
 'Tests check a handful of single-threaded full/empty situations for one or two capacities.',
 ['channel.hpp'],[('size checks under the queue mutex and condition variable predicates','channel::emplace/try_emplace/pop/try_pop')])
p('C03','channel close is permanent, rejects new elements and lets old ones drain',
 'Once close() has returned, closed() is true forever, every push/emplace/try_push/try_emplace that starts afterwards returns false without adding anything, and pop, try_pop and iterators still hand out all remaining elements before reporting the end. Every producer or consumer that was blocked in the channel when it was closed returns: producers with false (unless their element was accepted), consumers with an element or nothing. A pop returns nothing only if the channel is closed and empty at that moment; closing twice is the same as closing once.',
 ['schedules','histories'],'every interleaving of close() with any number of running or blocked producers and consumers',
 'Tests close the channel at one or two fixed points; the race between close and the wait of a producer or consumer needs a specific interleaving.',
 ['channel.hpp'],[('closed flag set under the mutex, notify_all on both condition variables','channel::close')])
p('C04','no thread stays blocked in a channel although it could proceed',
 'Whenever no operation can make progress any more, no producer is blocked in push/emplace unless the channel is open and full, and no consumer is blocked in pop or in an iterator unless the channel is open and empty. This holds with spurious wakeups and when constructing or moving an element throws: a throwing operation leaves the channel usable, and does not strand another waiting thread.',
 ['schedules','histories','fault_sequences'],'every interleaving of any number of blocked producers and consumers with operations that enable them, including spurious wakeups and throwing element types',
 'A lost wakeup needs several waiters and a particular order of wait and notify; tests have at most one waiter per side, and never throw.',
 ['channel.hpp'],[('predicate waits, notify_one after each transfer, notify_all on close, hand-over of the notification on exceptions','channel::emplace/pop/close')])
p('C05','exchange_channel retains exactly the most recent value and hands it out once',
 'A pop, try_pop or iterator step on an exchange_channel yields the value of the most recent accepted push/emplace that was not yet handed out, and nothing that was overwritten by a later push; each accepted value is handed out at most once and unaltered. push/emplace never waits for a consumer and returns true exactly if the channel is open. A value whose push was rejected is never handed out.',
 ['schedules','histories','inputs'],'every interleaving of concurrent push/emplace/pop/try_pop/iteration/close calls and every history',
 'Tests use one producer and one consumer with fixed scripts; overwrite/pop races depend on the schedule.',
 ['exchange_channel.hpp'],[('optional value replaced and taken under one mutex','exchange_channel::emplace/pop/try_pop')])
p('C06','exchange_channel: close semantics and no stranded consumer',
 'After close() has returned, closed() stays true, pushes return false and change nothing, and a value that was pending at close is still handed out once before consumers see the end. A pop yields nothing only if the channel is closed and holds no value; a try_pop never waits. Whenever no operation can make progress any more, no consumer is blocked unless the channel is open and holds no value, also if moving a value out threw or spurious wakeups happened.',
 ['schedules','histories','fault_sequences'],'every interleaving of close/push with any number of blocked consumers, including spurious wakeups and throwing moves',
 'Needs a particular order of wait, notify and close with several consumers; tests have one consumer.',
 ['exchange_channel.hpp'],[('closed flag set under the mutex and notify_all; predicate wait; notify_one per push','exchange_channel::close/pop/emplace')])
p('C07','mutex gives exclusive access exactly for the lifetime of a guard',
 'At any time at most one guard of a mutex exists, and it refers to the value stored in that mutex; lock() waits until no other guard exists, and try_lock() yields a guard exactly if none exists. A guard keeps the mutex locked until it is destroyed or overwritten by move-assignment, moving or swapping transfers ownership without releasing it, and a released mutex can be locked again (a waiting thread gets it). What one guard holder wrote is what the next one sees.',
 ['schedules','histories'],'every interleaving of lock/try_lock/guard move/swap/destruction by any number of threads and every history of guard operations, for every lockable mutex type',
 'Tests lock once or twice in a fixed order; exclusion and hand-over are statements about all interleavings and all guard histories.',
 ['mutex.hpp'],[('guard = pointer + std::unique_lock, created by lock()/try_lock()','mutex::lock/try_lock, mutex_guard')])
p('C08','shared_mutex: many readers or one writer, for the lifetime of the guards',
 'At any time a shared_mutex has either at most one exclusive guard and no shared guards, or any number of shared guards and no exclusive one; all refer to the stored value. try_lock succeeds exactly if there is no guard, try_lock_shared exactly if there is no exclusive guard; lock and lock_shared wait exactly while they would conflict, and readers do not exclude each other. Destroying or overwriting a guard releases exactly its own share, moving or swapping transfers it, and waiting threads then proceed.',
 ['schedules','histories'],'every interleaving of shared/exclusive lock/try_lock and guard move/swap/destruction by any number of threads',
 'Tests cover a few fixed reader/writer orders.',
 ['shared_mutex.hpp'],[('guards over std::unique_lock / std::shared_lock','shared_mutex::lock*/try_lock*')])
p('C09','limit_allocator never lets live allocations exceed the shared byte budget',
 'The total size of all live allocations made through a limit_allocator and its copies, rebinds and moved-from originals never exceeds the limit; an allocation succeeds if its size fits into what is left (and the upstream succeeds) and fails with bad_alloc otherwise, leaving the budget unchanged. Deallocating, or a failing upstream allocation, returns exactly the bytes that were taken; blocks are obtained from and returned to the upstream with the same size. For the synchronized variant this holds for any number of concurrent threads. Whatever an upstream throws reaches the caller; an element count whose byte size is not representable fails without touching the budget.',
 ['schedules','histories','fault_sequences'],'every history of allocate/deallocate/copy/rebind/assign/swap over allocators sharing budgets, every upstream failure, every interleaving of threads',
 'Tests allocate sequentially around one limit with one thread and no upstream failure.',
 ['limit_allocator.hpp'],[('shared control block with compare-exchange (sync) or plain (unsync) counter; credit on upstream failure','limit_allocator::allocate/deallocate')])
p('C10','pool memory: live blocks are disjoint, large enough and reusable',
 'Every block handed out by a pool or pool_allocator is non-null, has at least the requested size, stays unmodified by the pool and does not overlap any other live block until it is deallocated; requests that fit a bucket size are served from that bucket\'s arena (and recycled by it), larger ones directly by operator new. Copies, moves, rebinds and container copies of a pool_allocator share one pool and compare equal, allocators of different pools compare unequal, and memory allocated through one can be freed through any equal one. A request whose byte size is not representable fails instead of returning a smaller block.',
 ['histories','inputs','configurations'],'every history of allocations/deallocations of every size in every order, every bucket configuration, every sharing history of allocators',
 'Tests fill a couple of containers; overlap and routing errors need specific sizes and orders.',
 ['pool_allocator.hpp'],[('one boost::pool per bucket size, first bucket that fits, fallback new[]/delete[]','pool::allocate/deallocate'),('shared_ptr<pool>','pool_allocator')])
p('C11','polymorphic and offset_ptr allocators act exactly as the allocator they hold',
 'All allocations and deallocations through a polymorphic_allocator go to the one allocator it currently holds, with unchanged arguments and pointers, and copy, move, assignment, swap, rebind and select_on_container_copy_construction preserve or transfer which allocator (kind and state) is held, as holds_allocator reports. Two polymorphic allocators are equal exactly if they hold the same kind and these are equal, and the propagation traits are the conjunction of those of the alternatives. offset_ptr_stl_allocator does the same for its single upstream while handing out offset pointers that convert back to the same addresses. Whatever the held allocator throws reaches the caller.',
 ['histories','configurations'],'every history of operations on a set of allocators and blocks, every combination of held allocators and propagation traits',
 'Tests construct each variant once and allocate one object.',
 ['polymorphic_allocator.hpp'],[('variant of allocators + visit','polymorphic_allocator'),('wrapping of the upstream pointer','offset_ptr_stl_allocator')])
p('C12','variant2 never leaks, double-destroys or resurrects a value, whatever throws',
 'After any sequence of construction, copy/move construction and assignment, value assignment, emplace and swap, with any special member of the alternatives throwing at any point, a variant2 either holds exactly one live object of the alternative it reports, or reports valueless and holds none; every constructed object is destroyed exactly once. If the construction that replaces a value throws, the variant is valueless; if an assignment to the same alternative throws, the alternative is kept; otherwise the variant holds the requested value. This holds equally for every mix of trivial and non-trivial special members in the two alternatives.',
 ['histories','fault_sequences','configurations'],'every history of operations over variants of all alternative mixes, with an exception at every throwing point',
 'Tests check single operations from a fresh variant, with one kind of throwing type.',
 ['variant2.hpp'],[('discriminant switch with destroy/construct and valueless on exception','variant2 special members, operator=, emplace')])
p('C13','variant2 observers agree with the held alternative and with std::variant',
 'index, holds_alternative, get, get_if, visit, comparison operators, hash and formatting of a variant2 give the result std::variant gives for the same alternatives and values (including a valueless variant: get and visit throw bad_variant_access, get_if yields null, it orders before everything and equals only another valueless one). get and visit give access to the held object itself with the value category and constness of the variant. Equal variants have equal hashes. An exception thrown by a visitor or by a comparison or formatter of an alternative reaches the caller.',
 ['inputs','histories'],'every pair of variant states (first, second, valueless) and values',
 'Tests compare a few value pairs; the full matrix with valueless states is not enumerated.',
 ['variant2.hpp'],[('get/get_if/visit/compare implementations','variant2.hpp detail_variant2 and operators')])
p('C14','inplace_polymorphic holds at most one object, destroyed exactly once',
 'After any sequence of construction, emplace, copy/move construction and assignment, with any constructor or copy/move function throwing at any point, an inplace_polymorphic either holds exactly one live object of the type last stored, reached by get, * and -> through the base interface at a suitably aligned address inside the object, or is valueless, holds none, and access throws bad_variant_access. Every object created in it is destroyed exactly once, before its replacement is constructed. A valueless source makes the target valueless, and a throwing construction leaves it valueless.',
 ['histories','fault_sequences','configurations'],'every history of operations over several objects, with an exception at every throwing point, for trivially and non-trivially destructible hierarchies',
 'Tests perform single operations; valueless handling after a throw in a longer history is not covered.',
 ['inplace_polymorphic.hpp'],[('drop/copy_from/move_from with valueless flag','inplace_polymorphic')])
p('C15','static_string stores and compares text exactly as given, for every char type',
 'A static string of any character type constructed from text reports exactly that size and exactly those characters (including embedded null characters) through data, size, empty, indexing, front, back, forward and reverse iteration, view conversion and stream output. Equality and ordering against strings and views are those of the standard string view of the same contents. Copies are independent: writing characters through one string never changes another.',
 ['inputs','histories'],'every length and content, every character type, every history of copies, moves, assignments, swaps and writes',
 'Tests use a few short char strings.',
 ['static_string.hpp'],[('allocation and memcpy of size characters','basic_static_string constructors and copy_assign_from_other')])
p('C16','static_string follows the allocator rules and never leaks or mismatches memory',
 'Every buffer a static_string allocates is deallocated exactly once, with the size it was allocated with, by an allocator equal to the one it came from; an empty string owns no buffer. Copy assignment, move construction, move assignment and swap propagate the allocator exactly as its propagation traits demand, move and swap take over the buffer whenever allocators permit, and a moved-from or failed-to-assign string stays valid. An allocation failure leaves no leak and both strings usable.',
 ['histories','configurations','fault_sequences'],'every history of string operations, every combination of propagation traits and (un)equal allocators, an allocation failure at every allocation',
 'Tests use std::allocator only (always equal, never failing).',
 ['static_string.hpp'],[('propagate_on_container_* branches, swap_data, copy_assign_from_other','basic_static_string::operator=')])
p('C17','flex_array: size, bounds and contents are exact in every mode',
 'For static, limited-dynamic and dynamic flex_arrays, construction from lists, ranges of any iterator category and other flex_arrays stores exactly the given elements in order (a range shorter than a static extent fills the first elements), resize keeps the common prefix, and size, iteration in both directions, indexing, span conversion, copies, moves and swaps agree with that sequence. Sizes that do not fit the static extent or the maximum raise length_error (constructors) or invalid_argument (resize), never write out of bounds, and resize leaves the array unchanged in that case. Comparison is equality and lexicographic order of the element sequences. An exception thrown by an element while it is copied, assigned, converted or compared reaches the caller, and nothing is leaked.',
 ['inputs','histories','configurations'],'every size around the limits, every element sequence, every history of resize/assign/swap',
 'Tests use a few sizes per mode.',
 ['flex_array.hpp'],[('size checks in constructors and resize','flex_array'),('comparison of inner storage','flex_array_inner')])
p('C18','defer guards run exactly once, in reverse order, under exactly their policy',
 'A scope guard runs its function exactly once when its scope is left - always for the unconditional guard, only when the scope is left by an exception for the fail guard, only when it is left without one for the success guard - and in reverse order of declaration. This holds for every nesting of scopes, catch blocks and guards, including guards that live in code executed during the unwinding caused by another exception. A guard without a function does nothing.',
 ['programs','histories','fault_sequences'],'every nesting of scopes, guards, throws, catches and cleanup code',
 'Tests check each guard once with and without a throw; nested unwinding is not enumerated.',
 ['defer.hpp'],[('uncaught_exceptions count captured at construction and compared in the destructor','ScopeExitGuard')])
p('C19','next_to_iter/range/view adaptors expose exactly the underlying sequence',
 'Iterating an adapted rust-style iterator yields exactly the values the underlying next() (next_back() for reversed iteration) returns, in order, until it ends, no matter how ++, postfix ++, +=, + and peek are mixed: peek shows the element the next increment moves to and never skips or repeats one, += n equals n increments, and a copied iterator is independent. Every begin()/rbegin()/reversed() of a range or view starts a fresh traversal; size, empty, bool, front, back, index and advance agree with that sequence. An exception thrown by next, next_back, nth or nth_back reaches the caller.',
 ['histories','inputs'],'every sequence, every history of increments/skips/peeks/copies on any number of iterators',
 'Tests do a handful of fixed walks.',
 ['next_to_range.hpp'],[('current and peeked element caches, advance/advance_by','next_to_iter_impl'),('fresh iterator creation','next_to_range/next_to_view')])
p('C20','range() generates exactly the arithmetic progression from start up to stop',
 'range(start, stop, step) yields start, start+step and so on as long as the value is before stop in the direction of step (like Python), for every integral type including values at the limits of the type, and range(stop) and range(start, stop) use start 0 and step 1; a zero step is rejected. size, empty, indexing, front, back, advance, forward and reversed iteration all describe the same sequence. Generation always terminates and never passes stop.',
 ['inputs'],'every start, stop and step of every integral type, including type limits, and every mix of forward/reverse/skip operations',
 'Tests use small ints with a few steps; the limits and non-divisible spans are not covered.',
 ['ranges.hpp'],[('next/nth/next_back/remaining arithmetic','range_iterator')])
p('C21','range algorithms equal their mathematical definition on every sequence',
 'all_of, any_of, none_of, all_equal, all_distinct, unique, remove_element, empty, non_empty, is_sorted_unique and lexicographical three-way comparison return, for every input range, what their definition over the element sequence says: e.g. all_distinct is true iff no two elements are equal, unique keeps the first occurrence of each element in order, remove_element drops all and only the elements equal to the given one, is_sorted_unique is true iff the sequence is strictly increasing. Results do not depend on the iterator category, hashability of elements, or on projections being applied more than once. An exception thrown by an element, predicate, projection or iterator reaches the caller.',
 ['inputs'],'every sequence up to a bounded length over a bounded alphabet, hashable and merely orderable element types, all iterator categories',
 'Tests check a few sequences per algorithm.',
 ['ranges.hpp'],[('algorithm function objects','ranges_algo_detail')])
p('C22','opt_min, opt_max, min, max and minmax variants honour absent values and ties',
 'The optional-aware minimum and maximum functions return the extreme among the present values under the given comparison, ignoring absent ones, and absent only if all are absent; on ties the earliest of the tied arguments is the result, for the minimum as well as for the maximum. This holds equally for the two-argument, list, iterator-pair and range forms, with and without custom comparators, and for elements that are not optional; the result is an unaltered copy of one of the arguments. An exception thrown by an element or comparator reaches the caller.',
 ['inputs'],'every combination of absent/present values and ties, every supported arity and comparator',
 'Tests check a few combinations.',
 ['opt_minmax.hpp'],[('pairwise selection','opt_minmax.hpp')])
p('C23','ipow is exact integer exponentiation or reports over-/underflow',
 'ipow(base, exp) equals base multiplied exp times for every integral base and exponent whose result is representable in the result type, with ipow(x, 0) = 1 for every x; a negative exponent gives the exact quotient truncated towards zero (0 unless the base is 1 or -1). If the exact result is above the maximum of the type of the base it throws overflow_error, if it is below the minimum it throws underflow_error, and it never throws when the result is representable.',
 ['inputs'],'every base and exponent of every width with representable result, boundaries of 8..64 bit types',
 'Tests compare a few small powers.',
 ['ipow.hpp'],[('square-and-multiply','ipow')])
p('C24','pointer_tag_pair returns exactly the pointer and tag that were stored',
 'For every pointer (null, any address aligned as required, pointers to derived classes, void and const pointers with promised alignment) and every tag that fits the tag bits, a pointer_tag_pair returns exactly that pointer and that tag, through accessors and structured bindings. Converting to the tagged pointer and back, copying and swapping preserve both; two pairs are equal exactly if pointer and tag are equal, and ordering is a strict total order consistent with equality.',
 ['inputs','configurations'],'every tag value and pointer, every number of tag bits, integer and enum tag types',
 'Tests use one or two pointers and tags.',
 ['pointer_tag_pair.hpp'],[('masking and or-ing of tag bits','pointer_tag_pair')])
p('C25','switch_cases and for_* visit exactly the selected cases, once, in order',
 'A run-time value dispatched with switch_cases or switch_bool invokes the handler with exactly the compile-time constant equal to it, exactly once, and returns its result; a value outside the half-open case range (whichever bound is larger) invokes the fallback exactly once, and never any case. for_types, for_values and for_range invoke the body once for every listed type or value (an ascending or descending half-open range), in order, and with nothing else. An exception thrown by the body reaches the caller, and no further case or element is visited.',
 ['inputs','configurations'],'every case range, every run-time value inside and outside of it, ascending and descending loop ranges',
 'Tests dispatch a few values of a few ranges.',
 ['switch_cases.hpp','for.hpp'],[('generated switch / fold expression','switch_cases.hpp, for.hpp')])
p('C26','integral sequences, tuples and variants index exactly their declared range',
 'An integral sequence generator yields exactly the integers from its first to its last bound in the declared direction. An integral_template_tuple over such a range has one independent element per integer, reachable by that integer only, initialised uniformly or individually as requested, and sub-tuples refer to the matching elements; an integral_template_variant over such a range holds exactly one of them and reports, visits and replaces exactly that one, rejecting access to another. An exception thrown by an element reaches the caller, with every element made so far destroyed exactly once.',
 ['configurations','histories','inputs'],'every pair of bounds (ascending, descending, single), every history of assignments',
 'Tests instantiate a few ranges.',
 ['integral_sequence.hpp','integral_template_tuple.hpp','integral_template_variant.hpp'],[('recursive/expanded index mapping','integral_*.hpp')])
p('C27','standard_layout_tuple and tuple algorithms act on all elements, in order',
 'A standard_layout_tuple stores each element unaltered, at increasing addresses in declaration order, is standard-layout when its elements are, and get, size, structured bindings and comparison behave as for std::tuple of the same elements. tuple_for_each, tuple_fold and the related tuple algorithms visit every element exactly once, in order, with the element itself (not a copy) and thread the accumulator through unchanged. An exception thrown by an element or by the function passed to an algorithm reaches the caller, and nothing further is visited.',
 ['inputs','configurations'],'every arity and element type mix up to a bound, every content',
 'Tests check single tuples.',
 ['standard_layout_tuple.hpp','tuple_algorithm.hpp'],[('recursive storage','standard_layout_tuple.hpp'),('index folds','tuple_algorithm.hpp')])
p('C28','fmt_join formats every element once, separated exactly between elements',
 'Formatting a joined range writes every element of the range once, in order, each formatted with the element format specification that was given, with the separator exactly between consecutive elements, and writes nothing for an empty range. It works for every range of formattable elements, every separator (also empty or with special characters) and inside larger format strings without disturbing what surrounds it. An exception thrown by the formatter of an element or by the range reaches the caller.',
 ['inputs'],'every sequence, separator and element format specification',
 'Tests format one or two ranges.',
 ['fmt_join.hpp'],[('formatter with first-element flag','fmt_join.hpp')])
p('C29','type_list operations compute exactly their set/sequence definition',
 'Every type_list operation (size, nth, first, last, concat, transform, filter, flatten, contains, position, find, sets and predicates over types, iteration) yields, for every list of types, the list, type, index or truth value that its definition over the sequence of types says, keeping order and multiplicity as defined. Lazy conditionals and switches select exactly the first matching branch and do not instantiate the others, and the type traits (const/reference copying, literal types, ...) equal their definitions.',
 ['programs','configurations'],'every list of types up to a bound and every operation argument',
 'Tests assert a few example lists.',
 ['type_list.hpp','lazy_conditional.hpp','type_traits.hpp'],[('recursive templates','type_list.hpp')])
p('C30','sandbox classifies how a function ended, without touching the caller',
 'Running a function in the sandbox reports exactly how it ended: success for returning nothing or zero, failure for returning another exit code, aborted for throwing, and the number of the signal that terminated it otherwise, also when the caller had installed handlers for or blocked that signal. The calling process is not affected: its memory and signal dispositions are unchanged by what the function did, no destructor or exit handler of the caller runs in the child, and no child process is left behind. Output written before and inside the function reaches its stream exactly once. Whatever happens in the child, also when its output cannot be flushed, it never continues in the code of the caller.',
 ['fault_sequences','histories','crash_points'],'every way a function can end (return, exception, exit code 0-255, every terminating signal), in every sequence of runs',
 'Tests run two or three endings.',
 ['sandbox.hpp'],[('fork, reset of signal state, waitpid and status decoding, stream flushing','sandbox.hpp')])
p('C31','function helpers forward arguments, results and overloads unchanged',
 'overloaded and match call exactly the overload that ordinary overload resolution selects for the held alternative; bind_front variants and the member-function and debug helper macros call the wrapped function exactly once, with bound arguments first, preserving order, value category and identity of all arguments and of the result. None of them copies a call argument that was passed by reference or evaluates an argument twice (the visitors given to match are stored in the overload set as the standard overloaded idiom does). An exception thrown by the function reaches the caller.',
 ['inputs','programs'],'every mix of lvalue/const/rvalue arguments and results and all held alternatives',
 'Tests call each helper once or twice.',
 ['overloaded.hpp','functional.hpp','memfn.hpp','dbg.hpp'],[('perfect forwarding','functional.hpp, overloaded.hpp')])
p('C32','operator<< for formattable types writes exactly their formatted text',
 'Including format_to_ostream makes exactly the types that have a formatter for the character type and no operator<< of their own writable to streams of that character type; all other types keep the operator<< they have or remain unwritable. Writing such a value writes exactly what std::format("{}") gives, independent of the width, fill and other format flags of the stream, for narrow and wide streams. It behaves like any other inserter towards the stream: nothing is written to a stream that is not good, a buffer that does not take all characters sets the bad bit (and throws if the stream is set up so), tied streams are flushed before and unitbuf streams after, and the stream itself is returned.',
 ['inputs','histories','fault_sequences'],'every history of writes, state changes and buffer failures on a stream',
 'Tests write one value to a good string stream.',
 ['format_to_ostream.hpp'],[('operator<< with sentry and ostreambuf_iterator','format_to_ostream.hpp')])
p('C33','fixed-width integer literals have exactly the named type and value',
 'A literal with one of the suffixes u8, i8, ..., u64, i64, usize, isize, uptr, iptr is a constant of exactly the type that the suffix names, with the written value if the type can represent it and otherwise the value modulo 2^bits (two\'s complement for signed types).',
 ['inputs'],'every suffix with values around every power of 2^8, 2^16, 2^32, 2^64',
 'Tests use one value per suffix.',
 ['stdint.hpp'],[('user defined literals','stdint.hpp')])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))
