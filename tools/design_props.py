TEXT={}
TEXT['C01']='''
Specified: every member of `grouped_list` over an arbitrary list and group map. Class invariant: elements are ordered by the rank of their group key under the
list's own comparator, positions are distinct, the map has exactly one entry per non-empty group, which refers to the group's first element. `push_back`/`push_front`
put the new element after/before all elements of its group and leave the relative order of all others; `erase`, `clear` and the copy constructor preserve it (the copy is an order isomorphism). Comparator objects are opaque; the
rank function depends on the comparator object (so losing its state is visible). Over these contracts: `signal_impl::connect*`, cleanups, disconnects, `operator()` iterate
this list from begin to end in order (`spec_sig`, `spec_iter`), and `signal` forwards positions and groups (`spec_sigobj`).'''
TEXT['C02']='''
Specified: `slot_call_iterator_t` (construct, dereference, increment, equal, copies sharing one cache) over an arbitrary list and arbitrary interference; `slot_call_iterator_cache`; `signal_impl::operator()`
(combiner called exactly once with [begin,end) of the list of the state taken at the start, on the arguments given, its value returned); `variadic_slot_invoker` and
`call_with_tuple_args` for arities 0 to 9 (`spec_args`: each slot gets exactly the invocation's arguments in order, unmoved, exactly one call per dereference). Ghost trace: bodies called and last result. An element is skipped exactly if disconnected, blocked or expired when reached.'''
TEXT['C03']='''
Specified: every member of `connection`, `connection_body`, `connection_body_base` under interference; ghost CONN is monotone (rely and guarantee: a connection never comes back). Postconditions: after `disconnect` CONN is false for this body, unchanged for all others;
`connected()` true implies CONN at the time of the check; iterators start a slot only if CONN held under the lock in the same step.'''
TEXT['C04']='''
Specified: `get_blocker`, `blocked`, `nolock_nograb_blocked`, `shared_connection_block`; the blocker's reference count is symbolic, blockers of other objects come and go
(rely). `block()` twice keeps one reference; the blocker is alive iff a block holds it; skip condition of the iterator is exactly blocked at the time of the check.'''
TEXT['C05']='''
Specified: `slot_base::lock/expired`, all `track*`, all constructors of slot (function, conversion from another slot type, copy), `tracked_objects_visitor` for
every category (trackable, signal, pointer, reference wrapper, function pointer), `nolock_grab_tracked_objects`, iterators. Ghosts: EXPD (expired so far, monotone, may grow at any time for
objects without owner here), SEEN (observed alive), containers as sets of held objects. Obligation at every slot call: all tracked objects of the slot were observed alive and, if locked through a shared pointer, are held. Held
references are dropped when the invocation moves on and at its end. `foreign_ptr.hpp` and the lock/expired visitors of `slot_base.hpp` (`spec_foreign`): closed drivers over opaque weak/shared pointer classes and the real boost::variant; ghost list of living copies: each copy refers to what its source did, is destroyed once, also when copies or allocations throw; locking a trackable's pointee takes no reference.'''
TEXT['C06']='''
Specified: the state (list, combiner) is shared with invocations in progress unless this thread proves the reference unique under the mutex. Obligation at every modification of
a list or combiner: nobody else refers to it. `invocation_state` copies; `set_combiner`, `connect`, cleanups; `operator()` uses only the state it took.'''
TEXT['C07']='''
Specified: `disconnect(group)`, `disconnect(slot)` (wrapped in a bound extended slot function or a weak signal too), `disconnect_all_slots`, `num_slots`, `empty`, `nolock_cleanup_connections_from` (removes only what is disconnected), `slot::expired`.
Exactness by quantified postconditions over the list: for every element, disconnected afterwards iff it was before or it matches. Counting: PS(x), the number of live elements before x, defined by its two equations.'''
TEXT['C08']='''
Specified: all constructors, assignments, moves, swaps, comparison, release and destructor of `connection` and `scoped_connection`, for all aliasings of the operands, all handles
empty/dead/alive.'''
TEXT['C09']='''
Specified: `operator()` of both combiners for opaque class, int, reference and void results, over an arbitrary range length, arbitrary pattern of expired_slot and other exceptions, throwing moves of the value.'''
TEXT['C10']='''
Obligations everywhere: at each call of foreign code (slot, combiner, destructor of slot function, release of a tracked object, of a blocker) no mutex is held; at each lock no mutex is held; at each return/throw none is held. Assumed: code run while copying slot functions/groups inside connect does not use the signal (the property is about slots, combiners and destructors).'''
TEXT['C11']='''
Guarded-by obligations on every access to shared fields of bodies and signal state, with ghost ownership (data no other thread can reach, or nobody modifies). Proved modularly under the rely of section 1.'''
TEXT['C12']='''
Progress of the cleanup: it looks at as many elements as asked for (or to the end), only connected ones stay, every connect looks at two more from where the last one stopped. Ghost ledger: slot use count = 1 if connected + number of invocations using it; a thread's own uses are tracked; released exactly when 0, exactly once; the reference goes to the garbage list of the lock. `set_active_slot`, `~cache`, iterators, invocations on normal and exceptional exit. Bound on bookkeeping: every connect examines two elements (or the whole list) from the cursor.'''
TEXT['C13']='''
Specified: `deconstruct` (all access categories, arities 0, 1, 3, 9), `postconstructor_invoker`, `deconstruct_deleter`, `deconstruct_ptr` with both deleters, legacy virtual hooks. Ghost event sequence of construct/postconstruct/predestruct/destroy per object.'''
TEXT['C14']='''
Specified: every public member, over buffers in place and allocated with arbitrary size, capacity and contents. Every piece of storage (the in-place storage of a buffer, an allocation, a range of the caller) is a region with a
capacity, an allocator and two ghost functions of the index: ALIVE (a living element is there) and VALUE. The class invariant ties `buffer_`, `size_`, `capacity_` to one region with exactly [0,size) alive; postconditions give the whole sequence (for insert: prefix, inserted part, shifted
tail). Constructors, assignments and destructors of the opaque element update the ghosts and may throw; obligations at each: construction only where nothing lives, assignment and destruction only where something does, inside the capacity; at each return *and throw*: nothing alive outside
a buffer, every allocation owned by one buffer or given back once, whole, to its allocator. Exceptional postconditions: valid after any failure; unchanged for reserve, shrink_to_fit, append. Loops (`destroy_back_n`, `assign_impl`, `swap_helper`, ...) get inductive invariants from candidates over the ghost functions. Five instances: throwing element (10 and 0 in place), noexcept copies, trivial assignment with non-trivial copy, `long` (memcpy paths).'''
TEXT['C15']='''
Specified: `connect_extended` (same obligations as connect, tagged C15 as well, plus: the connection stored in the bound function is the one returned and refers to the new body), `bound_extended_slot_function` calls (connection first, then the arguments; result; exceptions), `replace_slot_function` (same tracked objects).'''
TEXT['C16']='''
Exceptional postconditions of every operation: list, map, keys, combiner as before or only cleaned of dead connections; cleanup cursor valid; lock released; uses released. All allocations and user copies may throw. A slot throwing expired_slot is disconnected, anything else passes.'''
TEXT['C17']='''
Specified: construct, move construct/assign (also self), swap, destroy, null tests, every forwarding operation on null and non-null signals, `weak_signal`, for all aliasings and use counts.'''
TEXT['C18']='''
Specified: every member of `signals2::mutex`, `dummy_mutex`, `unique_lock` against a state machine of one pthread mutex, with and without NDEBUG.'''
