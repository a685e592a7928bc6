import json
H="include/boost/signals2/"
def P(id,title,stmt,over,qtext,why,files,state,mech,obs,hook=None):
    return dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=[H+f for f in files],state=[dict(name=a,meaning=b,where=H+c) for a,b,c in state],
        mechanism=[dict(name=a,where=H+b) for a,b in mech],observe_at=obs,hook_needed=hook))
L=[]
L.append(P("C01","Slots run in group order, then in connect order",
"An invocation runs the slots of a signal in this order: ungrouped slots connected at the front, then the grouped slots in ascending order of their group as defined by the signal's own GroupCompare object, then ungrouped slots connected at the back; among the slots of one group (and among the front, and among the back slots) a slot connected at_back comes after, and one connected at_front before, all those already there. This holds after every history of connects, disconnects, automatic disconnections and invocations, including when the internal list is copied or cleaned up.",
["histories","inputs"],"all sequences of connect (grouped/ungrouped, front/back), disconnect, expiry, invocation; all strict weak orders on groups, stateful comparators included",
"ordering_test runs one fixed set of about a dozen connects with std::less and std::greater; the interplay of group map, list copies and incremental cleanup depends on the whole history.",
["detail/slot_groups.hpp","detail/signal_template.hpp"],
[("slot list","the slots in call order","detail/slot_groups.hpp"),("group map","first list element of each group","detail/slot_groups.hpp")],
[("grouped_list push_front/push_back/erase/copy","detail/slot_groups.hpp"),("nolock_connect, cleanup","detail/signal_template.hpp")],
["order of slot calls in one invocation"]))
L.append(P("C02","An invocation calls every active slot exactly once and delivers its result",
"When a combiner iterates over the whole slot range, every slot that is connected, unblocked and not expired is called exactly once, with the arguments given to the signal, and no other slot is called; a slot whose iterator is never dereferenced is not called. Dereferencing the same position repeatedly, or through a copy of the iterator, yields the same cached result without calling the slot again, and the value returned by the combiner is the value returned by the invocation.",
["histories","inputs","programs"],"all slot lists, all patterns of blocked/disconnected/expired slots, all combiners using the iterators as single pass input iterators",
"signal_test uses a handful of slots and two combiners; skipping, caching and end handling depend on the pattern of inactive slots and the iterator operations of user combiners.",
["detail/slot_call_iterator.hpp","detail/signal_template.hpp","detail/variadic_slot_invoker.hpp","detail/result_type_wrapper.hpp"],
[("result cache","result of the current slot","detail/slot_call_iterator.hpp"),("iterator position","current list position","detail/slot_call_iterator.hpp")],
[("lock_next_callable, dereference, increment, equal","detail/slot_call_iterator.hpp"),("operator()","detail/signal_template.hpp"),("call_with_tuple_args","detail/variadic_slot_invoker.hpp")],
["calls of slots, arguments seen by slots, result of invocation"]))
L.append(P("C03","Disconnection takes effect at once, is final and affects only its slot",
"Once disconnect() on a connection has returned, connected() is false for every handle to that connection forever, the slot is not started by any later invocation nor by a later step of an invocation in progress, and it is not counted by the signal. Disconnecting again, disconnecting an empty handle, or using a handle after the signal was destroyed has no effect and is safe, and no other connection is disturbed.",
["histories","schedules"],"all histories and interleavings of connect, disconnect through any handle copy, invocation and signal destruction",
"tests disconnect one or two slots at fixed points; final and immediate effect is a statement about all later histories, copies of handles and in-flight invocations.",
["connection.hpp","detail/slot_call_iterator.hpp"],
[("connected flag","set once, cleared for good by disconnect","connection.hpp")],
[("connection::disconnect, connection_body_base::nolock_disconnect","connection.hpp"),("lock_next_callable rechecks under the lock","detail/slot_call_iterator.hpp")],
["connected() of all handle copies; slot calls after disconnect"]))
L.append(P("C04","A slot is blocked exactly while a blocker exists",
"A connected slot is skipped by invocations exactly while at least one shared_connection_block on its connection (any instance, or a copy of one) is blocking, and runs again once the last one has unblocked or been destroyed; block() and unblock() are idempotent per object. connection::blocked() is true if the connection is blocked or disconnected, blocking() reports the state of its own object even after the connection is gone, and blocking never disconnects a slot or changes any other connection.",
["histories","schedules"],"all sequences of creating, copying, blocking, unblocking and destroying blocks, with any number of blocks per connection, interleaved with disconnects and invocations",
"shared_connection_block_test uses two blocks on one connection in one fixed order.",
["shared_connection_block.hpp","connection.hpp","detail/slot_call_iterator.hpp"],
[("blocker","shared object alive while some block is active","connection.hpp")],
[("get_blocker, blocked, nolock_nograb_blocked","connection.hpp"),("block, unblock, blocking","shared_connection_block.hpp")],
["blocked(), blocking(), slot calls"]))
L.append(P("C05","A slot never runs without its tracked objects",
"If any object tracked by a slot (weak_ptr, shared_ptr, foreign pointer, trackable base, other signal or slot) is gone, the slot is not called by an invocation that reaches it, its connection becomes disconnected, and calling or locking the slot object directly throws expired_slot instead of running the function. While a slot runs, every object it tracks through a shared pointer is kept alive until the slot has returned, and tracking does not otherwise keep the objects alive.",
["histories","schedules"],"all sets of tracked objects of all kinds, and every point at which a tracked object may expire relative to connect, invocation, copying of slots and queries",
"track_test and trackable_test expire one object at one quiet moment; expiry between lock and call, the position of the expired object in the set and copies of slots are not covered.",
["slot_base.hpp","connection.hpp","trackable.hpp","detail/slot_template.hpp","detail/foreign_ptr.hpp","detail/tracked_objects_visitor.hpp","detail/slot_call_iterator.hpp"],
[("tracked objects","weak references owned by the slot","slot_base.hpp"),("tracked_ptrs","strong references held during the call","detail/slot_call_iterator.hpp")],
[("slot_base::lock, expired, track, track_foreign","slot_base.hpp"),("nolock_grab_tracked_objects","connection.hpp"),("lock_next_callable","detail/slot_call_iterator.hpp")],
["slot calls, connected(), expired_slot exceptions, use counts of tracked objects"]))
L.append(P("C06","A running invocation is isolated from connects and combiner changes",
"The set and order of slots an invocation can call, and the combiner it uses, are those the signal had when the invocation started, minus slots that become disconnected, blocked or expired before they are reached. Slots connected and combiners installed while it runs, from a slot or from another thread, take effect only for invocations started later, and no modification of the signal ever changes or invalidates the list or combiner a running invocation is using.",
["histories","schedules"],"all modifications (connect, disconnect, set_combiner, cleanup, nested invocation, destruction or move of the signal object) at every point of a running invocation",
"no test modifies the combiner during an invocation and only a few connect inside a slot; isolation depends on the combination of modifications and on interleavings.",
["detail/signal_template.hpp"],
[("shared state","list and combiner currently in force, copied on write while in use","detail/signal_template.hpp")],
[("operator() takes a copy of the state; nolock_force_unique_connection_list, set_combiner, force_cleanup_connections copy on write","detail/signal_template.hpp")],
["slots called by an invocation while modifications happen"]))
L.append(P("C07","Selective disconnects and slot counts are exact",
"disconnect(group) disconnects exactly the slots connected with an equivalent group, disconnect(function) exactly those whose function (also when wrapped as extended slot or as signal) equals the given one, and disconnect_all_slots all of them. num_slots() is exactly the number of slots that are connected and not expired, empty() is true if and only if that number is 0, and internal cleanup never removes a slot which is connected.",
["histories","inputs"],"all lists of slots, groups, functions and disconnected/expired patterns",
"tests use lists of at most a few slots; the loops over the list and the cleanup cursor must be right for every length and pattern.",
["detail/signal_template.hpp","detail/slot_groups.hpp"],
[("connection list","see C01","detail/slot_groups.hpp"),("cleanup cursor","where the incremental cleanup continues","detail/signal_template.hpp")],
[("disconnect, do_disconnect, disconnect_all_slots, num_slots, empty","detail/signal_template.hpp"),("nolock_cleanup_connections_from","detail/signal_template.hpp")],
["num_slots(), empty(), connected() of all handles"]))
L.append(P("C08","Connection handles refer, transfer and release faithfully",
"A connection returned by connect refers to that slot; copies, assignments, moves and swaps of handles make the target refer to what the source referred to, moving leaves the source empty, copies compare equal while handles to different live connections do not, and operator< orders handles consistently with that. A scoped_connection disconnects its connection exactly when it is destroyed or assigned another one, unless it was moved from, swapped away or released; release() returns a handle to the still connected slot.",
["histories","programs"],"all sequences of construct, copy, move, assign, swap, release and destroy on connection and scoped_connection objects, self-assignment included",
"connection_test exercises one instance of each operation; sequences and aliasing are not covered.",
["connection.hpp"],
[("weak body pointer","what the handle refers to","connection.hpp")],
[("constructors, assignments, swap, release, destructor","connection.hpp")],
["connected() of the handles involved"]))
L.append(P("C09","Library combiners return the last value and visit every slot",
"last_value and optional_last_value dereference every position of the range exactly once, in order; they skip a position whose dereference throws expired_slot and let every other exception pass. They return the value of the last position that yielded one; when there is none optional_last_value returns an empty optional and last_value throws no_slots_error, while the void versions just visit all positions.",
["inputs"],"all ranges, all patterns of positions that yield a value, throw expired_slot or throw something else; value and reference results",
"tests use ranges of a few slots without a systematic treatment of throwing positions.",
["last_value.hpp","optional_last_value.hpp"],
[],[("operator()","last_value.hpp"),("operator()","optional_last_value.hpp")],["returned value or exception, positions dereferenced"]))
L.append(P("C10","Slots and object destructors never run with a library mutex held",
"No slot, combiner, destructor of a tracked object, and no destructor of a disconnected slot's function is ever run by the library while it holds one of its mutexes, so that such code may use the same signal freely. The library locks at most one mutex at a time, never locks one it already holds, and has released every mutex when an operation returns or throws.",
["schedules","histories","programs"],"all entry points, all interleavings with other threads releasing references, all exceptions from user code",
"deadlock_regression_test covers two known scenarios; whether the last reference is dropped under a lock depends on what other threads do at that moment.",
["connection.hpp","detail/signal_template.hpp","detail/slot_call_iterator.hpp","detail/unique_lock.hpp"],
[("garbage list of the lock","references released after unlocking","connection.hpp")],
[("garbage_collecting_lock, unique_lock","connection.hpp"),("dec_slot_refcount and release_slot","connection.hpp")],
["which code runs while the signal's Mutex is locked"]))
L.append(P("C11","Signals and connections can be shared between threads without data races",
"With a real mutex as Mutex, any number of threads may invoke, connect, disconnect, block, query and set or read the combiner on one signal and its connections concurrently: every access to state shared between threads is either made while holding the signal's mutex or is to data that no thread modifies as long as another can reach it.",
["schedules"],"all interleavings of all thread safe operations of signal, connection, and shared_connection_block",
"a test run sees one schedule; no test runs concurrent operations under a race detector.",
["connection.hpp","detail/signal_template.hpp","detail/slot_call_iterator.hpp","shared_connection_block.hpp"],
[("connected flag, slot, slot use count, blocker of a connection","protected by the signal's mutex","connection.hpp"),("shared state, cleanup cursor","protected by the signal's mutex","detail/signal_template.hpp")],
[("locks taken by every operation; copy on write of lists in use","detail/signal_template.hpp")],
["accesses to shared state"]))
L.append(P("C12","A slot outlives its running calls and is released once disconnected",
"The function object of a slot is not destroyed while an invocation is running it, even if it is disconnected meanwhile by itself or by another thread; it is destroyed, exactly once, as soon as the slot is disconnected and no invocation is using it. An invocation leaves no use of a slot behind whether it ends normally or by an exception, and repeated connects and disconnects do not make the signal's bookkeeping grow without bound.",
["histories","schedules"],"all interleavings of disconnect and running invocations, nested invocations, exceptions and early termination by combiners",
"deletion_test and dead_slot_test check a couple of self-deleting slots; use counts over nested and concurrent invocations with early exits are not covered.",
["connection.hpp","detail/slot_call_iterator.hpp","detail/signal_template.hpp"],
[("slot use count","1 while connected plus 1 per invocation using it","connection.hpp")],
[("inc_slot_refcount, dec_slot_refcount, release_slot","connection.hpp"),("set_active_slot, ~slot_call_iterator_cache","detail/slot_call_iterator.hpp")],
["lifetime of the slot's function object"]))
L.append(P("C13","deconstruct pairs construction with postconstruct and predestruct",
"An object made with deconstruct or deconstruct_ptr is completely constructed, then adl_postconstruct runs exactly once before the object is handed out (using the same intermediate object again does not run it again), and adl_predestruct runs exactly once, before destruction, when the last owner goes away. The object is destroyed exactly once, constructor arguments and those for postconstruct are passed on unchanged, and an exception from constructor or postconstruct leaks nothing and destroys nothing that was not constructed.",
["inputs","fault_sequences"],"all constructor and postconstruct arguments, every point at which constructor, postconstruct or allocation throws, repeated use of the intermediate object",
"deconstruct_test checks the good case and few orders; exceptions in the constructor or in postconstruct are not covered.",
["deconstruct.hpp","deconstruct_ptr.hpp","postconstructible.hpp","predestructible.hpp"],
[("initialized flag of the deleter","object constructed","deconstruct.hpp"),("postconstructed flag","postconstruct was run","deconstruct.hpp")],
[("deconstruct_deleter, postconstructor_invoker","deconstruct.hpp"),("deconstruct_ptr, predestructing_deleter","deconstruct_ptr.hpp")],
["sequence of constructor, postconstruct, predestruct and destructor calls"]))
L.append(P("C14","The internal small buffer is a faithful sequence",
"auto_buffer holds exactly the elements appended and inserted and not yet removed, in order, across growth from the in-place to heap storage: no operation loses, duplicates or overwrites an element, every element is destroyed exactly once, memory is only accessed within the allocated capacity, and storage obtained from the allocator is returned exactly once with the size it was requested with.",
["inputs","histories"],"all sequences of push_back, insert, erase, clear, reserve, swap, copy, assign and destruction on buffers of all sizes for element types with non-throwing copies",
"auto_buffer has no test of its own in this repository; the other tests never put more than a few elements into one.",
["detail/auto_buffer.hpp"],
[("size_, members_.capacity_, buffer_","sequence and its storage","detail/auto_buffer.hpp")],
[("reserve_impl, move_to_new_buffer, destroy_back_n, one_sided_swap","detail/auto_buffer.hpp")],
["contents, element lifetimes, allocator calls"]))
L.append(P("C15","Extended slots receive their own connection and the caller's arguments",
"A function connected with connect_extended is called with a connection handle that refers to its own connection, followed by exactly the arguments of the invocation, and its result is used as the slot's result; disconnecting through that handle disconnects this slot and no other. It is ordered, tracked, blocked and counted like an ordinary slot connected with the same group and position.",
["histories","inputs"],"all extended connects with and without group, at front or back, with tracked objects, and all invocations",
"signal_test connects one extended slot which disconnects itself.",
["detail/signal_template.hpp","detail/replace_slot_function.hpp"],
[("bound connection","connection passed to the extended slot","detail/signal_template.hpp")],
[("connect_extended, bound_extended_slot_function","detail/signal_template.hpp"),("replace_slot_function","detail/replace_slot_function.hpp")],
["connection and arguments seen by the extended slot"]))
L.append(P("C16","Failed operations and throwing slots leave the signal intact",
"If connect throws, because allocation or a copy of the slot, group or combiner fails, the slots of the signal, their order and their groups are as before. An exception thrown by a slot leaves the invocation unless the combiner handles it (a slot throwing expired_slot becomes disconnected); later slots are then not called by that invocation, and the signal, its slots and its mutex stay fully usable.",
["fault_sequences","histories"],"every point at which allocation, copy constructors, slots or combiners throw, for every state of the signal",
"no test injects failures into connect; exceptions from slots are tested in one place only.",
["detail/signal_template.hpp","detail/slot_groups.hpp","detail/slot_call_iterator.hpp"],
[("slot list and group map","see C01","detail/slot_groups.hpp")],
[("m_insert","detail/slot_groups.hpp"),("dereference","detail/slot_call_iterator.hpp"),("invocation_janitor, cache destructor","detail/signal_template.hpp")],
["slot list after a failed connect, exceptions seen by the caller"]))
L.append(P("C17","Moving and swapping signals transfers all slots and keeps handles valid",
"After moving or swapping signal objects each slot is connected to the signal it moved to, existing connection handles keep working, and the slots of an overwritten target are released. A moved-from signal is null: it reports no slots, is empty, ignores disconnects and can be destroyed or assigned to; self-move-assignment changes nothing.",
["histories"],"all sequences of move construction, move assignment, swap and use of signal objects",
"signal_test moves one signal once.",
["detail/signal_template.hpp","variadic_signal.hpp"],
[("implementation pointer","shared implementation of the signal","detail/signal_template.hpp")],
[("move constructor, move assignment, swap, null checks","detail/signal_template.hpp")],
["num_slots(), null(), slot calls and connection states after the move"]))
L.append(P("C18","The library's mutex excludes, and its dummy mutex never blocks",
"signals2::mutex is created unlocked, lock() and a successful try_lock() acquire the one underlying system mutex, try_lock() returns true exactly if it acquired it, unlock() releases it, and destruction releases its resources once. dummy_mutex's operations do nothing and its try_lock() returns true.",
["inputs","schedules"],"all results of the system's mutex functions, all operation sequences that follow the Lockable protocol",
"mutex_test samples schedules; exclusion rests on each wrapper calling the right system primitive on the right object for every result.",
["mutex.hpp","dummy_mutex.hpp","detail/lwm_pthreads.hpp","detail/lwm_nop.hpp"],
[("m_","the system mutex","detail/lwm_pthreads.hpp")],
[("lock, try_lock, unlock","detail/lwm_pthreads.hpp"),("dummy_mutex","dummy_mutex.hpp")],
["return values, acquisition of the system mutex"]))
with open('/verif/properties.jsonl','w') as f:
    for p in L: f.write(json.dumps(p)+"\n")
