"""What decides each property."""
STD=['contracts of the C++ standard library and Boost functions listed under external_functions_with_assumed_contracts']
INT='sums of 64-bit integers are treated as mathematical where a contract does not bound them; narrowing conversions are exact (slot counts, iterator positions)'
ASAN=['-fsanitize=address,undefined','-fno-sanitize-recover=undefined']
LIB=['-lboost_thread','-lboost_system','-lpthread']
def sigh(p,hist=1200,len_=120,pairs=0):
    """random histories (and interleaved pairs) on real signals against an exact oracle"""
    q=[[p,hist,len_,pairs,150]]+([[p,hist//2,400,pairs,150]]); t=[[p,20000,120,pairs*10,650],[p,5000,600,pairs*10,650],[p,40000,40,pairs*10,650],[p,3000,1000,0,650]]
    return dict(name='sig_h',src='sig_h.cpp',flags=ASAN,libs=LIB,quick=q,thorough=t)
def misc(p): return dict(name='misc_h',src='misc_h.cpp',flags=['-fsanitize=address','-O0'],libs=LIB,quick=[[p]],thorough=[[p]])
THR=dict(name='thr_h',src='thr_h.cpp',flags=['-fsanitize=thread'],libs=LIB,quick=[[40,600],[200,60]],thorough=[[1500,600],[6000,80],[300,4000]])
THRSTD=dict(name='thr_h_std',src='thr_h.cpp',flags=['-fsanitize=thread','-DSTDM'],libs=LIB,quick=[[40,600]],thorough=[[1500,600]])
DED='deductive verification of the real templates (clang LLVM IR, contracts, loop invariants, z3)'
OPAQUE='slot functions, groups, comparators, tracked objects and combiners are opaque; their contracts are in verifier/ (comparators are strict weak orders that do not throw)'
PROPS={
'C01':dict(specs=['spec_list','spec_sig','spec_sigobj','spec_sigobj@core03'],thorough_specs=['spec_sig@core03'],level='proof',technique=DED+'; bounded companion: random histories',
  note='Proved for all lists, groups and comparators: every member of grouped_list, connect (the key and the place of the new slot), all operations that change or clean up the list, the iteration order of invocations. Companion: random histories (bounded).',assumptions=[OPAQUE,INT],harness=[sigh(1)]),
'C06':dict(specs=['spec_list','spec_sig','spec_sigobj','spec_sigobj@core03'],thorough_specs=['spec_sig@core03'],level='proof',technique=DED,note='Proved: every operation of a signal leaves lists and combiners that an invocation may be using unmodified (copy on write), the copy of a list is faithful, an invocation uses the list and combiner it started with. Companion: random histories (bounded).',assumptions=[OPAQUE,INT],harness=[sigh(6,pairs=120)]),
'C07':dict(specs=['spec_list','spec_sig','spec_sigobj','spec_sigobj@core03'],thorough_specs=['spec_sig@core03'],level='proof',technique=DED,note='Proved: disconnect by group, by function and of all slots, num_slots and empty, the cleanups, and the members of grouped_list below them. Counts are compared in a state no other thread changes. Companion: random histories (bounded).',assumptions=[OPAQUE,INT],harness=[sigh(7,pairs=120),misc(7)]),
'C09':dict(specs=['spec_comb'],level='proof',
  technique='deductive verification of last_value/optional_last_value (LLVM IR of the real templates, loop invariants, z3)',
  note='All ranges, all exception patterns, for value, int, reference and void results; iterator and value type are opaque (contracts assumed). Trusts clang front end, the verifier, z3.',
  assumptions=['the input iterator satisfies the single pass iterator contract (copyable without exceptions, ++ moves one position, * may throw any exception)',
     'the result type is instantiated with an opaque class, int, an opaque reference and void; the templates treat other types alike (T is not inspected)'],
  trusted=['contract of the opaque iterator and value types in verifier/spec_comb.py'],
  harness=[dict(name='comb_h',src='comb_h.cpp',flags=ASAN,quick=['5'],thorough=['7'])]),
'C13':dict(specs=['spec_decon','spec_decon03'],level='proof',technique=DED.replace('loop invariants, ',''),
  note='All patterns of throwing allocations, constructors and postconstructors, for opaque classes with and without hooks, virtual interfaces and user deleters; the shared_ptr implementation (single threaded variant) is verified along with it. Trusts clang front end, the verifier, z3.',
  assumptions=['hooks predestruct and destructors do not throw','classes, argument categories and numbers of arguments (0, 1, 3, 9) of the variadic templates are those instantiated in spec/decon.cpp; the templates do not inspect them. The overloads without variadic templates are all instantiated, in spec/decon03.cpp','shared_ptr is verified with BOOST_SP_DISABLE_THREADS (plain instead of atomic counters)'],
  trusted=['contracts of the opaque classes in verifier/spec_decon.py'],
  harness=[dict(name='dec_h',src='dec_h.cpp',flags=ASAN,quick=[],thorough=[])]),
'C16':dict(specs=['spec_list','spec_iter','spec_sig','spec_sigobj','spec_iter@core03','spec_sigobj@core03'],thorough_specs=['spec_sig@core03'],level='proof',technique=DED,note='Proved: every operation under every throwing allocation, copy and comparison, and throwing slots and combiners. Companion: random histories with failing allocations (bounded).',assumptions=[OPAQUE,INT],harness=[sigh(16)]),
'C18':dict(specs=['spec_mutex','spec_mutex_nd'],level='proof',technique='deductive verification of every member function (clang LLVM IR, contracts of the pthread functions, z3)',
  note='Every member function of signals2::mutex, dummy_mutex and unique_lock against the state machine of one system mutex, with and without NDEBUG. That a pthread mutex excludes is assumed. Trusts clang front end, the verifier, z3.',
  assumptions=['pthread mutexes behave as POSIX says','detail/lwm_win32_cs.hpp cannot be compiled here and is not covered'],
  trusted=['contracts of the pthread functions in verifier/spec_mutex.py'],
  harness=[dict(name='mtx_h',src='mtx_h.cpp',flags=ASAN,libs=['-lpthread','-ldl'],quick=[],thorough=[]),dict(name='mtx_h_ndebug',src='mtx_h.cpp',flags=ASAN+['-DNDEBUG'],libs=['-lpthread','-ldl'],quick=[],thorough=[])]),
'C02':dict(specs=['spec_args','spec_args03','spec_slot','spec_iter','spec_sig','spec_sigobj','spec_slot@core03','spec_iter@core03','spec_sigobj@core03'],thorough_specs=['spec_sig@core03'],level='proof',technique=DED+'; bounded companion: random histories',
  note='Proved: signal invocation (combiner called once, with the range of the list, arguments, result), every member of the invocation iterator and its cache, slot objects. Two threads of one invocation iterator are not considered. Companion: random histories (bounded).',assumptions=[OPAQUE,INT],harness=[sigh(2),misc(2)]),
'C03':dict(specs=['spec_conn','spec_iter','spec_sig','spec_sigobj','spec_iter@core03','spec_sigobj@core03'],thorough_specs=['spec_sig@core03'],level='proof',technique=DED+'; bounded companion: random histories',note='Proved: connection handles and their bodies, also while other threads run between lock and unlock; iterators skip what is disconnected; the counts. Companion: random histories (bounded).',assumptions=[OPAQUE,INT],harness=[sigh(3,pairs=120)]),
'C04':dict(specs=['spec_conn','spec_iter','spec_sig','spec_iter@core03'],thorough_specs=['spec_sig@core03'],level='proof',technique=DED+'; bounded companion: random histories',note='Proved: shared_connection_block, blocked(), skipping by the invocation iterator for all states of the connections. Companion: random histories (bounded).',assumptions=[OPAQUE,INT],harness=[sigh(4)]),
'C05':dict(specs=['spec_slot','spec_foreign','spec_iter','spec_sig','spec_sigobj','spec_slot@core03','spec_iter@core03','spec_sigobj@core03'],thorough_specs=['spec_sig@core03'],level='proof',technique=DED+'; bounded companion: random histories',note="Proved: slot objects (track, lock, expired, call, constructors), pointers of other libraries and the visitors that lock and query tracked objects (through the real boost::variant), the iterators' locking of tracked objects, the invocation. Companion: random histories (bounded).",assumptions=[OPAQUE,INT],harness=[sigh(5,pairs=120),misc(5)]),
'C08':dict(specs=['spec_conn'],level='proof',technique=DED+'; bounded companion: random histories',note='every operation of connection and scoped_connection proved for all aliasings of the operands.',assumptions=[OPAQUE,INT],harness=[sigh(8),misc(8)]),
'C10':dict(specs=['spec_conn','spec_iter','spec_sig','spec_sigobj','spec_iter@core03','spec_sigobj@core03'],thorough_specs=['spec_sig@core03'],level='proof',technique=DED+'; bounded companion: random histories',note="Proved at every lock, unlock and call of foreign code in connection handles, iterators, slots' release and all operations of a signal. Companion: random histories with a checking mutex (bounded).",assumptions=[OPAQUE,INT],harness=[sigh(10,pairs=120)]),
'C11':dict(specs=['spec_conn','spec_iter','spec_sig','spec_iter@core03'],thorough_specs=['spec_sig@core03'],level='proof',technique=DED+'; bounded companion: concurrent programs under ThreadSanitizer',note='Every access to shared state in the operations of signals, connections and iterators is under the lock, or to data nobody modifies, proved against arbitrary interference between locks. Companion: concurrent programs under ThreadSanitizer (bounded).',assumptions=[OPAQUE,INT],harness=[THR,THRSTD]),
'C12':dict(specs=['spec_conn','spec_iter','spec_sig','spec_sigobj','spec_iter@core03','spec_sigobj@core03'],thorough_specs=['spec_sig@core03'],level='proof',technique=DED+'; bounded companion: random histories',note='Proved: use counts of slots (ledger) in connections, iterators, caches, cleanups and every operation of a signal. Companion: random histories (bounded).',assumptions=[OPAQUE,INT],harness=[sigh(12,pairs=120)]),
'C14':dict(specs=['spec_ab'],level='proof',technique=DED+'; bounded companion: random histories against a reference sequence, allocator and element accounting',
  note='Proved for every size, capacity, position and range length: every public member of auto_buffer (constructors, assignment, swap, comparison, append, insert, erase, resize, reserve, shrink, uninitialized_*), in place and allocated, for an element class whose every operation may throw, one with noexcept copies, one with trivial assignment only, and long; 10 and 0 elements in place. Inserting through an input iterator is covered by the bounded companion only.',
  assumptions=['sums and products of sizes do not wrap around in 64 bits (narrowing to fewer bits is exact)','what is inserted is not an element or range of the same buffer (as for the original interface)','the element classes, allocator and in-place sizes are those instantiated in spec/abuf.cpp; the template inspects element types only through traits, whose combinations are instantiated there','copying and assigning allocators does not throw','elements are 8 bytes; the template does not inspect their size except to choose between passing by value and by reference'],
  trusted=['contracts of the C++ algorithms (uninitialized_copy, fill, copy_backward, ...) and of the opaque classes in verifier/spec_ab.py'],
  harness=[dict(name='ab_h',src='ab_h.cpp',flags=ASAN,quick=[[900,100]],thorough=[[20000,100],[4000,1000]]),dict(name='ab_big',src='ab_big.cpp',flags=[],quick=[],thorough=[])]),
'C15':dict(specs=['spec_args','spec_args03','spec_slot','spec_iter','spec_sig','spec_sigobj','spec_slot@core03','spec_iter@core03','spec_sigobj@core03'],thorough_specs=['spec_sig@core03'],level='proof',technique=DED+'; bounded companion: random histories',note='Proved: bound_extended_slot_function (the connection it passes, arguments, result, exceptions), connect_extended (order, tracking, the connection stored is the one returned), forwarding by signal. Companion: random histories (bounded).',assumptions=[OPAQUE,INT],harness=[sigh(15),misc(15)]),
'C17':dict(specs=['spec_sigobj','spec_sigobj@core03'],level='proof',technique=DED+'; bounded companion: random histories',note='Proved: construction, destruction, move, swap, comparison and every forwarding operation of signal objects, also null ones, and weak_signal, for all aliasings and use counts. Companion: random histories (bounded).',assumptions=[OPAQUE,INT],harness=[sigh(17)]),
}
NOT_APPLICABLE={}
