From 5425d2285757a4d977fd84adca1c52aee788afb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 01/16] fix: pass the group comparator to the group map

grouped_list stored the user supplied GroupCompare but default constructed
the comparator of its std::map, so a stateful GroupCompare (for example a
function pointer) was ignored, or called through a null pointer.
---
 include/boost/signals2/detail/slot_groups.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/signals2/detail/slot_groups.hpp b/include/boost/signals2/detail/slot_groups.hpp
index 5e1853a..118a4ae 100644
--- a/include/boost/signals2/detail/slot_groups.hpp
+++ b/include/boost/signals2/detail/slot_groups.hpp
@@ -64,7 +64,7 @@ namespace boost {
         typedef typename group_key<Group>::type group_key_type;
 
         grouped_list(const group_key_compare_type &group_key_compare):
-          _group_key_compare(group_key_compare)
+          _group_map(group_key_compare), _group_key_compare(group_key_compare)
         {}
         grouped_list(const grouped_list &other): _list(other._list),
           _group_map(other._group_map), _group_key_compare(other._group_key_compare)
-- 
2.43.0


From 666bc3d6eb58b9c4a89b672a30c1d2fb181bce66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 02/16] fix: leave the slot list unchanged when connect throws

If recording the group of a new slot threw (std::bad_alloc, or the copy
constructor of Group), the slot stayed in the list of the signal although
connect failed, and an existing group lost its entry in the group map.
connect has the strong exception guarantee.
---
 include/boost/signals2/detail/slot_groups.hpp | 31 +++++++++++++------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/include/boost/signals2/detail/slot_groups.hpp b/include/boost/signals2/detail/slot_groups.hpp
index 118a4ae..7d24252 100644
--- a/include/boost/signals2/detail/slot_groups.hpp
+++ b/include/boost/signals2/detail/slot_groups.hpp
@@ -11,6 +11,7 @@
 #ifndef BOOST_SIGNALS2_SLOT_GROUPS_HPP
 #define BOOST_SIGNALS2_SLOT_GROUPS_HPP
 
+#include <boost/core/no_exceptions_support.hpp>
 #include <boost/signals2/connection.hpp>
 #include <boost/optional.hpp>
 #include <list>
@@ -183,19 +184,31 @@ namespace boost {
         {
           iterator list_it = get_list_iterator(map_it);
           iterator new_it = _list.insert(list_it, value);
-          if(map_it != _group_map.end() && weakly_equivalent(key, map_it->first))
+          // if updating the map throws, the list must not keep the new element
+          BOOST_TRY
           {
-            _group_map.erase(map_it);
+            if(map_it != _group_map.end() && weakly_equivalent(key, map_it->first))
+            {
+              map_it->second = new_it;
+            }else
+            {
+              map_iterator lower_bound_it = _group_map.lower_bound(key);
+              if(lower_bound_it == _group_map.end() ||
+                weakly_equivalent(lower_bound_it->first, key) == false)
+              {
+                /* doing the following instead of just
+                  _group_map[key] = new_it;
+                  to avoid bogus error when enabling checked iterators with g++ */
+                _group_map.insert(typename map_type::value_type(key, new_it));
+              }
+            }
           }
-          map_iterator lower_bound_it = _group_map.lower_bound(key);
-          if(lower_bound_it == _group_map.end() ||
-            weakly_equivalent(lower_bound_it->first, key) == false)
+          BOOST_CATCH(...)
           {
-            /* doing the following instead of just
-              _group_map[key] = new_it;
-              to avoid bogus error when enabling checked iterators with g++ */
-            _group_map.insert(typename map_type::value_type(key, new_it));
+            _list.erase(new_it);
+            BOOST_RETHROW
           }
+          BOOST_CATCH_END
         }
         iterator get_list_iterator(const const_map_iterator &map_it)
         {
-- 
2.43.0


From 6e645ce8116d2bb3ac97560e1abb42cdda0e40c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 03/16] fix: connection::blocked() is true for a disconnected
 connection

It is documented to return true if the slot is disconnected or blocked, but
returned false for a connection which was disconnected and whose slot had
not been cleaned up by the signal yet.  It also read the weak pointer to the
blocker without holding the mutex which protects it, a data race with
shared_connection_block::block().
---
 include/boost/signals2/connection.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/signals2/connection.hpp b/include/boost/signals2/connection.hpp
index 6449735..5d1e109 100644
--- a/include/boost/signals2/connection.hpp
+++ b/include/boost/signals2/connection.hpp
@@ -89,13 +89,14 @@ namespace boost
           }
           return blocker;
         }
-        bool blocked() const
+        bool blocked()
         {
-          return !_weak_blocker.expired();
+          unique_lock<connection_body_base> local_lock(*this);
+          return nolock_nograb_blocked();
         }
         bool nolock_nograb_blocked() const
         {
-          return nolock_nograb_connected() == false || blocked();
+          return nolock_nograb_connected() == false || _weak_blocker.expired() == false;
         }
         bool nolock_nograb_connected() const {return _connected;}
         // expose part of Lockable concept of mutex
@@ -279,6 +280,7 @@ namespace boost
       {
         boost::shared_ptr<detail::connection_body_base> connectionBody(_weak_connection_body.lock());
         if(connectionBody == 0) return true;
+        if(connectionBody->connected() == false) return true;
         return connectionBody->blocked();
       }
       bool operator==(const connection& other) const
-- 
2.43.0


From e5cf418accab2d8e0b73d1054e7bb7b2b1dad816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 04/16] fix: do not destroy tracked objects while the signal
 mutex is held

connection::connected(), signal::num_slots() and signal::empty() took
temporary references to the tracked objects of a slot and dropped them while
holding the mutex.  If another thread released its reference in between, the
destructor of the tracked object ran with the mutex locked, and deadlocked if
it used the signal.
---
 include/boost/signals2/connection.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/signals2/connection.hpp b/include/boost/signals2/connection.hpp
index 5d1e109..7ce41f1 100644
--- a/include/boost/signals2/connection.hpp
+++ b/include/boost/signals2/connection.hpp
@@ -24,6 +24,7 @@
 #include <boost/signals2/detail/unique_lock.hpp>
 #include <boost/signals2/slot.hpp>
 #include <boost/weak_ptr.hpp>
+#include <iterator>
 
 namespace boost
 {
@@ -150,8 +151,12 @@ namespace boost
         virtual ~connection_body() {}
         virtual bool connected() const
         {
+          // The references to tracked objects must be declared before the lock,
+          // since releasing the last reference to a tracked object runs its
+          // destructor, which must not happen while the mutex is held.
+          auto_buffer<void_shared_ptr_variant, store_n_objects<10> > tracked_ptrs;
           garbage_collecting_lock<mutex_type> local_lock(*_mutex);
-          nolock_grab_tracked_objects(local_lock, detail::null_output_iterator());
+          nolock_grab_tracked_objects(local_lock, std::back_inserter(tracked_ptrs));
           return nolock_nograb_connected();
         }
         const GroupKey& group_key() const {return _group_key;}
-- 
2.43.0


From 103e15aa06c1f39dd414230d66fd59f62b555a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 05/16] fix: set_combiner must not affect an invocation in
 progress

set_combiner called during an invocation made a new state which shared the
slot list with the running invocation but was unique, so a later connect or
cleanup modified the list while it was being iterated.  Likewise, connect
followed by set_combiner during an invocation assigned to the combiner which
was running.
---
 include/boost/signals2/detail/signal_template.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 61e486b..fcf5430 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -308,9 +308,12 @@ namespace boost
         {
           unique_lock<mutex_type> lock(*_mutex);
           if(_shared_state.unique())
-            _shared_state->combiner() = combiner_arg;
+            _shared_state->set_combiner(combiner_arg);
           else
+          {
             _shared_state = boost::make_shared<invocation_state>(*_shared_state, combiner_arg);
+            _garbage_collector_it = _shared_state->connection_bodies().end();
+          }
         }
       private:
         typedef Mutex mutex_type;
@@ -392,13 +395,16 @@ namespace boost
             _combiner(other._combiner)
           {}
           invocation_state(const invocation_state &other, const combiner_type &combiner_in):
-            _connection_bodies(other._connection_bodies),
+            _connection_bodies(new connection_list_type(other.connection_bodies())),
             _combiner(new combiner_type(combiner_in))
           {}
           connection_list_type & connection_bodies() { return *_connection_bodies; }
           const connection_list_type & connection_bodies() const { return *_connection_bodies; }
           combiner_type & combiner() { return *_combiner; }
           const combiner_type & combiner() const { return *_combiner; }
+          // The combiner object may be shared with another invocation_state, which
+          // may be in use, so it is replaced instead of being assigned to.
+          void set_combiner(const combiner_type &combiner_in) { _combiner.reset(new combiner_type(combiner_in)); }
         private:
           invocation_state(const invocation_state &);
 
-- 
2.43.0


From f8e0494a40172e39425a9c582b89a6b56e1e54ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 06/16] fix: auto_buffer::insert shifts the tail backwards

The ranges overlap, so copying forward overwrote elements which had not been
moved yet whenever the element type is not trivially copyable.
---
 include/boost/signals2/detail/auto_buffer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/signals2/detail/auto_buffer.hpp b/include/boost/signals2/detail/auto_buffer.hpp
index 6ce59e4..e317272 100644
--- a/include/boost/signals2/detail/auto_buffer.hpp
+++ b/include/boost/signals2/detail/auto_buffer.hpp
@@ -431,7 +431,7 @@ namespace detail
                 {
                     grow_back( n );
                     iterator where = const_cast<T*>(before);
-                    std::copy( before, cend() - n, where + n );
+                    std::copy_backward( where, end() - n, end() );
                     assign_impl( begin_arg, end_arg, where );
                 }
                 else
@@ -845,7 +845,7 @@ namespace detail
                 if( !is_back_insertion )
                 {
                     grow_back_one();
-                    std::copy( before, cend() - 1u, where + 1u );
+                    std::copy_backward( where, end() - 1u, end() );
                     *where = x;
                     BOOST_ASSERT( is_valid() );
                  }
@@ -874,7 +874,7 @@ namespace detail
             {
                 grow_back( n );
                 iterator where = const_cast<T*>(before);
-                std::copy( before, cend() - n, where + n );
+                std::copy_backward( where, end() - n, end() );
                 std::fill( where, where + n, x );
                 BOOST_ASSERT( is_valid() );
                 return;
-- 
2.43.0


From 8c8f6389e7abd750467ed8f93dcea85c2e7ca4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 07/16] fix: erasing an empty range from a full auto_buffer is
 valid

The assertion assumed that at least one element was erased.
---
 include/boost/signals2/detail/auto_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/signals2/detail/auto_buffer.hpp b/include/boost/signals2/detail/auto_buffer.hpp
index e317272..c4c07fa 100644
--- a/include/boost/signals2/detail/auto_buffer.hpp
+++ b/include/boost/signals2/detail/auto_buffer.hpp
@@ -957,7 +957,7 @@ namespace detail
                            const_cast<T*>(from) );
             }
             pop_back_n( std::distance(from,to) );
-            BOOST_ASSERT( !full() );
+            BOOST_ASSERT( from == to || !full() );
             iterator result = const_cast<T*>( from );
             BOOST_ASSERT( result <= end() );
             return result;
-- 
2.43.0


From 773a4becab770dd94313fc55474e17d309e0d158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 08/16] fix: do not destroy a signal while another signal's
 mutex is held

Disconnecting a slot which is a signal locked the weak pointer to it while
the mutex was held; if the owner of that signal released it in the meantime,
the signal and its slots were destroyed under the mutex.
---
 include/boost/signals2/detail/signal_template.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index fcf5430..748c992 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -840,7 +840,9 @@ namespace boost
         bool contains(const BOOST_SIGNALS2_SIGNAL_CLASS_NAME(BOOST_SIGNALS2_NUM_ARGS)
           <BOOST_SIGNALS2_SIGNAL_TEMPLATE_INSTANTIATION> &signal) const
         {
-          return _weak_pimpl.lock().get() == signal._pimpl.get(); 
+          // compare ownership: this is called with a mutex locked, so it must
+          // not take a reference which might turn out to be the last one.
+          return !_weak_pimpl.owner_before(signal._pimpl) && !signal._pimpl.owner_before(_weak_pimpl);
         }
         template <typename T>
         bool contains(const T&) const
-- 
2.43.0


From e6b8acf2746a6c6652fbef31b25926e59811a9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 09/16] fix: auto_buffer constructors leaked their storage when
 copying an element threw

---
 include/boost/signals2/detail/auto_buffer.hpp | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/boost/signals2/detail/auto_buffer.hpp b/include/boost/signals2/detail/auto_buffer.hpp
index c4c07fa..410e25b 100644
--- a/include/boost/signals2/detail/auto_buffer.hpp
+++ b/include/boost/signals2/detail/auto_buffer.hpp
@@ -488,7 +488,12 @@ namespace detail
               buffer_( allocate( members_.capacity_ ) ),
               size_( 0 )
         {
+            scope_guard guard = make_obj_guard( *this,
+                                                &auto_buffer::deallocate,
+                                                buffer_,
+                                                members_.capacity_ );
             copy_impl( r.begin(), r.end(), buffer_ );
+            guard.dismiss();
             size_ = r.size_;
             BOOST_ASSERT( is_valid() );
         }
@@ -548,7 +553,12 @@ namespace detail
               buffer_( allocate(members_.capacity_) ),
               size_( 0 )
         {
+            scope_guard guard = make_obj_guard( *this,
+                                                &auto_buffer::deallocate,
+                                                buffer_,
+                                                members_.capacity_ );
             std::uninitialized_fill( buffer_, buffer_ + size_arg, init_value );
+            guard.dismiss();
             size_ = size_arg;
             BOOST_ASSERT( is_valid() );
         }
@@ -569,7 +579,12 @@ namespace detail
               buffer_( allocate(members_.capacity_) ),
               size_( 0 )
         {
+            scope_guard guard = make_obj_guard( *this,
+                                                &auto_buffer::deallocate,
+                                                buffer_,
+                                                members_.capacity_ );
             std::uninitialized_fill( buffer_, buffer_ + size_arg, init_value );
+            guard.dismiss();
             size_ = size_arg;
             BOOST_ASSERT( is_valid() );
         }
@@ -581,7 +596,12 @@ namespace detail
               buffer_( allocate(members_.capacity_) ),
               size_( 0 )
         {
+            scope_guard guard = make_obj_guard( *this,
+                                                &auto_buffer::deallocate,
+                                                buffer_,
+                                                members_.capacity_ );
             copy_impl( begin_arg, end_arg, buffer_ );
+            guard.dismiss();
             size_ = members_.capacity_;
             if( members_.capacity_ < N )
                 members_.capacity_ = N;
@@ -596,7 +616,12 @@ namespace detail
               buffer_( allocate(members_.capacity_) ),
               size_( 0 )
         {
+            scope_guard guard = make_obj_guard( *this,
+                                                &auto_buffer::deallocate,
+                                                buffer_,
+                                                members_.capacity_ );
             copy_impl( begin_arg, end_arg, buffer_ );
+            guard.dismiss();
             size_ = members_.capacity_;
             if( members_.capacity_ < N )
                 members_.capacity_ = N;
-- 
2.43.0


From 8bf3bf5fdad8eb651b80288e8947e6d398efdf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:57 +0000
Subject: [PATCH 10/16] fix: auto_buffer assignment left an invalid buffer
 behind when it threw

---
 include/boost/signals2/detail/auto_buffer.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/signals2/detail/auto_buffer.hpp b/include/boost/signals2/detail/auto_buffer.hpp
index 410e25b..ade83df 100644
--- a/include/boost/signals2/detail/auto_buffer.hpp
+++ b/include/boost/signals2/detail/auto_buffer.hpp
@@ -518,10 +518,9 @@ namespace detail
                 }
                 else
                 {
-                    // @remark: we release memory as early as possible
-                    //          since we only give the basic guarantee
-                    auto_buffer_destroy();
-                    buffer_ = 0;
+                    // @remark: the old elements are only destroyed once copying
+                    //          cannot fail any more, so that an exception
+                    //          leaves a valid buffer behind
                     pointer new_buffer = allocate( r.size() );
                     scope_guard guard = make_obj_guard( *this,
                                                         &auto_buffer::deallocate,
@@ -529,6 +528,7 @@ namespace detail
                                                         r.size() );
                     copy_impl( r.begin(), r.end(), new_buffer );
                     guard.dismiss();
+                    auto_buffer_destroy();
                     buffer_            = new_buffer;
                     members_.capacity_ = r.size();
                     size_              = members_.capacity_;
-- 
2.43.0


From da047a4ca979a99d5ba028c5c666951c036507fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:38 +0000
Subject: [PATCH 11/16] fix: keep the garbage collector iterator valid when a
 cleanup throws

An allocation failure while disconnected slots are collected left
_garbage_collector_it pointing into a list that is no longer the current
one, or to an erased element; the next connect used it after free.
---
 include/boost/signals2/detail/signal_template.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 748c992..1ad9562 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -450,6 +450,8 @@ namespace boost
             it != _shared_state->connection_bodies().end() && (count == 0 || i < count);
             ++i)
           {
+            // keep the iterator valid for the current list, should an exception be thrown below
+            _garbage_collector_it = it;
             bool connected;
             if(grab_tracked)
               (*it)->disconnect_expired_slot(lock);
-- 
2.43.0


From 5b45646b331c93b0b99f8ce7396ba0a309a2ef53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:47 +0000
Subject: [PATCH 12/16] fix: do not let the cleanup after an invocation throw
 from a destructor

~invocation_janitor copied the slot list, so that an allocation failure
there ended the program.
---
 include/boost/signals2/detail/signal_template.hpp | 10 +++++++++-
 include/boost/signals2/signal.hpp                 |  1 +
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 1ad9562..0a4edb3 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -429,7 +429,15 @@ namespace boost
             // force a full cleanup of disconnected slots if there are too many
             if(_cache.disconnected_slot_count > _cache.connected_slot_count)
             {
-              _sig.force_cleanup_connections(_connection_bodies);
+              // the cleanup is optional, and a destructor must not throw if
+              // it fails to allocate memory
+              BOOST_TRY
+              {
+                _sig.force_cleanup_connections(_connection_bodies);
+              }
+              BOOST_CATCH(...)
+              {}
+              BOOST_CATCH_END
             }
           }
         private:
diff --git a/include/boost/signals2/signal.hpp b/include/boost/signals2/signal.hpp
index 716f119..da25cf8 100644
--- a/include/boost/signals2/signal.hpp
+++ b/include/boost/signals2/signal.hpp
@@ -15,6 +15,7 @@
 #include <algorithm>
 #include <boost/assert.hpp>
 #include <boost/config.hpp>
+#include <boost/core/no_exceptions_support.hpp>
 #include <boost/core/noncopyable.hpp>
 #include <boost/function.hpp>
 #include <boost/mpl/identity.hpp>
-- 
2.43.0


From b3aa76be63aa409da104088062a86f68b2d80c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:09 +0000
Subject: [PATCH 13/16] fix: do not release tracked objects under the mutex
 when an allocation fails

Growing the buffer of references to tracked objects failed after the object
had been locked; the reference, possibly the last one, was then released
while the signal's mutex was held.
---
 include/boost/signals2/connection.hpp                | 11 +++++++++++
 include/boost/signals2/detail/slot_call_iterator.hpp |  1 +
 2 files changed, 12 insertions(+)

diff --git a/include/boost/signals2/connection.hpp b/include/boost/signals2/connection.hpp
index 7ce41f1..d14c98a 100644
--- a/include/boost/signals2/connection.hpp
+++ b/include/boost/signals2/connection.hpp
@@ -156,6 +156,7 @@ namespace boost
           // destructor, which must not happen while the mutex is held.
           auto_buffer<void_shared_ptr_variant, store_n_objects<10> > tracked_ptrs;
           garbage_collecting_lock<mutex_type> local_lock(*_mutex);
+          nolock_reserve_tracked_objects(tracked_ptrs);
           nolock_grab_tracked_objects(local_lock, std::back_inserter(tracked_ptrs));
           return nolock_nograb_connected();
         }
@@ -171,6 +172,16 @@ namespace boost
             nolock_disconnect(lock_arg);
           }
         }
+        // Makes room for the references nolock_grab_tracked_objects is going to
+        // insert.  If the insertion of a reference failed, the reference, which
+        // may be the last one to a tracked object, would be released while the
+        // mutex is held.
+        template<typename Buffer>
+        void nolock_reserve_tracked_objects(Buffer &buffer) const
+        {
+          if(!m_slot) return;
+          buffer.reserve(buffer.size() + slot().tracked_objects().size());
+        }
         template<typename M, typename OutputIterator>
         void nolock_grab_tracked_objects(garbage_collecting_lock<M> &lock_arg,
           OutputIterator inserter) const
diff --git a/include/boost/signals2/detail/slot_call_iterator.hpp b/include/boost/signals2/detail/slot_call_iterator.hpp
index f5f3d39..fe9db43 100644
--- a/include/boost/signals2/detail/slot_call_iterator.hpp
+++ b/include/boost/signals2/detail/slot_call_iterator.hpp
@@ -152,6 +152,7 @@ namespace boost {
           {
             cache->tracked_ptrs.clear();
             lock_type lock(**iter);
+            (*iter)->nolock_reserve_tracked_objects(cache->tracked_ptrs);
             (*iter)->nolock_grab_tracked_objects(lock, std::back_inserter(cache->tracked_ptrs));
             if((*iter)->nolock_nograb_connected())
             {
-- 
2.43.0


From 3c90ebc4b048e70e7b41b28572608bc5e7523f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:30 +0000
Subject: [PATCH 14/16] fix: do not destroy a slot under the mutex when an
 allocation fails

A slot that was disconnected while the list of garbage could not grow was
destroyed while the signal's mutex was held.
---
 include/boost/signals2/connection.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/boost/signals2/connection.hpp b/include/boost/signals2/connection.hpp
index d14c98a..fa6f9a6 100644
--- a/include/boost/signals2/connection.hpp
+++ b/include/boost/signals2/connection.hpp
@@ -44,6 +44,11 @@ namespace boost
         garbage_collecting_lock(Mutex &m):
           lock(m)
         {}
+        // makes room for one more piece of trash, so that add_trash does not throw
+        void reserve_trash()
+        {
+          garbage.reserve(garbage.size() + 1);
+        }
         void add_trash(const shared_ptr<void> &piece_of_trash)
         {
           garbage.push_back(piece_of_trash);
@@ -74,8 +79,9 @@ namespace boost
         {
           if(_connected)
           {
-            _connected = false;
+            // dec_slot_refcount may throw, in which case it has no effect
             dec_slot_refcount(lock_arg);
+            _connected = false;
           }
         }
         virtual bool connected() const = 0;
@@ -124,6 +130,11 @@ namespace boost
         void dec_slot_refcount(garbage_collecting_lock<Mutex> &lock_arg) const
         {
           BOOST_ASSERT(m_slot_refcount != 0);
+          // If add_trash threw, the slot would be destroyed while the mutex is held.
+          if(m_slot_refcount == 1)
+          {
+            lock_arg.reserve_trash();
+          }
           if(--m_slot_refcount == 0)
           {
             lock_arg.add_trash(release_slot());
-- 
2.43.0


From 6e1047660df2beb99bc338f93116b09a258e208a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:09 +0000
Subject: [PATCH 15/16] fix: auto_buffer copies elements into raw memory with
 memcpy only if their copy constructor is trivial

The dispatch asked for a trivial assignment, so elements with a non-trivial
copy constructor or destructor but a trivial assignment were duplicated
bitwise and destroyed more often than constructed.
---
 include/boost/signals2/detail/auto_buffer.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/signals2/detail/auto_buffer.hpp b/include/boost/signals2/detail/auto_buffer.hpp
index ade83df..0f919c6 100644
--- a/include/boost/signals2/detail/auto_buffer.hpp
+++ b/include/boost/signals2/detail/auto_buffer.hpp
@@ -31,6 +31,7 @@
 #include <boost/type_traits/has_nothrow_assign.hpp>
 #include <boost/type_traits/has_trivial_assign.hpp>
 #include <boost/type_traits/has_trivial_constructor.hpp>
+#include <boost/type_traits/has_trivial_copy.hpp>
 #include <boost/type_traits/has_trivial_destructor.hpp>
 #include <algorithm>
 #include <cstring>
@@ -177,7 +178,7 @@ namespace detail
         template< class I >
         static void copy_impl( I begin, I end, pointer where, std::random_access_iterator_tag )
         {
-            copy_rai( begin, end, where, boost::has_trivial_assign<T>() );
+            copy_rai( begin, end, where, boost::has_trivial_copy<T>() );
         }
 
         static void copy_rai( const T* begin, const T* end,
@@ -1077,7 +1078,8 @@ namespace detail
             }
 
             BOOST_ASSERT( on_stack && r_on_stack );
-            swap_helper( *this, r, boost::has_trivial_assign<T>() );
+            swap_helper( *this, r, boost::integral_constant<bool,
+                boost::has_trivial_assign<T>::value && boost::has_trivial_copy<T>::value>() );
             BOOST_ASSERT( is_valid() );
             BOOST_ASSERT( r.is_valid() );
         }
-- 
2.43.0


From 0f5fb5d61ba4a53425df73389fa9ea47d53658fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:05 +0000
Subject: [PATCH 16/16] fix: auto_buffer::erase counted the elements after the
 position in 32 bits, losing elements of larger buffers

---
 include/boost/signals2/detail/auto_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/signals2/detail/auto_buffer.hpp b/include/boost/signals2/detail/auto_buffer.hpp
index 0f919c6..45a9ac1 100644
--- a/include/boost/signals2/detail/auto_buffer.hpp
+++ b/include/boost/signals2/detail/auto_buffer.hpp
@@ -952,7 +952,7 @@ namespace detail
             BOOST_ASSERT( cbegin() <= where );
             BOOST_ASSERT( cend() > where );
 
-            unsigned elements = cend() - where - 1u;
+            size_type elements = cend() - where - 1u;
 
             if( elements > 0u )
             {
@@ -974,7 +974,7 @@ namespace detail
             BOOST_ASSERT( cbegin() <= from );
             BOOST_ASSERT( cend() >= to );
 
-            unsigned elements = std::distance(to,cend());
+            size_type elements = std::distance(to,cend());
 
             if( elements > 0u )
             {
-- 
2.43.0

