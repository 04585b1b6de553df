From 04fc829fe826a87eddc907f5dbe575e3139b9af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:06 +0000
Subject: [PATCH 01/42] sim hooks: scheduling points at inline-asm atomics,
 guarded by SOFA_PBRPC_SIM_HOOKS

---
 src/sofa/pbrpc/atomic.h                       | 21 +++++++++++++++++++
 .../detail/sp_counted_base_gcc_x86.hpp        | 11 ++++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/sofa/pbrpc/atomic.h b/src/sofa/pbrpc/atomic.h
index 85385a8..d7ada1f 100644
--- a/src/sofa/pbrpc/atomic.h
+++ b/src/sofa/pbrpc/atomic.h
@@ -11,22 +11,34 @@
 
 #include <stdint.h>
 
+// Scheduling point for deterministic simulation; compiled away unless
+// SOFA_PBRPC_SIM_HOOKS is defined (which only the simulator's own build does).
+#if defined( SOFA_PBRPC_SIM_HOOKS )
+extern "C" void sofa_pbrpc_sim_atomic(const volatile void* addr);
+#define SOFA_PBRPC_SIM_ATOMIC(addr) ::sofa_pbrpc_sim_atomic(addr)
+#else
+#define SOFA_PBRPC_SIM_ATOMIC(addr) ((void)0)
+#endif
+
 namespace sofa {
 namespace pbrpc {
 
 template <typename T>
 inline void atomic_inc(volatile T* n)
 {
+    SOFA_PBRPC_SIM_ATOMIC(n);
     asm volatile ("lock; incl %0;":"+m"(*n)::"cc");
 }
 template <typename T>
 inline void atomic_dec(volatile T* n)
 {
+    SOFA_PBRPC_SIM_ATOMIC(n);
     asm volatile ("lock; decl %0;":"+m"(*n)::"cc");
 }
 template <typename T>
 inline T atomic_add_ret_old(volatile T* n, T v)
 {
+    SOFA_PBRPC_SIM_ATOMIC(n);
     asm volatile ("lock; xaddl %1, %0;":"+m"(*n),"+r"(v)::"cc");
     return v;
 }
@@ -34,6 +46,7 @@ template <typename T>
 inline T atomic_inc_ret_old(volatile T* n)
 {
     T r = 1;
+    SOFA_PBRPC_SIM_ATOMIC(n);
     asm volatile ("lock; xaddl %1, %0;":"+m"(*n), "+r"(r)::"cc");
     return r;
 }
@@ -41,12 +54,14 @@ template <typename T>
 inline T atomic_dec_ret_old(volatile T* n)
 {
     T r = (T)-1;
+    SOFA_PBRPC_SIM_ATOMIC(n);
     asm volatile ("lock; xaddl %1, %0;":"+m"(*n), "+r"(r)::"cc");
     return r;
 }
 template <typename T>
 inline T atomic_add_ret_old64(volatile T* n, T v)
 {
+    SOFA_PBRPC_SIM_ATOMIC(n);
     asm volatile ("lock; xaddq %1, %0;":"+m"(*n),"+r"(v)::"cc");
     return v;
 }
@@ -54,6 +69,7 @@ template <typename T>
 inline T atomic_inc_ret_old64(volatile T* n)
 {
     T r = 1;
+    SOFA_PBRPC_SIM_ATOMIC(n);
     asm volatile ("lock; xaddq %1, %0;":"+m"(*n), "+r"(r)::"cc");
     return r;
 }
@@ -61,22 +77,26 @@ template <typename T>
 inline T atomic_dec_ret_old64(volatile T* n)
 {
     T r = (T)-1;
+    SOFA_PBRPC_SIM_ATOMIC(n);
     asm volatile ("lock; xaddq %1, %0;":"+m"(*n), "+r"(r)::"cc");
     return r;
 }
 template <typename T>
 inline void atomic_add(volatile T* n, T v)
 {
+    SOFA_PBRPC_SIM_ATOMIC(n);
     asm volatile ("lock; addl %1, %0;":"+m"(*n):"r"(v):"cc");
 }
 template <typename T>
 inline void atomic_sub(volatile T* n, T v)
 {
+    SOFA_PBRPC_SIM_ATOMIC(n);
     asm volatile ("lock; subl %1, %0;":"+m"(*n):"r"(v):"cc");
 }
 template <typename T, typename C, typename D>
 inline T atomic_cmpxchg(volatile T* n, C cmp, D dest)
 {
+    SOFA_PBRPC_SIM_ATOMIC(n);
     asm volatile ("lock; cmpxchgl %1, %0":"+m"(*n), "+r"(dest), "+a"(cmp)::"cc");
     return cmp;
 }
@@ -84,6 +104,7 @@ inline T atomic_cmpxchg(volatile T* n, C cmp, D dest)
 template <typename T>
 inline T atomic_swap(volatile T* lockword, T value)
 {
+    SOFA_PBRPC_SIM_ATOMIC(lockword);
     asm volatile ("lock; xchg %0, %1;" : "+r"(value), "+m"(*lockword));
     return value;
 }
diff --git a/src/sofa/pbrpc/smart_ptr/detail/sp_counted_base_gcc_x86.hpp b/src/sofa/pbrpc/smart_ptr/detail/sp_counted_base_gcc_x86.hpp
index 11d4e95..66d95dc 100644
--- a/src/sofa/pbrpc/smart_ptr/detail/sp_counted_base_gcc_x86.hpp
+++ b/src/sofa/pbrpc/smart_ptr/detail/sp_counted_base_gcc_x86.hpp
@@ -15,6 +15,14 @@
 
 #include <typeinfo>
 
+// Scheduling point for deterministic simulation, see <sofa/pbrpc/atomic.h>.
+#if defined( SOFA_PBRPC_SIM_HOOKS )
+extern "C" void sofa_pbrpc_sim_atomic(const volatile void* addr);
+#define SOFA_PBRPC_SIM_SP_ATOMIC(addr) ::sofa_pbrpc_sim_atomic(addr)
+#else
+#define SOFA_PBRPC_SIM_SP_ATOMIC(addr) ((void)0)
+#endif
+
 namespace sofa {
 namespace pbrpc {
 namespace detail {
@@ -27,6 +35,7 @@ inline int atomic_exchange_and_add( int * pw, int dv )
 
     int r;
 
+    SOFA_PBRPC_SIM_SP_ATOMIC( pw );
     __asm__ __volatile__
     (
         "lock\n\t"
@@ -43,6 +52,7 @@ inline void atomic_increment( int * pw )
 {
     //atomic_exchange_and_add( pw, 1 );
 
+    SOFA_PBRPC_SIM_SP_ATOMIC( pw );
     __asm__
     (
         "lock\n\t"
@@ -61,6 +71,7 @@ inline int atomic_conditional_increment( int * pw )
 
     int rv, tmp;
 
+    SOFA_PBRPC_SIM_SP_ATOMIC( pw );
     __asm__
     (
         "movl %0, %%eax\n\t"
-- 
2.43.0


From 07491fbc3c2f1928d6ddcb0a19786668a5227da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 02/42] fix: Stop() of a server raced with TimerMaintain()

Stop() released the listener while the maintain thread could still use it,
and dead-locked when it waited for the maintain thread while that waited in
RestartListen() for the lock held by Stop().
---
 src/sofa/pbrpc/rpc_server_impl.cc | 18 ++++++++++++------
 src/sofa/pbrpc/rpc_server_impl.h  |  1 +
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 16455fb..8882a48 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -181,17 +181,22 @@ void RpcServerImpl::Stop()
 {
     ScopedLocker<MutexLock> _(_start_stop_lock);
     if (!_is_running) return;
-    _is_running = false;
+    {
+        // after this no one restarts listening any more
+        ScopedLocker<MutexLock> _(_listener_lock);
+        _is_running = false;
+        _listener->close();
+    }
 
     _timer_worker->stop();
-    _listener->close();
     StopStreams();
+    // wait for TimerMaintain() to end before releasing what it uses
+    _maintain_thread_group->stop();
 
     _timer_worker.reset();
     _listener.reset();
     ClearStreams();
     _io_service_pool->Stop();
-    _maintain_thread_group->stop();
 
     _io_service_pool.reset();
     _maintain_thread_group.reset();
@@ -334,13 +339,14 @@ void RpcServerImpl::GetPendingStat(int64* pending_message_count,
 
 bool RpcServerImpl::IsListening()
 {
-    ScopedLocker<MutexLock> _(_start_stop_lock);
+    ScopedLocker<MutexLock> _(_listener_lock);
     return _is_running && !_listener->is_closed();
 }
 
 bool RpcServerImpl::RestartListen()
 {
-    ScopedLocker<MutexLock> _(_start_stop_lock);
+    // not "_start_stop_lock", because Stop() waits for the maintain thread with it locked
+    ScopedLocker<MutexLock> _(_listener_lock);
     if (!_is_running)
     {
 #if defined( LOG )
@@ -482,7 +488,7 @@ void RpcServerImpl::TimerMaintain(const PTime& now)
     int64 now_ticks = (now - _start_time).ticks();
 
     // check listener, if closed, then try to restart it every interval.
-    if (_listener->is_closed()
+    if (_is_running && !IsListening()
             && now_ticks - _last_restart_listen_ticks >= _restart_listen_interval_ticks)
     {
         _last_restart_listen_ticks = now_ticks;
diff --git a/src/sofa/pbrpc/rpc_server_impl.h b/src/sofa/pbrpc/rpc_server_impl.h
index 006d76b..bd24c5e 100644
--- a/src/sofa/pbrpc/rpc_server_impl.h
+++ b/src/sofa/pbrpc/rpc_server_impl.h
@@ -123,6 +123,7 @@ private:
     std::string _server_address;
     RpcEndpoint _listen_endpoint;
     RpcListenerPtr _listener;
+    MutexLock _listener_lock;
 
     TimerWorkerPtr _timer_worker;
 
-- 
2.43.0


From edf48da4bbe8971bd9eac92e70ad3de6c1ef327c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 03/42] fix: io services of a server were destroyed while
 streams still used them

Stop() of a server destroyed the io services although a thread of another group
that is accepting a connection, or a user thread that is sending a response,
may still hold a stream that belongs to one of them.
---
 src/sofa/pbrpc/io_service_pool.cc |  3 ++-
 src/sofa/pbrpc/rpc_byte_stream.h  | 10 ++++++++++
 src/sofa/pbrpc/rpc_listener.h     |  1 +
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/sofa/pbrpc/io_service_pool.cc b/src/sofa/pbrpc/io_service_pool.cc
index 1b1aaaa..c491954 100644
--- a/src/sofa/pbrpc/io_service_pool.cc
+++ b/src/sofa/pbrpc/io_service_pool.cc
@@ -48,8 +48,9 @@ void IOServicePool::Stop()
     size_t pool_size = _pool.size();
     for (size_t i = 0; i < pool_size; ++i)
     {
+        // the io services are released with the pool, because they may still be
+        // used by threads of other groups and by streams
         _pool[i]->stop();
-        _pool[i].reset();
     }
 }
 
diff --git a/src/sofa/pbrpc/rpc_byte_stream.h b/src/sofa/pbrpc/rpc_byte_stream.h
index a3b6dd7..a9952a2 100644
--- a/src/sofa/pbrpc/rpc_byte_stream.h
+++ b/src/sofa/pbrpc/rpc_byte_stream.h
@@ -53,6 +53,12 @@ public:
         memset(_error_message, 0, sizeof(_error_message));
     }
 
+    // Keep the owner of the io service alive as long as this stream.
+    void set_io_service_holder(const sofa::pbrpc::shared_ptr<void>& holder)
+    {
+        _io_service_holder = holder;
+    }
+
     bool no_delay()
     {
         return _no_delay;
@@ -414,6 +420,10 @@ private:
         trigger_send();
     }
 
+private:
+    // should be the first member, thus be released after all that use the io service
+    sofa::pbrpc::shared_ptr<void> _io_service_holder;
+
 protected:
     IOService& _io_service;
     RpcEndpoint _local_endpoint;
diff --git a/src/sofa/pbrpc/rpc_listener.h b/src/sofa/pbrpc/rpc_listener.h
index 5f7557c..99607d8 100644
--- a/src/sofa/pbrpc/rpc_listener.h
+++ b/src/sofa/pbrpc/rpc_listener.h
@@ -176,6 +176,7 @@ private:
     void async_accept()
     {
         RpcServerStreamPtr stream(new RpcServerStream(_io_service_pool->GetIOService()));
+        stream->set_io_service_holder(_io_service_pool);
 
         if (_create_callback)
             _create_callback(stream);
-- 
2.43.0


From 49cea8e0263752a7c33485a96f44c9dbea8a84ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 04/42] fix: a connection accepted while the server stops was
 never closed

OnAccepted() could add a stream after Stop() had closed all streams; then Stop()
waited for the client to close the connection, or the stream was leaked.
---
 src/sofa/pbrpc/rpc_server_impl.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 8882a48..55419c5 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -424,6 +424,12 @@ void RpcServerImpl::OnAccepted(const RpcServerStreamPtr& stream)
     stream->reset_ticks((ptime_now() - _start_time).ticks(), true);
 
     ScopedLocker<FastLock> _(_stream_set_lock);
+    if (!_is_running)
+    {
+        // StopStreams() may have been called already
+        stream->close("server not running");
+        return;
+    }
     _stream_set.insert(stream);
 }
 
-- 
2.43.0


From f7bd61915beac6758c6ead8de9823721230a77a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 05/42] fix: the acceptor of a listener was used by one thread
 while another closed it

---
 src/sofa/pbrpc/rpc_listener.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sofa/pbrpc/rpc_listener.h b/src/sofa/pbrpc/rpc_listener.h
index 99607d8..2e02bab 100644
--- a/src/sofa/pbrpc/rpc_listener.h
+++ b/src/sofa/pbrpc/rpc_listener.h
@@ -181,6 +181,9 @@ private:
         if (_create_callback)
             _create_callback(stream);
 
+        // the acceptor should not be used while it is closed by another thread
+        ScopedLocker<MutexLock> _(_close_lock);
+        if (_is_closed) return;
         _acceptor.async_accept(stream->socket(), boost::bind(
                     &RpcListener::on_accept, shared_from_this(), stream, _1));
     }
-- 
2.43.0


From e2f59c22fd6e98a0e8abece8c555a15f9d2e143e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:01 +0000
Subject: [PATCH 06/42] fix: a stream closed before it was connected became
 connected again, and leaked after Stop() of a server

---
 src/sofa/pbrpc/io_service_pool.cc | 11 +++++++++++
 src/sofa/pbrpc/io_service_pool.h  |  3 +++
 src/sofa/pbrpc/rpc_byte_stream.h  | 13 +++++++++++--
 src/sofa/pbrpc/rpc_server_impl.cc | 10 ++++++++++
 4 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/io_service_pool.cc b/src/sofa/pbrpc/io_service_pool.cc
index c491954..7bc077e 100644
--- a/src/sofa/pbrpc/io_service_pool.cc
+++ b/src/sofa/pbrpc/io_service_pool.cc
@@ -52,6 +52,17 @@ void IOServicePool::Stop()
         // used by threads of other groups and by streams
         _pool[i]->stop();
     }
+    Drain();
+}
+
+void IOServicePool::Drain()
+{
+    size_t pool_size = _pool.size();
+    for (size_t i = 0; i < pool_size; ++i)
+    {
+        _pool[i]->io_service().reset();
+        _pool[i]->io_service().poll();
+    }
 }
 
 IOService& IOServicePool::GetIOService()
diff --git a/src/sofa/pbrpc/io_service_pool.h b/src/sofa/pbrpc/io_service_pool.h
index 8002fc3..4bcec1a 100644
--- a/src/sofa/pbrpc/io_service_pool.h
+++ b/src/sofa/pbrpc/io_service_pool.h
@@ -21,6 +21,9 @@ public:
 
     void Stop();
 
+    // Run what was posted to the io services after they were stopped.
+    void Drain();
+
     IOService& GetIOService();
 
     void set_init_func(ThreadInitFunc init_func)
diff --git a/src/sofa/pbrpc/rpc_byte_stream.h b/src/sofa/pbrpc/rpc_byte_stream.h
index a9952a2..89a34ff 100644
--- a/src/sofa/pbrpc/rpc_byte_stream.h
+++ b/src/sofa/pbrpc/rpc_byte_stream.h
@@ -224,7 +224,11 @@ public:
             return;
         }
 
-        _status = STATUS_CONNECTED;
+        if (atomic_comp_swap(&_status, (int)STATUS_CONNECTED, (int)STATUS_INIT) != STATUS_INIT)
+        {
+            // already closed
+            return;
+        }
         trigger_receive();
         trigger_send();
     }
@@ -413,7 +417,12 @@ private:
                 RpcEndpointToString(_remote_endpoint).c_str());
 #endif
 
-        _status = STATUS_CONNECTED;
+        if (atomic_comp_swap(&_status, (int)STATUS_CONNECTED, (int)STATUS_CONNECTING)
+                != STATUS_CONNECTING)
+        {
+            // already closed
+            return;
+        }
         _timer.cancel();
 
         trigger_receive();
diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 55419c5..09009e8 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -2,6 +2,8 @@
 // Use of this source code is governed by a BSD-style license that can be
 // found in the LICENSE file.
 //
+#include <unistd.h> // for usleep()
+
 #include <algorithm>
 
 #include <sofa/pbrpc/rpc_server_impl.h>
@@ -198,6 +200,14 @@ void RpcServerImpl::Stop()
     ClearStreams();
     _io_service_pool->Stop();
 
+    // user threads may be sending responses by closed streams, which would never be
+    // released if what they post to the stopped io services was not run
+    while (_io_service_pool.use_count() > 1)
+    {
+        usleep(1000);
+        _io_service_pool->Drain();
+    }
+
     _io_service_pool.reset();
     _maintain_thread_group.reset();
     _flow_controller.reset();
-- 
2.43.0


From 9c404a7dbce7d02fe33c0dc14339ab66b09e0c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:57 +0000
Subject: [PATCH 07/42] fix: calls made during or after Shutdown() of a client
 crashed

The thread groups and the timeout manager were released while calls of other threads
still used them, and a stream closed before it started connecting became open again.
---
 src/sofa/pbrpc/dynamic_rpc_channel_impl.cc |  2 +-
 src/sofa/pbrpc/rpc_byte_stream.h           | 13 ++++++-
 src/sofa/pbrpc/rpc_client_impl.cc          | 45 ++++++++++++++++++----
 src/sofa/pbrpc/rpc_client_impl.h           |  4 +-
 src/sofa/pbrpc/simple_rpc_channel_impl.cc  |  2 +-
 5 files changed, 55 insertions(+), 11 deletions(-)

diff --git a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
index 87be808..e237109 100644
--- a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
+++ b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
@@ -186,7 +186,7 @@ void DynamicRpcChannelImpl::CallMethod(
         cntl->SetFailed(choose_ret, "choose server failed in dynamic channel");
         CallDone(server, cntl);
         if (done != NULL) {
-            _client_impl->GetCallbackThreadGroup()->post(done);
+            _client_impl->PostCallback(done);
         }
         return;
     }
diff --git a/src/sofa/pbrpc/rpc_byte_stream.h b/src/sofa/pbrpc/rpc_byte_stream.h
index 89a34ff..e236aa8 100644
--- a/src/sofa/pbrpc/rpc_byte_stream.h
+++ b/src/sofa/pbrpc/rpc_byte_stream.h
@@ -141,9 +141,20 @@ public:
 
         _last_rw_ticks = _ticks;
 
-        _status = STATUS_CONNECTING;
+        if (atomic_comp_swap(&_status, (int)STATUS_CONNECTING, (int)STATUS_INIT) != STATUS_INIT)
+        {
+            // already closed
+            return;
+        }
         _socket.async_connect(_remote_endpoint,
                 boost::bind(&RpcByteStream::on_connect, shared_from_this(), _1));
+        if (is_closed())
+        {
+            // close() may have been called before the socket began to connect
+            boost::system::error_code ec;
+            _socket.shutdown(tcp::socket::shutdown_both, ec);
+            return;
+        }
         if (_connect_timeout > 0) 
         {
             _timer.expires_from_now(boost::posix_time::milliseconds(_connect_timeout));
diff --git a/src/sofa/pbrpc/rpc_client_impl.cc b/src/sofa/pbrpc/rpc_client_impl.cc
index ae08b10..aa8b202 100644
--- a/src/sofa/pbrpc/rpc_client_impl.cc
+++ b/src/sofa/pbrpc/rpc_client_impl.cc
@@ -106,16 +106,31 @@ void RpcClientImpl::Stop()
     _timeout_manager->stop();
     _timer_worker->stop();
     StopStreams();
+    _maintain_thread_group->stop();
     _work_thread_group->stop();
 
-    _timeout_manager.reset();
+    // not reset "_timeout_manager", because calls racing with this may still use it
     _timer_worker.reset();
     ClearStreams();
-    _callback_thread_group->stop();
-    _maintain_thread_group->stop();
+
+    // user threads may be calling through closed streams, which would never be released
+    // if what they post to the stopped io service was not run
+    while (_work_thread_group.use_count() > 1)
+    {
+        usleep(1000);
+        _work_thread_group->io_service().reset();
+        _work_thread_group->io_service().poll();
+    }
+
+    // all calls are done now, run the callbacks
+    ThreadGroupImplPtr callback_thread_group;
+    {
+        ScopedLocker<MutexLock> _(_callback_thread_group_lock);
+        callback_thread_group.swap(_callback_thread_group);
+    }
+    callback_thread_group->stop();
 
     _work_thread_group.reset();
-    _callback_thread_group.reset();
     _maintain_thread_group.reset();
     _flow_controller.reset();
 
@@ -351,15 +366,25 @@ void RpcClientImpl::CallMethod(const google::protobuf::Message* request,
     stream->call_method(cntl);
 }
 
-const ThreadGroupImplPtr& RpcClientImpl::GetCallbackThreadGroup() const
+void RpcClientImpl::PostCallback(google::protobuf::Closure* done)
 {
-    return _callback_thread_group;
+    {
+        ScopedLocker<MutexLock> _(_callback_thread_group_lock);
+        if (_callback_thread_group)
+        {
+            _callback_thread_group->post(done);
+            return;
+        }
+    }
+    done->Run();
 }
 
 bool RpcClientImpl::ResolveAddress(const std::string& address,
         RpcEndpoint* endpoint)
 {
-    return sofa::pbrpc::ResolveAddress(_work_thread_group->io_service(), address, endpoint);
+    // not the io service of the work threads, because the client may have been stopped
+    IOService io_service;
+    return sofa::pbrpc::ResolveAddress(io_service, address, endpoint);
 }
 
 RpcClientStreamPtr RpcClientImpl::FindOrCreateStream(const RpcEndpoint& remote_endpoint)
@@ -368,6 +393,11 @@ RpcClientStreamPtr RpcClientImpl::FindOrCreateStream(const RpcEndpoint& remote_e
     bool create = false;
     {
         ScopedLocker<FastLock> _(_stream_map_lock);
+        if (!_is_running)
+        {
+            // StopStreams() may have been called already
+            return stream;
+        }
         StreamMap::iterator find = _stream_map.find(remote_endpoint);
         if (find != _stream_map.end() && !find->second->is_closed())
         {
@@ -376,6 +406,7 @@ RpcClientStreamPtr RpcClientImpl::FindOrCreateStream(const RpcEndpoint& remote_e
         else
         {
             stream.reset(new RpcClientStream(_work_thread_group->io_service(), remote_endpoint));
+            stream->set_io_service_holder(_work_thread_group);
             stream->set_flow_controller(_flow_controller);
             stream->set_max_pending_buffer_size(_max_pending_buffer_size);
             stream->reset_ticks((ptime_now() - _epoch_time).ticks(), true);
diff --git a/src/sofa/pbrpc/rpc_client_impl.h b/src/sofa/pbrpc/rpc_client_impl.h
index b3307d5..8e48eff 100644
--- a/src/sofa/pbrpc/rpc_client_impl.h
+++ b/src/sofa/pbrpc/rpc_client_impl.h
@@ -49,7 +49,8 @@ public:
             google::protobuf::Message* response,
             const RpcControllerImplPtr& cntl);
 
-    const ThreadGroupImplPtr& GetCallbackThreadGroup() const;
+    // Run the callback in the callback threads, or at once if they have been stopped.
+    void PostCallback(google::protobuf::Closure* done);
 
     bool ResolveAddress(const std::string& address,
             RpcEndpoint* endpoint);
@@ -109,6 +110,7 @@ private:
 
     ThreadGroupImplPtr _maintain_thread_group;
     ThreadGroupImplPtr _callback_thread_group;
+    MutexLock _callback_thread_group_lock;
     ThreadGroupImplPtr _work_thread_group;
 
     TimerWorkerPtr _timer_worker;
diff --git a/src/sofa/pbrpc/simple_rpc_channel_impl.cc b/src/sofa/pbrpc/simple_rpc_channel_impl.cc
index 4d672ed..88211dd 100644
--- a/src/sofa/pbrpc/simple_rpc_channel_impl.cc
+++ b/src/sofa/pbrpc/simple_rpc_channel_impl.cc
@@ -175,7 +175,7 @@ void SimpleRpcChannelImpl::DoneCallback(google::protobuf::Closure* done,
     else
     {
         SCHECK(done != NULL);
-        _client_impl->GetCallbackThreadGroup()->post(done);
+        _client_impl->PostCallback(done);
     }
 }
 
-- 
2.43.0


From 49053dead36ed7f43e805de276a300cbceff4e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:54 +0000
Subject: [PATCH 08/42] fix: corrupted compressed blocks abort the process or
 yield garbage

---
 src/sofa/pbrpc/block_wrappers.cc | 25 ++++++++++++++++++-------
 src/sofa/pbrpc/block_wrappers.h  |  6 +++---
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/sofa/pbrpc/block_wrappers.cc b/src/sofa/pbrpc/block_wrappers.cc
index 465a78b..60defaa 100644
--- a/src/sofa/pbrpc/block_wrappers.cc
+++ b/src/sofa/pbrpc/block_wrappers.cc
@@ -78,8 +78,13 @@ bool BlockCompressionInputStream::Next(const void** data, int* size) {
         return false;
     }
 
-    RawUncompress(tempbuffer, compressed_size);
+    bool uncompressed = RawUncompress(tempbuffer, compressed_size);
     delete[] tempbuffer;
+    if (!uncompressed) {
+        // the block is corrupted
+        _output_buffer_size = 0;
+        return false;
+    }
 
     // TODO: probably call this only every Limit/BLOCKSIZE
     if (_sub_stream->BytesUntilLimit() < 1024*1024) reset_input_stream();
@@ -162,11 +167,13 @@ bool BlockCompressionOutputStream::Next(void** data, int* size) {
 
 /// Snappy implementation
 
-void SnappyInputStream::RawUncompress(char* input_buffer, uint32_t compressed_size) {
+bool SnappyInputStream::RawUncompress(char* input_buffer, uint32_t compressed_size) {
     size_t uncompressed_size;
     bool success = ::snappy::GetUncompressedLength(
         input_buffer, compressed_size, &uncompressed_size);
-    SCHECK(success);
+    if (!success || uncompressed_size > BLOCKSIZE) {
+        return false;
+    }
     
     if (uncompressed_size > _output_buffer_capacity) {
         delete[] _output_buffer;
@@ -174,9 +181,8 @@ void SnappyInputStream::RawUncompress(char* input_buffer, uint32_t compressed_si
         _output_buffer_capacity = uncompressed_size;
     }
     _output_buffer_size = uncompressed_size;
-    success = ::snappy::RawUncompress(input_buffer, compressed_size,
+    return ::snappy::RawUncompress(input_buffer, compressed_size,
         _output_buffer);
-    SCHECK(success);    
 }
 
 
@@ -199,13 +205,18 @@ uint32_t SnappyOutputStream::RawCompress(char* input_buffer, size_t input_size,
 
 /// LZ4 implementation
 
-void LZ4InputStream::RawUncompress(char* input_buffer, uint32_t compressed_size) {
+bool LZ4InputStream::RawUncompress(char* input_buffer, uint32_t compressed_size) {
     if (!_output_buffer) {
         _output_buffer = new char[BLOCKSIZE];
         _output_buffer_capacity = BLOCKSIZE;
     }
-    _output_buffer_size = LZ4_uncompress_unknownOutputSize(input_buffer,
+    int uncompressed_size = LZ4_uncompress_unknownOutputSize(input_buffer,
         _output_buffer, compressed_size, BLOCKSIZE);
+    if (uncompressed_size < 0) {
+        return false;
+    }
+    _output_buffer_size = uncompressed_size;
+    return true;
 }
 
 uint32_t LZ4OutputStream::MaxCompressedLength(size_t input_size)
diff --git a/src/sofa/pbrpc/block_wrappers.h b/src/sofa/pbrpc/block_wrappers.h
index 34637f5..2612a61 100644
--- a/src/sofa/pbrpc/block_wrappers.h
+++ b/src/sofa/pbrpc/block_wrappers.h
@@ -36,7 +36,7 @@ class BlockCompressionInputStream : public AbstractCompressedInputStream {
   bool ExpectAtEnd() { return true; }
 
  protected:
-  virtual void RawUncompress(char* input_buffer, uint32_t compressed_size) = 0;
+  virtual bool RawUncompress(char* input_buffer, uint32_t compressed_size) = 0;
   
   char* _output_buffer;
   size_t _output_buffer_size;
@@ -88,7 +88,7 @@ class SnappyInputStream : public BlockCompressionInputStream {
  public:
   explicit SnappyInputStream(ZeroCopyInputStream* sub_stream) : BlockCompressionInputStream(sub_stream) {};
 
-  virtual void RawUncompress(char* input_buffer, uint32_t compressed_size);
+  virtual bool RawUncompress(char* input_buffer, uint32_t compressed_size);
   
   GOOGLE_DISALLOW_EVIL_CONSTRUCTORS(SnappyInputStream);
 };
@@ -110,7 +110,7 @@ class LZ4InputStream : public BlockCompressionInputStream {
 
   explicit LZ4InputStream(ZeroCopyInputStream* sub_stream) : BlockCompressionInputStream(sub_stream) {};
   
-  virtual void RawUncompress(char* input_buffer, uint32_t compressed_size);
+  virtual bool RawUncompress(char* input_buffer, uint32_t compressed_size);
   
   GOOGLE_DISALLOW_EVIL_CONSTRUCTORS(LZ4InputStream);
 };
-- 
2.43.0


From 0d93d46ad9eb4a4fa562fd607eba69d658e9eff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:54 +0000
Subject: [PATCH 09/42] fix: Content-Length beyond 2 GB is truncated to int in
 the HTTP parser

---
 src/sofa/pbrpc/http_rpc_request_parser.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/http_rpc_request_parser.cc b/src/sofa/pbrpc/http_rpc_request_parser.cc
index b2fdf5a..4886b5b 100644
--- a/src/sofa/pbrpc/http_rpc_request_parser.cc
+++ b/src/sofa/pbrpc/http_rpc_request_parser.cc
@@ -91,7 +91,7 @@ int HTTPRpcRequestParser::Parse(const char* buf,
     }
     if (_state == PS_BODY)
     {
-        int bytes_remain = _content_length - _req->_req_body->TotalCount();
+        int64 bytes_remain = _content_length - _req->_req_body->TotalCount();
         if (bytes_remain == 0)
         {
             return 1;
@@ -100,7 +100,8 @@ int HTTPRpcRequestParser::Parse(const char* buf,
         {
             return 0;
         }
-        int consume = std::min(data_size, bytes_remain);
+        int consume = static_cast<int>(
+                std::min(static_cast<int64>(data_size), bytes_remain));
         _req->_req_body->Append(BufHandle(const_cast<char*>(buf), consume, offset));
         *bytes_consumed += consume;
         if (_content_length == _req->_req_body->TotalCount())
-- 
2.43.0


From 2145bf8db36dedcec88e94968cb268e47920d206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:25 +0000
Subject: [PATCH 10/42] fix: skipping JSON white space reads past the end of
 the text

---
 src/rapidjson/reader.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/rapidjson/reader.h b/src/rapidjson/reader.h
index 25ef0e7..afb0d1c 100644
--- a/src/rapidjson/reader.h
+++ b/src/rapidjson/reader.h
@@ -111,8 +111,13 @@ inline const char *SkipWhitespace_SIMD(const char* p) {
 	static const char whitespace[16] = " \n\r\t";
 	__m128i w = _mm_loadu_si128((const __m128i *)&whitespace[0]);
 
+	// Aligned loads only: an unaligned one could cross the end of the text into an unmapped page.
+	for (; ((size_t)p & 15) != 0; ++p)
+		if (*p != ' ' && *p != '\n' && *p != '\r' && *p != '\t')
+			return p;
+
 	for (;;) {
-		__m128i s = _mm_loadu_si128((const __m128i *)p);
+		__m128i s = _mm_load_si128((const __m128i *)p);
 		unsigned r = _mm_cvtsi128_si32(_mm_cmpistrm(w, s, _SIDD_UBYTE_OPS | _SIDD_CMP_EQUAL_ANY | _SIDD_BIT_MASK | _SIDD_NEGATIVE_POLARITY));
 		if (r == 0)	// all 16 characters are whitespace
 			p += 16;
@@ -144,8 +149,13 @@ inline const char *SkipWhitespace_SIMD(const char* p) {
 	__m128i w2 = _mm_loadu_si128((const __m128i *)&whitespaces[2][0]);
 	__m128i w3 = _mm_loadu_si128((const __m128i *)&whitespaces[3][0]);
 
+	// Aligned loads only: an unaligned one could cross the end of the text into an unmapped page.
+	for (; ((size_t)p & 15) != 0; ++p)
+		if (*p != ' ' && *p != '\n' && *p != '\r' && *p != '\t')
+			return p;
+
 	for (;;) {
-		__m128i s = _mm_loadu_si128((const __m128i *)p);
+		__m128i s = _mm_load_si128((const __m128i *)p);
 		__m128i x = _mm_cmpeq_epi8(s, w0);
 		x = _mm_or_si128(x, _mm_cmpeq_epi8(s, w1));
 		x = _mm_or_si128(x, _mm_cmpeq_epi8(s, w2));
-- 
2.43.0


From 6ed86859b1242da8da2e2529f34ba024bc6ecfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:25 +0000
Subject: [PATCH 11/42] fix: deeply nested JSON overflows the stack

---
 src/rapidjson/reader.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rapidjson/reader.h b/src/rapidjson/reader.h
index afb0d1c..5631cbc 100644
--- a/src/rapidjson/reader.h
+++ b/src/rapidjson/reader.h
@@ -217,7 +217,7 @@ public:
 	/*! \param allocator Optional allocator for allocating stack memory. (Only use for non-destructive parsing)
 		\param stackCapacity stack capacity in bytes for storing a single decoded string.  (Only use for non-destructive parsing)
 	*/
-	GenericReader(Allocator* allocator = 0, size_t stackCapacity = kDefaultStackCapacity) : stack_(allocator, stackCapacity), parseError_(0), errorOffset_(0) {}
+	GenericReader(Allocator* allocator = 0, size_t stackCapacity = kDefaultStackCapacity) : stack_(allocator, stackCapacity), depth_(0), parseError_(0), errorOffset_(0) {}
 
 	//! Parse JSON text.
 	/*! \tparam parseFlags Combination of ParseFlag. 
@@ -231,6 +231,7 @@ public:
 	bool Parse(Stream& stream, Handler& handler) {
 		parseError_ = 0;
 		errorOffset_ = 0;
+		depth_ = 0;
 
 #ifdef _MSC_VER
 #pragma warning(push)
@@ -664,6 +665,8 @@ private:
 	// Parse any JSON value
 	template<unsigned parseFlags, typename Stream, typename Handler>
 	void ParseValue(Stream& stream, Handler& handler) {
+		if (++depth_ > kMaxNestingDepth)	// bounds the recursion
+			RAPIDJSON_PARSE_ERROR("Nested too deeply", stream.Tell());
 		switch (stream.Peek()) {
 			case 'n': ParseNull  <parseFlags>(stream, handler); break;
 			case 't': ParseTrue  <parseFlags>(stream, handler); break;
@@ -673,11 +676,14 @@ private:
 			case '[': ParseArray <parseFlags>(stream, handler); break;
 			default : ParseNumber<parseFlags>(stream, handler);
 		}
+		--depth_;
 	}
 
 	static const size_t kDefaultStackCapacity = 256;	//!< Default stack capacity in bytes for storing a single decoded string. 
+	static const size_t kMaxNestingDepth = 512;	//!< Values nested deeper than this are rejected, as parsing recurses into them.
 	internal::Stack<Allocator> stack_;	//!< A stack for storing decoded string temporarily during non-destructive parsing.
 	jmp_buf jmpbuf_;					//!< setjmp buffer for fast exit from nested parsing function calls.
+	size_t depth_;						//!< Nesting depth of the value being parsed.
 	const char* parseError_;
 	size_t errorOffset_;
 }; // class GenericReader
-- 
2.43.0


From 14a1c66a6857fe066e7cb71b38d934bdcd4ce918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:25 +0000
Subject: [PATCH 12/42] fix: JSON numbers out of range or of the wrong kind and
 bad base64 text abort the process

---
 src/sofa/pbrpc/pbjson.cc | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/src/sofa/pbrpc/pbjson.cc b/src/sofa/pbrpc/pbjson.cc
index 341a907..6fbb50a 100644
--- a/src/sofa/pbrpc/pbjson.cc
+++ b/src/sofa/pbrpc/pbjson.cc
@@ -283,9 +283,9 @@ static int json2field(const rapidjson::Value* json, Message* msg, const FieldDes
     {
         case FieldDescriptor::CPPTYPE_INT32:
             {
-                if (json->GetType() != rapidjson::kNumberType)
+                if (!json->IsInt())
                 {
-                    RETURN_ERR(ERR_INVALID_JSON, "Not a number");
+                    RETURN_ERR(ERR_INVALID_JSON, "Not an int32 number in range");
                 }
                 if (repeated)
                 {
@@ -299,9 +299,9 @@ static int json2field(const rapidjson::Value* json, Message* msg, const FieldDes
             }
         case FieldDescriptor::CPPTYPE_UINT32:
             {
-                if (json->GetType() != rapidjson::kNumberType)
+                if (!json->IsUint())
                 {
-                    RETURN_ERR(ERR_INVALID_JSON, "Not a number");
+                    RETURN_ERR(ERR_INVALID_JSON, "Not a uint32 number in range");
                 }
                 if (repeated)
                 {
@@ -315,9 +315,9 @@ static int json2field(const rapidjson::Value* json, Message* msg, const FieldDes
             }
         case FieldDescriptor::CPPTYPE_INT64:
             {
-                if (json->GetType() != rapidjson::kNumberType)
+                if (!json->IsInt64())
                 {
-                    RETURN_ERR(ERR_INVALID_JSON, "Not a number");
+                    RETURN_ERR(ERR_INVALID_JSON, "Not an int64 number in range");
                 }
                 if (repeated)
                 {
@@ -331,9 +331,9 @@ static int json2field(const rapidjson::Value* json, Message* msg, const FieldDes
             }
         case FieldDescriptor::CPPTYPE_UINT64:
             {
-                if (json->GetType() != rapidjson::kNumberType)
+                if (!json->IsUint64())
                 {
-                    RETURN_ERR(ERR_INVALID_JSON, "Not a number");
+                    RETURN_ERR(ERR_INVALID_JSON, "Not a uint64 number in range");
                 }
                 if (repeated)
                 {
@@ -405,25 +405,22 @@ static int json2field(const rapidjson::Value* json, Message* msg, const FieldDes
                 std::string str_value(value, str_size);
                 if (field->type() == FieldDescriptor::TYPE_BYTES)
                 {
-                    if (repeated)
+                    try
                     {
-                        ref->AddString(msg, field, b64_decode(str_value));
+                        str_value = b64_decode(str_value);
                     }
-                    else
+                    catch (const std::runtime_error& e)
                     {
-                        ref->SetString(msg, field, b64_decode(str_value));
+                        RETURN_ERR(ERR_INVALID_JSON, e.what());
                     }
                 }
+                if (repeated)
+                {
+                    ref->AddString(msg, field, str_value);
+                }
                 else
                 {
-                    if (repeated)
-                    {
-                        ref->AddString(msg, field, str_value);
-                    }
-                    else
-                    {
-                        ref->SetString(msg, field, str_value);
-                    }
+                    ref->SetString(msg, field, str_value);
                 }
                 break;
             }
@@ -436,7 +433,7 @@ static int json2field(const rapidjson::Value* json, Message* msg, const FieldDes
             {
                 const EnumDescriptor *ed = field->enum_type();
                 const EnumValueDescriptor *ev = 0;
-                if (json->GetType() == rapidjson::kNumberType)
+                if (json->IsInt())
                 {
                     ev = ed->FindValueByNumber(json->GetInt());
                 }
-- 
2.43.0


From 34e68674b9e9182647d61f125b0551f6b2d3fe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:22 +0000
Subject: [PATCH 13/42] fix: gzip and zlib input streams write into their freed
 buffer when destroyed early

---
 src/sofa/pbrpc/gzip_stream.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sofa/pbrpc/gzip_stream.cc b/src/sofa/pbrpc/gzip_stream.cc
index ebc5189..f74cb79 100644
--- a/src/sofa/pbrpc/gzip_stream.cc
+++ b/src/sofa/pbrpc/gzip_stream.cc
@@ -81,13 +81,14 @@ GzipInputStream::GzipInputStream(
 }
 
 GzipInputStream::~GzipInputStream() {
-  operator delete(output_buffer_);
   // Back up input stream if there are unused bytes
   if (ExpectAtEnd() && zcontext_.avail_in > 0) {
     sub_stream_->BackUp(zcontext_.avail_in);
     zcontext_.avail_in = 0;
   }
   zerror_ = inflateEnd(&zcontext_);
+  // ExpectAtEnd() may have written into the buffer
+  operator delete(output_buffer_);
 }
 
 static inline int internalInflateInit2(
-- 
2.43.0


From e493b5db6d3b765a4c3269b964fa0c25cd5903c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:52 +0000
Subject: [PATCH 14/42] fix: gzip and zlib input streams back up the same bytes
 twice after the end of the compressed data

---
 src/sofa/pbrpc/gzip_stream.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sofa/pbrpc/gzip_stream.cc b/src/sofa/pbrpc/gzip_stream.cc
index f74cb79..eed8303 100644
--- a/src/sofa/pbrpc/gzip_stream.cc
+++ b/src/sofa/pbrpc/gzip_stream.cc
@@ -153,6 +153,7 @@ bool GzipInputStream::Next(const void** data, int* size) {
     // First backup stream
     if (zcontext_.avail_in) {
       sub_stream_->BackUp(zcontext_.avail_in);
+      zcontext_.avail_in = 0;
     }
     if (zcontext_.next_out != NULL) {
       // sub_stream_ may have concatenated streams to follow
-- 
2.43.0


From 2f6aae02ccfc61c638059b4f4d726584ecbe1af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:19 +0000
Subject: [PATCH 15/42] fix: a client accepted message headers with negative
 sizes

---
 src/sofa/pbrpc/rpc_message_stream.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sofa/pbrpc/rpc_message_stream.h b/src/sofa/pbrpc/rpc_message_stream.h
index 4e5ccb4..0d0e9f1 100644
--- a/src/sofa/pbrpc/rpc_message_stream.h
+++ b/src/sofa/pbrpc/rpc_message_stream.h
@@ -687,7 +687,10 @@ private:
 #endif
                 return -1;
             }
-            if (_receiving_header.meta_size + _receiving_header.data_size != _receiving_header.message_size)
+            if (_receiving_header.meta_size < 0 || _receiving_header.data_size < 0
+                    || _receiving_header.message_size < 0
+                    || _receiving_header.message_size - _receiving_header.meta_size
+                            != _receiving_header.data_size)
             {
 #if defined( LOG )
                 LOG(ERROR) << "identify_message_header(): " << RpcEndpointToString(_remote_endpoint)
-- 
2.43.0


From f0c1869b34a7543a7543e3d628974578286c813f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:19 +0000
Subject: [PATCH 16/42] fix: a failed response with the success code aborts the
 client

---
 src/sofa/pbrpc/rpc_client_stream.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/sofa/pbrpc/rpc_client_stream.h b/src/sofa/pbrpc/rpc_client_stream.h
index 4a80904..7149b39 100644
--- a/src/sofa/pbrpc/rpc_client_stream.h
+++ b/src/sofa/pbrpc/rpc_client_stream.h
@@ -271,6 +271,19 @@ private:
 #endif
                 cntl->Done(RPC_ERROR_PARSE_RESPONSE_MESSAGE, "rpc meta: \"reason\" field not set");
             }
+            else if (meta.error_code() == RPC_SUCCESS)
+            {
+#if defined( LOG )
+                LOG(ERROR) << "on_received(): " << RpcEndpointToString(_remote_endpoint)
+                           << " {" << meta.sequence_id() << "}"
+                           << ": bad rpc meta: \"error_code\" field is success while failed";
+#else
+                SLOG(ERROR,  "on_received(): %s {%lu}: bad rpc meta: \"error_code\" field is success while failed",
+                        RpcEndpointToString(_remote_endpoint).c_str(), meta.sequence_id());
+#endif
+                cntl->Done(RPC_ERROR_PARSE_RESPONSE_MESSAGE,
+                        "rpc meta: \"error_code\" field is success while failed");
+            }
             else
             {
                 cntl->Done(meta.error_code(), meta.reason());
-- 
2.43.0


From b55f7a218fbc0e334af3a869aee0ab07b81cc21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:21 +0000
Subject: [PATCH 17/42] fix: a bad tag inside a message makes protobuf back up
 further than the input streams allow, which aborts the process

---
 src/sofa/pbrpc/block_wrappers.cc |  7 +++++--
 src/sofa/pbrpc/buffer.cc         | 23 +++++++++++++++--------
 src/sofa/pbrpc/gzip_stream.cc    |  7 +++++++
 3 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/sofa/pbrpc/block_wrappers.cc b/src/sofa/pbrpc/block_wrappers.cc
index 60defaa..8f53404 100644
--- a/src/sofa/pbrpc/block_wrappers.cc
+++ b/src/sofa/pbrpc/block_wrappers.cc
@@ -5,6 +5,8 @@
 // Author: peter.waller@gmail.com (Peter Waller)
 // Author: johannes@ebke.org (Johannes Ebke)
 
+#include <algorithm>
+
 #include <google/protobuf/stubs/common.h>
 
 #include <google/protobuf/io/coded_stream.h>
@@ -44,9 +46,10 @@ bool BlockCompressionInputStream::Skip(int /*count*/) {
 };
 
 void BlockCompressionInputStream::BackUp(int count) {
+    // When the parsing of a message ends early, as a tag in it is bad, protobuf may
+    // back up more than the last Next() returned. Nothing is read after that.
+    count = std::min(count, static_cast<int>(_output_buffer_size) - _backed_up_bytes);
     if (count <= 0) return;
-    SCHECK(_output_buffer);
-    SCHECK_LE(static_cast<size_t>(count), _output_buffer_size - _backed_up_bytes);
     _backed_up_bytes += count;
     _byte_count -= count;
 };
diff --git a/src/sofa/pbrpc/buffer.cc b/src/sofa/pbrpc/buffer.cc
index 825aaae..f9b915a 100644
--- a/src/sofa/pbrpc/buffer.cc
+++ b/src/sofa/pbrpc/buffer.cc
@@ -101,20 +101,27 @@ bool ReadBuffer::Next(const void** data, int* size)
     }
 }
 
-// BackUp() can only be called after a successful Next().
 // "count" should be greater than or equal to 0.
+//
+// ATTENTION: when the parsing of a message ends early, as a tag in it is bad, protobuf
+// may back up more than the last Next() returned, or back up after a failed Next().
 void ReadBuffer::BackUp(int count)
 {
-    SCHECK_GT(_last_bytes, 0);
     SCHECK_GE(count, 0);
-    SCHECK_LE(count, _last_bytes);
-    if (count > 0)
-    {
-        --_cur_it;
-        _cur_pos = _cur_it->size - count;
-    }
+    count = static_cast<int>(std::min(static_cast<int64>(count), _read_bytes));
     _last_bytes = 0;
     _read_bytes -= count;
+    while (count > 0)
+    {
+        if (_cur_pos == 0)
+        {
+            --_cur_it;
+            _cur_pos = _cur_it->size;
+        }
+        int step = std::min(count, _cur_pos);
+        _cur_pos -= step;
+        count -= step;
+    }
 }
 
 // "count" should be greater than or equal to 0.
diff --git a/src/sofa/pbrpc/gzip_stream.cc b/src/sofa/pbrpc/gzip_stream.cc
index eed8303..08adf1c 100644
--- a/src/sofa/pbrpc/gzip_stream.cc
+++ b/src/sofa/pbrpc/gzip_stream.cc
@@ -205,6 +205,13 @@ bool GzipInputStream::ExpectAtEnd() {
 }
 
 void GzipInputStream::BackUp(int count) {
+  // When the parsing of a message ends early, as a tag in it is bad, protobuf may
+  // back up more than the last Next() returned. Nothing is read after that.
+  intptr_t available = reinterpret_cast<uintptr_t>(output_position_)
+      - reinterpret_cast<uintptr_t>(output_buffer_);
+  if (zcontext_.next_out == NULL || count > available) {
+    return;
+  }
   output_position_ = reinterpret_cast<void*>(
       reinterpret_cast<uintptr_t>(output_position_) - count);
 }
-- 
2.43.0


From c7b5049fcc7d962ec9bc0aa0d7e7f2e6d8a09532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:05 +0000
Subject: [PATCH 18/42] fix: timers of the timeout manager ran early after
 construction and after a slow callback

---
 src/sofa/pbrpc/timeout_manager_impl.cc | 3 ---
 src/sofa/pbrpc/timeout_manager_impl.h  | 4 +---
 2 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/sofa/pbrpc/timeout_manager_impl.cc b/src/sofa/pbrpc/timeout_manager_impl.cc
index 0a37d40..4a92c53 100644
--- a/src/sofa/pbrpc/timeout_manager_impl.cc
+++ b/src/sofa/pbrpc/timeout_manager_impl.cc
@@ -10,8 +10,6 @@ namespace pbrpc {
 TimeoutManagerImpl::TimeoutManagerImpl()
     : _is_running(false)
     , _epoch_time(ptime_now())
-    , _last_ticks(0)
-    , _rectify_ticks(time_duration_milliseconds(kTimerGranularity).ticks())
     , _next_id(1)
 {
 }
@@ -118,7 +116,6 @@ void TimeoutManagerImpl::timer_run(const PTime& now)
 {
     if (!_is_running) return;
     int64 now_ticks = (now - _epoch_time).ticks();
-    _last_ticks = now_ticks;
 
     EventVec expired;
     {
diff --git a/src/sofa/pbrpc/timeout_manager_impl.h b/src/sofa/pbrpc/timeout_manager_impl.h
index af729dc..cae64e1 100644
--- a/src/sofa/pbrpc/timeout_manager_impl.h
+++ b/src/sofa/pbrpc/timeout_manager_impl.h
@@ -57,7 +57,7 @@ private:
     // Given interval in milli-seconds, calculate expiration ticks.
     inline int64 calc_expiration(int64 interval)
     {
-        return _last_ticks + time_duration_milliseconds(interval).ticks() + _rectify_ticks;
+        return (ptime_now() - _epoch_time).ticks() + time_duration_milliseconds(interval).ticks();
     }
 
     void timer_run(const PTime& now);
@@ -96,8 +96,6 @@ private:
     volatile bool _is_running;
     MutexLock _start_stop_lock;
     PTime _epoch_time;
-    volatile int64 _last_ticks; 
-    int64 _rectify_ticks;
 
     ThreadGroupImplPtr _thread_group;
     TimerWorkerPtr _timer_worker;
-- 
2.43.0


From 9ae4f05f108bcc5153f9b4b4e50b5a4995523728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:31 +0000
Subject: [PATCH 19/42] fix: a repeating timer removed while it was due ran on
 freed memory or survived its removal

---
 src/sofa/pbrpc/timeout_manager_impl.cc | 67 ++++++++++++++++++--------
 src/sofa/pbrpc/timeout_manager_impl.h  | 10 ++++
 2 files changed, 56 insertions(+), 21 deletions(-)

diff --git a/src/sofa/pbrpc/timeout_manager_impl.cc b/src/sofa/pbrpc/timeout_manager_impl.cc
index 4a92c53..13ee79c 100644
--- a/src/sofa/pbrpc/timeout_manager_impl.cc
+++ b/src/sofa/pbrpc/timeout_manager_impl.cc
@@ -11,6 +11,8 @@ TimeoutManagerImpl::TimeoutManagerImpl()
     : _is_running(false)
     , _epoch_time(ptime_now())
     , _next_id(1)
+    , _running_id(0)
+    , _running_removed(false)
 {
 }
 
@@ -68,10 +70,7 @@ void TimeoutManagerImpl::clear()
         }
     }
     for (EventVec::iterator it = cleared.begin(); it != cleared.end(); ++it) {
-        Callback* callback = it->callback;
-        bool should_delete = !callback->IsSelfDelete();
-        callback->Run(it->id, TimeoutManager::CLEARED);
-        if (should_delete) delete callback;
+        run_removed(it->id, it->callback, TimeoutManager::CLEARED);
     }
 }
 
@@ -106,10 +105,25 @@ bool TimeoutManagerImpl::erase(Id id)
         callback = find->callback;
         by_id.erase(find);
     }
+    run_removed(id, callback, TimeoutManager::ERASED);
+    return true;
+}
+
+void TimeoutManagerImpl::run_removed(Id id, Callback* callback, Type type)
+{
     bool should_delete = !callback->IsSelfDelete();
-    callback->Run(id, TimeoutManager::ERASED);
+    if (should_delete) {
+        ScopedLocker<MutexLock> _(_timeouts_lock);
+        if (_running_id == id && pthread_equal(_running_thread, pthread_self())) {
+            // removed by its own callback, timer_run() deletes it after that
+            _running_removed = true;
+            should_delete = false;
+        } else {
+            while (_running_id == id) _running_cond.wait(_timeouts_lock);
+        }
+    }
+    callback->Run(id, type);
     if (should_delete) delete callback;
-    return true;
 }
 
 void TimeoutManagerImpl::timer_run(const PTime& now)
@@ -125,28 +139,39 @@ void TimeoutManagerImpl::timer_run(const PTime& now)
             ExpirationIndex::iterator exp_end = by_expiration.upper_bound(now_ticks);
             expired.insert(expired.end(), by_expiration.begin(), exp_end);
             by_expiration.erase(by_expiration.begin(), exp_end);
-        }
-    }
 
-    if (expired.empty()) return;
-
-    // Reinsert if repeating, do this before executing callbacks
-    // so the callbacks have a chance to call erase
-    EventVec repeated;
-    for (EventVec::iterator it = expired.begin(); it != expired.end(); ++it) {
-        if (it->repeat_interval >= 0) {
-            repeated.push_back(Event(it->id, calc_expiration(it->repeat_interval),
-                        it->repeat_interval, it->callback));
+            // Reinsert if repeating, do this before executing callbacks
+            // so the callbacks have a chance to call erase
+            for (EventVec::iterator it = expired.begin(); it != expired.end(); ++it) {
+                if (it->repeat_interval >= 0) {
+                    _timeouts.insert(Event(it->id, calc_expiration(it->repeat_interval),
+                                it->repeat_interval, it->callback));
+                }
+            }
         }
     }
-    if (!repeated.empty()) {
-        ScopedLocker<MutexLock> _(_timeouts_lock);
-        _timeouts.insert(repeated.begin(), repeated.end());
-    }
 
     // Execute callbacks
     for (EventVec::iterator it = expired.begin(); it != expired.end(); ++it) {
+        bool repeating = (it->repeat_interval >= 0);
+        if (repeating) {
+            ScopedLocker<MutexLock> _(_timeouts_lock);
+            // removed in the meantime, the callback does not exist any more
+            if (_timeouts.get<BY_ID>().count(it->id) == 0) continue;
+            _running_id = it->id;
+            _running_thread = pthread_self();
+        }
         it->callback->Run(it->id, TimeoutManager::TIMEOUTED);
+        if (repeating) {
+            bool removed = false;
+            {
+                ScopedLocker<MutexLock> _(_timeouts_lock);
+                _running_id = 0;
+                std::swap(removed, _running_removed);
+                _running_cond.broadcast();
+            }
+            if (removed) delete it->callback;
+        }
     }
 }
 
diff --git a/src/sofa/pbrpc/timeout_manager_impl.h b/src/sofa/pbrpc/timeout_manager_impl.h
index cae64e1..bcba46b 100644
--- a/src/sofa/pbrpc/timeout_manager_impl.h
+++ b/src/sofa/pbrpc/timeout_manager_impl.h
@@ -5,6 +5,7 @@
 #ifndef _SOFA_PBRPC_TIMEOUT_MANAGER_IMPL_H_
 #define _SOFA_PBRPC_TIMEOUT_MANAGER_IMPL_H_
 
+#include <pthread.h>
 #include <vector>
 
 #include <boost/multi_index_container.hpp>
@@ -13,6 +14,7 @@
 #include <boost/multi_index/member.hpp>
 
 #include <sofa/pbrpc/common_internal.h>
+#include <sofa/pbrpc/condition_variable.h>
 #include <sofa/pbrpc/timeout_manager.h>
 #include <sofa/pbrpc/thread_group_impl.h>
 #include <sofa/pbrpc/timer_worker.h>
@@ -62,6 +64,9 @@ private:
 
     void timer_run(const PTime& now);
 
+    // Run the callback of an event removed from "_timeouts" for the last time.
+    void run_removed(Id id, Callback* callback, Type type);
+
 private:
     struct Event {
         Id id;
@@ -102,6 +107,11 @@ private:
 
     Set _timeouts;
     Id _next_id;
+    // The repeating event whose callback is being run by the timer thread, or 0.
+    Id _running_id;
+    pthread_t _running_thread;
+    bool _running_removed;
+    ConditionVariable _running_cond;
     MutexLock _timeouts_lock;
 };
 
-- 
2.43.0


From 6e8a86d79ca732e666842cecf0d7cb45d0e3c468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:12 +0000
Subject: [PATCH 20/42] fix: enabling keep-alive at run time closed connections
 in use

The ticks of streams are not maintained as long as keep alive is disabled,
so the first check after ResetOptions() switched it on saw every open
connection as idle since it was opened (or since keep alive was last on).
---
 src/sofa/pbrpc/rpc_client_impl.cc | 10 ++++++++++
 src/sofa/pbrpc/rpc_server_impl.cc | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/sofa/pbrpc/rpc_client_impl.cc b/src/sofa/pbrpc/rpc_client_impl.cc
index aa8b202..69322ec 100644
--- a/src/sofa/pbrpc/rpc_client_impl.cc
+++ b/src/sofa/pbrpc/rpc_client_impl.cc
@@ -164,6 +164,16 @@ void RpcClientImpl::ResetOptions(const RpcClientOptions& options)
         -1 : std::max(0L, _options.max_throughput_out * 1024L * 1024L) / _slice_count;
     _max_pending_buffer_size =
         std::max(0L, options.max_pending_buffer_size * 1024L * 1024L);
+    if (old_keep_alive_ticks == -1)
+    {
+        // the ticks of streams are not maintained as long as keep alive is disabled
+        int64 now_ticks = (ptime_now() - _epoch_time).ticks();
+        ScopedLocker<FastLock> _(_stream_map_lock);
+        for (StreamMap::iterator it = _stream_map.begin(); it != _stream_map.end(); ++it)
+        {
+            it->second->reset_ticks(now_ticks, true);
+        }
+    }
     _keep_alive_ticks = _options.keep_alive_time == -1 ?
         -1 : std::max(1, _options.keep_alive_time) * _ticks_per_second;
 
diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 09009e8..5aa6ea7 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -249,6 +249,16 @@ void RpcServerImpl::ResetOptions(const RpcServerOptions& options)
         -1 : std::max(0L, _options.max_throughput_out * 1024L * 1024L) / _slice_count;
     _max_pending_buffer_size = 
         std::max(0L, _options.max_pending_buffer_size * 1024L * 1024L);
+    if (old_keep_alive_ticks == -1)
+    {
+        // the ticks of streams are not maintained as long as keep alive is disabled
+        int64 now_ticks = (ptime_now() - _start_time).ticks();
+        ScopedLocker<FastLock> _(_stream_set_lock);
+        for (StreamSet::iterator it = _stream_set.begin(); it != _stream_set.end(); ++it)
+        {
+            (*it)->reset_ticks(now_ticks, true);
+        }
+    }
     _keep_alive_ticks = _options.keep_alive_time == -1 ?
         -1 : std::max(1, _options.keep_alive_time) * _ticks_per_second;
 
-- 
2.43.0


From 15a6718646528ae4091f81aa549a3790aa51b6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:47 +0000
Subject: [PATCH 21/42] fix: a connection was closed as idle while its response
 was about to be sent

A handler that ran for longer than the keep-alive time decreased the pending
count before its response was handed to the stream, so the idle check could
find no pending process and a last use long ago, and close the connection.
Count the completion as a use, and check the pending count first.
---
 src/sofa/pbrpc/rpc_client_impl.cc  | 6 ++++--
 src/sofa/pbrpc/rpc_server_impl.cc  | 6 ++++--
 src/sofa/pbrpc/rpc_server_stream.h | 3 +++
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_client_impl.cc b/src/sofa/pbrpc/rpc_client_impl.cc
index 69322ec..4331c83 100644
--- a/src/sofa/pbrpc/rpc_client_impl.cc
+++ b/src/sofa/pbrpc/rpc_client_impl.cc
@@ -530,8 +530,10 @@ void RpcClientImpl::TimerMaintain(const PTime& now)
                 {
                     continue;
                 }
-                if (now_ticks - stream->last_rw_ticks() >= _keep_alive_ticks
-                        && stream->pending_process_count() == 0)
+                // check the pending count first, because the last ticks are updated
+                // before the pending count is decreased
+                if (stream->pending_process_count() == 0
+                        && now_ticks - stream->last_rw_ticks() >= _keep_alive_ticks)
                 {
                     stream->close("keep alive timeout: "
                                   + boost::lexical_cast<std::string>(_options.keep_alive_time)
diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 5aa6ea7..cc28bf7 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -540,8 +540,10 @@ void RpcServerImpl::TimerMaintain(const PTime& now)
                 {
                     continue;
                 }
-                if (now_ticks - stream->last_rw_ticks() >= _keep_alive_ticks
-                        && stream->pending_process_count() == 0)
+                // check the pending count first, because the last ticks are updated
+                // before the pending count is decreased
+                if (stream->pending_process_count() == 0
+                        && now_ticks - stream->last_rw_ticks() >= _keep_alive_ticks)
                 {
                     stream->close("keep alive timeout: "
                                   + boost::lexical_cast<std::string>(_options.keep_alive_time)
diff --git a/src/sofa/pbrpc/rpc_server_stream.h b/src/sofa/pbrpc/rpc_server_stream.h
index 6946a9b..c02d3d4 100644
--- a/src/sofa/pbrpc/rpc_server_stream.h
+++ b/src/sofa/pbrpc/rpc_server_stream.h
@@ -75,6 +75,9 @@ public:
     // Decrease pending process count.
     void decrease_pending_process_count()
     {
+        // the connection is in use until now, and the response is still to be sent,
+        // so it should not be taken as idle once no process is pending
+        _last_rw_ticks = _ticks;
         --_pending_process_count;
     }
 
-- 
2.43.0


From 84d36f0a9f4a3de3cf3bd917dbc7985c57f8dc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:39 +0000
Subject: [PATCH 22/42] fix: serializing an empty message aborted the process

---
 src/sofa/pbrpc/buffer.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sofa/pbrpc/buffer.cc b/src/sofa/pbrpc/buffer.cc
index f9b915a..64a561a 100644
--- a/src/sofa/pbrpc/buffer.cc
+++ b/src/sofa/pbrpc/buffer.cc
@@ -288,10 +288,18 @@ bool WriteBuffer::Next(void** data, int* size)
 
 // BackUp() can only be called after a successful Next().
 // "count" should be greater than or equal to 0.
+//
+// ATTENTION: when serializing an empty message, protobuf backs up zero bytes without
+// any Next() before.
 void WriteBuffer::BackUp(int count)
 {
-    SCHECK_GT(_last_bytes, 0);
     SCHECK_GE(count, 0);
+    if (count == 0)
+    {
+        _last_bytes = 0;
+        return;
+    }
+    SCHECK_GT(_last_bytes, 0);
     SCHECK_LE(count, _last_bytes);
     _buf_list.back().size -= count;
     _last_bytes = 0;
-- 
2.43.0


From 37d41b00997c72cbdc2b3e30c83cee3f9ffe8a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:39 +0000
Subject: [PATCH 23/42] fix: destroying a multi-server channel that was never
 inited crashed

---
 src/sofa/pbrpc/dynamic_rpc_channel_impl.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
index e237109..40c8cad 100644
--- a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
+++ b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
@@ -87,8 +87,10 @@ bool DynamicRpcChannelImpl::Init()
 
 void DynamicRpcChannelImpl::Stop()
 {
-    // remove TimerDetect
-    _timeout_manager->erase(_timer_id);
+    // remove TimerDetect, which is not registered if never inited
+    if (_timeout_manager) {
+        _timeout_manager->erase(_timer_id);
+    }
     {
         ScopedLocker<LockType> _(_detect_lock);
         _is_detect_disabled = true;
-- 
2.43.0


From 4215b428f2cccbcea790df833f0fe9aa3a2e87d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:39 +0000
Subject: [PATCH 24/42] fix: calls pending when a multi-server channel was
 destroyed aborted the process

---
 src/sofa/pbrpc/dynamic_rpc_channel_impl.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
index 40c8cad..097fa3b 100644
--- a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
+++ b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
@@ -117,6 +117,7 @@ void DynamicRpcChannelImpl::Stop()
         }
         _live_map.clear();
         _unlive_map.clear();
+        _added_set.clear();
     }
 
 #if defined( LOG )
-- 
2.43.0


From 0a61ccb204b5d7e19f656e073079705638e5532f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:39 +0000
Subject: [PATCH 25/42] fix: a server whose address could not be resolved at
 first was never used again

---
 src/sofa/pbrpc/dynamic_rpc_channel_impl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
index 097fa3b..fee595d 100644
--- a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
+++ b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
@@ -557,6 +557,10 @@ void DynamicRpcChannelImpl::TimerDetect(
             // ignore
             continue;
         }
+        // init channel again if it failed before.
+        if (!server->InitChannel(_client_impl, _options)) {
+            continue;
+        }
         // init builtin service.
         if (!server->InitBuiltinService(_options)) {
             // init failed
-- 
2.43.0


From 3f92a9f33602f0fcf1bc3a6d8fc2fcde11f937e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:39 +0000
Subject: [PATCH 26/42] fix: changing the throughput limits of a server which
 is not running crashed

---
 src/sofa/pbrpc/rpc_server_impl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index cc28bf7..33a0ae0 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -271,12 +271,12 @@ void RpcServerImpl::ResetOptions(const RpcServerOptions& options)
         }
     }
 
-    if (_slice_quota_in != old_slice_quota_in)
+    if (_flow_controller && _slice_quota_in != old_slice_quota_in)
     {
         _flow_controller->reset_read_quota(_slice_quota_in == -1, _slice_quota_in);
     }
 
-    if (_slice_quota_out != old_slice_quota_out)
+    if (_flow_controller && _slice_quota_out != old_slice_quota_out)
     {
         _flow_controller->reset_write_quota(_slice_quota_out == -1, _slice_quota_out);
     }
-- 
2.43.0


From 7d18107ba66ce51a45b056f34e7fd006184b886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:39 +0000
Subject: [PATCH 27/42] fix: changing the throughput limits of a client had no
 effect on the quota

---
 src/sofa/pbrpc/rpc_client_impl.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/sofa/pbrpc/rpc_client_impl.cc b/src/sofa/pbrpc/rpc_client_impl.cc
index 4331c83..a00b263 100644
--- a/src/sofa/pbrpc/rpc_client_impl.cc
+++ b/src/sofa/pbrpc/rpc_client_impl.cc
@@ -186,6 +186,19 @@ void RpcClientImpl::ResetOptions(const RpcClientOptions& options)
         }
     }
 
+    if (_flow_controller)
+    {
+        if (_slice_quota_in != old_slice_quota_in)
+        {
+            _flow_controller->reset_read_quota(_slice_quota_in == -1, _slice_quota_in);
+        }
+
+        if (_slice_quota_out != old_slice_quota_out)
+        {
+            _flow_controller->reset_write_quota(_slice_quota_out == -1, _slice_quota_out);
+        }
+    }
+
 #if defined( LOG )
     LOG(INFO) << "ResetOptions(): quota_in="
               << (_slice_quota_in == -1 ? -1 : _slice_quota_in * _slice_count / (1024L * 1024L))
-- 
2.43.0


From 94fc1c3846a56bbf53af40499506d998715ec203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:39 +0000
Subject: [PATCH 28/42] fix: connections waiting for quota hung for ever when
 the limit was removed

---
 src/sofa/pbrpc/rpc_client_impl.cc | 9 ++++++---
 src/sofa/pbrpc/rpc_server_impl.cc | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_client_impl.cc b/src/sofa/pbrpc/rpc_client_impl.cc
index a00b263..1545cb5 100644
--- a/src/sofa/pbrpc/rpc_client_impl.cc
+++ b/src/sofa/pbrpc/rpc_client_impl.cc
@@ -525,7 +525,6 @@ void RpcClientImpl::TimerMaintain(const PTime& now)
     int64 now_ticks = (now - _epoch_time).ticks();
 
     // checks which need iterator streams
-    if (_keep_alive_ticks != -1 || _slice_quota_in != -1 || _slice_quota_out != -1)
     {
         StreamMap streams;
         {
@@ -564,7 +563,9 @@ void RpcClientImpl::TimerMaintain(const PTime& now)
         {
             // recharge quota pool
             _flow_controller->recharge_read_quota(_slice_quota_in);
-
+        }
+        // streams hanged by a limit which is removed since then need to be triggered too
+        {
             // collect streams need to trigger
             std::vector<FlowControlItem> trigger_list;
             trigger_list.reserve(streams.size());
@@ -599,7 +600,9 @@ void RpcClientImpl::TimerMaintain(const PTime& now)
         {
             // recharge quota pool
             _flow_controller->recharge_write_quota(_slice_quota_out);
-
+        }
+        // streams hanged by a limit which is removed since then need to be triggered too
+        {
             // collect streams need to trigger
             std::vector<FlowControlItem> trigger_list;
             trigger_list.reserve(streams.size());
diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 33a0ae0..8fc9e9c 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -522,7 +522,6 @@ void RpcServerImpl::TimerMaintain(const PTime& now)
     }
 
     // checks which need iterator streams
-    if (_keep_alive_ticks != -1 || _slice_quota_in != -1 || _slice_quota_out != -1)
     {
         StreamSet streams;
         {
@@ -561,7 +560,9 @@ void RpcServerImpl::TimerMaintain(const PTime& now)
         {
             // recharge quota pool
             _flow_controller->recharge_read_quota(_slice_quota_in);
-
+        }
+        // streams hanged by a limit which is removed since then need to be triggered too
+        {
             // collect streams need to trigger
             std::vector<FlowControlItem> trigger_list;
             trigger_list.reserve(streams.size());
@@ -596,7 +597,9 @@ void RpcServerImpl::TimerMaintain(const PTime& now)
         {
             // recharge quota pool
             _flow_controller->recharge_write_quota(_slice_quota_out);
-
+        }
+        // streams hanged by a limit which is removed since then need to be triggered too
+        {
             // collect streams need to trigger
             std::vector<FlowControlItem> trigger_list;
             trigger_list.reserve(streams.size());
-- 
2.43.0


From 7cb77443b4c0d855ba31ed56b0d41bc5aa9a9afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:39 +0000
Subject: [PATCH 29/42] fix: a connection triggered while its quota was being
 refused hung for ever

---
 src/sofa/pbrpc/rpc_message_stream.h        | 12 ++++++++++--
 src/sofa/pbrpc/rpc_server_message_stream.h | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_message_stream.h b/src/sofa/pbrpc/rpc_message_stream.h
index 0d0e9f1..e9d1177 100644
--- a/src/sofa/pbrpc/rpc_message_stream.h
+++ b/src/sofa/pbrpc/rpc_message_stream.h
@@ -469,7 +469,7 @@ private:
         }
 
         bool started = false;
-        if (is_connected() 
+        while (is_connected() 
                 && atomic_comp_swap(&_receive_token, TOKEN_LOCK, TOKEN_FREE) == TOKEN_FREE)
         {
             SCHECK(_receiving_data != NULL);
@@ -478,12 +478,17 @@ private:
             {
                 // no network quota
                 atomic_comp_swap(&_receive_token, TOKEN_FREE, TOKEN_LOCK);
+
+                // may be triggered before the token is released, so check again
+                if (_read_quota_token <= 0)
+                    break;
             }
             else
             {
                 // now start receive
                 async_read_some(_receiving_data, _receiving_size);
                 started = true;
+                break;
             }
         }
         return started;
@@ -532,7 +537,10 @@ private:
                     clear_sending_env();
 
                     atomic_comp_swap(&_send_token, TOKEN_FREE, TOKEN_LOCK);
-                    break;
+
+                    // may be triggered before the token is released, so check again
+                    if (_write_quota_token <= 0)
+                        break;
                 }
                 else
                 {
diff --git a/src/sofa/pbrpc/rpc_server_message_stream.h b/src/sofa/pbrpc/rpc_server_message_stream.h
index 844e280..e968c15 100644
--- a/src/sofa/pbrpc/rpc_server_message_stream.h
+++ b/src/sofa/pbrpc/rpc_server_message_stream.h
@@ -467,7 +467,7 @@ private:
         }
 
         bool started = false;
-        if (is_connected() 
+        while (is_connected() 
                 && atomic_comp_swap(&_receive_token, TOKEN_LOCK, TOKEN_FREE) == TOKEN_FREE)
         {
             SCHECK(_receiving_data != NULL);
@@ -476,12 +476,17 @@ private:
             {
                 // no network quota
                 atomic_comp_swap(&_receive_token, TOKEN_FREE, TOKEN_LOCK);
+
+                // may be triggered before the token is released, so check again
+                if (_read_quota_token <= 0)
+                    break;
             }
             else
             {
                 // now start receive
                 async_read_some(_receiving_data, _receiving_size);
                 started = true;
+                break;
             }
         }
         return started;
@@ -530,7 +535,10 @@ private:
                     clear_sending_env();
 
                     atomic_comp_swap(&_send_token, TOKEN_FREE, TOKEN_LOCK);
-                    break;
+
+                    // may be triggered before the token is released, so check again
+                    if (_write_quota_token <= 0)
+                        break;
                 }
                 else
                 {
-- 
2.43.0


From 9a35c87ec13bf3b32a317b6314cbee2827c5fc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 30/42] fix: reading suspended for pending requests stayed
 suspended after the limit was raised

---
 src/sofa/pbrpc/rpc_server_impl.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 8fc9e9c..1f23759 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -268,6 +268,11 @@ void RpcServerImpl::ResetOptions(const RpcServerOptions& options)
         for (StreamSet::iterator it = _stream_set.begin(); it != _stream_set.end(); ++it)
         {
             (*it)->set_max_pending_buffer_size(_max_pending_buffer_size);
+            if (_max_pending_buffer_size > old_max_pending_buffer_size)
+            {
+                // receiving may be hanged for pending buffer full
+                (*it)->trigger_receive();
+            }
         }
     }
 
-- 
2.43.0


From b6690fe03e1b4404bef860aaaa31e271db4e39f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 31/42] fix: requests ending at the same time were lost in the
 statistics

---
 src/sofa/pbrpc/atomic.h       |  8 ++++++++
 src/sofa/pbrpc/service_pool.h | 31 +++++++++++++++++++++----------
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/sofa/pbrpc/atomic.h b/src/sofa/pbrpc/atomic.h
index d7ada1f..ca5893c 100644
--- a/src/sofa/pbrpc/atomic.h
+++ b/src/sofa/pbrpc/atomic.h
@@ -113,6 +113,14 @@ inline T atomic_comp_swap(volatile T* lockword, E exchange, C comperand)
 {
     return atomic_cmpxchg(lockword, comperand, exchange);
 }
+// return old value
+template <typename T>
+inline T atomic_comp_swap64(volatile T* n, T exchange, T comperand)
+{
+    SOFA_PBRPC_SIM_ATOMIC(n);
+    asm volatile ("lock; cmpxchgq %1, %0":"+m"(*n), "+r"(exchange), "+a"(comperand)::"cc");
+    return comperand;
+}
 
 } // namespace pbrpc
 } // namespace sofa
diff --git a/src/sofa/pbrpc/service_pool.h b/src/sofa/pbrpc/service_pool.h
index 66a1aa1..fdbcba5 100644
--- a/src/sofa/pbrpc/service_pool.h
+++ b/src/sofa/pbrpc/service_pool.h
@@ -12,6 +12,7 @@
 #include <google/protobuf/service.h>
 #include <google/protobuf/descriptor.h>
 
+#include <sofa/pbrpc/atomic.h>
 #include <sofa/pbrpc/common_internal.h>
 #include <sofa/pbrpc/builtin_service.pb.h>
 #include <sofa/pbrpc/counter.h>
@@ -76,20 +77,17 @@ public:
 
     void ReportProcessEnd(bool succeed, int64 time_in_us)
     {
+        // requests end in several threads at the same time
         volatile StatSlot* slot = &_stat_slots[_slot_index];
         if (succeed) {
-            ++slot->succeed_count;
-            slot->succeed_process_time += time_in_us;
-            if (slot->succeed_max_process_time < time_in_us) {
-                slot->succeed_max_process_time = time_in_us;
-            }
+            atomic_inc_ret_old64(&slot->succeed_count);
+            atomic_add_ret_old64(&slot->succeed_process_time, time_in_us);
+            UpdateMax(&slot->succeed_max_process_time, time_in_us);
         }
         else {
-            ++slot->failed_count;
-            slot->failed_process_time += time_in_us;
-            if (slot->failed_max_process_time < time_in_us) {
-                slot->failed_max_process_time = time_in_us;
-            }
+            atomic_inc_ret_old64(&slot->failed_count);
+            atomic_add_ret_old64(&slot->failed_process_time, time_in_us);
+            UpdateMax(&slot->failed_max_process_time, time_in_us);
         }
     }
 
@@ -145,6 +143,19 @@ public:
         stat_out->set_slot_id(stat.slot_id);
     }
 
+private:
+    static void UpdateMax(volatile int64* max, int64 value)
+    {
+        int64 old = *max;
+        while (old < value) {
+            int64 cur = atomic_comp_swap64(max, value, old);
+            if (cur == old) {
+                break;
+            }
+            old = cur;
+        }
+    }
+
 private:
     ServiceBoard* _service_board;
     const google::protobuf::MethodDescriptor* _desc;
-- 
2.43.0


From 09dd94531fbfefb7812d0c5f9910e2f6d3880046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 32/42] fix: built-in service object leaked on every restart of
 a server

---
 src/sofa/pbrpc/rpc_server_impl.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 1f23759..3d4e80b 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -166,8 +166,12 @@ bool RpcServerImpl::Start(const std::string& server_address)
     _timer_worker->start();
 
     if (!_options.disable_builtin_services) {
-        _service_pool->RegisterService(new sofa::pbrpc::builtin::BuiltinServiceImpl(
-                    shared_from_this(), _service_pool, _options.disable_list_service));
+        google::protobuf::Service* builtin_service = new sofa::pbrpc::builtin::BuiltinServiceImpl(
+                shared_from_this(), _service_pool, _options.disable_list_service);
+        if (!_service_pool->RegisterService(builtin_service)) {
+            // registered already, by an earlier start
+            delete builtin_service;
+        }
     }
 
     _is_running = true;
-- 
2.43.0


From 80541ed4f4b793417a35a48d960401c9560e97a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:17 +0000
Subject: [PATCH 33/42] fix: HTTP header names matched by case, and white space
 around values kept

Header names are case-insensitive and white space around a value is optional
(RFC 7230 3.2): 'content-length: 5' was ignored, so the body was taken for the
next request, and 'Host:x' closed the connection.
---
 src/sofa/pbrpc/http_rpc_request_parser.cc | 27 ++++++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/sofa/pbrpc/http_rpc_request_parser.cc b/src/sofa/pbrpc/http_rpc_request_parser.cc
index 4886b5b..c787e4f 100644
--- a/src/sofa/pbrpc/http_rpc_request_parser.cc
+++ b/src/sofa/pbrpc/http_rpc_request_parser.cc
@@ -2,11 +2,25 @@
 // Use of this source code is governed by a BSD-style license that can be
 // found in the LICENSE file.
 
+#include <strings.h>
+
 #include <sofa/pbrpc/http_rpc_request_parser.h>
 
 namespace sofa {
 namespace pbrpc {
 
+// names of headers are not case sensitive
+static std::map<std::string, std::string>::const_iterator FindHeader(
+        const std::map<std::string, std::string>& headers, const std::string& name)
+{
+    std::map<std::string, std::string>::const_iterator it = headers.begin();
+    while (it != headers.end() && strcasecmp(it->first.c_str(), name.c_str()) != 0)
+    {
+        ++it;
+    }
+    return it;
+}
+
 const std::string HTTPRpcRequestParser::CONTENT_LENGTH = "Content-Length";
 const std::string HTTPRpcRequestParser::ACCEPT = "Accept";
 const std::string HTTPRpcRequestParser::ACCEPT_PROTOBUF = "application/protobuf";
@@ -179,16 +193,17 @@ int HTTPRpcRequestParser::ParseInternal(char c, std::string& err)
         _header_name.push_back(c);
         return 0;
     case PS_HEAD_COLON:
-        if (c == ' ')
+        // white space around the value is optional and not part of it
+        if (c == ' ' || c == '\t')
         {
-            _state = PS_HEAD_VALUE;
             return 0;
         }
-        err = "expect space after \':\' in header key-value pair";
-        return -1;
+        _state = PS_HEAD_VALUE;
+        // fall through
     case PS_HEAD_VALUE:
         if (c == '\r')
         {
+            _header_value.erase(_header_value.find_last_not_of(" \t") + 1);
             if (!_header_name.empty())
             {
                 _req->_headers[_header_name] = _header_value;
@@ -202,7 +217,7 @@ int HTTPRpcRequestParser::ParseInternal(char c, std::string& err)
         if (c == '\n')
         {
             std::map<std::string, std::string>::const_iterator it =
-                _req->_headers.find(CONTENT_LENGTH);
+                FindHeader(_req->_headers, CONTENT_LENGTH);
             if (it != _req->_headers.end())
             {
                 char* endptr = NULL;
@@ -214,7 +229,7 @@ int HTTPRpcRequestParser::ParseInternal(char c, std::string& err)
                 }
             }
 
-            it = _req->_headers.find(ACCEPT);
+            it = FindHeader(_req->_headers, ACCEPT);
             if (it != _req->_headers.end())
             {
                 if (it->second == ACCEPT_PROTOBUF)
-- 
2.43.0


From f78951fd39fea897c4b7948d919ee072697e5501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:17 +0000
Subject: [PATCH 34/42] fix: web servlets saw every request as GET

---
 src/sofa/pbrpc/web_service.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sofa/pbrpc/web_service.cc b/src/sofa/pbrpc/web_service.cc
index dc6e02f..8190672 100644
--- a/src/sofa/pbrpc/web_service.cc
+++ b/src/sofa/pbrpc/web_service.cc
@@ -212,6 +212,8 @@ bool WebService::RoutePage(
         static_cast<const HTTPRpcRequest*>(rpc_request.get());
 
     HTTPRequest request;
+    request.type = http_rpc_request->_type == HTTPRpcRequest::GET ?
+        HTTPRequest::GET : HTTPRequest::POST;
     request.path = http_rpc_request->_path;
     request.body = http_rpc_request->_req_body;
     request.headers = &http_rpc_request->_headers;
-- 
2.43.0


From fc9db572328461e349e910da7a5233f591845fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:17 +0000
Subject: [PATCH 35/42] fix: HTTP error answers were malformed JSON for some
 reasons

A reason with a backslash or a control character was put into the JSON string
as it is.
---
 src/sofa/pbrpc/http_rpc_request.cc | 31 ++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/http_rpc_request.cc b/src/sofa/pbrpc/http_rpc_request.cc
index 6286734..dc26acf 100644
--- a/src/sofa/pbrpc/http_rpc_request.cc
+++ b/src/sofa/pbrpc/http_rpc_request.cc
@@ -2,6 +2,7 @@
 // Use of this source code is governed by a BSD-style license that can be
 // found in the LICENSE file.
 
+#include <stdio.h>
 #include <unistd.h>
 #include <netdb.h>
 #include <sys/socket.h>
@@ -181,14 +182,40 @@ ReadBufferPtr HTTPRpcRequest::AssembleSucceedResponse(
     return read_buffer;
 }
 
+// Escape a string so that it can be put between quotes in a json document.
+static std::string EscapeJsonString(const std::string& str)
+{
+    std::string out;
+    out.reserve(str.size());
+    for (size_t i = 0; i < str.size(); ++i)
+    {
+        unsigned char c = static_cast<unsigned char>(str[i]);
+        if (c == '"' || c == '\\')
+        {
+            out.push_back('\\');
+            out.push_back(c);
+        }
+        else if (c < 0x20)
+        {
+            char buf[8];
+            snprintf(buf, sizeof(buf), "\\u%04x", c);
+            out.append(buf);
+        }
+        else
+        {
+            out.push_back(c);
+        }
+    }
+    return out;
+}
+
 ReadBufferPtr HTTPRpcRequest::AssembleFailedResponse(
         int32 error_code,
         const std::string& reason,
         std::string& err)
 {
     std::ostringstream oss;
-    oss << "\"ERROR: " << error_code << ": "
-        << StringUtils::replace_all(reason, "\"", "\\\"") << "\"";
+    oss << "\"ERROR: " << error_code << ": " << EscapeJsonString(reason) << "\"";
 
     WriteBuffer write_buffer;
     if (!RenderResponse(&write_buffer, JSON, oss.str()))
-- 
2.43.0


From dae68e9a444f5d4d272df060d3ee4a02a84221cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:45 +0000
Subject: [PATCH 36/42] fix: a server whose maintenance thread could not be
 created went on starting and crashed

---
 src/sofa/pbrpc/rpc_server_impl.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 3d4e80b..9f72c6b 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -98,6 +98,7 @@ bool RpcServerImpl::Start(const std::string& server_address)
 #endif
         _maintain_thread_group.reset();
         _flow_controller.reset();
+        return false;
     }
 
     _io_service_pool.reset(new IOServicePool(
-- 
2.43.0


From e2aa5d4e4cd3e6f6dcc5ae1c24e38f346e5941b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:45 +0000
Subject: [PATCH 37/42] fix: responses that could not be assembled were never
 answered

---
 src/sofa/pbrpc/http_rpc_request.cc | 1 +
 src/sofa/pbrpc/rpc_request.cc      | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/sofa/pbrpc/http_rpc_request.cc b/src/sofa/pbrpc/http_rpc_request.cc
index dc26acf..f55826e 100644
--- a/src/sofa/pbrpc/http_rpc_request.cc
+++ b/src/sofa/pbrpc/http_rpc_request.cc
@@ -312,6 +312,7 @@ void HTTPRpcRequest::SendResponse(
         SLOG(ERROR, "SendResponse(): %s: {%lu}: render response failed",
                 RpcEndpointToString(_remote_endpoint).c_str(), SequenceId());
 #endif
+        SendFailedResponse(server_stream, RPC_ERROR_SERIALIZE_RESPONSE, "render response failed");
         return;
     }
 
diff --git a/src/sofa/pbrpc/rpc_request.cc b/src/sofa/pbrpc/rpc_request.cc
index a08e369..48206d9 100644
--- a/src/sofa/pbrpc/rpc_request.cc
+++ b/src/sofa/pbrpc/rpc_request.cc
@@ -175,6 +175,7 @@ void RpcRequest::SendSucceedResponse(
         SLOG(ERROR, "SendSucceedResponse(): %s {%lu}: assemble response buffer failed: %s",
                 RpcEndpointToString(_remote_endpoint).c_str(), SequenceId(), err.c_str());
 #endif
+        SendFailedResponse(cntl->RpcServerStream(), RPC_ERROR_SERIALIZE_RESPONSE, err);
         return;
     }
 
@@ -235,6 +236,8 @@ void RpcRequest::SendFailedResponse(
         SLOG(ERROR, "SendFailedResponse(): %s {%lu}: assemble response buffer failed: %s",
                 RpcEndpointToString(_remote_endpoint).c_str(), sequence_id, err.c_str());
 #endif
+        // the peer must not wait for a response that never comes
+        real_stream->close("assemble response failed: " + err);
         return;
     }
 
-- 
2.43.0


From 5541c1b54c3d34e827c529ca7978e45530c747e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:45 +0000
Subject: [PATCH 38/42] fix: a client whose threads could not be created left
 its calls hanging

---
 src/sofa/pbrpc/rpc_client_impl.cc | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_client_impl.cc b/src/sofa/pbrpc/rpc_client_impl.cc
index 1545cb5..8defc47 100644
--- a/src/sofa/pbrpc/rpc_client_impl.cc
+++ b/src/sofa/pbrpc/rpc_client_impl.cc
@@ -69,15 +69,25 @@ void RpcClientImpl::Start()
 
     _maintain_thread_group.reset(new ThreadGroupImpl(
                 2, "sofa_pbrpc_client_maintain_thread_group"));
-    _maintain_thread_group->start();
-
     _callback_thread_group.reset(new ThreadGroupImpl(
                 _options.callback_thread_num, "sofa_pbrpc_client_callback_thread_group"));
-    _callback_thread_group->start();
-
     _work_thread_group.reset(new ThreadGroupImpl(
                 _options.work_thread_num, "sofa_pbrpc_client_work_thread_group"));
-    _work_thread_group->start();
+    if (!_maintain_thread_group->start()
+            || !_callback_thread_group->start()
+            || !_work_thread_group->start())
+    {
+#if defined( LOG )
+        LOG(ERROR) << "Start(): start thread groups failed";
+#else
+        SLOG(ERROR, "Start(): start thread groups failed");
+#endif
+        _work_thread_group.reset();
+        _callback_thread_group.reset();
+        _maintain_thread_group.reset();
+        _flow_controller.reset();
+        return;
+    }
 
     _timer_worker.reset(new TimerWorker(_maintain_thread_group->io_service()));
     _timer_worker->set_time_duration(time_duration_milliseconds(MAINTAIN_INTERVAL_IN_MS)); 
-- 
2.43.0


From a89da6cab79295e91b7f3c6a667ae28796934f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:45 +0000
Subject: [PATCH 39/42] fix: a compressed message that could not be written
 completely was sent truncated

---
 src/sofa/pbrpc/binary_rpc_request.cc | 1 +
 src/sofa/pbrpc/block_wrappers.cc     | 6 +++---
 src/sofa/pbrpc/gzip_stream.cc        | 4 ++--
 src/sofa/pbrpc/rpc_client_impl.cc    | 1 +
 4 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/sofa/pbrpc/binary_rpc_request.cc b/src/sofa/pbrpc/binary_rpc_request.cc
index de571d5..e2780dc 100644
--- a/src/sofa/pbrpc/binary_rpc_request.cc
+++ b/src/sofa/pbrpc/binary_rpc_request.cc
@@ -163,6 +163,7 @@ ReadBufferPtr BinaryRpcRequest::AssembleSucceedResponse(
                 get_compressed_output_stream(&write_buffer, meta.compress_type()));
         ser_ret = response->SerializeToZeroCopyStream(os.get());
         os->Flush();
+        ser_ret = os->Close() && ser_ret;
     }
     if (!ser_ret)
     {
diff --git a/src/sofa/pbrpc/block_wrappers.cc b/src/sofa/pbrpc/block_wrappers.cc
index 8f53404..92ab443 100644
--- a/src/sofa/pbrpc/block_wrappers.cc
+++ b/src/sofa/pbrpc/block_wrappers.cc
@@ -129,7 +129,7 @@ void BlockCompressionOutputStream::BackUp(int count) {
 bool BlockCompressionOutputStream::Flush()
 {
     size_t size = BLOCKSIZE - _backed_up_bytes;
-    if (!_input_buffer || size == 0) return true;
+    if (!_input_buffer || size == 0) return !_sub_stream->HadError();
     
     size_t compressed_size = 0;
     char * compressed_data = new char[MaxCompressedLength(size)];
@@ -145,7 +145,7 @@ bool BlockCompressionOutputStream::Flush()
     _backed_up_bytes = 0;
     delete[] _input_buffer;
     _input_buffer = 0;
-    return true;
+    return !_sub_stream->HadError();
 }
 
 bool BlockCompressionOutputStream::Next(void** data, int* size) {
@@ -157,7 +157,7 @@ bool BlockCompressionOutputStream::Next(void** data, int* size) {
         _byte_count += *size;
         return true;
     }
-    if(_input_buffer) Flush();
+    if(_input_buffer && !Flush()) return false;
     _input_buffer = new char[BLOCKSIZE];
     (*data) = _input_buffer;
     (*size) = BLOCKSIZE;
diff --git a/src/sofa/pbrpc/gzip_stream.cc b/src/sofa/pbrpc/gzip_stream.cc
index 08adf1c..d9b83f4 100644
--- a/src/sofa/pbrpc/gzip_stream.cc
+++ b/src/sofa/pbrpc/gzip_stream.cc
@@ -375,8 +375,8 @@ bool GzipOutputStream::Close() {
   do {
     zerror_ = Deflate(Z_FINISH);
   } while (zerror_ == Z_OK);
-  zerror_ = deflateEnd(&zcontext_);
-  bool ok = zerror_ == Z_OK;
+  bool ok = zerror_ == Z_STREAM_END;
+  ok = deflateEnd(&zcontext_) == Z_OK && ok;
   zerror_ = Z_STREAM_END;
   return ok;
 }
diff --git a/src/sofa/pbrpc/rpc_client_impl.cc b/src/sofa/pbrpc/rpc_client_impl.cc
index 8defc47..6add3ac 100644
--- a/src/sofa/pbrpc/rpc_client_impl.cc
+++ b/src/sofa/pbrpc/rpc_client_impl.cc
@@ -354,6 +354,7 @@ void RpcClientImpl::CallMethod(const google::protobuf::Message* request,
                 get_compressed_output_stream(&write_buffer, meta.compress_type()));
         serialize_request_return = request->SerializeToZeroCopyStream(os.get());
         os->Flush();
+        serialize_request_return = os->Close() && serialize_request_return;
     }
     if (!serialize_request_return)
     {
-- 
2.43.0


From 098ba5422cf684c95ed20aec233cf5763a95fdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 40/42] fix: a keep-alive time switched off while it was being
 checked closed connections in use

---
 src/sofa/pbrpc/rpc_client_impl.cc | 7 ++++---
 src/sofa/pbrpc/rpc_server_impl.cc | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_client_impl.cc b/src/sofa/pbrpc/rpc_client_impl.cc
index 6add3ac..1b5c620 100644
--- a/src/sofa/pbrpc/rpc_client_impl.cc
+++ b/src/sofa/pbrpc/rpc_client_impl.cc
@@ -543,8 +543,9 @@ void RpcClientImpl::TimerMaintain(const PTime& now)
             streams = _stream_map;
         }
 
-        // check keep alive time
-        if (_keep_alive_ticks != -1)
+        // check keep alive time, which may be changed meanwhile
+        const int64 keep_alive_ticks = _keep_alive_ticks;
+        if (keep_alive_ticks != -1)
         {
             for (StreamMap::iterator it = streams.begin(); it != streams.end(); ++it)
             {
@@ -556,7 +557,7 @@ void RpcClientImpl::TimerMaintain(const PTime& now)
                 // check the pending count first, because the last ticks are updated
                 // before the pending count is decreased
                 if (stream->pending_process_count() == 0
-                        && now_ticks - stream->last_rw_ticks() >= _keep_alive_ticks)
+                        && now_ticks - stream->last_rw_ticks() >= keep_alive_ticks)
                 {
                     stream->close("keep alive timeout: "
                                   + boost::lexical_cast<std::string>(_options.keep_alive_time)
diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 9f72c6b..25e064a 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -539,8 +539,9 @@ void RpcServerImpl::TimerMaintain(const PTime& now)
             streams = _stream_set;
         }
 
-        // check keep alive time
-        if (_keep_alive_ticks != -1)
+        // check keep alive time, which may be changed meanwhile
+        const int64 keep_alive_ticks = _keep_alive_ticks;
+        if (keep_alive_ticks != -1)
         {
             for (StreamSet::iterator it = streams.begin(); it != streams.end(); ++it)
             {
@@ -552,7 +553,7 @@ void RpcServerImpl::TimerMaintain(const PTime& now)
                 // check the pending count first, because the last ticks are updated
                 // before the pending count is decreased
                 if (stream->pending_process_count() == 0
-                        && now_ticks - stream->last_rw_ticks() >= _keep_alive_ticks)
+                        && now_ticks - stream->last_rw_ticks() >= keep_alive_ticks)
                 {
                     stream->close("keep alive timeout: "
                                   + boost::lexical_cast<std::string>(_options.keep_alive_time)
-- 
2.43.0


From 59ccd43e44200fa57adc295982ff949ed5d6919b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:51 +0000
Subject: [PATCH 41/42] fix: pending sizes are not read in the middle of a swap
 of the queues

pending_buffer_size() adds up two counters while another thread may be moving
the messages from the one queue to the other: a call could be refused as
"pending buffer full" although far less than the limit was pending.
---
 src/sofa/pbrpc/rpc_message_stream.h        | 8 +++++++-
 src/sofa/pbrpc/rpc_server_message_stream.h | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_message_stream.h b/src/sofa/pbrpc/rpc_message_stream.h
index e9d1177..9827853 100644
--- a/src/sofa/pbrpc/rpc_message_stream.h
+++ b/src/sofa/pbrpc/rpc_message_stream.h
@@ -122,12 +122,16 @@ public:
     // Get the current count of messages in the pending queue.
     int64 pending_message_count() const
     {
+        // not while the queues are swapped, which would count the messages twice
+        ScopedLocker<FastLock> _(_pending_lock);
         return _pending_message_count + _swapped_message_count;
     }
 
     // Get the current data size of messages in the pending queue.
     int64 pending_data_size() const
     {
+        // not while the queues are swapped, which would count the messages twice
+        ScopedLocker<FastLock> _(_pending_lock);
         return _pending_data_size + _swapped_data_size;
     }
 
@@ -135,6 +139,8 @@ public:
     // This size may be larger than "pending_data_size".
     int64 pending_buffer_size() const
     {
+        // not while the queues are swapped, which would count the messages twice
+        ScopedLocker<FastLock> _(_pending_lock);
         return _pending_buffer_size + _swapped_buffer_size;
     }
 
@@ -798,7 +804,7 @@ private:
     volatile int64 _pending_data_size;
     volatile int64 _pending_buffer_size;
     std::deque<PendingItem> _pending_calls;
-    FastLock _pending_lock;
+    mutable FastLock _pending_lock;
     std::deque<PendingItem> _swapped_calls;
     volatile int _swapped_message_count;
     volatile int64 _swapped_data_size;
diff --git a/src/sofa/pbrpc/rpc_server_message_stream.h b/src/sofa/pbrpc/rpc_server_message_stream.h
index e968c15..6630070 100644
--- a/src/sofa/pbrpc/rpc_server_message_stream.h
+++ b/src/sofa/pbrpc/rpc_server_message_stream.h
@@ -125,12 +125,16 @@ public:
     // Get the current count of messages in the pending queue.
     int64 pending_message_count() const
     {
+        // not while the queues are swapped, which would count the messages twice
+        ScopedLocker<FastLock> _(_pending_lock);
         return _pending_message_count + _swapped_message_count;
     }
 
     // Get the current data size of messages in the pending queue.
     int64 pending_data_size() const
     {
+        // not while the queues are swapped, which would count the messages twice
+        ScopedLocker<FastLock> _(_pending_lock);
         return _pending_data_size + _swapped_data_size;
     }
 
@@ -138,6 +142,8 @@ public:
     // This size may be larger than "pending_data_size".
     int64 pending_buffer_size() const
     {
+        // not while the queues are swapped, which would count the messages twice
+        ScopedLocker<FastLock> _(_pending_lock);
         return _pending_buffer_size + _swapped_buffer_size;
     }
 
@@ -757,7 +763,7 @@ private:
     volatile int64 _pending_data_size;
     volatile int64 _pending_buffer_size;
     std::deque<PendingItem> _pending_calls;
-    FastLock _pending_lock;
+    mutable FastLock _pending_lock;
     std::deque<PendingItem> _swapped_calls;
     volatile int _swapped_message_count;
     volatile int64 _swapped_data_size;
-- 
2.43.0


From 52e57516611af67b0e0594af5f0e4de2d2669dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:25 +0000
Subject: [PATCH 42/42] fix: the timer of a connect is cancelled when the
 connection is closed

With a connect timeout set, a connection closed while it was being established
left its timer running, so RpcClient::Shutdown() did not return before the
connect timeout was over.
---
 src/sofa/pbrpc/rpc_byte_stream.h | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/sofa/pbrpc/rpc_byte_stream.h b/src/sofa/pbrpc/rpc_byte_stream.h
index e236aa8..f2ba7a8 100644
--- a/src/sofa/pbrpc/rpc_byte_stream.h
+++ b/src/sofa/pbrpc/rpc_byte_stream.h
@@ -13,7 +13,9 @@
 #include <boost/date_time/posix_time/posix_time_types.hpp>
 
 #include <sofa/pbrpc/common_internal.h>
+#include <sofa/pbrpc/fast_lock.h>
 #include <sofa/pbrpc/rpc_endpoint.h>
+#include <sofa/pbrpc/scoped_locker.h>
 #include <sofa/pbrpc/tran_buf_pool.h>
 
 // If SOFA_PBRPC_TCP_NO_DELAY == true, means disable the Nagle algorithm.
@@ -106,6 +108,7 @@ public:
             snprintf(_error_message, sizeof(_error_message), "%s", reason.c_str());
             boost::system::error_code ec;
             _socket.shutdown(tcp::socket::shutdown_both, ec);
+            cancel_connect_timer();
             on_closed();
             if (_remote_endpoint != RpcEndpoint())
             {
@@ -157,6 +160,12 @@ public:
         }
         if (_connect_timeout > 0) 
         {
+            ScopedLocker<FastLock> _(_timer_lock);
+            if (!is_connecting())
+            {
+                // already connected or closed
+                return;
+            }
             _timer.expires_from_now(boost::posix_time::milliseconds(_connect_timeout));
             _timer.async_wait(boost::bind(&RpcByteStream::on_connect_timeout, shared_from_this(), _1));
         }
@@ -353,6 +362,15 @@ protected:
             std::size_t bytes_transferred) = 0;
 
 private:
+    // Once the stream is connected or closed, the timer must not be left running: it
+    // would keep the stream and the io service busy until the connect timeout.
+    void cancel_connect_timer()
+    {
+        ScopedLocker<FastLock> _(_timer_lock);
+        boost::system::error_code ec;
+        _timer.cancel(ec);
+    }
+
     // Callback of "async_connect()".
     void on_connect(const boost::system::error_code& error)
     {
@@ -434,7 +452,7 @@ private:
             // already closed
             return;
         }
-        _timer.cancel();
+        cancel_connect_timer();
 
         trigger_receive();
         trigger_send();
@@ -458,6 +476,7 @@ protected:
 
 private:
     deadline_timer _timer;
+    FastLock _timer_lock;
     tcp::socket _socket;
     int64 _connect_timeout;
 
-- 
2.43.0

