From fa6a720375bb86359bfc029559546969c45b4e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:11 +0000
Subject: [PATCH 01/74] fix: make the state flags of a task provider atomic

Workers set the exception flag concurrently and the owner reads the running flag without any lock.
---
 src/thread_pool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thread_pool.h b/src/thread_pool.h
index 3a05aa0..242b420 100644
--- a/src/thread_pool.h
+++ b/src/thread_pool.h
@@ -55,12 +55,12 @@ private:
     std::atomic<size_t> _givenTaskCount; // number of tasks which were given to thread pool
     std::atomic<size_t> _completedTaskCount; // number of completed tasks
 
-    bool _running; // boolean variable specifies the state of tasks processing
+    std::atomic<bool> _running; // boolean variable specifies the state of tasks processing
     std::mutex _completion; // mutex for synchronization reporting about completion of all tasks
                             // this mutex is waited in _wait() function
     std::condition_variable _waiting; // condition variable for verification that all tasks are really completed
 
-    bool _exceptionRaised; // notifies whether an exception raised during task execution
+    std::atomic<bool> _exceptionRaised; // notifies whether an exception raised during task execution
 
     void _taskRun( bool skip ); // function is called only by thread pool to call _task() function and increment counters
 };
-- 
2.43.0


From 08b99bfcbf639f7a923f09deac0a8446e19109b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:11 +0000
Subject: [PATCH 02/74] fix: do not access a task provider after its last task
 is completed

A worker which completed a task compared its count with the task count of the provider after reporting
the completion. At that moment the provider could already be destroyed or reused for another batch, which
was then reported as completed too early.
---
 src/thread_pool.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index af9a214..31f24ef 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -51,8 +51,11 @@ AbstractTaskProvider & AbstractTaskProvider::operator=( const AbstractTaskProvid
 void AbstractTaskProvider::_taskRun( bool skip )
 {
     const size_t taskId = _givenTaskCount++;
+    // The number of tasks must be read before this task is reported as completed: when the last task is completed
+    // the owner is free to run a new batch of tasks or to destroy the provider
+    const size_t taskCount = _taskCount;
 
-    if ( taskId < _taskCount ) {
+    if ( taskId < taskCount ) {
         if ( !skip ) {
             try {
                 _task( taskId );
@@ -66,7 +69,7 @@ void AbstractTaskProvider::_taskRun( bool skip )
 
         const size_t completedTasks = ( ++_completedTaskCount );
 
-        if ( completedTasks == _taskCount ) {
+        if ( completedTasks == taskCount ) {
             _completion.lock();
 
             _running = false;
-- 
2.43.0


From 13d15767aa58fc937c91f90834cca8f3a46164d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:24 +0000
Subject: [PATCH 03/74] fix: access exit and run flags of a worker thread only
 under the lock

---
 src/thread_pool.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 31f24ef..65e3c6b 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -287,32 +287,33 @@ void ThreadPool::_workerThread( ThreadPool * pool, size_t threadId )
         pool->_creation.unlock();
     }
 
-    while ( !pool->_exit[threadId] ) {
-        std::unique_lock<std::mutex> _mutexLock( pool->_taskInfo );
+    std::unique_lock<std::mutex> _mutexLock( pool->_taskInfo );
+
+    // the state of the pool must be accessed only while the mutex is locked
+    while ( true ) {
         pool->_waiting.wait( _mutexLock, [&] { return pool->_run[threadId]; } );
-        _mutexLock.unlock();
 
         if ( pool->_exit[threadId] )
             break;
 
-        pool->_taskInfo.lock();
-
         if ( !pool->_task.empty() ) {
             AbstractTaskProvider * task = pool->_task.front();
 
             pool->_task.pop_front();
 
-            pool->_taskInfo.unlock();
+            _mutexLock.unlock();
 
             task->_taskRun( false );
+
+            _mutexLock.lock();
         }
         else {
             pool->_run[threadId] = 0;
-
-            pool->_taskInfo.unlock();
         }
     }
 
+    _mutexLock.unlock();
+
     --( pool->_runningThreadCount );
 }
 
-- 
2.43.0


From 40f9449ebcf33e77c218fd1ab7bbc6601ed1bad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:25 +0000
Subject: [PATCH 04/74] fix: wait for the creation of all new threads on every
 growth of a pool

---
 src/thread_pool.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 65e3c6b..4592dbe 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -169,7 +169,10 @@ void ThreadPool::resize( size_t threads )
         _exit.resize( threads, 0 );
         _taskInfo.unlock();
 
+        _creation.lock();
         _threadCount = threads;
+        _threadsCreated = false;
+        _creation.unlock();
 
         while ( threads > threadCount() )
             _worker.push_back( std::thread( ThreadPool::_workerThread, this, threadCount() ) );
@@ -280,13 +283,15 @@ void ThreadPool::stop()
 
 void ThreadPool::_workerThread( ThreadPool * pool, size_t threadId )
 {
+    pool->_creation.lock();
+
     if ( ++( pool->_runningThreadCount ) == pool->_threadCount ) {
-        pool->_creation.lock();
         pool->_threadsCreated = true;
         pool->_completeCreation.notify_one();
-        pool->_creation.unlock();
     }
 
+    pool->_creation.unlock();
+
     std::unique_lock<std::mutex> _mutexLock( pool->_taskInfo );
 
     // the state of the pool must be accessed only while the mutex is locked
-- 
2.43.0


From 8575923911e6bd7c95ae5b1ba6edb8f49094543a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:25 +0000
Subject: [PATCH 05/74] fix: complete cleared tasks instead of executing them

---
 src/thread_pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 4592dbe..0f3e33a 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -255,7 +255,7 @@ void ThreadPool::clear()
 {
     _taskInfo.lock();
     // complete all tasks without real computations. It helps to avoid a deadlock in a case when thread pool is destroyed
-    std::for_each( _task.begin(), _task.end(), []( AbstractTaskProvider * task ) { task->_task( true ); } );
+    std::for_each( _task.begin(), _task.end(), []( AbstractTaskProvider * task ) { task->_taskRun( true ); } );
     _task.clear();
 
     _taskInfo.unlock();
-- 
2.43.0


From 2e0603f63dbb77d3e28cc06f76627135e4957837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:26 +0000
Subject: [PATCH 06/74] fix: complete removed tasks so nobody waits for them
 forever

---
 src/thread_pool.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 0f3e33a..6ebad65 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -246,8 +246,13 @@ void ThreadPool::remove( AbstractTaskProvider * provider )
 {
     _taskInfo.lock();
 
+    // removed tasks must be completed without real computations, otherwise nobody will ever notify those who wait for the provider
+    const std::list<AbstractTaskProvider *>::difference_type taskCount = std::count( _task.begin(), _task.end(), provider );
     _task.remove( provider );
 
+    for ( std::list<AbstractTaskProvider *>::difference_type i = 0; i < taskCount; ++i )
+        provider->_taskRun( true );
+
     _taskInfo.unlock();
 }
 
-- 
2.43.0


From 0d584fbf73691583d9e70739d7565bf320309edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 07/74] fix: make resizing and stopping of a pool safe for
 concurrent use

---
 src/thread_pool.cpp | 32 ++++++++++++++++++++++----------
 src/thread_pool.h   |  3 ++-
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 6ebad65..e4cbffa 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -163,7 +163,9 @@ void ThreadPool::resize( size_t threads )
     if ( threads == 0 )
         throw penguinVException( "Try to set zero threads in thread pool" );
 
-    if ( threads > threadCount() ) {
+    std::lock_guard<std::mutex> _workerLock( _workerInfo );
+
+    if ( threads > _worker.size() ) {
         _taskInfo.lock();
         _run.resize( threads, 1 );
         _exit.resize( threads, 0 );
@@ -174,22 +176,24 @@ void ThreadPool::resize( size_t threads )
         _threadsCreated = false;
         _creation.unlock();
 
-        while ( threads > threadCount() )
-            _worker.push_back( std::thread( ThreadPool::_workerThread, this, threadCount() ) );
+        while ( threads > _worker.size() )
+            _worker.push_back( std::thread( ThreadPool::_workerThread, this, _worker.size() ) );
 
         std::unique_lock<std::mutex> _mutexLock( _creation );
         _completeCreation.wait( _mutexLock, [&] { return _threadsCreated; } );
     }
-    else if ( threads < threadCount() ) {
+    else if ( threads < _worker.size() ) {
         _taskInfo.lock();
 
+        _threadCount = threads;
+
         std::fill( _exit.begin() + static_cast<std::vector<uint8_t>::difference_type>( threads ), _exit.end(), 1 );
         std::fill( _run.begin() + static_cast<std::vector<uint8_t>::difference_type>( threads ), _run.end(), 1 );
         _waiting.notify_all();
 
         _taskInfo.unlock();
 
-        while ( threads < threadCount() ) {
+        while ( threads < _worker.size() ) {
             _worker.back().join();
 
             _worker.pop_back();
@@ -206,7 +210,7 @@ void ThreadPool::resize( size_t threads )
 
 size_t ThreadPool::threadCount() const
 {
-    return _worker.size();
+    return _threadCount;
 }
 
 void ThreadPool::add( AbstractTaskProvider * provider, size_t taskCount )
@@ -214,6 +218,8 @@ void ThreadPool::add( AbstractTaskProvider * provider, size_t taskCount )
     if ( taskCount == 0 )
         throw penguinVException( "Try to add zero tasks to thread pool" );
 
+    std::lock_guard<std::mutex> _taskLock( _taskInfo );
+
     if ( threadCount() == 0 )
         throw penguinVException( "No threads in thread pool" );
 
@@ -221,14 +227,10 @@ void ThreadPool::add( AbstractTaskProvider * provider, size_t taskCount )
     provider->_running = true;
     provider->_completion.unlock();
 
-    _taskInfo.lock();
-
     _task.insert( _task.end(), taskCount, provider );
 
     std::fill( _run.begin(), _run.end(), 1 );
     _waiting.notify_all();
-
-    _taskInfo.unlock();
 }
 
 bool ThreadPool::empty()
@@ -268,6 +270,13 @@ void ThreadPool::clear()
 
 void ThreadPool::stop()
 {
+    std::lock_guard<std::mutex> _workerLock( _workerInfo );
+
+    // no new tasks are accepted from this point
+    _taskInfo.lock();
+    _threadCount = 0;
+    _taskInfo.unlock();
+
     clear();
 
     if ( !_worker.empty() ) {
@@ -283,6 +292,9 @@ void ThreadPool::stop()
             thread->join();
 
         _worker.clear();
+
+        _run.clear();
+        _exit.clear();
     }
 }
 
diff --git a/src/thread_pool.h b/src/thread_pool.h
index 242b420..8a4e703 100644
--- a/src/thread_pool.h
+++ b/src/thread_pool.h
@@ -106,6 +106,7 @@ public:
     void stop(); // stop all working threads
 private:
     std::vector<std::thread> _worker; // an array of worker threads
+    std::mutex _workerInfo; // mutex for synchronization between those who change the number of worker threads
     std::vector<uint8_t> _run; // indicator for threads to run tasks
     std::vector<uint8_t> _exit; // indicator for threads to close themselfs
     std::condition_variable _waiting; // condition variable for synchronization of threads
@@ -113,7 +114,7 @@ private:
     std::mutex _creation; // mutex for thread creation verification
     std::atomic<size_t> _runningThreadCount; // variable used to calculate a number of running threads
     std::condition_variable _completeCreation; // condition variable for verification that all threads are created
-    std::size_t _threadCount; // current number of threads in pool
+    std::atomic<size_t> _threadCount; // current number of threads in pool
     bool _threadsCreated; // indicator for pool that all threads are created
 
     std::list<AbstractTaskProvider *> _task; // a list of tasks to perform
-- 
2.43.0


From 1fd4344a1e6e479b2497728cc6672e8790d3da19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 08/74] fix: do not mark a provider as running when its tasks
 cannot be added

---
 src/thread_pool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index e4cbffa..7a7fc9a 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -223,12 +223,12 @@ void ThreadPool::add( AbstractTaskProvider * provider, size_t taskCount )
     if ( threadCount() == 0 )
         throw penguinVException( "No threads in thread pool" );
 
+    _task.insert( _task.end(), taskCount, provider );
+
     provider->_completion.lock();
     provider->_running = true;
     provider->_completion.unlock();
 
-    _task.insert( _task.end(), taskCount, provider );
-
     std::fill( _run.begin(), _run.end(), 1 );
     _waiting.notify_all();
 }
-- 
2.43.0


From c65dd0e27a13cb69434362531c428c5268ceb6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 09/74] fix: keep a pool consistent when a thread cannot be
 created

---
 src/thread_pool.cpp | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 7a7fc9a..75c7125 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -166,18 +166,37 @@ void ThreadPool::resize( size_t threads )
     std::lock_guard<std::mutex> _workerLock( _workerInfo );
 
     if ( threads > _worker.size() ) {
-        _taskInfo.lock();
-        _run.resize( threads, 1 );
-        _exit.resize( threads, 0 );
-        _taskInfo.unlock();
+        _worker.reserve( threads );
+
+        {
+            std::lock_guard<std::mutex> _taskLock( _taskInfo );
+            _run.reserve( threads );
+            _exit.reserve( threads );
+            _run.resize( threads, 1 );
+            _exit.resize( threads, 0 );
+        }
 
         _creation.lock();
         _threadCount = threads;
         _threadsCreated = false;
         _creation.unlock();
 
-        while ( threads > _worker.size() )
-            _worker.push_back( std::thread( ThreadPool::_workerThread, this, _worker.size() ) );
+        try {
+            while ( threads > _worker.size() )
+                _worker.push_back( std::thread( ThreadPool::_workerThread, this, _worker.size() ) );
+        }
+        catch ( ... ) {
+            // not all threads are created: continue with existing ones
+            std::lock_guard<std::mutex> _taskLock( _taskInfo );
+            _run.resize( _worker.size() );
+            _exit.resize( _worker.size() );
+
+            _creation.lock();
+            _threadCount = _worker.size();
+            _creation.unlock();
+
+            throw;
+        }
 
         std::unique_lock<std::mutex> _mutexLock( _creation );
         _completeCreation.wait( _mutexLock, [&] { return _threadsCreated; } );
-- 
2.43.0


From a37edd8ac9386da7e062636b82373386851c86e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 10/74] fix: stop created threads when the construction of a
 pool fails

---
 src/thread_pool.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 75c7125..f78579a 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -149,8 +149,15 @@ ThreadPool::ThreadPool( size_t threads )
     , _threadCount( 0 )
     , _threadsCreated( false )
 {
-    if ( threads > 0 )
-        resize( threads );
+    if ( threads > 0 ) {
+        try {
+            resize( threads );
+        }
+        catch ( ... ) {
+            stop(); // some threads might be already created and the destructor will not be called
+            throw;
+        }
+    }
 }
 
 ThreadPool::~ThreadPool()
-- 
2.43.0


From 1f124ea0f7b327b044839b1cc33b247b781b75e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:25 +0000
Subject: [PATCH 11/74] fix: do not copy images while validating parameters

---
 src/parameter_validation.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/parameter_validation.h b/src/parameter_validation.h
index 154959d..6e1a2d0 100644
--- a/src/parameter_validation.h
+++ b/src/parameter_validation.h
@@ -64,7 +64,7 @@ namespace Image_Function
     }
 
     template <typename TImage, typename... Args>
-    void VerifyRGBImage( const TImage & image, Args... args )
+    void VerifyRGBImage( const TImage & image, const Args &... args )
     {
         VerifyRGBImage( image );
         VerifyRGBImage( args... );
@@ -78,7 +78,7 @@ namespace Image_Function
     }
 
     template <typename TImage, typename... Args>
-    void VerifyGrayScaleImage( const TImage & image, Args... args )
+    void VerifyGrayScaleImage( const TImage & image, const Args &... args )
     {
         VerifyGrayScaleImage( image );
         VerifyGrayScaleImage( args... );
@@ -100,7 +100,7 @@ namespace Image_Function
     }
 
     template <typename TImage, typename... Args>
-    void ValidateImageParameters( const TImage & image1, const TImage & image2, Args... args )
+    void ValidateImageParameters( const TImage & image1, const TImage & image2, const Args &... args )
     {
         ValidateImageParameters( image1, image2 );
         ValidateImageParameters( image2, args... );
@@ -113,7 +113,7 @@ namespace Image_Function
     }
 
     template <typename TImage, typename... Args>
-    std::pair<uint32_t, uint32_t> ExtractRoiSize( const TImage &, uint32_t, uint32_t, Args... args )
+    std::pair<uint32_t, uint32_t> ExtractRoiSize( const TImage &, uint32_t, uint32_t, const Args &... args )
     {
         return ExtractRoiSize( args... );
     }
@@ -127,7 +127,7 @@ namespace Image_Function
     }
 
     template <typename TImage, typename... Args>
-    void ValidateImageParameters( const TImage & image1, uint32_t startX1, uint32_t startY1, Args... args )
+    void ValidateImageParameters( const TImage & image1, uint32_t startX1, uint32_t startY1, const Args &... args )
     {
         const std::pair<uint32_t, uint32_t> & dimensions = ExtractRoiSize( args... );
 
@@ -142,7 +142,7 @@ namespace Image_Function
     }
 
     template <typename TImage, typename... Args>
-    bool IsFullImageRow( uint32_t width, const TImage & image, Args... args )
+    bool IsFullImageRow( uint32_t width, const TImage & image, const Args &... args )
     {
         if ( !IsFullImageRow( width, image ) )
             return false;
@@ -151,7 +151,7 @@ namespace Image_Function
     }
 
     template <typename TImage, typename... Args>
-    void OptimiseRoi( uint32_t & width, uint32_t & height, const TImage & image, Args... args )
+    void OptimiseRoi( uint32_t & width, uint32_t & height, const TImage & image, const Args &... args )
     {
         if ( IsFullImageRow( width, image, args... ) && ( width < ( std::numeric_limits<uint32_t>::max() / height ) ) ) {
             width = width * height;
-- 
2.43.0


From 992e12a000fc407c375558304bdb365b601c4a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:52 +0000
Subject: [PATCH 12/74] fix: count all pixels of colour images in a histogram

---
 src/image_function.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index f0abeab..72391b1 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -867,9 +867,11 @@ namespace Image_Function
     void Histogram( const Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height, std::vector<uint32_t> & histogram )
     {
         ValidateImageParameters( image, x, y, width, height );
-        OptimiseRoi( width, height, image );
 
         const uint32_t colorCount = image.colorCount();
+        width = width * colorCount;
+
+        OptimiseRoi( width, height, image );
 
         histogram.resize( 256u * colorCount );
         std::fill( histogram.begin(), histogram.end(), 0u );
@@ -923,6 +925,7 @@ namespace Image_Function
         OptimiseRoi( width, height, image, mask );
 
         const uint32_t colorCount = image.colorCount();
+        width = width * colorCount;
 
         histogram.resize( 256u * colorCount );
         std::fill( histogram.begin(), histogram.end(), 0u );
-- 
2.43.0


From 9f03219dac3e3b41b7291e70a107fd0260edab2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:52 +0000
Subject: [PATCH 13/74] fix: check the row size of both inputs of Subtract

---
 src/image_function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 72391b1..3544a7a 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1918,7 +1918,7 @@ namespace Image_Function
         const uint8_t colorCount = CheckCommonColorCount( in1, in2, out );
         width = width * colorCount;
 
-        OptimiseRoi( width, height, in1, in1, out );
+        OptimiseRoi( width, height, in1, in2, out );
 
         const uint32_t rowSize1 = in1.rowSize();
         const uint32_t rowSize2 = in2.rowSize();
-- 
2.43.0


From 24b8976cce2a41d7f88634ce0ac13e877a428127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:52 +0000
Subject: [PATCH 14/74] fix: create the output of Resize with the colour count
 of the input

---
 src/image_function_helper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/image_function_helper.cpp b/src/image_function_helper.cpp
index 62ef931..49a1f15 100644
--- a/src/image_function_helper.cpp
+++ b/src/image_function_helper.cpp
@@ -710,7 +710,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in );
 
-        Image out = in.generate( widthOut, heightOut );
+        Image out = in.generate( widthOut, heightOut, in.colorCount() );
 
         resize( in, 0, 0, in.width(), in.height(), out, 0, 0, widthOut, heightOut );
 
@@ -730,7 +730,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, widthIn, heightIn );
 
-        Image out = in.generate( widthOut, heightOut );
+        Image out = in.generate( widthOut, heightOut, in.colorCount() );
 
         resize( in, startXIn, startYIn, widthIn, heightIn, out, 0, 0, widthOut, heightOut );
 
-- 
2.43.0


From a375c80b70b7a28e112b215f49969f828f6aa7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:39 +0000
Subject: [PATCH 15/74] fix: split all images of a multithreaded function by
 the same number of threads

---
 src/function_pool_task.cpp | 50 ++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/function_pool_task.cpp b/src/function_pool_task.cpp
index dc9afcf..f544108 100644
--- a/src/function_pool_task.cpp
+++ b/src/function_pool_task.cpp
@@ -141,7 +141,9 @@ namespace Function_Pool
 
         Image_Function::ValidateImageParameters( image, x, y, width, height );
 
-        _infoIn1 = std::unique_ptr<InputImageInfo>( new InputImageInfo( image, x, y, width, height, threadCount() ) );
+        const uint32_t count = threadCount();
+
+        _infoIn1 = std::unique_ptr<InputImageInfo>( new InputImageInfo( image, x, y, width, height, count ) );
     }
 
     void FunctionPoolTask::_setup( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, uint32_t width,
@@ -151,8 +153,10 @@ namespace Function_Pool
 
         Image_Function::ValidateImageParameters( in1, startX1, startY1, in2, startX2, startY2, width, height );
 
-        _infoIn1 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in1, startX1, startY1, width, height, threadCount() ) );
-        _infoIn2 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in2, startX2, startY2, width, height, threadCount() ) );
+        const uint32_t count = threadCount();
+
+        _infoIn1 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in1, startX1, startY1, width, height, count ) );
+        _infoIn2 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in2, startX2, startY2, width, height, count ) );
     }
 
     void FunctionPoolTask::_setup( const Image & in, uint32_t inX, uint32_t inY, Image & out, uint32_t outX, uint32_t outY, uint32_t width, uint32_t height )
@@ -161,8 +165,10 @@ namespace Function_Pool
 
         Image_Function::ValidateImageParameters( in, inX, inY, out, outX, outY, width, height );
 
-        _infoIn1 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in, inX, inY, width, height, threadCount() ) );
-        _infoOut1 = std::unique_ptr<OutputImageInfo>( new OutputImageInfo( out, outX, outY, width, height, threadCount() ) );
+        const uint32_t count = threadCount();
+
+        _infoIn1 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in, inX, inY, width, height, count ) );
+        _infoOut1 = std::unique_ptr<OutputImageInfo>( new OutputImageInfo( out, outX, outY, width, height, count ) );
     }
 
     void FunctionPoolTask::_setup( const Image & in, uint32_t startXIn, uint32_t startYIn, uint32_t widthIn, uint32_t heightIn, Image & out, uint32_t startXOut,
@@ -173,9 +179,11 @@ namespace Function_Pool
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, widthIn, heightIn );
         Image_Function::ValidateImageParameters( out, startXOut, startYOut, widthOut, heightOut );
 
+        const uint32_t count = threadCount();
+
         _infoIn1 = std::unique_ptr<InputImageInfo>(
-            new InputImageInfo( in, startXIn, startYIn, std::min( widthIn, widthOut ), std::min( heightIn, heightOut ), threadCount() ) );
-        _infoOut1 = std::unique_ptr<OutputImageInfo>( new OutputImageInfo( out, startXOut, startYOut, widthOut, heightOut, threadCount() ) );
+            new InputImageInfo( in, startXIn, startYIn, std::min( widthIn, widthOut ), std::min( heightIn, heightOut ), count ) );
+        _infoOut1 = std::unique_ptr<OutputImageInfo>( new OutputImageInfo( out, startXOut, startYOut, widthOut, heightOut, count ) );
 
         _infoOut1->_copy( *_infoIn1, startXOut, startYOut, widthOut, heightOut, oppositeAxis );
         _infoIn1->_copy( *_infoOut1, startXIn, startYIn, widthIn, heightIn, oppositeAxis );
@@ -188,9 +196,11 @@ namespace Function_Pool
 
         Image_Function::ValidateImageParameters( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
 
-        _infoIn1 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in1, startX1, startY1, width, height, threadCount() ) );
-        _infoIn2 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in2, startX2, startY2, width, height, threadCount() ) );
-        _infoOut1 = std::unique_ptr<OutputImageInfo>( new OutputImageInfo( out, startXOut, startYOut, width, height, threadCount() ) );
+        const uint32_t count = threadCount();
+
+        _infoIn1 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in1, startX1, startY1, width, height, count ) );
+        _infoIn2 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in2, startX2, startY2, width, height, count ) );
+        _infoOut1 = std::unique_ptr<OutputImageInfo>( new OutputImageInfo( out, startXOut, startYOut, width, height, count ) );
     }
 
     void FunctionPoolTask::_setup( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out1, uint32_t startXOut1, uint32_t startYOut1, Image & out2,
@@ -201,10 +211,12 @@ namespace Function_Pool
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, out1, startXOut1, startYOut1, out2, startXOut2, startYOut2, width, height );
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, out3, startXOut3, startYOut3, width, height );
 
-        _infoIn1 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in, startXIn, startYIn, width, height, threadCount() ) );
-        _infoOut1 = std::unique_ptr<OutputImageInfo>( new OutputImageInfo( out1, startXOut1, startYOut1, width, height, threadCount() ) );
-        _infoOut2 = std::unique_ptr<OutputImageInfo>( new OutputImageInfo( out2, startXOut2, startYOut2, width, height, threadCount() ) );
-        _infoOut3 = std::unique_ptr<OutputImageInfo>( new OutputImageInfo( out3, startXOut3, startYOut3, width, height, threadCount() ) );
+        const uint32_t count = threadCount();
+
+        _infoIn1 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in, startXIn, startYIn, width, height, count ) );
+        _infoOut1 = std::unique_ptr<OutputImageInfo>( new OutputImageInfo( out1, startXOut1, startYOut1, width, height, count ) );
+        _infoOut2 = std::unique_ptr<OutputImageInfo>( new OutputImageInfo( out2, startXOut2, startYOut2, width, height, count ) );
+        _infoOut3 = std::unique_ptr<OutputImageInfo>( new OutputImageInfo( out3, startXOut3, startYOut3, width, height, count ) );
     }
 
     void FunctionPoolTask::_setup( const Image & in1, uint32_t startXIn1, uint32_t startYIn1, const Image & in2, uint32_t startXIn2, uint32_t startYIn2,
@@ -216,10 +228,12 @@ namespace Function_Pool
         Image_Function::ValidateImageParameters( in1, startXIn1, startYIn1, in2, startXIn2, startYIn2, in3, startXIn3, startYIn3, width, height );
         Image_Function::ValidateImageParameters( in1, startXIn1, startYIn1, out, startXOut, startYOut, width, height );
 
-        _infoIn1 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in1, startXIn1, startYIn1, width, height, threadCount() ) );
-        _infoIn2 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in2, startXIn2, startYIn2, width, height, threadCount() ) );
-        _infoIn3 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in3, startXIn3, startYIn3, width, height, threadCount() ) );
-        _infoOut1 = std::unique_ptr<OutputImageInfo>( new OutputImageInfo( out, startXOut, startYOut, width, height, threadCount() ) );
+        const uint32_t count = threadCount();
+
+        _infoIn1 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in1, startXIn1, startYIn1, width, height, count ) );
+        _infoIn2 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in2, startXIn2, startYIn2, width, height, count ) );
+        _infoIn3 = std::unique_ptr<InputImageInfo>( new InputImageInfo( in3, startXIn3, startYIn3, width, height, count ) );
+        _infoOut1 = std::unique_ptr<OutputImageInfo>( new OutputImageInfo( out, startXOut, startYOut, width, height, count ) );
     }
 
     void FunctionPoolTask::_processTask()
-- 
2.43.0


From b02f8d341d374b45983422c670b74b59f2605cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:39 +0000
Subject: [PATCH 16/74] fix: size the projection of a colour image by its
 number of channels

---
 src/function_pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function_pool.cpp b/src/function_pool.cpp
index 8a43caf..529a5ee 100644
--- a/src/function_pool.cpp
+++ b/src/function_pool.cpp
@@ -310,7 +310,7 @@ namespace Function_Pool
             _dataIn.horizontalProjection = horizontal;
             _process( _ProjectionProfile );
 
-            projection.resize( horizontal ? width : height );
+            projection.resize( horizontal ? width * image.colorCount() : height );
             _dataOut.getProjection( projection );
         }
 
-- 
2.43.0


From 45f15f399a23072528bd0fbee3d7e557a0a0d138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:35 +0000
Subject: [PATCH 17/74] fix: make multithreaded Resize independent of the
 number of threads

---
 src/function_pool.cpp  | 22 +++++++++++++++++++---
 src/image_function.cpp |  2 +-
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/function_pool.cpp b/src/function_pool.cpp
index 529a5ee..7ea3af9 100644
--- a/src/function_pool.cpp
+++ b/src/function_pool.cpp
@@ -35,6 +35,8 @@ namespace Function_Pool
         bool horizontalProjection{ false }; // for ProjectionProfile() function
         bool horizontalFlip{ false };
         bool verticalFlip{ false };
+        uint32_t heightIn{ 0 }; // for Resize() function
+        uint32_t heightOut{ 0 }; // for Resize() function
         double coefficientA{ 1.0 }; // for GammaCorrection() function
         double coefficientGamma{ 1.0 }; // for GammaCorrection() function
         std::vector<uint8_t> lookupTable; // for LookupTable() function
@@ -318,6 +320,15 @@ namespace Function_Pool
                      uint32_t widthOut, uint32_t heightOut )
         {
             _setup( in, startXIn, startYIn, widthIn, heightIn, out, startXOut, startYOut, widthOut, heightOut );
+
+            // The position of an input pixel depends on the size of whole area so only output rows can be processed separately
+            const AreaInfo rows( startXOut, startYOut, 1, heightOut, static_cast<uint32_t>( _infoOut1->_size() ) );
+            _infoIn1->_copy( rows, startXIn, startYIn, widthIn, heightIn );
+            _infoOut1->_copy( rows, startXOut, startYOut, widthOut, heightOut );
+
+            _dataIn.heightIn = heightIn;
+            _dataIn.heightOut = heightOut;
+
             _process( _Resize );
         }
 
@@ -487,10 +498,15 @@ namespace Function_Pool
                 penguinV::ProjectionProfile( _infoIn1->image, _infoIn1->startX[taskId], _infoIn1->startY[taskId], _infoIn1->width[taskId], _infoIn1->height[taskId],
                                              _dataIn.horizontalProjection, _dataOut.projection[taskId] );
                 break;
-            case _Resize:
-                penguinV::Resize( _infoIn1->image, _infoIn1->startX[taskId], _infoIn1->startY[taskId], _infoIn1->width[taskId], _infoIn1->height[taskId],
-                                  _infoOut1->image, _infoOut1->startX[taskId], _infoOut1->startY[taskId], _infoOut1->width[taskId], _infoOut1->height[taskId] );
+            case _Resize: {
+                const uint32_t endY = _infoOut1->startY[taskId] + _infoOut1->height[taskId];
+                for ( uint32_t y = _infoOut1->startY[taskId]; y < endY; ++y ) {
+                    const uint32_t inY = _infoIn1->startY[0] + ( y - _infoOut1->startY[0] ) * _dataIn.heightIn / _dataIn.heightOut;
+                    penguinV::Resize( _infoIn1->image, _infoIn1->startX[taskId], inY, _infoIn1->width[taskId], 1, _infoOut1->image, _infoOut1->startX[taskId], y,
+                                      _infoOut1->width[taskId], 1 );
+                }
                 break;
+            }
             case _RgbToBgr:
                 penguinV::RgbToBgr( _infoIn1->image, _infoIn1->startX[taskId], _infoIn1->startY[taskId], _infoOut1->image, _infoOut1->startX[taskId],
                                     _infoOut1->startY[taskId], _infoIn1->width[taskId], _infoIn1->height[taskId] );
diff --git a/src/image_function.cpp b/src/image_function.cpp
index 3544a7a..054d191 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1448,7 +1448,7 @@ namespace Image_Function
         ValidateImageParameters( in, startXIn, startYIn, widthIn, heightIn );
         ValidateImageParameters( out, startXOut, startYOut, widthOut, heightOut );
 
-        const uint8_t colorCount = in.colorCount();
+        const uint8_t colorCount = CheckCommonColorCount( in, out );
 
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
-- 
2.43.0


From bf7e9a3faad75fa10abc22405aef9fa3f295025e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:02 +0000
Subject: [PATCH 18/74] fix: keep the order of pixels in AVX2 and AVX-512
 Accumulate and ProjectionProfile

---
 src/image_function_simd.cpp | 60 ++++++++++++-------------------------
 1 file changed, 19 insertions(+), 41 deletions(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index d4a8764..36a2008 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -114,8 +114,6 @@ namespace avx512
     void Accumulate( uint32_t rowSize, const uint8_t * imageY, const uint8_t * imageYEnd, uint32_t * outY, uint32_t simdWidth, uint32_t totalSimdWidth,
                      uint32_t nonSimdWidth )
     {
-        simd zero = _mm512_setzero_si512();
-
         const uint32_t width = totalSimdWidth + nonSimdWidth;
 
         for ( ; imageY != imageYEnd; imageY += rowSize, outY += width ) {
@@ -124,15 +122,12 @@ namespace avx512
             simd * dst = reinterpret_cast<simd *>( outY );
 
             for ( ; src != srcEnd; ++src ) {
-                simd data = _mm512_loadu_si512( src );
+                const __m128i * data = reinterpret_cast<const __m128i *>( src );
 
-                const simd dataLo = _mm512_unpacklo_epi8( data, zero );
-                const simd dataHi = _mm512_unpackhi_epi8( data, zero );
-
-                const simd data_1 = _mm512_unpacklo_epi16( dataLo, zero );
-                const simd data_2 = _mm512_unpackhi_epi16( dataLo, zero );
-                const simd data_3 = _mm512_unpacklo_epi16( dataHi, zero );
-                const simd data_4 = _mm512_unpackhi_epi16( dataHi, zero );
+                const simd data_1 = _mm512_cvtepu8_epi32( _mm_loadu_si128( data + 0 ) );
+                const simd data_2 = _mm512_cvtepu8_epi32( _mm_loadu_si128( data + 1 ) );
+                const simd data_3 = _mm512_cvtepu8_epi32( _mm_loadu_si128( data + 2 ) );
+                const simd data_4 = _mm512_cvtepu8_epi32( _mm_loadu_si128( data + 3 ) );
 
                 _mm512_storeu_si512( dst, _mm512_add_epi32( data_1, _mm512_loadu_si512( dst ) ) );
                 ++dst;
@@ -394,17 +389,12 @@ namespace avx512
                 simd * dst = reinterpret_cast<simd *>( out );
 
                 for ( ; imageSimdY != imageSimdYEnd; imageSimdY += rowSize ) {
-                    const simd * src = reinterpret_cast<const simd *>( imageSimdY );
+                    const __m128i * data = reinterpret_cast<const __m128i *>( imageSimdY );
 
-                    const simd data = _mm512_loadu_si512( src );
-
-                    const simd dataLo = _mm512_unpacklo_epi8( data, zero );
-                    const simd dataHi = _mm512_unpackhi_epi8( data, zero );
-
-                    const simd data_1 = _mm512_unpacklo_epi16( dataLo, zero );
-                    const simd data_2 = _mm512_unpackhi_epi16( dataLo, zero );
-                    const simd data_3 = _mm512_unpacklo_epi16( dataHi, zero );
-                    const simd data_4 = _mm512_unpackhi_epi16( dataHi, zero );
+                    const simd data_1 = _mm512_cvtepu8_epi32( _mm_loadu_si128( data + 0 ) );
+                    const simd data_2 = _mm512_cvtepu8_epi32( _mm_loadu_si128( data + 1 ) );
+                    const simd data_3 = _mm512_cvtepu8_epi32( _mm_loadu_si128( data + 2 ) );
+                    const simd data_4 = _mm512_cvtepu8_epi32( _mm_loadu_si128( data + 3 ) );
                     simdSum_1 = _mm512_add_epi32( data_1, simdSum_1 );
                     simdSum_2 = _mm512_add_epi32( data_2, simdSum_2 );
                     simdSum_3 = _mm512_add_epi32( data_3, simdSum_3 );
@@ -574,8 +564,6 @@ namespace avx
     void Accumulate( uint32_t rowSize, const uint8_t * imageY, const uint8_t * imageYEnd, uint32_t * outY, uint32_t simdWidth, uint32_t totalSimdWidth,
                      uint32_t nonSimdWidth )
     {
-        simd zero = _mm256_setzero_si256();
-
         const uint32_t width = totalSimdWidth + nonSimdWidth;
 
         for ( ; imageY != imageYEnd; imageY += rowSize, outY += width ) {
@@ -584,15 +572,12 @@ namespace avx
             simd * dst = reinterpret_cast<simd *>( outY );
 
             for ( ; src != srcEnd; ++src ) {
-                simd data = _mm256_loadu_si256( src );
+                const uint8_t * data = reinterpret_cast<const uint8_t *>( src );
 
-                const simd dataLo = _mm256_unpacklo_epi8( data, zero );
-                const simd dataHi = _mm256_unpackhi_epi8( data, zero );
-
-                const simd data_1 = _mm256_unpacklo_epi16( dataLo, zero );
-                const simd data_2 = _mm256_unpackhi_epi16( dataLo, zero );
-                const simd data_3 = _mm256_unpacklo_epi16( dataHi, zero );
-                const simd data_4 = _mm256_unpackhi_epi16( dataHi, zero );
+                const simd data_1 = _mm256_cvtepu8_epi32( _mm_loadl_epi64( reinterpret_cast<const __m128i *>( data + 0 ) ) );
+                const simd data_2 = _mm256_cvtepu8_epi32( _mm_loadl_epi64( reinterpret_cast<const __m128i *>( data + 8 ) ) );
+                const simd data_3 = _mm256_cvtepu8_epi32( _mm_loadl_epi64( reinterpret_cast<const __m128i *>( data + 16 ) ) );
+                const simd data_4 = _mm256_cvtepu8_epi32( _mm_loadl_epi64( reinterpret_cast<const __m128i *>( data + 24 ) ) );
 
                 _mm256_storeu_si256( dst, _mm256_add_epi32( data_1, _mm256_loadu_si256( dst ) ) );
                 ++dst;
@@ -856,17 +841,10 @@ namespace avx
                 simd * dst = reinterpret_cast<simd *>( out );
 
                 for ( ; imageSimdY != imageSimdYEnd; imageSimdY += rowSize ) {
-                    const simd * src = reinterpret_cast<const simd *>( imageSimdY );
-
-                    const simd data = _mm256_loadu_si256( src );
-
-                    const simd dataLo = _mm256_unpacklo_epi8( data, zero );
-                    const simd dataHi = _mm256_unpackhi_epi8( data, zero );
-
-                    const simd data_1 = _mm256_unpacklo_epi16( dataLo, zero );
-                    const simd data_2 = _mm256_unpackhi_epi16( dataLo, zero );
-                    const simd data_3 = _mm256_unpacklo_epi16( dataHi, zero );
-                    const simd data_4 = _mm256_unpackhi_epi16( dataHi, zero );
+                    const simd data_1 = _mm256_cvtepu8_epi32( _mm_loadl_epi64( reinterpret_cast<const __m128i *>( imageSimdY + 0 ) ) );
+                    const simd data_2 = _mm256_cvtepu8_epi32( _mm_loadl_epi64( reinterpret_cast<const __m128i *>( imageSimdY + 8 ) ) );
+                    const simd data_3 = _mm256_cvtepu8_epi32( _mm_loadl_epi64( reinterpret_cast<const __m128i *>( imageSimdY + 16 ) ) );
+                    const simd data_4 = _mm256_cvtepu8_epi32( _mm_loadl_epi64( reinterpret_cast<const __m128i *>( imageSimdY + 24 ) ) );
                     simdSum_1 = _mm256_add_epi32( data_1, simdSum_1 );
                     simdSum_2 = _mm256_add_epi32( data_2, simdSum_2 );
                     simdSum_3 = _mm256_add_epi32( data_3, simdSum_3 );
-- 
2.43.0


From 5b8bae6efd912979676115683408d1c818de5346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:53 +0000
Subject: [PATCH 19/74] fix: convert, flip and reorder RGB images on a CPU
 without SSSE3

---
 src/image_function_simd.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index 36a2008..ac5de9b 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -2768,6 +2768,13 @@ namespace simd
     void ConvertToRgb( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                        SIMDType simdType )
     {
+#ifndef PENGUINV_SSSE3_SET
+        if ( simdType == sse_function ) { // the algorithm requires SSSE3
+            Image_Function::ConvertToRgb( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+            return;
+        }
+#endif
+
         uint32_t simdSize = getSimdSize( simdType );
         if ( simdType == neon_function ) // for neon, because the algorithm used work with packet of 64 bit
             simdSize = 8u;
@@ -2810,6 +2817,13 @@ namespace simd
     void Flip( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                bool horizontal, bool vertical, SIMDType simdType )
     {
+#ifndef PENGUINV_SSSE3_SET
+        if ( simdType == sse_function ) { // the algorithm requires SSSE3
+            Image_Function::Flip( in, startXIn, startYIn, out, startXOut, startYOut, width, height, horizontal, vertical );
+            return;
+        }
+#endif
+
         uint32_t simdSize = getSimdSize( simdType );
 
         if ( simdType == neon_function ) // for neon, because the algorithm used work with packet of 64 bit
@@ -3004,6 +3018,13 @@ namespace simd
     void RgbToBgr( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                    SIMDType simdType )
     {
+#ifndef PENGUINV_SSSE3_SET
+        if ( simdType == sse_function ) { // the algorithm requires SSSE3
+            Image_Function::RgbToBgr( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+            return;
+        }
+#endif
+
         uint32_t simdSize = getSimdSize( simdType );
 
         if ( simdType == neon_function ) // for neon, because the algorithm used work with packet of 64 bit
-- 
2.43.0


From 30c3e7cc495b7e708df7c442cbcf0b52e0f87df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:26 +0000
Subject: [PATCH 20/74] fix: keep the CPU memory allocator consistent when
 memory runs out

---
 src/memory/cpu_memory.h       | 101 ++++++++++++++++++++-------
 src/memory/memory_allocator.h | 127 +++++++++++++++++++++++-----------
 2 files changed, 164 insertions(+), 64 deletions(-)

diff --git a/src/memory/cpu_memory.h b/src/memory/cpu_memory.h
index 33eb783..111fbf8 100644
--- a/src/memory/cpu_memory.h
+++ b/src/memory/cpu_memory.h
@@ -21,8 +21,10 @@
 #pragma once
 
 #include "memory_allocator.h"
+#include <limits>
 #include <map>
 #include <mutex>
+#include <new>
 
 namespace cpu_Memory
 {
@@ -43,9 +45,8 @@ namespace cpu_Memory
 
         virtual ~MemoryAllocator()
         {
-            _lock.lock();
+            std::lock_guard<std::mutex> guard( _lock );
             _free();
-            _lock.unlock();
         }
 
         // Returns a pointer to an allocated memory. If memory size of allocated memory chuck is enough for requested size
@@ -53,24 +54,30 @@ namespace cpu_Memory
         template <typename _DataType = uint8_t>
         _DataType * allocate( size_t size = 1 )
         {
-            _lock.lock();
-            if ( _data != nullptr ) {
+            if ( size <= std::numeric_limits<size_t>::max() / sizeof( _DataType ) ) {
+                std::lock_guard<std::mutex> guard( _lock );
+                _reclaim();
+
                 const size_t overallSize = size * sizeof( _DataType );
 
-                if ( overallSize < _size ) {
+                if ( _data != nullptr && overallSize < _size ) {
                     const uint8_t level = _getAllocationLevel( overallSize );
 
                     if ( _split( level ) ) {
                         auto chunk = _freeChunk[level].begin();
                         _DataType * address = reinterpret_cast<_DataType *>( _alignedData + *chunk );
-                        _allocatedChunk.insert( std::pair<size_t, uint8_t>( *chunk, level ) );
+                        try {
+                            _allocatedChunk.insert( std::pair<size_t, uint8_t>( *chunk, level ) );
+                        }
+                        catch ( ... ) {
+                            _merge( *chunk, level );
+                            throw;
+                        }
                         _freeChunk[level].erase( chunk );
-                        _lock.unlock();
                         return address;
                     }
                 }
             }
-            _lock.unlock();
 
             // if no space in preallocated memory, allocate as usual memory
             return new _DataType[size];
@@ -81,19 +88,18 @@ namespace cpu_Memory
         template <typename _DataType>
         void free( _DataType * address )
         {
-            _lock.lock();
-            if ( _data != nullptr && reinterpret_cast<uint8_t *>( address ) >= _alignedData ) {
-                auto pos = _allocatedChunk.find( static_cast<size_t>( reinterpret_cast<uint8_t *>( address ) - _alignedData ) );
-
-                if ( pos != _allocatedChunk.end() ) {
-                    _freeChunk[pos->second].insert( pos->first );
-                    _merge( pos->first, pos->second );
-                    _allocatedChunk.erase( pos );
-                    _lock.unlock();
-                    return;
+            {
+                std::lock_guard<std::mutex> guard( _lock );
+
+                if ( _data != nullptr && reinterpret_cast<uint8_t *>( address ) >= _alignedData ) {
+                    auto pos = _allocatedChunk.find( static_cast<size_t>( reinterpret_cast<uint8_t *>( address ) - _alignedData ) );
+
+                    if ( pos != _allocatedChunk.end() ) {
+                        _release( pos );
+                        return;
+                    }
                 }
             }
-            _lock.unlock();
 
             delete[] address;
         }
@@ -101,31 +107,75 @@ namespace cpu_Memory
     private:
         uint8_t * _data{ nullptr }; // a pointer to memory allocated chunk
         uint8_t * _alignedData{ nullptr }; // aligned pointer for SIMD access
-        std::mutex _lock;
-
         // a map which holds an information about allocated memory in preallocated memory chunk
         // first parameter is an offset from preallocated memory, second parameter is a power of 2 (level)
         std::map<size_t, uint8_t> _allocatedChunk;
 
+        // a flag of a level which marks a chunk already deallocated by a user but not returned into free memory yet
+        static const uint8_t _releasedChunk = 128u;
+
+        // a number of chunks with the flag above
+        size_t _releasedChunkCount{ 0 };
+
+        // returns a chunk into free memory. Deallocation must not fail so if there is no memory to do this then the chunk
+        // will be returned later
+        void _release( std::map<size_t, uint8_t>::iterator pos )
+        {
+            try {
+                _freeChunk[pos->second].insert( pos->first );
+            }
+            catch ( const std::bad_alloc & ) {
+                pos->second |= _releasedChunk;
+                ++_releasedChunkCount;
+                return;
+            }
+
+            _merge( pos->first, pos->second );
+            _allocatedChunk.erase( pos );
+        }
+
+        // returns all chunks which could not be returned into free memory at the time of their deallocation
+        void _reclaim()
+        {
+            for ( auto pos = _allocatedChunk.begin(); _releasedChunkCount > 0 && pos != _allocatedChunk.end(); ) {
+                auto chunk = pos++;
+
+                if ( ( chunk->second & _releasedChunk ) != 0 ) {
+                    chunk->second &= static_cast<uint8_t>( ~_releasedChunk );
+                    --_releasedChunkCount;
+
+                    const size_t releasedChunkCount = _releasedChunkCount;
+                    _release( chunk );
+
+                    if ( _releasedChunkCount > releasedChunkCount ) {
+                        return; // still no memory
+                    }
+                }
+            }
+        }
+
         // true memory allocation on CPU
         virtual void _allocate( size_t size )
         {
-            _lock.lock();
             if ( _size != size && size > 0 ) {
-                if ( !_allocatedChunk.empty() ) {
+                if ( _allocatedChunk.size() > _releasedChunkCount ) {
                     throw std::logic_error( "Cannot free a memory on CPU. Not all objects were previously deallocated from allocator." );
                 }
 
+                const size_t alignment = 32u; // AVX alignment requirement
+
+                if ( size > std::numeric_limits<size_t>::max() - alignment ) {
+                    throw std::bad_alloc();
+                }
+
                 _free();
 
-                const size_t alignment = 32u; // AVX alignment requirement
                 _data = new uint8_t[size + alignment];
                 const std::uintptr_t dataAddress = reinterpret_cast<std::uintptr_t>( _data );
                 _alignedData = ( ( dataAddress % alignment ) == 0 ) ? _data : _data + ( alignment - ( dataAddress % alignment ) );
 
                 _size = size;
             }
-            _lock.unlock();
         }
 
         // true memory deallocation on CPU
@@ -138,6 +188,7 @@ namespace cpu_Memory
             }
 
             _allocatedChunk.clear();
+            _releasedChunkCount = 0;
         }
     };
 }
diff --git a/src/memory/memory_allocator.h b/src/memory/memory_allocator.h
index d59dba1..500f209 100644
--- a/src/memory/memory_allocator.h
+++ b/src/memory/memory_allocator.h
@@ -21,6 +21,8 @@
 #pragma once
 
 #include <cstdint>
+#include <mutex>
+#include <new>
 #include <set>
 #include <stdexcept>
 #include <vector>
@@ -41,31 +43,40 @@ public:
             throw std::logic_error( "Memory size cannot be 0" );
         }
 
+        std::lock_guard<std::mutex> guard( _lock );
+
         if ( size == _size ) {
             return;
         }
 
         _allocate( size );
 
-        size_t usedSize = 0;
+        try {
+            size_t usedSize = 0;
 
-        while ( size > 0 ) {
-            uint8_t levelCount = _getAllocationLevel( size );
-            size_t value = static_cast<size_t>( 1 ) << levelCount;
+            while ( size > 0 ) {
+                uint8_t levelCount = _getAllocationLevel( size );
+                size_t value = static_cast<size_t>( 1 ) << levelCount;
 
-            if ( value > size ) {
-                value >>= 1;
-                --levelCount;
-            }
+                if ( value > size ) {
+                    value >>= 1;
+                    --levelCount;
+                }
 
-            if ( usedSize == 0 ) {
-                _freeChunk.resize( levelCount + 1u );
-            }
+                if ( usedSize == 0 ) {
+                    _freeChunk.resize( levelCount + 1u );
+                }
 
-            _freeChunk[levelCount].insert( usedSize );
+                _freeChunk[levelCount].insert( usedSize );
 
-            usedSize += value;
-            size -= value;
+                usedSize += value;
+                size -= value;
+            }
+        }
+        catch ( ... ) {
+            // A partially described memory must not be used.
+            _free();
+            throw;
         }
     }
 
@@ -76,6 +87,7 @@ protected:
 
         _freeChunk.clear();
         _size = 0;
+        _isMergeIncomplete = false;
     }
 
     // Returns a level (power of 2) needed for a required size.
@@ -107,7 +119,8 @@ protected:
         }
 
         if ( !levelFound ) {
-            return false;
+            // Some of neighbouring chunks could be left separated due to lack of memory during their merge.
+            return _mergeAll() && _split( from );
         }
 
         if ( startLevel > from ) {
@@ -115,8 +128,15 @@ protected:
 
             for ( ; startLevel > from; --startLevel, memorySize >>= 1 ) {
                 const size_t previousLevelValue = *_freeChunk[startLevel].begin();
-                _freeChunk[startLevel - 1u].insert( previousLevelValue );
-                _freeChunk[startLevel - 1u].insert( previousLevelValue + memorySize );
+                try {
+                    _freeChunk[startLevel - 1u].insert( previousLevelValue );
+                    _freeChunk[startLevel - 1u].insert( previousLevelValue + memorySize );
+                }
+                catch ( ... ) {
+                    _freeChunk[startLevel - 1u].erase( previousLevelValue );
+                    _merge( previousLevelValue, startLevel );
+                    throw;
+                }
                 _freeChunk[startLevel].erase( _freeChunk[startLevel].begin() );
             }
         }
@@ -124,38 +144,32 @@ protected:
         return true;
     }
 
-    // merges preallocated memory by levels
+    // Merges preallocated memory by levels. Only two halves of the same chunk can be merged, see _split().
     void _merge( size_t offset, uint8_t from )
     {
         size_t memorySize = static_cast<size_t>( 1 ) << from;
 
-        for ( std::vector<std::set<size_t>>::iterator level = _freeChunk.begin() + from; level < _freeChunk.end(); ++level, memorySize <<= 1 ) {
+        for ( std::vector<std::set<size_t>>::iterator level = _freeChunk.begin() + from; level + 1 < _freeChunk.end(); ++level, memorySize <<= 1 ) {
             std::set<size_t>::iterator pos = level->find( offset );
-            std::set<size_t>::iterator neighbour = pos;
-            ++neighbour;
-
-            if ( neighbour != level->end() ) {
-                if ( *( neighbour ) - *( pos ) == memorySize ) {
-                    offset = *pos;
-                    ( level + 1 )->insert( offset );
-                    level->erase( pos, ++neighbour );
-                    continue;
-                }
+            std::set<size_t>::iterator neighbour = level->find( offset ^ memorySize );
+
+            if ( pos == level->end() || neighbour == level->end() ) {
+                return;
             }
 
-            if ( pos != level->begin() ) {
-                neighbour = pos;
-                --neighbour;
+            offset &= ~memorySize;
 
-                if ( *( pos ) - *( neighbour ) == memorySize ) {
-                    offset = *neighbour;
-                    ( level + 1 )->insert( offset );
-                    level->erase( neighbour, ++pos );
-                    continue;
-                }
+            try {
+                ( level + 1 )->insert( offset );
+            }
+            catch ( const std::bad_alloc & ) {
+                // Both chunks are still available. They will be merged when a bigger chunk is needed.
+                _isMergeIncomplete = true;
+                return;
             }
 
-            return;
+            level->erase( pos );
+            level->erase( neighbour );
         }
     }
 
@@ -165,7 +179,42 @@ protected:
     // Free memory in preallocated memory.
     std::vector<std::set<size_t>> _freeChunk;
 
+    // Protects the state of the allocator. It is locked while _allocate() is being called.
+    std::mutex _lock;
+
 private:
+    // There might be chunks which can be merged.
+    bool _isMergeIncomplete{ false };
+
+    // Merges all chunks which were left separated. Returns true if at least one pair of chunks has been merged.
+    bool _mergeAll()
+    {
+        if ( !_isMergeIncomplete ) {
+            return false;
+        }
+
+        _isMergeIncomplete = false;
+
+        bool isMerged = false;
+
+        for ( uint8_t level = 0; level + 1u < _freeChunk.size() && !_isMergeIncomplete; ++level ) {
+            const size_t memorySize = static_cast<size_t>( 1 ) << level;
+
+            for ( std::set<size_t>::iterator pos = _freeChunk[level].begin(); pos != _freeChunk[level].end(); ) {
+                const size_t offset = *pos;
+                ++pos;
+
+                if ( ( offset & memorySize ) == 0 && pos != _freeChunk[level].end() && *pos == offset + memorySize ) {
+                    ++pos;
+                    _merge( offset, level );
+                    isMerged = isMerged || !_isMergeIncomplete;
+                }
+            }
+        }
+
+        return isMerged;
+    }
+
     // True memory allocation method. Implementation details are in child classes.
     virtual void _allocate( size_t size ) = 0;
 
-- 
2.43.0


From e3533ce32fc187d33ec59961847dcc91ed6eda14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:04 +0000
Subject: [PATCH 21/74] fix: keep images consistent when they cannot be
 allocated, copied or mutated

---
 src/image_buffer.h | 72 +++++++++++++++++++++++++++++++---------------
 1 file changed, 49 insertions(+), 23 deletions(-)

diff --git a/src/image_buffer.h b/src/image_buffer.h
index 6ed23b0..d673923 100644
--- a/src/image_buffer.h
+++ b/src/image_buffer.h
@@ -27,6 +27,8 @@
 #include <cstdint>
 #include <cstring>
 #include <functional>
+#include <limits>
+#include <mutex>
 #include <vector>
 
 namespace penguinV
@@ -83,17 +85,15 @@ namespace penguinV
         void resize( uint32_t width_, uint32_t height_ )
         {
             if ( width_ > 0 && height_ > 0 && ( width_ != _width || height_ != _height ) ) {
+                const uint32_t rowSize_ = _validRowSize( width_, colorCount(), alignment() );
+
                 clear();
 
+                _data = _allocate( static_cast<size_t>( height_ ) * static_cast<size_t>( rowSize_ ) );
+
                 _width = width_;
                 _height = height_;
-
-                _rowSize = width() * colorCount();
-                if ( _rowSize % alignment() != 0 ) {
-                    _rowSize = ( _rowSize / alignment() + 1 ) * alignment();
-                }
-
-                _data = _allocate( static_cast<size_t>( _height ) * static_cast<size_t>( _rowSize ) );
+                _rowSize = rowSize_;
             }
         }
 
@@ -125,6 +125,8 @@ namespace penguinV
                 throw penguinVException( "Invalid image assignment parameters" );
             }
 
+            const uint32_t rowSize_ = _validRowSize( width_, colorCount_, alignment_ );
+
             clear();
 
             _width = width_;
@@ -135,10 +137,7 @@ namespace penguinV
 
             _data = data_;
 
-            _rowSize = width() * colorCount();
-            if ( _rowSize % alignment() != 0 ) {
-                _rowSize = ( _rowSize / alignment() + 1 ) * alignment();
-            }
+            _rowSize = rowSize_;
         }
 
         bool empty() const
@@ -215,17 +214,21 @@ namespace penguinV
                 throw penguinVException( "Cannot copy image of one type to another type." );
             }
 
-            clear();
+            if ( this == &image ) {
+                return;
+            }
 
-            _width = image._width;
-            _height = image._height;
+            clear();
 
             _colorChannelCount = image._colorChannelCount;
-            _rowSize = image._rowSize;
             _alignment = image._alignment;
 
             if ( image._data != nullptr ) {
-                _data = _allocate( static_cast<size_t>( _height ) * static_cast<size_t>( _rowSize ) );
+                _data = _allocate( static_cast<size_t>( image._height ) * static_cast<size_t>( image._rowSize ) );
+
+                _width = image._width;
+                _height = image._height;
+                _rowSize = image._rowSize;
 
                 _copy( _data, image._data, sizeof( TColorDepth ) * _height * _rowSize );
             }
@@ -233,13 +236,10 @@ namespace penguinV
 
         bool mutate( uint32_t width_, uint32_t height_, uint8_t colorCount_, uint8_t alignment_ )
         {
-            if ( colorCount_ > 0 && alignment_ > 0 ) {
-                uint32_t rowSize_ = width_ * colorCount_;
-                if ( rowSize_ % alignment_ != 0 ) {
-                    rowSize_ = ( rowSize_ / alignment_ + 1 ) * alignment_;
-                }
+            if ( !empty() && colorCount_ > 0 && alignment_ > 0 ) {
+                const uint64_t rowSize_ = _calculateRowSize( width_, colorCount_, alignment_ );
 
-                if ( rowSize_ * height_ != _rowSize * _height ) {
+                if ( rowSize_ > std::numeric_limits<uint32_t>::max() || rowSize_ * height_ != static_cast<uint64_t>( _rowSize ) * _height ) {
                     return false;
                 }
 
@@ -247,7 +247,7 @@ namespace penguinV
                 _height = height_;
                 _colorChannelCount = colorCount_;
                 _alignment = alignment_;
-                _rowSize = rowSize_;
+                _rowSize = static_cast<uint32_t>( rowSize_ );
 
                 return true;
             }
@@ -286,6 +286,27 @@ namespace penguinV
         }
 
     private:
+        static uint64_t _calculateRowSize( uint32_t width_, uint8_t colorCount_, uint8_t alignment_ )
+        {
+            uint64_t rowSize_ = static_cast<uint64_t>( width_ ) * colorCount_;
+            if ( rowSize_ % alignment_ != 0 ) {
+                rowSize_ = ( rowSize_ / alignment_ + 1 ) * alignment_;
+            }
+
+            return rowSize_;
+        }
+
+        static uint32_t _validRowSize( uint32_t width_, uint8_t colorCount_, uint8_t alignment_ )
+        {
+            const uint64_t rowSize_ = _calculateRowSize( width_, colorCount_, alignment_ );
+
+            if ( rowSize_ > std::numeric_limits<uint32_t>::max() ) {
+                throw penguinVException( "Row size of image is too big" );
+            }
+
+            return static_cast<uint32_t>( rowSize_ );
+        }
+
         TColorDepth * _allocate( size_t size ) const
         {
             return FunctionFacade::instance().allocate( _deviceType )( size );
@@ -360,6 +381,8 @@ namespace penguinV
 
             void initialize( uint8_t type, AllocateFunction allocateFunction, DeallocateFunction deallocateFunction, CopyFunction copyFunction, SetFunction setFunction )
             {
+                std::lock_guard<std::mutex> guard( _lock );
+
                 if ( _allocate[type] == nullptr ) {
                     _allocate[type] = allocateFunction;
                     _deallocate[type] = deallocateFunction;
@@ -412,6 +435,9 @@ namespace penguinV
             std::array<DeallocateFunction, 256> _deallocate{ nullptr };
             std::array<CopyFunction, 256> _copy{ nullptr };
             std::array<SetFunction, 256> _set{ nullptr };
+
+            // Images can be created by multiple threads.
+            std::mutex _lock;
         };
     };
 
-- 
2.43.0


From 3be56bca9f0b617591c5da16041ede7b0bce38ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:06 +0000
Subject: [PATCH 22/74] fix: accept colour images in vectorised Accumulate as
 the scalar one does

---
 src/image_function_simd.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index ac5de9b..4c56727 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -2540,7 +2540,6 @@ namespace simd
         }
 
         Image_Function::ValidateImageParameters( image, x, y, width, height );
-        Image_Function::VerifyGrayScaleImage( image );
         width = width * colorCount;
 
         if ( result.size() != width * height )
-- 
2.43.0


From 302f4644d5947e55f8f68b5977bc03da09a28ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:38 +0000
Subject: [PATCH 23/74] fix: read only existing pixels in Shift and shift by
 integral values exactly

---
 src/image_function.cpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 054d191..0096397 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1781,8 +1781,8 @@ namespace Image_Function
         if ( shiftY > 0.0 )
             --shiftYIntegral;
 
-        const double coeffX = ( shiftX < 0.0 ) ? ( 1.0 + shiftX ) : shiftX;
-        const double coeffY = ( shiftY < 0.0 ) ? ( 1.0 + shiftY ) : shiftY;
+        const double coeffX = ( shiftX > 0.0 ) ? shiftX : ( 1.0 + shiftX );
+        const double coeffY = ( shiftY > 0.0 ) ? shiftY : ( 1.0 + shiftY );
 
         // 2^23 = 8388608, 2^23 * 256 is a integer limit
         const uint32_t coeff0 = static_cast<uint32_t>( ( coeffX ) * (coeffY)*16384 + 0.5 );
@@ -1790,26 +1790,29 @@ namespace Image_Function
         const uint32_t coeff2 = static_cast<uint32_t>( ( 1.0 - coeffX ) * ( 1.0 - coeffY ) * 16384 + 0.5 );
         const uint32_t coeff3 = static_cast<uint32_t>( ( coeffX ) * ( 1.0 - coeffY ) * 16384 + 0.5 );
 
-        const uint32_t limitX = in.width() - 1u; // we need 2 subsequent pixels so we cannot use last pixel
-        const uint32_t limitY = in.height() - 1u;
+        const uint32_t rowSizeIn = in.rowSize();
+        const uint32_t rowSizeOut = out.rowSize();
+
+        // we need 2 subsequent pixels so we cannot use last pixel, unless the shift is integral
+        const uint32_t nextX = ( shiftX < 0.0 || shiftX > 0.0 ) ? 1u : 0u;
+        const uint32_t nextY = ( shiftY < 0.0 || shiftY > 0.0 ) ? rowSizeIn : 0u;
+        const uint32_t limitX = in.width() - nextX;
+        const uint32_t limitY = in.height() - ( ( nextY > 0u ) ? 1u : 0u );
 
         const uint32_t emptyLeftArea
             = ( shiftXIntegral < 0 && startXIn < static_cast<uint32_t>( -shiftXIntegral ) ) ? ( static_cast<uint32_t>( -shiftXIntegral ) - startXIn ) : 0u;
-        const uint32_t emptyRightArea = ( shiftXIntegral > 0 && limitX < startXIn + width + static_cast<uint32_t>( shiftXIntegral ) )
+        const uint32_t emptyRightArea = ( shiftXIntegral >= 0 && limitX < startXIn + width + static_cast<uint32_t>( shiftXIntegral ) )
                                             ? ( startXIn + width + static_cast<uint32_t>( shiftXIntegral ) - limitX )
                                             : 0u;
         const uint32_t realWidth = width - emptyLeftArea - emptyRightArea;
 
         const uint32_t emptyTopArea
             = ( shiftYIntegral < 0 && startYIn < static_cast<uint32_t>( -shiftYIntegral ) ) ? ( static_cast<uint32_t>( -shiftYIntegral ) - startYIn ) : 0u;
-        const uint32_t emptyBottomArea = ( shiftYIntegral > 0 && limitY < startYIn + height + static_cast<uint32_t>( shiftYIntegral ) )
+        const uint32_t emptyBottomArea = ( shiftYIntegral >= 0 && limitY < startYIn + height + static_cast<uint32_t>( shiftYIntegral ) )
                                              ? ( startYIn + height + static_cast<uint32_t>( shiftYIntegral ) - limitY )
                                              : 0u;
         const uint32_t realHeight = height - emptyTopArea - emptyBottomArea;
 
-        const uint32_t rowSizeIn = in.rowSize();
-        const uint32_t rowSizeOut = out.rowSize();
-
         const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn;
         uint8_t * outY = out.data() + startYOut * rowSizeOut + startXOut;
 
@@ -1829,12 +1832,13 @@ namespace Image_Function
 
             memset( outX, 0, emptyLeftArea );
             inX += emptyLeftArea;
+            outX += emptyLeftArea;
 
-            for ( ; outX != outXEnd; ++outX ) {
+            for ( ; outX != outXEnd; ++outX, ++inX ) {
                 uint32_t data = ( *( inX ) ) * coeff0;
-                data += ( *( inX + rowSizeIn ) ) * coeff3;
-                data += ( *( ++inX ) ) * coeff1; // here we increment inX
-                data += ( *( inX + rowSizeIn ) ) * coeff2;
+                data += ( *( inX + nextY ) ) * coeff3;
+                data += ( *( inX + nextX ) ) * coeff1;
+                data += ( *( inX + nextX + nextY ) ) * coeff2;
 
                 *outX = static_cast<uint8_t>( ( data + 8192 ) >> 14 ); // 8192 is 0.5 after calculations
             }
-- 
2.43.0


From 6b10a6dc1d683a705fb36558a677df4aced92fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:48 +0000
Subject: [PATCH 24/74] fix: report lack of memory in Fourier transform

---
 src/fft.cpp                         | 12 +++++++--
 src/thirdparty/kissfft/kiss_fft.c   | 39 +++++++++++++++++++----------
 src/thirdparty/kissfft/kiss_fft.h   |  4 +--
 src/thirdparty/kissfft/kiss_fftnd.c |  6 +++--
 src/thirdparty/kissfft/kiss_fftnd.h |  2 +-
 5 files changed, 43 insertions(+), 20 deletions(-)

diff --git a/src/fft.cpp b/src/fft.cpp
index 24cf13b..a605d2d 100644
--- a/src/fft.cpp
+++ b/src/fft.cpp
@@ -20,6 +20,7 @@
 
 #include "fft.h"
 #include "penguinv_exception.h"
+#include <new>
 
 namespace FFT
 {
@@ -162,7 +163,8 @@ namespace FFT
         if ( _planDirect == 0 || !equalSize( *this, in ) || !equalSize( in, out ) )
             throw penguinVException( "Invalid parameters for FFTExecutor::directTransform()" );
 
-        kiss_fftnd( _planDirect, in.data(), out.data() );
+        if ( kiss_fftnd( _planDirect, in.data(), out.data() ) != 0 )
+            throw std::bad_alloc();
     }
 
     void FFTExecutor::inverseTransform( ComplexData & data )
@@ -175,7 +177,8 @@ namespace FFT
         if ( _planInverse == 0 || !equalSize( *this, in ) || !equalSize( in, out ) )
             throw penguinVException( "Invalid parameters for FFTExecutor::inverseTransform()" );
 
-        kiss_fftnd( _planInverse, in.data(), out.data() );
+        if ( kiss_fftnd( _planInverse, in.data(), out.data() ) != 0 )
+            throw std::bad_alloc();
     }
 
     void FFTExecutor::complexMultiplication( const ComplexData & in1, const ComplexData & in2, ComplexData & out ) const
@@ -205,6 +208,11 @@ namespace FFT
         const int dims[2] = { static_cast<int>( _width ), static_cast<int>( _height ) };
         _planDirect = kiss_fftnd_alloc( dims, 2, false, 0, 0 );
         _planInverse = kiss_fftnd_alloc( dims, 2, true, 0, 0 );
+
+        if ( _planDirect == 0 || _planInverse == 0 ) {
+            _clean();
+            throw std::bad_alloc();
+        }
     }
 
     void FFTExecutor::_cleanPlans()
diff --git a/src/thirdparty/kissfft/kiss_fft.c b/src/thirdparty/kissfft/kiss_fft.c
index e720703..20f6f52 100644
--- a/src/thirdparty/kissfft/kiss_fft.c
+++ b/src/thirdparty/kissfft/kiss_fft.c
@@ -194,7 +194,7 @@ static void kf_bfly5(
 }
 
 /* perform the butterfly for one stage of a mixed radix FFT */
-static void kf_bfly_generic(
+static int kf_bfly_generic(
         kiss_fft_cpx * Fout,
         const size_t fstride,
         const kiss_fft_cfg st,
@@ -208,6 +208,8 @@ static void kf_bfly_generic(
     int Norig = st->nfft;
 
     kiss_fft_cpx * scratch = (kiss_fft_cpx*)KISS_FFT_TMP_ALLOC(sizeof(kiss_fft_cpx)*p);
+    if (scratch == NULL)
+        return 1;
 
     for ( u=0; u<m; ++u ) {
         k=u;
@@ -231,10 +233,12 @@ static void kf_bfly_generic(
         }
     }
     KISS_FFT_TMP_FREE(scratch);
+    return 0;
 }
 
+/* returns a non-zero value if there is not enough memory */
 static
-void kf_work(
+int kf_work(
         kiss_fft_cpx * Fout,
         const kiss_fft_cpx * f,
         const size_t fstride,
@@ -256,21 +260,24 @@ void kf_work(
     if (fstride==1 && p<=5)
     {
         size_t k;
+        int failed = 0;
 
         /* execute the p different work units in different threads */
-#       pragma omp parallel for
+#       pragma omp parallel for reduction(|:failed)
         for (k=0;k<p;++k) 
-            kf_work( Fout +k*m, f+ fstride*in_stride*k,fstride*p,in_stride,factors,st);
+            failed |= kf_work( Fout +k*m, f+ fstride*in_stride*k,fstride*p,in_stride,factors,st);
         /* all threads have joined by this point */
+        if (failed)
+            return 1;
 
         switch (p) {
             case 2: kf_bfly2(Fout,fstride,st,m); break;
             case 3: kf_bfly3(Fout,fstride,st,m); break; 
             case 4: kf_bfly4(Fout,fstride,st,m); break;
             case 5: kf_bfly5(Fout,fstride,st,m); break; 
-            default: kf_bfly_generic(Fout,fstride,st,m,p); break;
+            default: return kf_bfly_generic(Fout,fstride,st,m,p);
         }
-        return;
+        return 0;
     }
 #endif
 
@@ -287,7 +294,8 @@ void kf_work(
             p instances of smaller DFTs of size m, 
             each one takes a decimated version of the input
             */
-            kf_work( Fout , f, fstride*p, in_stride, factors,st);
+            if (kf_work( Fout , f, fstride*p, in_stride, factors,st))
+                return 1;
             f += fstride * (size_t)(in_stride);
         }while( (Fout += m) != Fout_end );
     }
@@ -300,8 +308,9 @@ void kf_work(
         case 3: kf_bfly3(Fout,fstride,st,m); break; 
         case 4: kf_bfly4(Fout,fstride,st,m); break;
         case 5: kf_bfly5(Fout,fstride,st,m); break; 
-        default: kf_bfly_generic(Fout,fstride,st,m,p); break;
+        default: return kf_bfly_generic(Fout,fstride,st,m,p);
     }
+    return 0;
 }
 
 /*  facbuf is populated by p1,m1,p2,m2, ...
@@ -370,25 +379,29 @@ kiss_fft_cfg kiss_fft_alloc(int nfft,int inverse_fft,void * mem,size_t * lenmem
 }
 
 
-void kiss_fft_stride(kiss_fft_cfg st,const kiss_fft_cpx *fin,kiss_fft_cpx *fout,int in_stride)
+int kiss_fft_stride(kiss_fft_cfg st,const kiss_fft_cpx *fin,kiss_fft_cpx *fout,int in_stride)
 {
     if (fin == fout) {
         /*
         NOTE: this is not really an in-place FFT algorithm.
         It just performs an out-of-place FFT into a temp buffer
         */
+        int failed;
         kiss_fft_cpx * tmpbuf = (kiss_fft_cpx*)KISS_FFT_TMP_ALLOC( sizeof(kiss_fft_cpx)*(size_t)(st->nfft));
-        kf_work(tmpbuf,fin,1,in_stride, st->factors,st);
+        if (tmpbuf == NULL)
+            return 1;
+        failed = kf_work(tmpbuf,fin,1,in_stride, st->factors,st);
         memcpy(fout,tmpbuf,sizeof(kiss_fft_cpx) * (size_t)(st->nfft));
         KISS_FFT_TMP_FREE(tmpbuf);
+        return failed;
     }else{
-        kf_work( fout, fin, 1,in_stride, st->factors,st );
+        return kf_work( fout, fin, 1,in_stride, st->factors,st );
     }
 }
 
-void kiss_fft(kiss_fft_cfg cfg,const kiss_fft_cpx *fin,kiss_fft_cpx *fout)
+int kiss_fft(kiss_fft_cfg cfg,const kiss_fft_cpx *fin,kiss_fft_cpx *fout)
 {
-    kiss_fft_stride(cfg,fin,fout,1);
+    return kiss_fft_stride(cfg,fin,fout,1);
 }
 
 int kiss_fft_next_fast_size(int n)
diff --git a/src/thirdparty/kissfft/kiss_fft.h b/src/thirdparty/kissfft/kiss_fft.h
index 194e0f8..f4da00a 100644
--- a/src/thirdparty/kissfft/kiss_fft.h
+++ b/src/thirdparty/kissfft/kiss_fft.h
@@ -90,12 +90,12 @@ kiss_fft_cfg kiss_fft_alloc(int nfft,int inverse_fft,void * mem,size_t * lenmem)
  * Note that each element is complex and can be accessed like
     f[k].r and f[k].i
  * */
-void kiss_fft(kiss_fft_cfg cfg,const kiss_fft_cpx *fin,kiss_fft_cpx *fout);
+int kiss_fft(kiss_fft_cfg cfg,const kiss_fft_cpx *fin,kiss_fft_cpx *fout);
 
 /*
  A more generic version of the above function. It reads its input from every Nth sample.
  * */
-void kiss_fft_stride(kiss_fft_cfg cfg,const kiss_fft_cpx *fin,kiss_fft_cpx *fout,int fin_stride);
+int kiss_fft_stride(kiss_fft_cfg cfg,const kiss_fft_cpx *fin,kiss_fft_cpx *fout,int fin_stride);
 
 /* If kiss_fft_alloc allocated a buffer, it is one contiguous 
    buffer and can be simply free()d when no longer needed*/
diff --git a/src/thirdparty/kissfft/kiss_fftnd.c b/src/thirdparty/kissfft/kiss_fftnd.c
index 1823e56..5153d9e 100644
--- a/src/thirdparty/kissfft/kiss_fftnd.c
+++ b/src/thirdparty/kissfft/kiss_fftnd.c
@@ -158,7 +158,7 @@ Stage 2 ( D=4) treats this buffer as a 4*6 matrix,
    , i.e. the summation of all 24 input elements. 
 
 */
-void kiss_fftnd(kiss_fftnd_cfg st,const kiss_fft_cpx *fin,kiss_fft_cpx *fout)
+int kiss_fftnd(kiss_fftnd_cfg st,const kiss_fft_cpx *fin,kiss_fft_cpx *fout)
 {
     int i,k;
     const kiss_fft_cpx * bufin=fin;
@@ -179,7 +179,8 @@ void kiss_fftnd(kiss_fftnd_cfg st,const kiss_fft_cpx *fin,kiss_fft_cpx *fout)
         int stride = st->dimprod / curdim;
 
         for ( i=0 ; i<stride ; ++i ) 
-            kiss_fft_stride( st->states[k], bufin+i , bufout+i*curdim, stride );
+            if (kiss_fft_stride( st->states[k], bufin+i , bufout+i*curdim, stride ))
+                return 1;
 
         /*toggle back and forth between the two buffers*/
         if (bufout == st->tmpbuf){
@@ -190,4 +191,5 @@ void kiss_fftnd(kiss_fftnd_cfg st,const kiss_fft_cpx *fin,kiss_fft_cpx *fout)
             bufin = fout;
         }
     }
+    return 0;
 }
diff --git a/src/thirdparty/kissfft/kiss_fftnd.h b/src/thirdparty/kissfft/kiss_fftnd.h
index d214897..e22c809 100644
--- a/src/thirdparty/kissfft/kiss_fftnd.h
+++ b/src/thirdparty/kissfft/kiss_fftnd.h
@@ -10,7 +10,7 @@ extern "C" {
 typedef struct kiss_fftnd_state * kiss_fftnd_cfg;
 
 kiss_fftnd_cfg  kiss_fftnd_alloc(const int *dims,int ndims,int inverse_fft,void*mem,size_t*lenmem);
-void kiss_fftnd(kiss_fftnd_cfg  cfg,const kiss_fft_cpx *fin,kiss_fft_cpx *fout);
+int kiss_fftnd(kiss_fftnd_cfg  cfg,const kiss_fft_cpx *fin,kiss_fft_cpx *fout);
 
 #ifdef __cplusplus
 }
-- 
2.43.0


From 6046761e73b3aac771514cc1efbd61cef0c83826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 25/74] fix: load only complete BMP files and report every
 failure of writing one

---
 src/file/bmp_image.cpp | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/file/bmp_image.cpp b/src/file/bmp_image.cpp
index 1fb3550..173174d 100644
--- a/src/file/bmp_image.cpp
+++ b/src/file/bmp_image.cpp
@@ -22,6 +22,7 @@
 #include "../parameter_validation.h"
 #include "../penguinv_exception.h"
 #include <fstream>
+#include <limits>
 #include <memory>
 #include <vector>
 
@@ -284,7 +285,8 @@ namespace Bitmap_Operation
             get_value( data, offset, biClrImportant );
 
             if ( biHeight < 0 ) {
-                biHeight = -biHeight;
+                // a value which has no positive counterpart is not a valid height
+                biHeight = ( biHeight == std::numeric_limits<int32_t>::min() ) ? 0 : -biHeight;
                 flipped = false;
             }
             else {
@@ -360,12 +362,12 @@ namespace Bitmap_Operation
 
         virtual bool validate( const BitmapFileHeader & header ) const
         {
-            uint32_t rowSize = width() * colorCount();
+            uint64_t rowSize = static_cast<uint64_t>( width() ) * colorCount();
             if ( rowSize % BITMAP_ALIGNMENT != 0 )
                 rowSize = ( rowSize / BITMAP_ALIGNMENT + 1 ) * BITMAP_ALIGNMENT;
 
             return !( biBitCount == 8u || biBitCount == 24u || biBitCount == 32u ) || biWidth <= 0 || biHeight <= 0 || biSize != BitmapInfoHeader().biSize
-                   || ( biSizeImage != rowSize * static_cast<uint32_t>( biHeight ) && biSizeImage != 0 ) || biPlanes != BitmapInfoHeader().biPlanes
+                   || ( biSizeImage != rowSize * static_cast<uint64_t>( biHeight ) && biSizeImage != 0 ) || biPlanes != BitmapInfoHeader().biPlanes
                    || header.bfOffBits < overallSize + header.overallSize;
         }
     };
@@ -396,7 +398,7 @@ namespace Bitmap_Operation
         file.seekg( 0, file.end );
         std::streamoff length = file.tellg();
 
-        if ( length == std::char_traits<char>::pos_type( -1 ) || static_cast<size_t>( length ) < sizeof( BitmapFileHeader ) + sizeof( BitmapInfoHeader ) )
+        if ( length == std::char_traits<char>::pos_type( -1 ) || static_cast<size_t>( length ) < BitmapFileHeader().overallSize + BitmapCoreHeader().size() )
             return penguinV::Image();
 
         file.seekg( 0, file.beg );
@@ -407,6 +409,8 @@ namespace Bitmap_Operation
         std::vector<uint8_t> data( sizeof( BitmapFileHeader ) );
 
         file.read( reinterpret_cast<char *>( data.data() ), static_cast<std::streamsize>( header.overallSize ) );
+        if ( !file )
+            return penguinV::Image();
 
         header.set( data );
 
@@ -418,6 +422,8 @@ namespace Bitmap_Operation
         data.resize( 4u );
 
         file.read( reinterpret_cast<char *>( data.data() ), static_cast<std::streamsize>( data.size() ) );
+        if ( !file )
+            return penguinV::Image();
 
         size_t dibHeaderOffset = 0;
         uint32_t dibHeaderSize = 0;
@@ -434,17 +440,19 @@ namespace Bitmap_Operation
 
         // read bitmap info
         file.read( reinterpret_cast<char *>( data.data() + sizeof( dibHeaderSize ) ), static_cast<std::streamsize>( data.size() - sizeof( dibHeaderSize ) ) );
+        if ( !file )
+            return penguinV::Image();
 
         info->set( data );
 
         if ( info->validate( header ) )
             return penguinV::Image();
 
-        uint32_t rowSize = info->width() * info->colorCount();
+        uint64_t rowSize = static_cast<uint64_t>( info->width() ) * info->colorCount();
         if ( rowSize % BITMAP_ALIGNMENT != 0 )
             rowSize = ( rowSize / BITMAP_ALIGNMENT + 1 ) * BITMAP_ALIGNMENT;
 
-        if ( length != header.bfOffBits + rowSize * info->height() )
+        if ( static_cast<uint64_t>( length ) != header.bfOffBits + rowSize * info->height() )
             return penguinV::Image();
 
         const uint32_t palleteSize = header.bfOffBits - info->size() - header.overallSize;
@@ -467,6 +475,9 @@ namespace Bitmap_Operation
                 dataToRead -= readSize;
             }
 
+            if ( !file )
+                return penguinV::Image();
+
             if ( ( palleteSize == 1024u ) && ( info->colorCount() == 1u ) ) {
                 std::vector<uint8_t> generatedPallete = generateGrayScalePallete();
 
@@ -479,7 +490,7 @@ namespace Bitmap_Operation
 
         penguinV::Image image( info->width(), info->height(), info->colorCount(), BITMAP_ALIGNMENT );
 
-        size_t dataToRead = static_cast<size_t>( rowSize ) * info->height();
+        size_t dataToRead = static_cast<size_t>( rowSize * info->height() );
         size_t dataReaded = 0;
 
         const size_t blockSize = 4 * 1024 * 1024; // read by 4 MB blocks
@@ -493,13 +504,16 @@ namespace Bitmap_Operation
             dataToRead -= readSize;
         }
 
+        if ( !file )
+            return penguinV::Image();
+
         // A special case for 256 color bitmap files
         if ( convertFrom256Color ) {
             const uint8_t * inY = image.data() + rowSize * ( info->height() - 1 );
             const uint8_t * inYEnd = image.data();
             uint8_t * outY = image.data() + image.rowSize() * ( image.height() - 1 );
 
-            for ( ; inY != inYEnd; inY -= rowSize, outY -= image.rowSize() ) {
+            for ( ;; inY -= rowSize, outY -= image.rowSize() ) {
                 const uint8_t * inX = inY + ( info->width() - 1u );
                 const uint8_t * inXEnd = inY;
                 uint8_t * outX = outY + 3u * ( image.width() - 1u );
@@ -513,6 +527,9 @@ namespace Bitmap_Operation
                     if ( inX == inXEnd ) // this is done to count first pixel in row
                         break;
                 }
+
+                if ( inY == inYEnd ) // this is done to count first row in image
+                    break;
             }
         }
 
@@ -599,6 +616,8 @@ namespace Bitmap_Operation
             file.flush();
         }
 
+        file.close();
+
         if ( !file )
             throw penguinVException( "failed to write data into file" );
     }
-- 
2.43.0


From 54c4a91e2deefda60270caab9d1cd91ada8e94e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 26/74] fix: write only elements of a raw image and load only
 complete files

---
 src/file/raw_image.h | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/file/raw_image.h b/src/file/raw_image.h
index e7c7bda..0e72409 100644
--- a/src/file/raw_image.h
+++ b/src/file/raw_image.h
@@ -21,7 +21,9 @@
 #pragma once
 #include "../image_buffer.h"
 #include "../parameter_validation.h"
+#include <cstdint>
 #include <fstream>
+#include <limits>
 
 namespace Raw_Operation
 {
@@ -40,16 +42,22 @@ namespace Raw_Operation
         file.seekg( 0, file.end );
         std::streamoff length = file.tellg();
 
-        const uint32_t overallImageSize = width * height * colorCount * static_cast<uint32_t>( sizeof( _Type ) );
+        const uint64_t maximumSize = static_cast<uint64_t>( std::numeric_limits<std::streamoff>::max() );
+        const uint64_t rowSize = static_cast<uint64_t>( width ) * colorCount * sizeof( _Type );
 
-        if ( length != overallImageSize )
+        if ( rowSize > maximumSize / height )
+            return penguinV::ImageTemplate<_Type>();
+
+        const uint64_t overallImageSize = rowSize * height;
+
+        if ( length != static_cast<std::streamoff>( overallImageSize ) )
             return penguinV::ImageTemplate<_Type>();
 
         file.seekg( 0, file.beg );
 
         penguinV::ImageTemplate<_Type> image( width, height, colorCount );
 
-        size_t dataToRead = overallImageSize;
+        size_t dataToRead = static_cast<size_t>( overallImageSize );
         size_t dataReaded = 0;
 
         const size_t blockSize = 4 * 1024 * 1024; // read by 4 MB blocks
@@ -64,6 +72,9 @@ namespace Raw_Operation
             dataToRead -= readSize;
         }
 
+        if ( !file )
+            return penguinV::ImageTemplate<_Type>();
+
         return image;
     }
 
@@ -78,22 +89,28 @@ namespace Raw_Operation
         if ( !file )
             throw penguinVException( "Cannot create file for saving" );
 
-        size_t dataToWrite = sizeof( _Type ) * image.rowSize() * image.height();
-        size_t dataWritten = 0;
+        // a row of an image can be bigger than the number of its elements while a file contains only these elements
+        const size_t lineSize = sizeof( _Type ) * image.width() * image.colorCount();
 
-        const size_t blockSize = 4 * 1024 * 1024; // read by 4 MB blocks
+        const size_t blockSize = 4 * 1024 * 1024; // write by 4 MB blocks
+
+        for ( uint32_t rowId = 0; rowId < image.height(); ++rowId ) {
+            size_t dataToWrite = lineSize;
+            size_t dataWritten = 0;
 
-        const char * output = reinterpret_cast<const char *>( image.data() );
-        while ( dataToWrite > 0 ) {
-            size_t writeSize = dataToWrite > blockSize ? blockSize : dataToWrite;
+            const char * output = reinterpret_cast<const char *>( image.data() + static_cast<size_t>( image.rowSize() ) * rowId );
+            while ( dataToWrite > 0 ) {
+                size_t writeSize = dataToWrite > blockSize ? blockSize : dataToWrite;
 
-            file.write( output + dataWritten, static_cast<std::streamsize>( writeSize ) );
-            file.flush();
+                file.write( output + dataWritten, static_cast<std::streamsize>( writeSize ) );
 
-            dataWritten += writeSize;
-            dataToWrite -= writeSize;
+                dataWritten += writeSize;
+                dataToWrite -= writeSize;
+            }
         }
 
+        file.close();
+
         if ( !file )
             throw penguinVException( "failed to write data into file" );
     }
-- 
2.43.0


From 03d9c61e567a538b613a38974a58f51abae0fce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 27/74] fix: do not load compressed BMP data as pixels

---
 src/file/bmp_image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/bmp_image.cpp b/src/file/bmp_image.cpp
index 173174d..a4d4ea5 100644
--- a/src/file/bmp_image.cpp
+++ b/src/file/bmp_image.cpp
@@ -368,7 +368,7 @@ namespace Bitmap_Operation
 
             return !( biBitCount == 8u || biBitCount == 24u || biBitCount == 32u ) || biWidth <= 0 || biHeight <= 0 || biSize != BitmapInfoHeader().biSize
                    || ( biSizeImage != rowSize * static_cast<uint64_t>( biHeight ) && biSizeImage != 0 ) || biPlanes != BitmapInfoHeader().biPlanes
-                   || header.bfOffBits < overallSize + header.overallSize;
+                   || header.bfOffBits < overallSize + header.overallSize || ( biCompress != 0 && biCompress != 3u ); // compressed data (but not bit fields)
         }
     };
 
-- 
2.43.0


From c2b638e611137694facfd6a7805e6c3776bd7275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 28/74] fix: report errors of libpng instead of termination and
 keep all colours of a PNG image

---
 src/file/png_image.cpp | 276 ++++++++++++++++++++++++++++-------------
 1 file changed, 189 insertions(+), 87 deletions(-)

diff --git a/src/file/png_image.cpp b/src/file/png_image.cpp
index adc71bb..451b78c 100644
--- a/src/file/png_image.cpp
+++ b/src/file/png_image.cpp
@@ -51,72 +51,199 @@ namespace Png_Operation
 
 #else
 
+#include <csetjmp>
+#include <cstdio>
 #include <png.h>
-#include <stdlib.h>
+#include <vector>
 
 #include "../parameter_validation.h"
 
-namespace Png_Operation
+namespace
 {
-    penguinV::Image Load( const std::string & path )
+    // libpng reports an error by a jump to a place set by setjmp(). Such jump must not skip a call of a destructor
+    // so all functions with setjmp() below own nothing.
+    void errorHandler( png_structp png, png_const_charp )
     {
-        if ( path.empty() )
-            throw penguinVException( "Incorrect file path for image file loading" );
+        png_longjmp( png, 1 );
+    }
 
-        FILE * file = fopen( path.data(), "rb" );
-        if ( !file )
-            return penguinV::Image();
+    void warningHandler( png_structp, png_const_charp ) {}
 
-        png_structp png = png_create_read_struct( PNG_LIBPNG_VER_STRING, NULL, NULL, NULL );
-        if ( !png ) {
-            fclose( file );
-            return penguinV::Image();
+    class PngReader
+    {
+    public:
+        explicit PngReader( const std::string & path )
+            : _png( NULL )
+            , _info( NULL )
+            , _file( fopen( path.data(), "rb" ) )
+        {
+            if ( _file == NULL )
+                return;
+
+            _png = png_create_read_struct( PNG_LIBPNG_VER_STRING, NULL, errorHandler, warningHandler );
+            if ( _png != NULL )
+                _info = png_create_info_struct( _png );
         }
 
-        png_infop info = png_create_info_struct( png );
-        if ( !info ) {
-            fclose( file );
-            return penguinV::Image();
+        ~PngReader()
+        {
+            if ( _png != NULL )
+                png_destroy_read_struct( &_png, &_info, NULL );
+
+            if ( _file != NULL )
+                fclose( _file );
+        }
+
+        bool readInfo( uint32_t & width, uint32_t & height, uint8_t & colorType, size_t & rowByteCount )
+        {
+            if ( _info == NULL || setjmp( png_jmpbuf( _png ) ) != 0 )
+                return false;
+
+            png_init_io( _png, _file );
+            png_read_info( _png, _info );
+
+            width = static_cast<uint32_t>( png_get_image_width( _png, _info ) );
+            height = static_cast<uint32_t>( png_get_image_height( _png, _info ) );
+            colorType = png_get_color_type( _png, _info );
+            const uint8_t bitDepth = png_get_bit_depth( _png, _info );
+
+            if ( bitDepth == 16u )
+                png_set_strip_16( _png );
+
+            if ( colorType == PNG_COLOR_TYPE_PALETTE )
+                png_set_palette_to_rgb( _png );
+
+            // PNG_COLOR_TYPE_GRAY_ALPHA is always 8 or 16bit depth
+            if ( colorType == PNG_COLOR_TYPE_GRAY && bitDepth < 8u )
+                png_set_expand_gray_1_2_4_to_8( _png );
+
+            if ( png_get_valid( _png, _info, PNG_INFO_tRNS ) )
+                png_set_tRNS_to_alpha( _png );
+
+            // These color types don't have an alpha channel then fill it with 0xff
+            if ( colorType == PNG_COLOR_TYPE_RGB || colorType == PNG_COLOR_TYPE_GRAY || colorType == PNG_COLOR_TYPE_PALETTE )
+                png_set_filler( _png, 0xFF, PNG_FILLER_AFTER );
+
+            if ( colorType == PNG_COLOR_TYPE_GRAY || colorType == PNG_COLOR_TYPE_GRAY_ALPHA )
+                png_set_gray_to_rgb( _png );
+
+            png_read_update_info( _png, _info );
+
+            rowByteCount = png_get_rowbytes( _png, _info );
+            return true;
         }
 
-        png_init_io( png, file );
-        png_read_info( png, info );
+        bool readRows( uint8_t ** rows )
+        {
+            if ( setjmp( png_jmpbuf( _png ) ) != 0 )
+                return false;
 
-        const uint32_t width = static_cast<uint32_t>( png_get_image_width( png, info ) );
-        const uint32_t height = static_cast<uint32_t>( png_get_image_height( png, info ) );
-        const uint8_t colorType = png_get_color_type( png, info );
-        const uint8_t bitDepth = png_get_bit_depth( png, info );
+            png_read_image( _png, rows );
+            return true;
+        }
 
-        if ( bitDepth == 16u )
-            png_set_strip_16( png );
+    private:
+        png_structp _png;
+        png_infop _info;
+        FILE * _file;
 
-        if ( colorType == PNG_COLOR_TYPE_PALETTE )
-            png_set_palette_to_rgb( png );
+        PngReader( const PngReader & );
+        PngReader & operator=( const PngReader & );
+    };
 
-        // PNG_COLOR_TYPE_GRAY_ALPHA is always 8 or 16bit depth
-        if ( colorType == PNG_COLOR_TYPE_GRAY && bitDepth < 8u )
-            png_set_expand_gray_1_2_4_to_8( png );
+    class PngWriter
+    {
+    public:
+        explicit PngWriter( const std::string & path )
+            : _png( NULL )
+            , _info( NULL )
+            , _file( fopen( path.data(), "wb" ) )
+        {
+            if ( _file == NULL )
+                return;
+
+            _png = png_create_write_struct( PNG_LIBPNG_VER_STRING, NULL, errorHandler, warningHandler );
+            if ( _png != NULL )
+                _info = png_create_info_struct( _png );
+        }
 
-        if ( png_get_valid( png, info, PNG_INFO_tRNS ) )
-            png_set_tRNS_to_alpha( png );
+        ~PngWriter()
+        {
+            close();
+        }
 
-        // These color types don't have an alpha channel then fill it with 0xff
-        if ( colorType == PNG_COLOR_TYPE_RGB || colorType == PNG_COLOR_TYPE_GRAY || colorType == PNG_COLOR_TYPE_PALETTE )
-            png_set_filler( png, 0xFF, PNG_FILLER_AFTER );
+        bool isReady() const
+        {
+            return _info != NULL;
+        }
+
+        bool write( uint32_t width, uint32_t height, int colorType, uint8_t ** rows )
+        {
+            if ( setjmp( png_jmpbuf( _png ) ) != 0 )
+                return false;
+
+            png_init_io( _png, _file );
+
+            png_set_IHDR( _png, _info, width, height, 8, colorType, PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT );
 
-        if ( colorType == PNG_COLOR_TYPE_GRAY || colorType == PNG_COLOR_TYPE_GRAY_ALPHA )
-            png_set_gray_to_rgb( png );
+            png_write_info( _png, _info );
+            png_write_image( _png, rows );
+            png_write_end( _png, NULL );
+            return true;
+        }
+
+        bool close()
+        {
+            if ( _png != NULL )
+                png_destroy_write_struct( &_png, &_info );
 
-        png_read_update_info( png, info );
+            if ( _file == NULL )
+                return false;
 
-        uint8_t ** row_pointers = reinterpret_cast<uint8_t **>( malloc( sizeof( uint8_t * ) * height ) );
+            const bool isFailed = ( ferror( _file ) != 0 );
+            const bool isClosed = ( fclose( _file ) == 0 );
+            _file = NULL;
 
-        const size_t rowByteCount = png_get_rowbytes( png, info );
+            return isClosed && !isFailed;
+        }
 
-        for ( uint32_t y = 0; y < height; ++y )
-            row_pointers[y] = reinterpret_cast<uint8_t *>( malloc( rowByteCount ) );
+    private:
+        png_structp _png;
+        png_infop _info;
+        FILE * _file;
 
-        png_read_image( png, row_pointers );
+        PngWriter( const PngWriter & );
+        PngWriter & operator=( const PngWriter & );
+    };
+}
+
+namespace Png_Operation
+{
+    penguinV::Image Load( const std::string & path )
+    {
+        if ( path.empty() )
+            throw penguinVException( "Incorrect file path for image file loading" );
+
+        PngReader reader( path );
+
+        uint32_t width = 0;
+        uint32_t height = 0;
+        uint8_t colorType = 0;
+        size_t rowByteCount = 0;
+
+        if ( !reader.readInfo( width, height, colorType, rowByteCount ) )
+            return penguinV::Image();
+
+        std::vector<std::vector<uint8_t>> rows( height );
+        std::vector<uint8_t *> rowPointers( height );
+
+        for ( uint32_t y = 0; y < height; ++y ) {
+            rows[y].resize( rowByteCount );
+            rowPointers[y] = rows[y].data();
+        }
+
+        if ( !reader.readRows( rowPointers.data() ) )
+            return penguinV::Image();
 
         const bool isGrayScale = ( colorType == PNG_COLOR_TYPE_GRAY || colorType == PNG_COLOR_TYPE_GRAY_ALPHA );
 
@@ -124,7 +251,7 @@ namespace Png_Operation
 
         uint8_t * outY = image.data();
         for ( uint32_t y = 0; y < height; ++y, outY += image.rowSize() ) {
-            const uint8_t * column = row_pointers[y];
+            const uint8_t * column = rowPointers[y];
             uint8_t * outX = outY;
 
             if ( isGrayScale ) {
@@ -140,14 +267,6 @@ namespace Png_Operation
             }
         }
 
-        fclose( file );
-
-        for ( uint32_t y = 0; y < height; ++y )
-            free( row_pointers[y] );
-        free( row_pointers );
-
-        png_destroy_read_struct( &png, &info, NULL );
-
         return image;
     }
 
@@ -165,38 +284,21 @@ namespace Png_Operation
     {
         Image_Function::ValidateImageParameters( image, startX, startY, width, height );
 
-        FILE * file = fopen( path.data(), "wb" );
-        if ( !file )
-            throw penguinVException( "Cannot create file for saving" );
-
-        png_structp png = png_create_write_struct( PNG_LIBPNG_VER_STRING, NULL, NULL, NULL );
-        if ( !png )
-            throw penguinVException( "Cannot create file for saving" );
-
-        png_infop info = png_create_info_struct( png );
-        if ( !info )
-            throw penguinVException( "Cannot create file for saving" );
-
-        png_init_io( png, file );
-
         const bool grayScaleImage = image.colorCount() == penguinV::GRAY_SCALE;
+        const bool rgbaImage = image.colorCount() == penguinV::RGBA;
 
-        // Output is 8 bit depth, Gray-Scale or RGB
-        png_set_IHDR( png, info, width, height, 8, ( grayScaleImage ? PNG_COLOR_TYPE_GRAY : PNG_COLOR_TYPE_RGB ), PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT,
-                      PNG_FILTER_TYPE_DEFAULT );
-
-        png_write_info( png, info );
-
-        uint8_t ** row_pointers = reinterpret_cast<uint8_t **>( malloc( sizeof( uint8_t * ) * height ) );
-
-        const size_t rowByteCount = png_get_rowbytes( png, info );
+        // Output is 8 bit depth, Gray-Scale, RGB or RGBA
+        const int colorType = grayScaleImage ? PNG_COLOR_TYPE_GRAY : ( rgbaImage ? PNG_COLOR_TYPE_RGB_ALPHA : PNG_COLOR_TYPE_RGB );
 
-        for ( uint32_t y = 0; y < height; ++y )
-            row_pointers[y] = reinterpret_cast<uint8_t *>( malloc( rowByteCount ) );
+        std::vector<std::vector<uint8_t>> rows( height );
+        std::vector<uint8_t *> rowPointers( height );
 
         const uint8_t * outY = image.data() + startY * image.rowSize() + startX * image.colorCount();
         for ( uint32_t y = 0; y < height; ++y, outY += image.rowSize() ) {
-            uint8_t * column = row_pointers[y];
+            rows[y].resize( static_cast<size_t>( width ) * image.colorCount() );
+            rowPointers[y] = rows[y].data();
+
+            uint8_t * column = rowPointers[y];
             const uint8_t * outX = outY;
 
             if ( grayScaleImage ) {
@@ -204,24 +306,24 @@ namespace Png_Operation
                     *column = *( outX++ );
             }
             else {
-                for ( uint32_t x = 0; x < width; ++x, column += 3 ) {
+                for ( uint32_t x = 0; x < width; ++x, column += image.colorCount() ) {
                     column[2] = *( outX++ );
                     column[1] = *( outX++ );
                     column[0] = *( outX++ );
+                    if ( rgbaImage )
+                        column[3] = *( outX++ );
                 }
             }
         }
 
-        png_write_image( png, row_pointers );
-        png_write_end( png, NULL );
-
-        fclose( file );
-
-        for ( uint32_t y = 0; y < height; ++y )
-            free( row_pointers[y] );
-        free( row_pointers );
+        PngWriter writer( path );
+        if ( !writer.isReady() )
+            throw penguinVException( "Cannot create file for saving" );
 
-        png_destroy_write_struct( &png, &info );
+        const bool isWritten = writer.write( width, height, colorType, rowPointers.data() );
+        const bool isClosed = writer.close();
+        if ( !isWritten || !isClosed )
+            throw penguinVException( "failed to write data into file" );
     }
 }
 
-- 
2.43.0


From 512a6032c8d2352da2eb38b4f34a14bda0673b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 29/74] fix: report errors of libjpeg instead of exiting and
 save the requested region of a JPEG image

---
 src/file/jpeg_image.cpp | 259 ++++++++++++++++++++++++++++++++--------
 1 file changed, 209 insertions(+), 50 deletions(-)

diff --git a/src/file/jpeg_image.cpp b/src/file/jpeg_image.cpp
index a7fb787..c3ba4f4 100644
--- a/src/file/jpeg_image.cpp
+++ b/src/file/jpeg_image.cpp
@@ -73,82 +73,241 @@ namespace Jpeg_Operation
 
 #else
 
-#include <jerror.h>
+#include <csetjmp>
+#include <cstdio>
+#include <cstring>
+
 #include <jpeglib.h>
 
-namespace Jpeg_Operation
+#include <jerror.h> // must be after jpeglib.h as message codes depend on the version of the library
+
+namespace
 {
-    void Load( const std::string & path, penguinV::Image & image )
+    // By default libjpeg terminates the whole application in case of any error. Instead of this we jump to a place set by setjmp().
+    // Such jump must not skip a call of a destructor so all functions with setjmp() below own nothing.
+    struct ErrorManager
     {
-        if ( path.empty() )
-            throw penguinVException( "Incorrect parameters for Jpeg image loading" );
+        jpeg_error_mgr base; // must be the first member as libjpeg knows only about it
+        jmp_buf jumpBuffer;
+        bool isDataMissing;
+        bool isEndMissing;
+    };
 
-        FILE * file = fopen( path.data(), "rb" );
-        if ( file == nullptr )
-            throw penguinVException( "Cannot open Jpeg image" );
+    void errorHandler( j_common_ptr info )
+    {
+        longjmp( reinterpret_cast<ErrorManager *>( info->err )->jumpBuffer, 1 );
+    }
 
-        struct jpeg_decompress_struct info;
-        struct jpeg_error_mgr error;
-        info.err = jpeg_std_error( &error );
-        jpeg_create_decompress( &info );
+    void messageHandler( j_common_ptr info, int level )
+    {
+        if ( level >= 0 )
+            return;
+
+        // libjpeg replaces missing data by made up pixels and gives only a warning about this
+        ErrorManager * error = reinterpret_cast<ErrorManager *>( info->err );
+        if ( error->base.msg_code == JWRN_HIT_MARKER )
+            error->isDataMissing = true;
+        else if ( error->base.msg_code == JWRN_JPEG_EOF )
+            error->isEndMissing = true;
+    }
 
-        jpeg_stdio_src( &info, file );
-        jpeg_read_header( &info, TRUE );
+    void outputHandler( j_common_ptr ) {}
 
-        jpeg_start_decompress( &info );
+    jpeg_error_mgr * initialize( ErrorManager & error )
+    {
+        jpeg_std_error( &error.base );
+        error.base.error_exit = errorHandler;
+        error.base.emit_message = messageHandler;
+        error.base.output_message = outputHandler;
+        error.isDataMissing = false;
+        error.isEndMissing = false;
+        return &error.base;
+    }
 
-        const uint8_t colorCount = ( info.num_components > 0 && info.num_components < 256 ) ? static_cast<uint8_t>( info.num_components ) : 1u;
-        image.setColorCount( colorCount );
-        image.resize( info.output_width, info.output_height );
+    class JpegReader
+    {
+    public:
+        explicit JpegReader( const std::string & path )
+            : _file( fopen( path.data(), "rb" ) )
+        {
+            memset( &_info, 0, sizeof( _info ) );
+            _info.err = initialize( _error );
+        }
 
-        uint8_t * line[1] = { nullptr };
-        while ( info.output_scanline < info.output_height ) {
-            line[0] = image.data() + image.rowSize() * info.output_scanline;
-            jpeg_read_scanlines( &info, line, 1 );
+        ~JpegReader()
+        {
+            jpeg_destroy_decompress( &_info );
+
+            if ( _file != NULL )
+                fclose( _file );
         }
 
-        jpeg_finish_decompress( &info );
-        jpeg_destroy_decompress( &info );
-        fclose( file );
-    }
+        bool isOpen() const
+        {
+            return _file != NULL;
+        }
 
-    void Save( const std::string & path, const penguinV::Image & image, uint32_t startX, uint32_t startY, uint32_t width, uint32_t height )
+        bool start( uint32_t & width, uint32_t & height, uint8_t & colorCount )
+        {
+            if ( setjmp( _error.jumpBuffer ) != 0 )
+                return false;
+
+            jpeg_create_decompress( &_info );
+
+            jpeg_stdio_src( &_info, _file );
+            jpeg_read_header( &_info, TRUE );
+
+            jpeg_start_decompress( &_info );
+
+            width = _info.output_width;
+            height = _info.output_height;
+            colorCount = ( _info.num_components > 0 && _info.num_components < 256 ) ? static_cast<uint8_t>( _info.num_components ) : 1u;
+            return true;
+        }
+
+        bool readRows( uint8_t * data, uint32_t rowSize )
+        {
+            if ( setjmp( _error.jumpBuffer ) != 0 )
+                return false;
+
+            while ( _info.output_scanline < _info.output_height ) {
+                uint8_t * line[1] = { data + static_cast<size_t>( rowSize ) * _info.output_scanline };
+                jpeg_read_scanlines( &_info, line, 1 );
+            }
+
+            // libjpeg sees no difference between an error of reading and an end of a file. A lost end of a file with several scans means lost scans
+            if ( ferror( _file ) || _error.isDataMissing || ( _error.isEndMissing && jpeg_has_multiple_scans( &_info ) ) )
+                return false;
+
+            jpeg_finish_decompress( &_info );
+            return true;
+        }
+
+    private:
+        struct jpeg_decompress_struct _info;
+        ErrorManager _error;
+        FILE * _file;
+
+        JpegReader( const JpegReader & );
+        JpegReader & operator=( const JpegReader & );
+    };
+
+    class JpegWriter
     {
-        Image_Function::ValidateImageParameters( image, startX, startY, width, height );
+    public:
+        explicit JpegWriter( const std::string & path )
+            : _file( fopen( path.data(), "wb" ) )
+        {
+            memset( &_info, 0, sizeof( _info ) );
+            _info.err = initialize( _error );
+        }
 
-        FILE * file = fopen( path.data(), "wb" );
-        if ( !file )
-            throw penguinVException( "Cannot create file for saving" );
+        ~JpegWriter()
+        {
+            close();
+        }
+
+        bool isOpen() const
+        {
+            return _file != NULL;
+        }
+
+        bool write( uint32_t width, uint32_t height, uint8_t colorCount, const uint8_t * data, uint32_t rowSize, int quality )
+        {
+            if ( setjmp( _error.jumpBuffer ) != 0 )
+                return false;
 
-        struct jpeg_compress_struct info;
-        struct jpeg_error_mgr jerr;
-        JSAMPROW row_pointer[1];
+            jpeg_create_compress( &_info );
 
-        info.err = jpeg_std_error( &jerr );
-        jpeg_create_compress( &info );
+            jpeg_stdio_dest( &_info, _file );
 
-        jpeg_stdio_dest( &info, file );
+            _info.image_width = width;
+            _info.image_height = height;
+            _info.input_components = colorCount;
+            _info.in_color_space = ( ( colorCount == 1 ) ? JCS_GRAYSCALE : JCS_RGB );
 
-        info.image_width = width;
-        info.image_height = height;
-        info.input_components = image.colorCount();
-        info.in_color_space = ( ( image.colorCount() == 1 ) ? JCS_GRAYSCALE : JCS_RGB );
+            jpeg_set_defaults( &_info );
+            jpeg_set_quality( &_info, quality, TRUE ); // limit to baseline-JPEG values
 
-        jpeg_set_defaults( &info );
-        jpeg_set_quality( &info, jpegQuality, TRUE ); // limit to baseline-JPEG values
+            jpeg_start_compress( &_info, TRUE );
 
-        jpeg_start_compress( &info, TRUE );
+            while ( _info.next_scanline < _info.image_height ) {
+                JSAMPROW row[1] = { const_cast<uint8_t *>( data + static_cast<size_t>( rowSize ) * _info.next_scanline ) }; // libjpeg is C based library so no choice
+                jpeg_write_scanlines( &_info, row, 1 );
+            }
 
-        while ( info.next_scanline < info.image_height ) {
-            row_pointer[0] = const_cast<uint8_t *>( image.data() + image.rowSize() * info.next_scanline ); // libjpeg is C based library so no choice
-            jpeg_write_scanlines( &info, row_pointer, 1 );
+            jpeg_finish_compress( &_info );
+            return true;
         }
 
-        jpeg_finish_compress( &info );
+        bool close()
+        {
+            jpeg_destroy_compress( &_info );
+
+            if ( _file == NULL )
+                return false;
+
+            const bool isFailed = ( ferror( _file ) != 0 );
+            const bool isClosed = ( fclose( _file ) == 0 );
+            _file = NULL;
+
+            return isClosed && !isFailed;
+        }
+
+    private:
+        struct jpeg_compress_struct _info;
+        ErrorManager _error;
+        FILE * _file;
+
+        JpegWriter( const JpegWriter & );
+        JpegWriter & operator=( const JpegWriter & );
+    };
+}
+
+namespace Jpeg_Operation
+{
+    void Load( const std::string & path, penguinV::Image & image )
+    {
+        if ( path.empty() )
+            throw penguinVException( "Incorrect parameters for Jpeg image loading" );
+
+        JpegReader reader( path );
+        if ( !reader.isOpen() )
+            throw penguinVException( "Cannot open Jpeg image" );
+
+        uint32_t width = 0;
+        uint32_t height = 0;
+        uint8_t colorCount = 1u;
+
+        if ( !reader.start( width, height, colorCount ) )
+            throw penguinVException( "Cannot read Jpeg image" );
+
+        penguinV::Image output = image.generate( 0, 0, colorCount, image.alignment() );
+        output.resize( width, height );
+
+        if ( !reader.readRows( output.data(), output.rowSize() ) )
+            throw penguinVException( "Cannot read Jpeg image" );
+
+        image.swap( output );
+    }
+
+    void Save( const std::string & path, const penguinV::Image & image, uint32_t startX, uint32_t startY, uint32_t width, uint32_t height )
+    {
+        Image_Function::ValidateImageParameters( image, startX, startY, width, height );
+
+        if ( image.colorCount() != penguinV::GRAY_SCALE && image.colorCount() != penguinV::RGB )
+            throw penguinVException( "Jpeg image cannot have such number of colors" );
+
+        JpegWriter writer( path );
+        if ( !writer.isOpen() )
+            throw penguinVException( "Cannot create file for saving" );
 
-        fclose( file );
+        const uint8_t * data = image.data() + static_cast<size_t>( startY ) * image.rowSize() + static_cast<size_t>( startX ) * image.colorCount();
 
-        jpeg_destroy_compress( &info );
+        const bool isWritten = writer.write( width, height, image.colorCount(), data, image.rowSize(), jpegQuality );
+        const bool isClosed = writer.close();
+        if ( !isWritten || !isClosed )
+            throw penguinVException( "failed to write data into file" );
     }
 }
 #endif
-- 
2.43.0


From 5ab273819a877053d89bceaafbea5559fc12bec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 30/74] fix: use the requested region of an image in OpenCL
 functions

---
 src/opencl/image_function_opencl.cpp | 56 +++++++++++++---------------
 1 file changed, 25 insertions(+), 31 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index cbe877d..f1144ef 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -171,7 +171,7 @@ namespace
             const size_t y = get_global_id(1);
 
             if ( x < width && y < height ) {
-                out[rowSizeOut + y * rowSizeOut + x] = in[offsetIn + y * rowSizeIn + x];
+                out[offsetOut + y * rowSizeOut + x] = in[offsetIn + y * rowSizeIn + x];
             }
         }
 
@@ -182,7 +182,7 @@ namespace
             const size_t y = get_global_id(1);
 
             if( x < width && y < height )
-                out[offsetOut + y * rowSizeOut + x] = in[offsetIn + (y * rowSizeIn + x) * colorCount + channelId];
+                out[offsetOut + y * rowSizeOut + x] = in[offsetIn + y * rowSizeIn + x * colorCount + channelId];
         }
 
         __kernel void fillOpenCL( __global uchar * data, uint offset, uint rowSize, uint width, uint height, uchar value )
@@ -326,15 +326,15 @@ namespace
             }
         }
 
-        __kernel void __attribute__(( overloadable )) setPixelOpenCL( __global uchar * data, uint offset, uint rowSize, uint width, uint height, uint x, uint y, uchar value )
+        __kernel void setPixelOpenCL( __global uchar * data, uint rowSize, uint width, uint height, uint x, uint y, uchar value )
         {
             if ( x < width && y < height ) {
-                data[offset + y * rowSize + x] = value;
+                data[y * rowSize + x] = value;
             }
         }
 
-        __kernel void __attribute__(( overloadable )) setPixelOpenCL( __global uchar * data, uint offset, uint rowSize, uint width, uint height,
-                                                                      __global const uint * pointX, __global const uint * pointY, uint pointSize, uint value )
+        __kernel void setPixelsOpenCL( __global uchar * data, uint rowSize, uint width, uint height, __global const uint * pointX, __global const uint * pointY,
+                                       uint pointSize, uchar value )
         {
             const size_t id = get_global_id(0);
 
@@ -342,7 +342,7 @@ namespace
                 const uint x = pointX[id];
                 const uint y = pointY[id];
                 if ( x < width && y < height ) {
-                    data[offset + y * rowSize + x] = value;
+                    data[y * rowSize + x] = value;
                 }
             }
         }
@@ -630,7 +630,7 @@ namespace Image_Function_OpenCL
         Image_Function::VerifyGrayScaleImage( out );
 
         if ( in.colorCount() == penguinV::GRAY_SCALE ) {
-            Copy( in, out );
+            Copy( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
             return;
         }
 
@@ -640,7 +640,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * in.colorCount();
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * in.colorCount();
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * out.colorCount();
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, in.colorCount(), out.data(), offsetOut, rowSizeOut, width, height );
@@ -669,7 +669,7 @@ namespace Image_Function_OpenCL
         Image_Function::VerifyRGBImage( out );
 
         if ( in.colorCount() == penguinV::RGB ) {
-            Copy( in, out );
+            Copy( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
         }
         else {
             const multiCL::OpenCLProgram & program = GetProgram();
@@ -678,7 +678,7 @@ namespace Image_Function_OpenCL
             const uint32_t rowSizeIn = in.rowSize();
             const uint32_t rowSizeOut = out.rowSize();
 
-            const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * in.colorCount();
+            const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * in.colorCount();
             const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * out.colorCount();
 
             kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, out.colorCount(), width, height );
@@ -712,7 +712,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * colorCount;
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * colorCount;
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * colorCount;
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height );
@@ -750,7 +750,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * in.colorCount();
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * in.colorCount();
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * out.colorCount();
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, in.colorCount(), out.data(), offsetOut, rowSizeOut, width, height, channelId );
@@ -772,7 +772,7 @@ namespace Image_Function_OpenCL
         multiCL::OpenCLKernel kernel( program, "fillOpenCL" );
 
         const uint32_t rowSize = image.rowSize();
-        const uint32_t offset = x * rowSize + y;
+        const uint32_t offset = y * rowSize + x;
 
         kernel.setArgument( image.data(), offset, rowSize, width, height, value );
 
@@ -813,9 +813,9 @@ namespace Image_Function_OpenCL
             const uint32_t offsetIn = startYIn * rowSizeIn + startXIn;
             const uint32_t offsetOut = startYOut * rowSizeOut + startXOut;
 
-            kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, in.width(), in.height(), horizontal, vertical );
+            kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, horizontal, vertical );
 
-            multiCL::launchKernel2D( kernel, in.width(), in.height() );
+            multiCL::launchKernel2D( kernel, width, height );
         }
     }
 
@@ -879,7 +879,7 @@ namespace Image_Function_OpenCL
         multiCL::OpenCLKernel kernel( program, "histogramOpenCL" );
 
         const uint32_t rowSize = image.rowSize();
-        const uint32_t offset = x * rowSize + y;
+        const uint32_t offset = y * rowSize + x;
 
         kernel.setArgument( image.data(), offset, rowSize, width, height, histogramOpenCL.data() );
 
@@ -990,7 +990,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * colorCount;
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * colorCount;
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * colorCount;
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, tableOpenCL.data() );
@@ -1099,21 +1099,16 @@ namespace Image_Function_OpenCL
         multiCL::OpenCLKernel kernel( program, "intensityRangeOpenCL" );
 
         const uint8_t colorCount = Image_Function::CheckCommonColorCount( in, out );
-        width = width * colorCount;
-
         const uint32_t rowSizeIn = in.rowSize();
-        const uint32_t rowSizeOut = out.rowSize();
-
         const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * colorCount;
-        const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * colorCount;
 
         std::vector<uint32_t> range = { 255, 0 };
 
         multiCL::Array<uint32_t> rangeOpenCL( range );
 
-        kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, rangeOpenCL.data() );
+        kernel.setArgument( in.data(), offsetIn, rowSizeIn, width * colorCount, height, rangeOpenCL.data() );
 
-        multiCL::launchKernel2D( kernel, width, height );
+        multiCL::launchKernel2D( kernel, width * colorCount, height );
 
         range = rangeOpenCL.get();
 
@@ -1227,9 +1222,8 @@ namespace Image_Function_OpenCL
         const uint32_t width = image.width();
         const uint32_t height = image.height();
         const uint32_t rowSize = image.rowSize();
-        const uint32_t offset = x * rowSize + y;
 
-        kernel.setArgument( image.data(), offset, rowSize, width, height, x, y, value );
+        kernel.setArgument( image.data(), rowSize, width, height, x, y, value );
 
         multiCL::launchKernel1D( kernel, 1 );
     }
@@ -1239,7 +1233,7 @@ namespace Image_Function_OpenCL
         Image_Function::ValidateImageParameters( image );
 
         const multiCL::OpenCLProgram & program = GetProgram();
-        multiCL::OpenCLKernel kernel( program, "setPixelOpenCL" );
+        multiCL::OpenCLKernel kernel( program, "setPixelsOpenCL" );
 
         if ( image.empty() || X.empty() || X.size() != Y.size() )
             throw penguinVException( "Bad input parameters in image function" );
@@ -1257,7 +1251,7 @@ namespace Image_Function_OpenCL
         multiCL::Array<uint32_t> pointX( X );
         multiCL::Array<uint32_t> pointY( Y );
 
-        kernel.setArgument( image.data(), rowSize, width, height, pointX.data(), pointY.data(), X.size(), value );
+        kernel.setArgument( image.data(), rowSize, width, height, pointX.data(), pointY.data(), static_cast<uint32_t>( X.size() ), value );
 
         multiCL::launchKernel1D( kernel, static_cast<uint32_t>( X.size() ) );
     }
@@ -1289,7 +1283,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn;
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn;
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut;
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, threshold );
@@ -1324,7 +1318,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn;
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn;
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut;
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, minThreshold, maxThreshold );
-- 
2.43.0


From 338b94f41a1835efd2902a406da47675eff7b429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 31/74] fix: keep pixels of images with different row sizes in
 OpenCL transfers

---
 src/opencl/image_function_opencl.cpp | 30 +++++++++-------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index f1144ef..af79dd3 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -565,17 +565,11 @@ namespace Image_Function_OpenCL
         if ( in.width() != out.width() || in.height() != out.height() || in.colorCount() != out.colorCount() )
             throw penguinVException( "Bad input parameters in image function" );
 
-        if ( in.alignment() == 1u || ( in.rowSize() == in.width() * in.colorCount() ) ) {
-            const size_t size = static_cast<size_t>( in.rowSize() ) * in.height();
-            multiCL::writeBuffer( reinterpret_cast<cl_mem>( out.data() ), size * sizeof( uint8_t ), in.data() );
-        }
-        else {
-            const size_t origin[3] = { 0, 0, 0 };
-            const size_t region[3] = { in.width(), in.height(), 1 };
+        const size_t origin[3] = { 0, 0, 0 };
+        const size_t region[3] = { static_cast<size_t>( in.width() ) * in.colorCount(), in.height(), 1 };
 
-            multiCL::openCLCheck( clEnqueueWriteImage( multiCL::OpenCLDeviceManager::instance().device().queue()(), reinterpret_cast<cl_mem>( out.data() ), CL_TRUE,
-                                                       origin, region, in.rowSize(), 0, in.data(), 0, NULL, NULL ) );
-        }
+        multiCL::openCLCheck( clEnqueueWriteBufferRect( multiCL::OpenCLDeviceManager::instance().device().queue()(), reinterpret_cast<cl_mem>( out.data() ), CL_TRUE,
+                                                        origin, origin, region, out.rowSize(), 0, in.rowSize(), 0, in.data(), 0, NULL, NULL ) );
     }
 
     Image ConvertFromOpenCL( const Image & in )
@@ -594,18 +588,12 @@ namespace Image_Function_OpenCL
         if ( in.width() != out.width() || in.height() != out.height() || in.colorCount() != out.colorCount() )
             throw penguinVException( "Bad input parameters in image function" );
 
-        if ( out.alignment() == 1u || ( out.rowSize() == out.width() * out.colorCount() ) ) {
-            const size_t size = static_cast<size_t>( in.rowSize() ) * in.height();
-            multiCL::readBuffer( reinterpret_cast<cl_mem>( const_cast<uint8_t *>( in.data() ) ), size * sizeof( uint8_t ), out.data() );
-        }
-        else {
-            const size_t origin[3] = { 0, 0, 0 };
-            const size_t region[3] = { out.width(), out.height(), 1 };
+        const size_t origin[3] = { 0, 0, 0 };
+        const size_t region[3] = { static_cast<size_t>( in.width() ) * in.colorCount(), in.height(), 1 };
 
-            multiCL::openCLCheck( clEnqueueReadImage( multiCL::OpenCLDeviceManager::instance().device().queue()(),
-                                                      reinterpret_cast<cl_mem>( const_cast<uint8_t *>( in.data() ) ), CL_TRUE, origin, region, out.rowSize(), 0,
-                                                      out.data(), 0, NULL, NULL ) );
-        }
+        multiCL::openCLCheck( clEnqueueReadBufferRect( multiCL::OpenCLDeviceManager::instance().device().queue()(),
+                                                       reinterpret_cast<cl_mem>( const_cast<uint8_t *>( in.data() ) ), CL_TRUE, origin, origin, region, in.rowSize(), 0,
+                                                       out.rowSize(), 0, out.data(), 0, NULL, NULL ) );
     }
 
     Image ConvertToGrayScale( const Image & in )
-- 
2.43.0


From fa88aaa91407798184c7f4caf6bcfd440910988a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 32/74] fix: copy construction and moving of OpenCL images

---
 src/opencl/image_buffer_opencl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/opencl/image_buffer_opencl.h b/src/opencl/image_buffer_opencl.h
index 5ebe84c..e997e61 100644
--- a/src/opencl/image_buffer_opencl.h
+++ b/src/opencl/image_buffer_opencl.h
@@ -47,12 +47,14 @@ namespace penguinV
         }
 
         ImageTemplateOpenCL( const ImageTemplateOpenCL & image )
+            : ImageTemplate<TColorDepth>( image )
         {
-            ImageTemplate<TColorDepth>::operator=( image );
+            // Do nothing.
         }
 
         ImageTemplateOpenCL( ImageTemplateOpenCL && image )
         {
+            ImageTemplate<TColorDepth>::_setType( 3, _allocateMemory, _deallocateMemory, _copyMemory, _setMemory );
             ImageTemplate<TColorDepth>::swap( image );
         }
 
-- 
2.43.0


From b753935669deb11ec981c58de75cadf169b9213b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:42 +0000
Subject: [PATCH 33/74] fix: release OpenCL objects when a runtime call fails

---
 src/opencl/opencl_device.cpp | 72 +++++++++++++++++++-----------------
 src/opencl/opencl_device.h   |  7 ++--
 src/opencl/opencl_helper.cpp |  5 ++-
 3 files changed, 46 insertions(+), 38 deletions(-)

diff --git a/src/opencl/opencl_device.cpp b/src/opencl/opencl_device.cpp
index bbd5357..94b1dc6 100644
--- a/src/opencl/opencl_device.cpp
+++ b/src/opencl/opencl_device.cpp
@@ -164,14 +164,10 @@ namespace multiCL
         openCLCheck( clFinish( _commandQueue ) );
     }
 
-    OpenCLProgram::OpenCLProgram( const OpenCLContext & context, const char * program )
-        : _program( NULL )
+    namespace
     {
-        cl_int error;
-        _program = clCreateProgramWithSource( context(), 1, &program, NULL, &error );
-        openCLCheck( error );
-
-        if ( !openCLSafeCheck( clBuildProgram( _program, 0, NULL, NULL, NULL, NULL ) ) ) {
+        std::string getBuildLog( const OpenCLContext & context, cl_program program )
+        {
             cl_uint deviceCount = 0u;
             openCLCheck( clGetContextInfo( context(), CL_CONTEXT_NUM_DEVICES, sizeof( cl_uint ), &deviceCount, NULL ) );
             assert( deviceCount > 0u );
@@ -182,18 +178,40 @@ namespace multiCL
             std::string fullLog;
             for ( auto deviceId = device.begin(); deviceId != device.end(); ++deviceId ) {
                 size_t logSize = 0;
-                clGetProgramBuildInfo( _program, *deviceId, CL_PROGRAM_BUILD_LOG, 0, NULL, &logSize );
+                openCLCheck( clGetProgramBuildInfo( program, *deviceId, CL_PROGRAM_BUILD_LOG, 0, NULL, &logSize ) );
 
                 // Allocate memory for the log
                 std::vector<char> log( logSize );
 
                 // Get the log
-                clGetProgramBuildInfo( _program, OpenCLDeviceManager::instance().device().deviceId(), CL_PROGRAM_BUILD_LOG, logSize, log.data(), NULL );
+                openCLCheck( clGetProgramBuildInfo( program, *deviceId, CL_PROGRAM_BUILD_LOG, logSize, log.data(), NULL ) );
 
                 fullLog += std::string( log.begin(), log.end() );
                 fullLog += "\n";
             }
 
+            return fullLog;
+        }
+    }
+
+    OpenCLProgram::OpenCLProgram( const OpenCLContext & context, const char * program )
+        : _program( NULL )
+    {
+        cl_int error;
+        _program = clCreateProgramWithSource( context(), 1, &program, NULL, &error );
+        openCLCheck( error );
+
+        if ( !openCLSafeCheck( clBuildProgram( _program, 0, NULL, NULL, NULL, NULL ) ) ) {
+            std::string fullLog;
+
+            try {
+                fullLog = getBuildLog( context, _program );
+            }
+            catch ( ... ) {
+                clReleaseProgram( _program );
+                throw;
+            }
+
             clReleaseProgram( _program );
             throw penguinVException( ( std::string( "Failed to build a program for OpenCL device with following code :\n" ) + fullLog ).data() );
         }
@@ -228,19 +246,12 @@ namespace multiCL
         , _context( _deviceId )
         , _currentQueueId( 0u )
     {
-        _allocator = new MemoryAllocator( _context(), _deviceId, static_cast<size_t>( totalMemorySize() ) );
+        _allocator.reset( new MemoryAllocator( _context(), _deviceId, static_cast<size_t>( totalMemorySize() ) ) );
 
         setQueueCount( 1u );
     }
 
-    OpenCLDevice::~OpenCLDevice()
-    {
-        delete _allocator;
-
-        for ( auto queueId = _queue.begin(); queueId != _queue.end(); ++queueId ) {
-            delete ( *queueId );
-        }
-    }
+    OpenCLDevice::~OpenCLDevice() {}
 
     size_t OpenCLDevice::threadsPerBlock( const OpenCLKernel & kernel ) const
     {
@@ -304,8 +315,10 @@ namespace multiCL
 
         if ( queueCount != _queue.size() ) {
             if ( queueCount > _queue.size() ) {
+                _queue.reserve( queueCount );
+
                 while ( queueCount != _queue.size() ) {
-                    _queue.push_back( new OpenCLQueue( _context, _deviceId ) );
+                    _queue.push_back( std::unique_ptr<OpenCLQueue>( new OpenCLQueue( _context, _deviceId ) ) );
                 }
             }
             else {
@@ -313,10 +326,6 @@ namespace multiCL
                     _currentQueueId = 0;
                 }
 
-                for ( auto queueId = _queue.begin() + static_cast<uint8_t>( queueCount ); queueId != _queue.end(); ++queueId ) {
-                    delete ( *queueId );
-                }
-
                 _queue.resize( queueCount );
             }
         }
@@ -342,10 +351,10 @@ namespace multiCL
         }
 
         auto foundDevice
-            = std::find_if( _device.begin(), _device.end(), [&]( const OpenCLDevice * device ) { return device->deviceId() == _supportedDeviceId[deviceId]; } );
+            = std::find_if( _device.begin(), _device.end(), [&]( const std::unique_ptr<OpenCLDevice> & device ) { return device->deviceId() == _supportedDeviceId[deviceId]; } );
 
         if ( foundDevice == _device.end() ) {
-            _device.push_back( new OpenCLDevice( _supportedDeviceId[deviceId] ) );
+            _device.push_back( std::unique_ptr<OpenCLDevice>( new OpenCLDevice( _supportedDeviceId[deviceId] ) ) );
         }
     }
 
@@ -356,20 +365,15 @@ namespace multiCL
         }
 
         auto foundDevice
-            = std::find_if( _device.begin(), _device.end(), [&]( const OpenCLDevice * device ) { return device->deviceId() == _supportedDeviceId[deviceId]; } );
+            = std::find_if( _device.begin(), _device.end(), [&]( const std::unique_ptr<OpenCLDevice> & device ) { return device->deviceId() == _supportedDeviceId[deviceId]; } );
 
         if ( foundDevice != _device.end() ) {
-            delete ( *foundDevice );
             _device.erase( foundDevice );
         }
     }
 
     void OpenCLDeviceManager::closeDevices()
     {
-        for ( auto device = _device.begin(); device != _device.end(); ++device ) {
-            delete ( *device );
-        }
-
         _device.clear();
     }
 
@@ -390,7 +394,7 @@ namespace multiCL
         }
 
         auto foundDevice
-            = std::find_if( _device.begin(), _device.end(), [&]( const OpenCLDevice * device ) { return device->deviceId() == _supportedDeviceId[deviceId]; } );
+            = std::find_if( _device.begin(), _device.end(), [&]( const std::unique_ptr<OpenCLDevice> & device ) { return device->deviceId() == _supportedDeviceId[deviceId]; } );
 
         if ( foundDevice == _device.end() ) {
             throw penguinVException( "Device ID is invalid. Please check that you initialize devices!" );
@@ -406,7 +410,7 @@ namespace multiCL
         }
 
         auto foundDevice
-            = std::find_if( _device.begin(), _device.end(), [&]( const OpenCLDevice * device ) { return device->deviceId() == _supportedDeviceId[deviceId]; } );
+            = std::find_if( _device.begin(), _device.end(), [&]( const std::unique_ptr<OpenCLDevice> & device ) { return device->deviceId() == _supportedDeviceId[deviceId]; } );
 
         if ( foundDevice == _device.end() ) {
             throw penguinVException( "Device ID is invalid. Please check that you initialize devices!" );
@@ -418,7 +422,7 @@ namespace multiCL
     void OpenCLDeviceManager::setActiveDevice( uint32_t deviceId )
     {
         auto foundDevice
-            = std::find_if( _device.begin(), _device.end(), [&]( const OpenCLDevice * device ) { return device->deviceId() == _supportedDeviceId[deviceId]; } );
+            = std::find_if( _device.begin(), _device.end(), [&]( const std::unique_ptr<OpenCLDevice> & device ) { return device->deviceId() == _supportedDeviceId[deviceId]; } );
 
         if ( foundDevice == _device.end() ) {
             throw penguinVException( "Device ID is invalid. Please check that you initialize devices!" );
diff --git a/src/opencl/opencl_device.h b/src/opencl/opencl_device.h
index edae8c1..ad0f680 100644
--- a/src/opencl/opencl_device.h
+++ b/src/opencl/opencl_device.h
@@ -31,6 +31,7 @@
 
 #include "opencl_memory.h"
 #include <list>
+#include <memory>
 #include <string>
 #include <vector>
 
@@ -286,10 +287,10 @@ namespace multiCL
         size_t _currentQueueId;
 
         // Array of queues within the device.
-        std::vector<OpenCLQueue *> _queue;
+        std::vector<std::unique_ptr<OpenCLQueue>> _queue;
 
         // Memory allocator on the current device.
-        MemoryAllocator * _allocator;
+        std::unique_ptr<MemoryAllocator> _allocator;
 
         explicit OpenCLDevice( cl_device_id deviceId );
     };
@@ -354,6 +355,6 @@ namespace multiCL
         std::vector<cl_device_id> _supportedDeviceId;
 
         // A list of initialized devices.
-        std::list<OpenCLDevice *> _device;
+        std::list<std::unique_ptr<OpenCLDevice>> _device;
     };
 }
diff --git a/src/opencl/opencl_helper.cpp b/src/opencl/opencl_helper.cpp
index 4e2079e..dfc8808 100644
--- a/src/opencl/opencl_helper.cpp
+++ b/src/opencl/opencl_helper.cpp
@@ -80,7 +80,10 @@ namespace
         multiCL::openCLCheck( clEnqueueNDRangeKernel( multiCL::OpenCLDeviceManager::instance().device().queue()(), kernel(), parameters.dimensionCount, NULL,
                                                       parameters.dimensionSize, parameters.threadsPerBlock, 0, NULL, &waitingEvent ) );
 
-        multiCL::openCLCheck( clWaitForEvents( 1, &waitingEvent ) );
+        const cl_int error = clWaitForEvents( 1, &waitingEvent );
+        clReleaseEvent( waitingEvent );
+
+        multiCL::openCLCheck( error );
     }
 }
 
-- 
2.43.0


From a2b9738894f884d0fe9a9eff698228286581496f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:42 +0000
Subject: [PATCH 34/74] fix: keep OpenCL types consistent when a runtime call
 fails

---
 src/opencl/opencl_types.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/opencl/opencl_types.h b/src/opencl/opencl_types.h
index 886c37a..6764041 100644
--- a/src/opencl/opencl_types.h
+++ b/src/opencl/opencl_types.h
@@ -40,8 +40,8 @@ namespace multiCL
         }
 
         Type( const TData & in )
+            : Type()
         {
-            _allocate();
             _copyFrom( in );
         }
 
@@ -160,8 +160,8 @@ namespace multiCL
         Array() = default;
 
         Array( const std::vector<TData> & data )
+            : Array( data.size() )
         {
-            _allocate( data.size() );
             _copyFrom( data );
         }
 
@@ -246,6 +246,8 @@ namespace multiCL
                 MemoryManager::memory().free( _data );
                 _data = NULL;
             }
+
+            _size = 0;
         }
 
         void _allocate( size_t size )
-- 
2.43.0


From c34585b2bb7fef0d1b05e1670714bb6a0556c21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 35/74] fix: build OpenCL programs again for a reopened device

---
 src/opencl/image_function_opencl.cpp | 17 +--------
 src/opencl/opencl_device.cpp         | 54 +++++++---------------------
 src/opencl/opencl_device.h           |  9 +++++
 3 files changed, 23 insertions(+), 57 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index af79dd3..14e50bd 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -26,9 +26,6 @@
 #include "opencl_helper.h"
 #include "opencl_types.h"
 #include <cmath>
-#include <map>
-#include <memory>
-#include <mutex>
 
 namespace
 {
@@ -373,19 +370,7 @@ namespace
 
     const multiCL::OpenCLProgram & GetProgram()
     {
-        static std::map<cl_device_id, std::shared_ptr<multiCL::OpenCLProgram>> deviceProgram;
-        static std::mutex mapGuard;
-
-        std::lock_guard<std::mutex> lock( mapGuard );
-        multiCL::OpenCLDevice & device = multiCL::OpenCLDeviceManager::instance().device();
-
-        std::map<cl_device_id, std::shared_ptr<multiCL::OpenCLProgram>>::const_iterator program = deviceProgram.find( device.deviceId() );
-        if ( program != deviceProgram.cend() )
-            return *( program->second );
-
-        deviceProgram[device.deviceId()] = std::shared_ptr<multiCL::OpenCLProgram>( new multiCL::OpenCLProgram( device.context(), programCode.data() ) );
-
-        return *( deviceProgram[device.deviceId()] );
+        return multiCL::OpenCLDeviceManager::instance().device().program( programCode );
     }
 }
 
diff --git a/src/opencl/opencl_device.cpp b/src/opencl/opencl_device.cpp
index 94b1dc6..9d0c4bc 100644
--- a/src/opencl/opencl_device.cpp
+++ b/src/opencl/opencl_device.cpp
@@ -23,9 +23,6 @@
 #include "opencl_helper.h"
 #include <algorithm>
 #include <assert.h>
-#include <map>
-#include <memory>
-#include <mutex>
 
 namespace
 {
@@ -56,42 +53,6 @@ namespace
                 data[offset + x] = value;
         }
         )";
-
-    struct MemsetKernelHolder
-    {
-        MemsetKernelHolder() = default;
-
-        ~MemsetKernelHolder()
-        {
-            kernel.reset();
-            program.reset();
-        }
-
-        std::shared_ptr<multiCL::OpenCLProgram> program;
-        std::shared_ptr<multiCL::OpenCLKernel> kernel;
-    };
-
-    multiCL::OpenCLKernel & getMemsetKernel()
-    {
-        static std::map<cl_device_id, MemsetKernelHolder> deviceProgram;
-        static std::mutex mapGuard;
-        std::lock_guard<std::mutex> lock( mapGuard );
-
-        multiCL::OpenCLDevice & device = multiCL::OpenCLDeviceManager::instance().device();
-
-        auto program = deviceProgram.find( device.deviceId() );
-        if ( program != deviceProgram.cend() ) {
-            return *( program->second.kernel );
-        }
-
-        MemsetKernelHolder holder;
-        holder.program = std::shared_ptr<multiCL::OpenCLProgram>( new multiCL::OpenCLProgram( device.context(), memsetCode.data() ) );
-        holder.kernel = std::shared_ptr<multiCL::OpenCLKernel>( new multiCL::OpenCLKernel( *( holder.program ), "memsetOpenCL" ) );
-
-        deviceProgram[device.deviceId()] = holder;
-
-        return *( deviceProgram[device.deviceId()].kernel );
-    }
 }
 
 namespace multiCL
@@ -111,8 +72,7 @@ namespace multiCL
         void memorySet( cl_mem data, const void * pattern, size_t patternSize, size_t offset, size_t size )
         {
             if ( patternSize == 1u ) {
-                multiCL::OpenCLKernel & kernel = getMemsetKernel();
-                kernel.reset();
+                multiCL::OpenCLKernel kernel( OpenCLDeviceManager::instance().device().program( memsetCode ), "memsetOpenCL" );
                 const uint8_t value = *( static_cast<const uint8_t *>( pattern ) );
                 kernel.setArgument( data, static_cast<uint32_t>( offset ), static_cast<uint32_t>( size ), value );
                 multiCL::launchKernel1D( kernel, size );
@@ -331,6 +291,18 @@ namespace multiCL
         }
     }
 
+    const OpenCLProgram & OpenCLDevice::program( const std::string & code )
+    {
+        std::lock_guard<std::mutex> guard( _programLock );
+
+        auto foundProgram = _program.find( code );
+        if ( foundProgram == _program.end() ) {
+            foundProgram = _program.emplace( code, OpenCLProgram( _context, code.data() ) ).first;
+        }
+
+        return foundProgram->second;
+    }
+
     OpenCLDeviceManager & OpenCLDeviceManager::instance()
     {
         static OpenCLDeviceManager manager;
diff --git a/src/opencl/opencl_device.h b/src/opencl/opencl_device.h
index ad0f680..9b104a4 100644
--- a/src/opencl/opencl_device.h
+++ b/src/opencl/opencl_device.h
@@ -31,7 +31,9 @@
 
 #include "opencl_memory.h"
 #include <list>
+#include <map>
 #include <memory>
+#include <mutex>
 #include <string>
 #include <vector>
 
@@ -269,6 +271,9 @@ namespace multiCL
 
         void setQueueCount( size_t queueCount );
 
+        // Returns a program for specified source code. A program is built only once and it is released together with the device.
+        const OpenCLProgram & program( const std::string & code );
+
         // Memory allocator associated with device.
         MemoryAllocator & allocator()
         {
@@ -292,6 +297,10 @@ namespace multiCL
         // Memory allocator on the current device.
         std::unique_ptr<MemoryAllocator> _allocator;
 
+        // Programs built for the device.
+        std::map<std::string, OpenCLProgram> _program;
+        std::mutex _programLock;
+
         explicit OpenCLDevice( cl_device_id deviceId );
     };
 
-- 
2.43.0


From ec27ff742066e69de02ae077e6c73075b4a797a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 36/74] fix: deallocate OpenCL memory on the device which owns
 it

---
 src/opencl/image_buffer_opencl.h |  2 +-
 src/opencl/opencl_device.cpp     | 21 +++++++++++++++++++++
 src/opencl/opencl_device.h       |  6 ++++++
 src/opencl/opencl_types.h        |  4 ++--
 4 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/opencl/image_buffer_opencl.h b/src/opencl/image_buffer_opencl.h
index e997e61..cdbe5a8 100644
--- a/src/opencl/image_buffer_opencl.h
+++ b/src/opencl/image_buffer_opencl.h
@@ -80,7 +80,7 @@ namespace penguinV
 
         static void _deallocateMemory( TColorDepth * data )
         {
-            multiCL::MemoryManager::memory().free( reinterpret_cast<cl_mem>( data ) );
+            multiCL::MemoryManager::free( reinterpret_cast<cl_mem>( data ) );
         }
 
         static void _copyMemory( TColorDepth * out, TColorDepth * in, size_t size )
diff --git a/src/opencl/opencl_device.cpp b/src/opencl/opencl_device.cpp
index 9d0c4bc..a67d47a 100644
--- a/src/opencl/opencl_device.cpp
+++ b/src/opencl/opencl_device.cpp
@@ -69,6 +69,11 @@ namespace multiCL
             return OpenCLDeviceManager::instance().device( deviceId ).allocator();
         }
 
+        void free( cl_mem data )
+        {
+            OpenCLDeviceManager::instance().freeMemory( data );
+        }
+
         void memorySet( cl_mem data, const void * pattern, size_t patternSize, size_t offset, size_t size )
         {
             if ( patternSize == 1u ) {
@@ -403,6 +408,22 @@ namespace multiCL
         setDefaultDeviceId( deviceId );
     }
 
+    void OpenCLDeviceManager::freeMemory( cl_mem data )
+    {
+        cl_context context = NULL;
+        openCLCheck( clGetMemObjectInfo( data, CL_MEM_CONTEXT, sizeof( cl_context ), &context, NULL ) );
+
+        auto foundDevice
+            = std::find_if( _device.begin(), _device.end(), [&]( const std::unique_ptr<OpenCLDevice> & device ) { return device->context()() == context; } );
+
+        if ( foundDevice != _device.end() ) {
+            ( *foundDevice )->allocator().free( data );
+        }
+        else {
+            openCLCheck( clReleaseMemObject( data ) );
+        }
+    }
+
     void OpenCLDeviceManager::resetSupportedDevice()
     {
         closeDevices();
diff --git a/src/opencl/opencl_device.h b/src/opencl/opencl_device.h
index 9b104a4..68b8288 100644
--- a/src/opencl/opencl_device.h
+++ b/src/opencl/opencl_device.h
@@ -51,6 +51,9 @@ namespace multiCL
         // Returns memory allocator for specified device ID
         MemoryAllocator & memory( const uint32_t deviceId );
 
+        // Deallocates memory by an allocator of the device which owns the memory no matter what device is actual for current thread
+        void free( cl_mem data );
+
         void memorySet( cl_mem data, const void * pattern, size_t patternSize, size_t offset, size_t size );
     }
 
@@ -350,6 +353,9 @@ namespace multiCL
 
         void resetSupportedDevice();
 
+        // Deallocates memory of any device including a device which has been closed already.
+        void freeMemory( cl_mem data );
+
     private:
         OpenCLDeviceManager()
         {
diff --git a/src/opencl/opencl_types.h b/src/opencl/opencl_types.h
index 6764041..1b992c3 100644
--- a/src/opencl/opencl_types.h
+++ b/src/opencl/opencl_types.h
@@ -101,7 +101,7 @@ namespace multiCL
         void _free()
         {
             if ( _data != NULL ) {
-                MemoryManager::memory().free( _data );
+                MemoryManager::free( _data );
                 _data = NULL;
             }
         }
@@ -243,7 +243,7 @@ namespace multiCL
         void _free()
         {
             if ( _data != NULL ) {
-                MemoryManager::memory().free( _data );
+                MemoryManager::free( _data );
                 _data = NULL;
             }
 
-- 
2.43.0


From 79acc47fcdd0d6f95862c92ae2ca6b43b62806cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 37/74] fix: validate IDs of OpenCL devices and skip devices
 which cannot be used

---
 src/opencl/opencl_device.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/opencl/opencl_device.cpp b/src/opencl/opencl_device.cpp
index a67d47a..22e0012 100644
--- a/src/opencl/opencl_device.cpp
+++ b/src/opencl/opencl_device.cpp
@@ -273,6 +273,11 @@ namespace multiCL
 
     void OpenCLDevice::setQueueCount( size_t queueCount )
     {
+        // At least one queue is needed to use a device.
+        if ( queueCount == 0u ) {
+            queueCount = 1u;
+        }
+
         // No real device needs more than 255 queues.
         if ( queueCount > 255u ) {
             queueCount = 255u;
@@ -370,6 +375,10 @@ namespace multiCL
             throw penguinVException( "Device manager does not contain any devices" );
         }
 
+        if ( deviceId >= _supportedDeviceId.size() ) {
+            throw penguinVException( "System does not contain a device with such ID" );
+        }
+
         auto foundDevice
             = std::find_if( _device.begin(), _device.end(), [&]( const std::unique_ptr<OpenCLDevice> & device ) { return device->deviceId() == _supportedDeviceId[deviceId]; } );
 
@@ -386,6 +395,10 @@ namespace multiCL
             throw penguinVException( "Device manager does not contain any devices" );
         }
 
+        if ( deviceId >= _supportedDeviceId.size() ) {
+            throw penguinVException( "System does not contain a device with such ID" );
+        }
+
         auto foundDevice
             = std::find_if( _device.begin(), _device.end(), [&]( const std::unique_ptr<OpenCLDevice> & device ) { return device->deviceId() == _supportedDeviceId[deviceId]; } );
 
@@ -398,6 +411,10 @@ namespace multiCL
 
     void OpenCLDeviceManager::setActiveDevice( uint32_t deviceId )
     {
+        if ( deviceId >= _supportedDeviceId.size() ) {
+            throw penguinVException( "System does not contain a device with such ID" );
+        }
+
         auto foundDevice
             = std::find_if( _device.begin(), _device.end(), [&]( const std::unique_ptr<OpenCLDevice> & device ) { return device->deviceId() == _supportedDeviceId[deviceId]; } );
 
@@ -459,6 +476,7 @@ namespace multiCL
                     cl_int error;
                     cl_context _context = clCreateContext( NULL, 1u, &_supportedDeviceId[supportedDeviceCount + deviceId], NULL, NULL, &error );
                     if ( error != CL_SUCCESS ) {
+                        _supportedDeviceId.erase( _supportedDeviceId.begin() + supportedDeviceCount + deviceId );
                         --deviceCount;
                     }
                     else {
-- 
2.43.0


From 3404916aaf24f55af5db7798704d9a5011e3e11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 38/74] fix: share a memory allocator of an OpenCL device
 between threads

---
 src/opencl/opencl_memory.h | 112 ++++++++++++++++++++++++++++++-------
 1 file changed, 92 insertions(+), 20 deletions(-)

diff --git a/src/opencl/opencl_memory.h b/src/opencl/opencl_memory.h
index c34177e..20ecc47 100644
--- a/src/opencl/opencl_memory.h
+++ b/src/opencl/opencl_memory.h
@@ -66,23 +66,38 @@ namespace multiCL
         {
             size = size * sizeof( _DataType );
 
-            if ( _data != NULL && size < _size ) {
-                const uint8_t level = _getAllocationLevel( size < _minimumSizeChunk ? _minimumSizeChunk : size );
-
-                if ( _split( level ) ) {
-                    cl_buffer_region region;
-                    region.origin = *( _freeChunk[level].begin() );
-                    region.size = size;
-
-                    cl_int error;
-                    cl_mem memory = clCreateSubBuffer( _data, CL_MEM_READ_WRITE, CL_BUFFER_CREATE_TYPE_REGION, &region, &error );
-                    if ( error != CL_SUCCESS ) {
-                        throw std::logic_error( "Cannot allocate a subbuffer memory for OpenCL device" );
+            {
+                std::lock_guard<std::mutex> guard( _lock );
+
+                _releaseChunks();
+
+                if ( _data != NULL && size < _size ) {
+                    const uint8_t level = _getAllocationLevel( size < _minimumSizeChunk ? _minimumSizeChunk : size );
+
+                    if ( _split( level ) ) {
+                        cl_buffer_region region;
+                        region.origin = *( _freeChunk[level].begin() );
+                        region.size = size;
+
+                        cl_int error;
+                        cl_mem memory = clCreateSubBuffer( _data, CL_MEM_READ_WRITE, CL_BUFFER_CREATE_TYPE_REGION, &region, &error );
+                        if ( error != CL_SUCCESS ) {
+                            _merge( region.origin, level );
+                            throw std::logic_error( "Cannot allocate a subbuffer memory for OpenCL device" );
+                        }
+
+                        try {
+                            _allocatedChunk.emplace( memory, std::pair<size_t, uint8_t>( region.origin, level ) );
+                        }
+                        catch ( ... ) {
+                            clReleaseMemObject( memory );
+                            _merge( region.origin, level );
+                            throw;
+                        }
+
+                        _freeChunk[level].erase( _freeChunk[level].begin() );
+                        return memory;
                     }
-
-                    _allocatedChunk.emplace( memory, std::pair<size_t, uint8_t>( *( _freeChunk[level].begin() ), level ) );
-                    _freeChunk[level].erase( _freeChunk[level].begin() );
-                    return memory;
                 }
             }
 
@@ -102,13 +117,14 @@ namespace multiCL
         // otherwise OpenCL specific function will be called.
         void free( cl_mem memory )
         {
-            if ( _data != NULL ) {
+            {
+                std::lock_guard<std::mutex> guard( _lock );
+
                 auto pos = _allocatedChunk.find( memory );
 
                 if ( pos != _allocatedChunk.end() ) {
-                    _freeChunk[pos->second.second].insert( pos->second.first );
-                    _merge( pos->second.first, pos->second.second );
-                    _allocatedChunk.erase( pos );
+                    _releaseChunk( pos );
+                    return;
                 }
             }
 
@@ -138,6 +154,53 @@ namespace multiCL
         // Value is an offset from preallocated memory and level.
         std::map<cl_mem, std::pair<size_t, uint8_t>> _allocatedChunk;
 
+        // A flag of a level which marks a chunk already deallocated by a user but not returned into free memory yet.
+        static const uint8_t _releasedChunk = 128u;
+
+        // A number of chunks with the flag above.
+        size_t _releasedChunkCount{ 0 };
+
+        // Returns a chunk into free memory. Deallocation must not fail so if there is no memory to do this then the chunk will be returned later.
+        void _releaseChunk( std::map<cl_mem, std::pair<size_t, uint8_t>>::iterator pos )
+        {
+            const cl_mem memory = pos->first;
+            const size_t offset = pos->second.first;
+            const bool isReleased = ( pos->second.second & _releasedChunk ) != 0;
+            const uint8_t level = static_cast<uint8_t>( pos->second.second & ~_releasedChunk );
+
+            try {
+                _freeChunk[level].insert( offset );
+            }
+            catch ( const std::bad_alloc & ) {
+                if ( !isReleased ) {
+                    pos->second.second |= _releasedChunk;
+                    ++_releasedChunkCount;
+                }
+                return;
+            }
+
+            if ( isReleased ) {
+                --_releasedChunkCount;
+            }
+
+            _allocatedChunk.erase( pos );
+            _merge( offset, level );
+
+            if ( clReleaseMemObject( memory ) != CL_SUCCESS ) {
+                throw std::logic_error( "Cannot deallocate a memory for OpenCL device" );
+            }
+        }
+
+        void _releaseChunks()
+        {
+            for ( auto pos = _allocatedChunk.begin(); _releasedChunkCount > 0 && pos != _allocatedChunk.end(); ) {
+                auto current = pos++;
+                if ( ( current->second.second & _releasedChunk ) != 0 ) {
+                    _releaseChunk( current );
+                }
+            }
+        }
+
         // True memory allocation on OpenCL devices.
         virtual void _allocate( size_t size )
         {
@@ -146,6 +209,8 @@ namespace multiCL
             }
 
             if ( _size != size && size > 0 ) {
+                _releaseChunks();
+
                 if ( !_allocatedChunk.empty() ) {
                     throw std::logic_error( "Cannot free a memory on OpenCL device. Not all objects were previously deallocated from allocator." );
                 }
@@ -174,7 +239,14 @@ namespace multiCL
                 _data = nullptr;
             }
 
+            for ( auto chunk = _allocatedChunk.begin(); chunk != _allocatedChunk.end(); ++chunk ) {
+                if ( ( chunk->second.second & _releasedChunk ) != 0 ) {
+                    clReleaseMemObject( chunk->first );
+                }
+            }
+
             _allocatedChunk.clear();
+            _releasedChunkCount = 0;
         }
     };
 }
-- 
2.43.0


From f06a17d98deeea79b0ceae986f22a286738480a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 39/74] fix: read a source code of an OpenCL program completely

---
 src/opencl/opencl_helper.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/opencl/opencl_helper.cpp b/src/opencl/opencl_helper.cpp
index dfc8808..dedf532 100644
--- a/src/opencl/opencl_helper.cpp
+++ b/src/opencl/opencl_helper.cpp
@@ -174,10 +174,15 @@ namespace multiCL
 
         file.seekg( 0, file.beg );
 
-        std::vector<char> fileContent( static_cast<size_t>( fileLength ) );
+        // The last character marks the end of a source code.
+        std::vector<char> fileContent( static_cast<size_t>( fileLength ) + 1u, '\0' );
 
         file.read( fileContent.data(), fileLength );
 
+        if ( file.gcount() != fileLength ) {
+            throw penguinVException( "Cannot read a file with source code of an OpenCL program" );
+        }
+
         file.close();
 
         return OpenCLProgram( context, fileContent.data() );
-- 
2.43.0


From 83408dd5e39c5766c0f5d8713823306ae0e93fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 40/74] fix: release image data when it cannot be copied

---
 src/image_buffer.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/image_buffer.h b/src/image_buffer.h
index d673923..0a68265 100644
--- a/src/image_buffer.h
+++ b/src/image_buffer.h
@@ -49,7 +49,13 @@ namespace penguinV
         ImageTemplate( const ImageTemplate & image )
             : _deviceType( image._deviceType )
         {
-            copy( image );
+            try {
+                copy( image );
+            }
+            catch ( ... ) {
+                clear();
+                throw;
+            }
         }
 
         ImageTemplate( ImageTemplate && image )
-- 
2.43.0


From 64139c85662821345a23e8d288192327ed8999ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:27 +0000
Subject: [PATCH 41/74] fix: convert images in all generic functions

Only four functions converted images of another type than the one of the
function which is called, the others passed such images as they are. Keep
references to several converted images valid, report a failed conversion of a
result as an exception instead of throwing it from a destructor, do not leak
references and convert the result of Copy() to the type of the output image.
---
 src/penguinv/image_manager.h | 45 ++++++------------
 src/penguinv/penguinv.cpp    | 92 +++++++++++++++++++++++++-----------
 2 files changed, 79 insertions(+), 58 deletions(-)

diff --git a/src/penguinv/image_manager.h b/src/penguinv/image_manager.h
index b5fbd0f..de80714 100644
--- a/src/penguinv/image_manager.h
+++ b/src/penguinv/image_manager.h
@@ -21,26 +21,10 @@
 #pragma once
 
 #include "../image_buffer.h"
+#include <list>
+#include <utility>
 #include <vector>
 
-template <typename _Type>
-struct ReferenceOwner
-{
-    explicit ReferenceOwner( penguinV::ImageTemplate<_Type> & data_ )
-        : data( data_ )
-    {}
-    penguinV::ImageTemplate<_Type> & data;
-};
-
-template <typename _Type>
-struct ConstReferenceOwner
-{
-    explicit ConstReferenceOwner( const penguinV::ImageTemplate<_Type> & data_ )
-        : data( data_ )
-    {}
-    const penguinV::ImageTemplate<_Type> & data;
-};
-
 template <typename _Type>
 class ImageManager
 {
@@ -54,15 +38,11 @@ public:
         , _convertImage( convertImage )
     {}
 
-    ~ImageManager()
+    // Copies results back into output images. It must be called after a function which uses these images is successfully completed
+    void restore()
     {
-        for ( typename std::vector<ConstReferenceOwner<_Type> *>::iterator data = _input.begin(); data != _input.end(); ++data )
-            delete *data;
-
         for ( size_t i = 0u; i < _output.size(); ++i ) {
-            _restore( _outputClone[i], _output[i]->data );
-
-            delete _output[i];
+            _restore( *_output[i].second, *_output[i].first );
         }
     }
 
@@ -80,8 +60,14 @@ public:
     penguinV::ImageTemplate<_Type> & operator()( penguinV::ImageTemplate<_Type> & image )
     {
         if ( image.type() != _type ) {
-            _output.push_back( new ReferenceOwner<_Type>( image ) );
+            for ( size_t i = 0u; i < _output.size(); ++i ) {
+                if ( _output[i].first == &image ) {
+                    return *_output[i].second;
+                }
+            }
+
             _outputClone.push_back( _clone( image ) );
+            _output.push_back( std::make_pair( &image, &_outputClone.back() ) );
             return _outputClone.back();
         }
         else {
@@ -93,10 +79,9 @@ private:
     uint8_t _type;
     GenerateImage _generateImage;
     ConvertImage _convertImage;
-    std::vector<ConstReferenceOwner<_Type> *> _input;
-    std::vector<ReferenceOwner<_Type> *> _output;
-    std::vector<penguinV::ImageTemplate<_Type>> _inputClone;
-    std::vector<penguinV::ImageTemplate<_Type>> _outputClone;
+    std::vector<std::pair<penguinV::ImageTemplate<_Type> *, penguinV::ImageTemplate<_Type> *>> _output; // an output image and its clone
+    std::list<penguinV::ImageTemplate<_Type>> _inputClone; // references to elements must stay valid
+    std::list<penguinV::ImageTemplate<_Type>> _outputClone;
 
     penguinV::Image _clone( const penguinV::ImageTemplate<_Type> & in )
     {
diff --git a/src/penguinv/penguinv.cpp b/src/penguinv/penguinv.cpp
index c0adb93..0e87342 100644
--- a/src/penguinv/penguinv.cpp
+++ b/src/penguinv/penguinv.cpp
@@ -21,6 +21,7 @@
 #include "penguinv.h"
 #include "../image_function_helper.h"
 #include "image_manager.h"
+#include <utility>
 
 namespace
 {
@@ -85,6 +86,7 @@ namespace penguinV
     {
         initialize( in1, AbsoluteDifference )
             func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
+        manager.restore();
     }
 
     void Accumulate( const Image & image, std::vector<uint32_t> & result )
@@ -94,7 +96,7 @@ namespace penguinV
 
     void Accumulate( const Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height, std::vector<uint32_t> & result )
     {
-        initialize( image, Accumulate ) func( image, x, y, width, height, result );
+        initialize( image, Accumulate ) func( manager( image ), x, y, width, height, result );
     }
 
     Image BitwiseAnd( const Image & in1, const Image & in2 )
@@ -115,7 +117,8 @@ namespace penguinV
     void BitwiseAnd( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                      uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, BitwiseAnd ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, BitwiseAnd ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
+        manager.restore();
     }
 
     Image BitwiseOr( const Image & in1, const Image & in2 )
@@ -136,7 +139,8 @@ namespace penguinV
     void BitwiseOr( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                     uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, BitwiseOr ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, BitwiseOr ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
+        manager.restore();
     }
 
     Image BitwiseXor( const Image & in1, const Image & in2 )
@@ -157,7 +161,8 @@ namespace penguinV
     void BitwiseXor( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                      uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, BitwiseXor ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, BitwiseXor ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
+        manager.restore();
     }
 
     Image ConvertToGrayScale( const Image & in )
@@ -179,6 +184,7 @@ namespace penguinV
                              uint32_t height )
     {
         initialize( in, ConvertToGrayScale ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
+        manager.restore();
     }
 
     Image ConvertToRgb( const Image & in )
@@ -198,11 +204,19 @@ namespace penguinV
 
     void ConvertToRgb( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, ConvertToRgb ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, ConvertToRgb ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
+        manager.restore();
     }
 
     void Copy( const Image & in, Image & out )
     {
+        if ( in.type() != out.type() ) {
+            Image copy = out.generate( in.width(), in.height(), in.colorCount() );
+            Copy( in, 0, 0, copy, 0, 0, in.width(), in.height() );
+            out = std::move( copy );
+            return;
+        }
+
         out = Image_Function_Helper::Copy( Copy, in, 0, 0, in.width(), in.height() );
     }
 
@@ -213,7 +227,8 @@ namespace penguinV
 
     void Copy( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, Copy ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, Copy ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
+        manager.restore();
     }
 
     Image ExtractChannel( const Image & in, uint8_t channelId )
@@ -234,7 +249,8 @@ namespace penguinV
     void ExtractChannel( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                          uint8_t channelId )
     {
-        initialize( in, ExtractChannel ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height, channelId );
+        initialize( in, ExtractChannel ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height, channelId );
+        manager.restore();
     }
 
     void Fill( Image & image, uint8_t value )
@@ -244,7 +260,8 @@ namespace penguinV
 
     void Fill( Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height, uint8_t value )
     {
-        initialize( image, Fill ) func( image, x, y, width, height, value );
+        initialize( image, Fill ) func( manager( image ), x, y, width, height, value );
+        manager.restore();
     }
 
     Image Flip( const Image & in, bool horizontal, bool vertical )
@@ -265,7 +282,8 @@ namespace penguinV
     void Flip( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                bool horizontal, bool vertical )
     {
-        initialize( in, Flip ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height, horizontal, vertical );
+        initialize( in, Flip ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height, horizontal, vertical );
+        manager.restore();
     }
 
     Image GammaCorrection( const Image & in, double a, double gamma )
@@ -286,13 +304,14 @@ namespace penguinV
     void GammaCorrection( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                           double a, double gamma )
     {
-        initialize( in, GammaCorrection ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height, a, gamma );
+        initialize( in, GammaCorrection ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height, a, gamma );
+        manager.restore();
     }
 
     uint8_t GetPixel( const Image & image, uint32_t x, uint32_t y )
     {
         initialize( image, GetPixel );
-        return func( image, x, y );
+        return func( manager( image ), x, y );
     }
 
     uint8_t GetThreshold( const std::vector<uint32_t> & histogram )
@@ -337,7 +356,8 @@ namespace penguinV
 
     void Invert( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, Invert ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, Invert ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
+        manager.restore();
     }
 
     bool IsEqual( const Image & in1, const Image & in2 )
@@ -348,7 +368,7 @@ namespace penguinV
     bool IsEqual( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, uint32_t width, uint32_t height )
     {
         initialize( in1, IsEqual );
-        return func( in1, startX1, startY1, in2, startX2, startY2, width, height );
+        return func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, width, height );
     }
 
     Image LookupTable( const Image & in, const std::vector<uint8_t> & table )
@@ -369,7 +389,8 @@ namespace penguinV
     void LookupTable( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                       const std::vector<uint8_t> & table )
     {
-        initialize( in, LookupTable ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height, table );
+        initialize( in, LookupTable ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height, table );
+        manager.restore();
     }
 
     Image Maximum( const Image & in1, const Image & in2 )
@@ -390,7 +411,8 @@ namespace penguinV
     void Maximum( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                   uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, Maximum ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, Maximum ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
+        manager.restore();
     }
 
     Image Merge( const Image & in1, const Image & in2, const Image & in3 )
@@ -412,7 +434,9 @@ namespace penguinV
     void Merge( const Image & in1, uint32_t startXIn1, uint32_t startYIn1, const Image & in2, uint32_t startXIn2, uint32_t startYIn2, const Image & in3,
                 uint32_t startXIn3, uint32_t startYIn3, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, Merge ) func( in1, startXIn1, startYIn1, in2, startXIn2, startYIn2, in3, startXIn3, startYIn3, out, startXOut, startYOut, width, height );
+        initialize( in1, Merge )
+            func( manager( in1 ), startXIn1, startYIn1, manager( in2 ), startXIn2, startYIn2, manager( in3 ), startXIn3, startYIn3, manager( out ), startXOut, startYOut, width, height );
+        manager.restore();
     }
 
     Image Minimum( const Image & in1, const Image & in2 )
@@ -433,7 +457,8 @@ namespace penguinV
     void Minimum( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                   uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, Minimum ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, Minimum ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
+        manager.restore();
     }
 
     Image Normalize( const Image & in )
@@ -453,7 +478,8 @@ namespace penguinV
 
     void Normalize( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, Normalize ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, Normalize ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
+        manager.restore();
     }
 
     std::vector<uint32_t> ProjectionProfile( const Image & image, bool horizontal )
@@ -473,7 +499,7 @@ namespace penguinV
 
     void ProjectionProfile( const Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height, bool horizontal, std::vector<uint32_t> & projection )
     {
-        initialize( image, ProjectionProfile ) func( image, x, y, width, height, horizontal, projection );
+        initialize( image, ProjectionProfile ) func( manager( image ), x, y, width, height, horizontal, projection );
     }
 
     Image Resize( const Image & in, uint32_t widthOut, uint32_t heightOut )
@@ -494,7 +520,8 @@ namespace penguinV
     void Resize( const Image & in, uint32_t startXIn, uint32_t startYIn, uint32_t widthIn, uint32_t heightIn, Image & out, uint32_t startXOut, uint32_t startYOut,
                  uint32_t widthOut, uint32_t heightOut )
     {
-        initialize( in, Resize ) func( in, startXIn, startYIn, widthIn, heightIn, out, startXOut, startYOut, widthOut, heightOut );
+        initialize( in, Resize ) func( manager( in ), startXIn, startYIn, widthIn, heightIn, manager( out ), startXOut, startYOut, widthOut, heightOut );
+        manager.restore();
     }
 
     Image RgbToBgr( const Image & in )
@@ -514,17 +541,20 @@ namespace penguinV
 
     void RgbToBgr( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, RgbToBgr ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, RgbToBgr ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
+        manager.restore();
     }
 
     void SetPixel( Image & image, uint32_t x, uint32_t y, uint8_t value )
     {
-        initialize( image, SetPixel ) func( image, x, y, value );
+        initialize( image, SetPixel ) func( manager( image ), x, y, value );
+        manager.restore();
     }
 
     void SetPixel( Image & image, const std::vector<uint32_t> & X, const std::vector<uint32_t> & Y, uint8_t value )
     {
-        initialize( image, SetPixel2 ) func( image, X, Y, value );
+        initialize( image, SetPixel2 ) func( manager( image ), X, Y, value );
+        manager.restore();
     }
 
     void Split( const Image & in, Image & out1, Image & out2, Image & out3 )
@@ -535,7 +565,9 @@ namespace penguinV
     void Split( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out1, uint32_t startXOut1, uint32_t startYOut1, Image & out2, uint32_t startXOut2,
                 uint32_t startYOut2, Image & out3, uint32_t startXOut3, uint32_t startYOut3, uint32_t width, uint32_t height )
     {
-        initialize( in, Split ) func( in, startXIn, startYIn, out1, startXOut1, startYOut1, out2, startXOut2, startYOut2, out3, startXOut3, startYOut3, width, height );
+        initialize( in, Split )
+            func( manager( in ), startXIn, startYIn, manager( out1 ), startXOut1, startYOut1, manager( out2 ), startXOut2, startYOut2, manager( out3 ), startXOut3, startYOut3, width, height );
+        manager.restore();
     }
 
     Image Subtract( const Image & in1, const Image & in2 )
@@ -556,7 +588,8 @@ namespace penguinV
     void Subtract( const Image & in1, uint32_t startX1, uint32_t startY1, const Image & in2, uint32_t startX2, uint32_t startY2, Image & out, uint32_t startXOut,
                    uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in1, Subtract ) func( in1, startX1, startY1, in2, startX2, startY2, out, startXOut, startYOut, width, height );
+        initialize( in1, Subtract ) func( manager( in1 ), startX1, startY1, manager( in2 ), startX2, startY2, manager( out ), startXOut, startYOut, width, height );
+        manager.restore();
     }
 
     uint32_t Sum( const Image & image )
@@ -567,7 +600,7 @@ namespace penguinV
     uint32_t Sum( const Image & image, uint32_t x, uint32_t y, uint32_t width, uint32_t height )
     {
         initialize( image, Sum );
-        return func( image, x, y, width, height );
+        return func( manager( image ), x, y, width, height );
     }
 
     Image Threshold( const Image & in, uint8_t threshold )
@@ -589,6 +622,7 @@ namespace penguinV
                     uint8_t threshold )
     {
         initialize( in, Threshold ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height, threshold );
+        manager.restore();
     }
 
     Image Threshold( const Image & in, uint8_t minThreshold, uint8_t maxThreshold )
@@ -609,7 +643,8 @@ namespace penguinV
     void Threshold( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height,
                     uint8_t minThreshold, uint8_t maxThreshold )
     {
-        initialize( in, Threshold2 ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height, minThreshold, maxThreshold );
+        initialize( in, Threshold2 ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height, minThreshold, maxThreshold );
+        manager.restore();
     }
 
     Image Transpose( const Image & in )
@@ -629,6 +664,7 @@ namespace penguinV
 
     void Transpose( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
-        initialize( in, Transpose ) func( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        initialize( in, Transpose ) func( manager( in ), startXIn, startYIn, manager( out ), startXOut, startYOut, width, height );
+        manager.restore();
     }
 }
-- 
2.43.0


From 958098774ec0cd95b71b69a8081cd11b31f6a576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 42/74] fix: reject a minimum threshold bigger than the maximum
 one everywhere

Only Image_Function::Threshold() verified this, so a call of a generic function
was refused or accepted depending on image width and on instruction set.
---
 src/image_function_simd.cpp          | 3 +++
 src/opencl/image_function_opencl.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index 4c56727..46f22ab 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -3208,6 +3208,9 @@ namespace simd
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
         Image_Function::VerifyGrayScaleImage( in, out );
 
+        if ( minThreshold > maxThreshold )
+            throw penguinVException( "Minimum threshold value is bigger than maximum threshold value" );
+
         Image_Function::OptimiseRoi( width, height, in, out );
 
         const uint32_t rowSizeIn = in.rowSize();
diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 14e50bd..a862a65 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -1285,6 +1285,9 @@ namespace Image_Function_OpenCL
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
         Image_Function::VerifyGrayScaleImage( in, out );
 
+        if ( minThreshold > maxThreshold )
+            throw penguinVException( "Minimum threshold value is bigger than maximum threshold value" );
+
         const multiCL::OpenCLProgram & program = GetProgram();
         multiCL::OpenCLKernel kernel( program, "thresholdDoubleOpenCL" );
 
-- 
2.43.0


From bb6158dc6d4592891bd227ab050de09cae077e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:06 +0000
Subject: [PATCH 43/74] fix: accept tasks only when threads of the pool are
 created

---
 src/thread_pool.cpp | 23 +++++++++--------------
 src/thread_pool.h   |  1 -
 2 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index f78579a..3c28891 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -147,7 +147,6 @@ bool TaskProvider::_ready() const
 ThreadPool::ThreadPool( size_t threads )
     : _runningThreadCount( 0 )
     , _threadCount( 0 )
-    , _threadsCreated( false )
 {
     if ( threads > 0 ) {
         try {
@@ -183,11 +182,6 @@ void ThreadPool::resize( size_t threads )
             _exit.resize( threads, 0 );
         }
 
-        _creation.lock();
-        _threadCount = threads;
-        _threadsCreated = false;
-        _creation.unlock();
-
         try {
             while ( threads > _worker.size() )
                 _worker.push_back( std::thread( ThreadPool::_workerThread, this, _worker.size() ) );
@@ -198,15 +192,18 @@ void ThreadPool::resize( size_t threads )
             _run.resize( _worker.size() );
             _exit.resize( _worker.size() );
 
-            _creation.lock();
             _threadCount = _worker.size();
-            _creation.unlock();
 
             throw;
         }
 
-        std::unique_lock<std::mutex> _mutexLock( _creation );
-        _completeCreation.wait( _mutexLock, [&] { return _threadsCreated; } );
+        {
+            std::unique_lock<std::mutex> _mutexLock( _creation );
+            _completeCreation.wait( _mutexLock, [&] { return _runningThreadCount == threads; } );
+        }
+
+        // tasks must not be accepted before this point: there might be no threads to run them
+        _threadCount = threads;
     }
     else if ( threads < _worker.size() ) {
         _taskInfo.lock();
@@ -328,10 +325,8 @@ void ThreadPool::_workerThread( ThreadPool * pool, size_t threadId )
 {
     pool->_creation.lock();
 
-    if ( ++( pool->_runningThreadCount ) == pool->_threadCount ) {
-        pool->_threadsCreated = true;
-        pool->_completeCreation.notify_one();
-    }
+    ++( pool->_runningThreadCount );
+    pool->_completeCreation.notify_one();
 
     pool->_creation.unlock();
 
diff --git a/src/thread_pool.h b/src/thread_pool.h
index 8a4e703..ea5425b 100644
--- a/src/thread_pool.h
+++ b/src/thread_pool.h
@@ -115,7 +115,6 @@ private:
     std::atomic<size_t> _runningThreadCount; // variable used to calculate a number of running threads
     std::condition_variable _completeCreation; // condition variable for verification that all threads are created
     std::atomic<size_t> _threadCount; // current number of threads in pool
-    bool _threadsCreated; // indicator for pool that all threads are created
 
     std::list<AbstractTaskProvider *> _task; // a list of tasks to perform
     std::mutex _taskInfo; // mutex for synchronization between threads and pool to manage tasks
-- 
2.43.0


From 30feb53df7c83784e985a3605bb0db7deee7d617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:22 +0000
Subject: [PATCH 44/74] fix: release X11 objects and do not show an image which
 does not exist

---
 src/ui/x11/x11_ui.cpp | 49 ++++++++++++++++++++++++++++++++++---------
 src/ui/x11/x11_ui.h   |  2 ++
 2 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/src/ui/x11/x11_ui.cpp b/src/ui/x11/x11_ui.cpp
index aaf1fd5..152ded7 100644
--- a/src/ui/x11/x11_ui.cpp
+++ b/src/ui/x11/x11_ui.cpp
@@ -23,6 +23,7 @@
 #ifndef _WIN32 // Not for Windows
 
 #include "../../penguinv_exception.h"
+#include <X11/Xutil.h>
 
 UiWindowX11::UiWindowX11( const penguinV::Image & image, const std::string & title )
     : UiWindow( image, title )
@@ -38,25 +39,50 @@ UiWindowX11::UiWindowX11( const penguinV::Image & image, const std::string & tit
     if ( _uiDisplay == nullptr )
         throw penguinVException( "Cannot create window for display" );
 
-    _window = XCreateSimpleWindow( _uiDisplay, RootWindow( _uiDisplay, _screen ), 10, 10, _width, _height, 1, BlackPixel( _uiDisplay, _screen ),
-                                   WhitePixel( _uiDisplay, _screen ) );
-    XSelectInput( _uiDisplay, _window, ExposureMask | KeyPressMask );
-    XMapWindow( _uiDisplay, _window );
+    try {
+        // A window of an empty image is rejected by the server.
+        _window = XCreateSimpleWindow( _uiDisplay, RootWindow( _uiDisplay, _screen ), 10, 10, _width > 0 ? _width : 1, _height > 0 ? _height : 1, 1,
+                                       BlackPixel( _uiDisplay, _screen ), WhitePixel( _uiDisplay, _screen ) );
+        XSelectInput( _uiDisplay, _window, ExposureMask | KeyPressMask );
+        XMapWindow( _uiDisplay, _window );
 
-    XStoreName( _uiDisplay, _window, title.data() );
+        XStoreName( _uiDisplay, _window, title.data() );
 
-    _deleteWindowEvent = XInternAtom( _uiDisplay, "WM_DELETE_WINDOW", False );
-    XSetWMProtocols( _uiDisplay, _window, &_deleteWindowEvent, 1 );
+        _deleteWindowEvent = XInternAtom( _uiDisplay, "WM_DELETE_WINDOW", False );
+        XSetWMProtocols( _uiDisplay, _window, &_deleteWindowEvent, 1 );
 
-    _setupImage( image );
+        _setupImage( image );
+    }
+    catch ( ... ) {
+        _close();
+        throw;
+    }
 }
 
 UiWindowX11::~UiWindowX11()
 {
-    XDestroyWindow( _uiDisplay, _window );
+    _close();
+}
+
+void UiWindowX11::_close()
+{
+    _freeImage();
+
+    if ( _window != 0 )
+        XDestroyWindow( _uiDisplay, _window );
+
     XCloseDisplay( _uiDisplay );
 }
 
+void UiWindowX11::_freeImage()
+{
+    if ( _image != nullptr ) {
+        _image->data = nullptr; // the data is owned by this class
+        XDestroyImage( _image );
+        _image = nullptr;
+    }
+}
+
 void UiWindowX11::_display()
 {
     if ( !_shown ) // we don't need to display anything
@@ -67,7 +93,8 @@ void UiWindowX11::_display()
         XNextEvent( _uiDisplay, &e );
         if ( e.type == Expose ) {
             GC defaultGC = DefaultGC( _uiDisplay, _screen );
-            XPutImage( _uiDisplay, _window, defaultGC, _image, 0, 0, 0, 0, _width, _height );
+            if ( _image != nullptr )
+                XPutImage( _uiDisplay, _window, defaultGC, _image, 0, 0, 0, 0, _width, _height );
 
             for ( size_t i = 0u; i < _point.size(); ++i ) {
                 const Point2d & point = _point[i].first;
@@ -125,6 +152,8 @@ void UiWindowX11::_setupImage( const penguinV::Image & image )
     const int defaultScreen = DefaultScreen( _uiDisplay );
     _image = XCreateImage( _uiDisplay, DefaultVisual( _uiDisplay, defaultScreen ), static_cast<uint32_t>( DefaultDepth( _uiDisplay, defaultScreen ) ), ZPixmap, 0,
                            _data.data(), _width, _height, 32, 0 );
+    if ( _image == nullptr )
+        throw penguinVException( "Cannot create an image for display" );
 }
 
 void UiWindowX11::drawPoint( const Point2d & point, const PaintColor & color )
diff --git a/src/ui/x11/x11_ui.h b/src/ui/x11/x11_ui.h
index dfee3c1..5443939 100644
--- a/src/ui/x11/x11_ui.h
+++ b/src/ui/x11/x11_ui.h
@@ -51,6 +51,8 @@ private:
     std::vector<std::pair<Point2d, uint32_t>> _point;
 
     void _setupImage( const penguinV::Image & image );
+    void _freeImage();
+    void _close();
 };
 
 #endif
-- 
2.43.0


From 5de9970e51c1cced1d1ed66fc758ba484ed881dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:32 +0000
Subject: [PATCH 45/74] fix: show a new image of an X11 window

---
 src/ui/x11/x11_ui.cpp | 71 +++++++++++++++++++++++++++++++------------
 src/ui/x11/x11_ui.h   |  2 ++
 2 files changed, 54 insertions(+), 19 deletions(-)

diff --git a/src/ui/x11/x11_ui.cpp b/src/ui/x11/x11_ui.cpp
index 152ded7..2598693 100644
--- a/src/ui/x11/x11_ui.cpp
+++ b/src/ui/x11/x11_ui.cpp
@@ -88,42 +88,68 @@ void UiWindowX11::_display()
     if ( !_shown ) // we don't need to display anything
         return;
 
+    _draw();
+
     XEvent e;
     while ( true ) {
         XNextEvent( _uiDisplay, &e );
         if ( e.type == Expose ) {
-            GC defaultGC = DefaultGC( _uiDisplay, _screen );
-            if ( _image != nullptr )
-                XPutImage( _uiDisplay, _window, defaultGC, _image, 0, 0, 0, 0, _width, _height );
-
-            for ( size_t i = 0u; i < _point.size(); ++i ) {
-                const Point2d & point = _point[i].first;
-                XSetForeground( _uiDisplay, defaultGC, _point[i].second );
-                XDrawLine( _uiDisplay, _window, defaultGC, static_cast<int>( point.x - 1 ), static_cast<int>( point.y - 1 ), static_cast<int>( point.x + 1 ),
-                           static_cast<int>( point.y + 1 ) );
-            }
+            _draw();
         }
         else if ( ( e.type == ClientMessage ) && ( static_cast<unsigned int>( e.xclient.data.l[0] ) == _deleteWindowEvent ) )
             break;
     }
 }
 
+void UiWindowX11::_draw()
+{
+    GC defaultGC = DefaultGC( _uiDisplay, _screen );
+    if ( _image != nullptr )
+        XPutImage( _uiDisplay, _window, defaultGC, _image, 0, 0, 0, 0, _width, _height );
+
+    for ( size_t i = 0u; i < _point.size(); ++i ) {
+        const Point2d & point = _point[i].first;
+        XSetForeground( _uiDisplay, defaultGC, _point[i].second );
+        XDrawLine( _uiDisplay, _window, defaultGC, static_cast<int>( point.x - 1 ), static_cast<int>( point.y - 1 ), static_cast<int>( point.x + 1 ),
+                   static_cast<int>( point.y + 1 ) );
+    }
+}
+
+void UiWindowX11::setImage( const penguinV::Image & image )
+{
+    penguinV::Image newImage( image );
+
+    _setupImage( newImage );
+
+    UiWindow::_image.swap( newImage );
+
+    if ( _image != nullptr )
+        XResizeWindow( _uiDisplay, _window, _width, _height );
+
+    _display();
+}
+
 void UiWindowX11::_setupImage( const penguinV::Image & image )
 {
-    if ( image.empty() )
+    if ( image.empty() ) {
+        _freeImage();
         return;
+    }
 
-    _data.resize( _width * _height * 4 );
+    const uint32_t width = image.width();
+    const uint32_t height = image.height();
+
+    std::vector<char> data( static_cast<size_t>( width ) * height * 4 );
     const uint32_t rowSize = image.rowSize();
 
     const uint8_t * imageY = image.data();
-    const uint8_t * imageYEnd = imageY + _height * rowSize;
-    char * imageData = _data.data();
+    const uint8_t * imageYEnd = imageY + static_cast<size_t>( height ) * rowSize;
+    char * imageData = data.data();
 
     if ( image.colorCount() == penguinV::GRAY_SCALE ) {
         for ( ; imageY != imageYEnd; imageY += rowSize ) {
             const uint8_t * imageX = imageY;
-            const uint8_t * imageXEnd = imageX + _width;
+            const uint8_t * imageXEnd = imageX + width;
 
             for ( ; imageX != imageXEnd; ++imageX ) {
                 memset( imageData, *imageX, 3u );
@@ -138,7 +164,7 @@ void UiWindowX11::_setupImage( const penguinV::Image & image )
             throw penguinVException( "Color image has different than 3 color channels." );
         for ( ; imageY != imageYEnd; imageY += rowSize ) {
             const uint8_t * imageX = imageY;
-            const uint8_t * imageXEnd = imageX + _width * 3u;
+            const uint8_t * imageXEnd = imageX + width * 3u;
 
             for ( ; imageX != imageXEnd; imageX += 3 ) {
                 memcpy( imageData, imageX, 3u );
@@ -150,10 +176,17 @@ void UiWindowX11::_setupImage( const penguinV::Image & image )
     }
 
     const int defaultScreen = DefaultScreen( _uiDisplay );
-    _image = XCreateImage( _uiDisplay, DefaultVisual( _uiDisplay, defaultScreen ), static_cast<uint32_t>( DefaultDepth( _uiDisplay, defaultScreen ) ), ZPixmap, 0,
-                           _data.data(), _width, _height, 32, 0 );
-    if ( _image == nullptr )
+    XImage * newImage = XCreateImage( _uiDisplay, DefaultVisual( _uiDisplay, defaultScreen ), static_cast<uint32_t>( DefaultDepth( _uiDisplay, defaultScreen ) ), ZPixmap,
+                                      0, data.data(), width, height, 32, 0 );
+    if ( newImage == nullptr )
         throw penguinVException( "Cannot create an image for display" );
+
+    _freeImage();
+
+    _image = newImage;
+    _data.swap( data );
+    _width = width;
+    _height = height;
 }
 
 void UiWindowX11::drawPoint( const Point2d & point, const PaintColor & color )
diff --git a/src/ui/x11/x11_ui.h b/src/ui/x11/x11_ui.h
index 5443939..2232466 100644
--- a/src/ui/x11/x11_ui.h
+++ b/src/ui/x11/x11_ui.h
@@ -33,6 +33,7 @@ public:
     explicit UiWindowX11( const penguinV::Image & image = penguinV::Image(), const std::string & title = std::string() );
     virtual ~UiWindowX11();
 
+    virtual void setImage( const penguinV::Image & image );
     virtual void drawPoint( const Point2d & point, const PaintColor & color );
 
 protected:
@@ -51,6 +52,7 @@ private:
     std::vector<std::pair<Point2d, uint32_t>> _point;
 
     void _setupImage( const penguinV::Image & image );
+    void _draw();
     void _freeImage();
     void _close();
 };
-- 
2.43.0


From 77d933747dc76fc0ff29b2631eebb1ab55364d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:17 +0000
Subject: [PATCH 46/74] fix: function tables registered in several steps keep
 RgbToRgba, RgbaToRgb and Shift

---
 src/image_function_helper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/image_function_helper.cpp b/src/image_function_helper.cpp
index 49a1f15..98bd71b 100644
--- a/src/image_function_helper.cpp
+++ b/src/image_function_helper.cpp
@@ -63,8 +63,11 @@ namespace
         SET_FUNCTION( ProjectionProfile )
         SET_FUNCTION( Resize )
         SET_FUNCTION( RgbToBgr )
+        SET_FUNCTION( RgbToRgba )
+        SET_FUNCTION( RgbaToRgb )
         SET_FUNCTION( SetPixel )
         SET_FUNCTION( SetPixel2 )
+        SET_FUNCTION( Shift )
         SET_FUNCTION( Split )
         SET_FUNCTION( Subtract )
         SET_FUNCTION( Sum )
-- 
2.43.0


From d49304dc579f84309f71629505265b057e96fc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:43 +0000
Subject: [PATCH 47/74] fix: copy construction and moving of CUDA images

---
 src/cuda/image_buffer_cuda.cuh        | 3 +++
 src/cuda/image_buffer_cuda_pinned.cuh | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/cuda/image_buffer_cuda.cuh b/src/cuda/image_buffer_cuda.cuh
index b3cc49c..7a5cf9e 100644
--- a/src/cuda/image_buffer_cuda.cuh
+++ b/src/cuda/image_buffer_cuda.cuh
@@ -38,12 +38,15 @@ namespace penguinV
         }
 
         ImageTemplateCuda( const ImageTemplateCuda & image )
+            : ImageTemplate<TColorDepth>()
         {
+            ImageTemplate<TColorDepth>::_setType( 1, _allocateMemory, _deallocateMemory, _copyMemory, _setMemory );
             ImageTemplate<TColorDepth>::operator=( image );
         }
 
         ImageTemplateCuda( ImageTemplateCuda && image )
         {
+            ImageTemplate<TColorDepth>::_setType( 1, _allocateMemory, _deallocateMemory, _copyMemory, _setMemory );
             ImageTemplate<TColorDepth>::swap( image );
         }
 
diff --git a/src/cuda/image_buffer_cuda_pinned.cuh b/src/cuda/image_buffer_cuda_pinned.cuh
index 1995478..ada7d0d 100644
--- a/src/cuda/image_buffer_cuda_pinned.cuh
+++ b/src/cuda/image_buffer_cuda_pinned.cuh
@@ -38,12 +38,15 @@ namespace penguinV
         }
 
         ImageTemplateCudaPinned( const ImageTemplateCudaPinned & image )
+            : ImageTemplate<TColorDepth>()
         {
+            ImageTemplate<TColorDepth>::_setType( 2, _allocateMemory, _deallocateMemory );
             ImageTemplate<TColorDepth>::operator=( image );
         }
 
         ImageTemplateCudaPinned( ImageTemplateCudaPinned && image )
         {
+            ImageTemplate<TColorDepth>::_setType( 2, _allocateMemory, _deallocateMemory );
             ImageTemplate<TColorDepth>::swap( image );
         }
 
-- 
2.43.0


From 710856d0ead9ad985f02f86128999cfdf01ef7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:44 +0000
Subject: [PATCH 48/74] fix: fill and allocate CUDA images of a wider colour
 depth

---
 src/cuda/image_buffer_cuda.cuh        | 15 ++++++++++++---
 src/cuda/image_buffer_cuda_pinned.cuh |  4 ++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/cuda/image_buffer_cuda.cuh b/src/cuda/image_buffer_cuda.cuh
index 7a5cf9e..3670204 100644
--- a/src/cuda/image_buffer_cuda.cuh
+++ b/src/cuda/image_buffer_cuda.cuh
@@ -83,9 +83,18 @@ namespace penguinV
 
         static void _setMemory( TColorDepth * data, TColorDepth value, size_t size )
         {
-            cudaError_t error = cudaMemset( data, value, size );
-            if( error != cudaSuccess )
-                throw penguinVException( "Cannot fill a memory for CUDA device" );
+            if( sizeof( TColorDepth ) == 1u ) {
+                cudaError_t error = cudaMemset( data, value, size );
+                if( error != cudaSuccess )
+                    throw penguinVException( "Cannot fill a memory for CUDA device" );
+            }
+            else {
+                const std::vector<TColorDepth> pattern( size / sizeof( TColorDepth ), value );
+
+                cudaError_t error = cudaMemcpy( data, pattern.data(), size, cudaMemcpyHostToDevice );
+                if( error != cudaSuccess )
+                    throw penguinVException( "Cannot fill a memory for CUDA device" );
+            }
         }
     };
 
diff --git a/src/cuda/image_buffer_cuda_pinned.cuh b/src/cuda/image_buffer_cuda_pinned.cuh
index ada7d0d..e0b3814 100644
--- a/src/cuda/image_buffer_cuda_pinned.cuh
+++ b/src/cuda/image_buffer_cuda_pinned.cuh
@@ -66,9 +66,9 @@ namespace penguinV
     private:
         static TColorDepth * _allocateMemory( size_t size )
         {
-            uint8_t * data = nullptr;
+            TColorDepth * data = nullptr;
 
-            cudaError_t error = cudaMallocHost( &data, sizeof(uint8_t) * size );
+            cudaError_t error = cudaMallocHost( &data, sizeof( TColorDepth ) * size );
             if( error != cudaSuccess )
                 throw penguinVException( "Cannot allocate pinned memory on HOST" );
 
-- 
2.43.0


From 97230fd51144795b63681000d223ebde59a46475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:44 +0000
Subject: [PATCH 49/74] fix: keep pixels of images with different row sizes in
 CUDA transfers

---
 src/cuda/image_function_cuda.cu | 32 ++++++--------------------------
 1 file changed, 6 insertions(+), 26 deletions(-)

diff --git a/src/cuda/image_function_cuda.cu b/src/cuda/image_function_cuda.cu
index d038ec1..430c786 100644
--- a/src/cuda/image_function_cuda.cu
+++ b/src/cuda/image_function_cuda.cu
@@ -566,19 +566,9 @@ namespace Image_Function_Cuda
              in.colorCount() != out.colorCount() )
             throw penguinVException( "Bad input parameters in image function" );
 
-        if ( in.alignment() == 1u || (in.rowSize() == in.width() * in.colorCount()) )
-        {
-            const uint32_t size = in.rowSize() * in.height();
-
-            if ( !multiCuda::cudaSafeCheck( cudaMemcpy( out.data(), in.data(), size * sizeof( uint8_t ), cudaMemcpyHostToDevice ) ) )
-                throw penguinVException( "Cannot copy a memory to CUDA device" );
-        }
-        else
-        {
-            if ( !multiCuda::cudaSafeCheck( cudaMemcpy2D( out.data(), out.rowSize(), in.data(), in.rowSize(),
-                                                          in.colorCount() * in.width(), in.height(), cudaMemcpyHostToDevice ) ) )
-                throw penguinVException( "Cannot copy a memory to CUDA device" );
-        }
+        if ( !multiCuda::cudaSafeCheck( cudaMemcpy2D( out.data(), out.rowSize(), in.data(), in.rowSize(),
+                                                      in.colorCount() * in.width(), in.height(), cudaMemcpyHostToDevice ) ) )
+            throw penguinVException( "Cannot copy a memory to CUDA device" );
     }
 
     Image ConvertFromCuda( const Image & in )
@@ -599,19 +589,9 @@ namespace Image_Function_Cuda
              in.colorCount() != out.colorCount() )
             throw penguinVException( "Bad input parameters in image function" );
 
-        if ( out.alignment() == 1u || (out.rowSize() == out.width() * out.colorCount()) )
-        {
-            const uint32_t size = in.rowSize() * in.height();
-
-            if ( !multiCuda::cudaSafeCheck( cudaMemcpy( out.data(), in.data(), size, cudaMemcpyDeviceToHost ) ) )
-                throw penguinVException( "Cannot copy a memory from CUDA device" );
-        }
-        else
-        {
-            if ( !multiCuda::cudaSafeCheck( cudaMemcpy2D( out.data(), out.rowSize(), in.data(), in.rowSize(),
-                                                          in.colorCount() * in.width(), in.height(), cudaMemcpyDeviceToHost ) ) )
-                throw penguinVException( "Cannot copy a memory to CUDA device" );
-        }
+        if ( !multiCuda::cudaSafeCheck( cudaMemcpy2D( out.data(), out.rowSize(), in.data(), in.rowSize(),
+                                                      in.colorCount() * in.width(), in.height(), cudaMemcpyDeviceToHost ) ) )
+            throw penguinVException( "Cannot copy a memory from CUDA device" );
     }
 
     Image ConvertToGrayScale( const Image & in )
-- 
2.43.0


From 5b78b7e8e26a83917e9a4156726fb2e7eba22f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:44 +0000
Subject: [PATCH 50/74] fix: synchronize kernels in CUDA streams with memory
 operations

---
 src/cuda/cuda_device.cu | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cuda/cuda_device.cu b/src/cuda/cuda_device.cu
index 456a8c0..4d53419 100644
--- a/src/cuda/cuda_device.cu
+++ b/src/cuda/cuda_device.cu
@@ -391,7 +391,8 @@ namespace multiCuda
     CudaStream::CudaStream()
         : _id( 0 )
     {
-        cudaCheck( cudaStreamCreateWithFlags( &_id, cudaStreamNonBlocking ) );
+        // Memory operations and FFT are executed within default stream so kernels must be synchronized with them
+        cudaCheck( cudaStreamCreateWithFlags( &_id, cudaStreamDefault ) );
     }
 
     CudaStream::~CudaStream()
-- 
2.43.0


From c0de6d13d67b9528fe56660eda58784003bdae5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:44 +0000
Subject: [PATCH 51/74] fix: do not exceed the number of threads of a CUDA
 device in 3D kernels

---
 src/cuda/cuda_helper.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cuda/cuda_helper.cu b/src/cuda/cuda_helper.cu
index b2021b8..e909cfb 100644
--- a/src/cuda/cuda_helper.cu
+++ b/src/cuda/cuda_helper.cu
@@ -73,7 +73,7 @@ namespace
             threadsPerBlock.y = threadTotalCount / (threadsPerBlock.x * threadsPerBlock.z);
         }
 
-        adjust2DThreadsPerBlock( threadTotalCount, blockDimension, threadsPerBlock );
+        adjust2DThreadsPerBlock( threadTotalCount / threadsPerBlock.z, blockDimension, threadsPerBlock );
     }
 }
 
-- 
2.43.0


From bdd39cc756e6f32c12eb066dfd961607a9a7c7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:36 +0000
Subject: [PATCH 52/74] fix: share a memory allocator of a CUDA device between
 threads

---
 src/cuda/cuda_memory.cuh | 101 ++++++++++++++++++++++++++++++---------
 1 file changed, 79 insertions(+), 22 deletions(-)

diff --git a/src/cuda/cuda_memory.cuh b/src/cuda/cuda_memory.cuh
index 1571ecd..d2fb0d7 100644
--- a/src/cuda/cuda_memory.cuh
+++ b/src/cuda/cuda_memory.cuh
@@ -22,6 +22,7 @@
 
 #include <cuda_runtime.h>
 #include <map>
+#include "cuda_helper.cuh"
 #include "../memory/memory_allocator.h"
 
 namespace multiCuda
@@ -50,21 +51,34 @@ namespace multiCuda
         {
             size = size * sizeof( _DataType );
 
-            if ( _data != nullptr && size < _size ) {
-                const uint8_t level = _getAllocationLevel( size );
+            {
+                std::lock_guard<std::mutex> guard( _lock );
 
-                if ( _split( level ) ) {
-                    _DataType* address = reinterpret_cast<_DataType*>(static_cast<uint8_t*>(_data) + *_freeChunk[level].begin());
-                    _allocatedChunk.insert( std::pair<size_t, uint8_t >( *_freeChunk[level].begin(), level ) );
-                    _freeChunk[level].erase( _freeChunk[level].begin() );
-                    return address;
+                _releaseChunks();
+
+                if ( _data != nullptr && size < _size ) {
+                    const uint8_t level = _getAllocationLevel( size );
+
+                    if ( _split( level ) ) {
+                        const size_t offset = *_freeChunk[level].begin();
+
+                        try {
+                            _allocatedChunk.insert( std::pair<size_t, uint8_t >( offset, level ) );
+                        }
+                        catch ( ... ) {
+                            _merge( offset, level );
+                            throw;
+                        }
+
+                        _freeChunk[level].erase( _freeChunk[level].begin() );
+                        return reinterpret_cast<_DataType*>(static_cast<uint8_t*>(_data) + offset);
+                    }
                 }
             }
 
             // if no space in preallocated memory just allocate as usual memory
             _DataType* address = nullptr;
-            cudaError_t error = cudaMalloc( &address, size );
-            if ( error != cudaSuccess )
+            if ( !cudaSafeCheck( cudaMalloc( &address, size ) ) )
                 throw std::logic_error( "Cannot allocate a memory for CUDA device" );
 
             return address;
@@ -76,20 +90,21 @@ namespace multiCuda
         // otherwise CUDA specific function will be called
         void free( void * address )
         {
-            if ( _data != nullptr && address >= _data ) {
-                std::map <size_t, uint8_t>::iterator pos =
-                    _allocatedChunk.find( static_cast<uint8_t*>(address) - static_cast<uint8_t*>(_data) );
-
-                if ( pos != _allocatedChunk.end() ) {
-                    _freeChunk[pos->second].insert( pos->first );
-                    _merge( pos->first, pos->second );
-                    _allocatedChunk.erase( pos );
-                    return;
+            {
+                std::lock_guard<std::mutex> guard( _lock );
+
+                if ( _data != nullptr && address >= _data ) {
+                    std::map <size_t, uint8_t>::iterator pos =
+                        _allocatedChunk.find( static_cast<uint8_t*>(address) - static_cast<uint8_t*>(_data) );
+
+                    if ( pos != _allocatedChunk.end() ) {
+                        _releaseChunk( pos );
+                        return;
+                    }
                 }
             }
 
-            cudaError_t error = cudaFree( address );
-            if ( error != cudaSuccess )
+            if ( !cudaSafeCheck( cudaFree( address ) ) )
                 throw std::logic_error( "Cannot deallocate memory for CUDA device" );
         }
 
@@ -106,6 +121,46 @@ namespace multiCuda
         // first parameter is an offset from preallocated memory, second parameter is a power of 2 (level)
         std::map <size_t, uint8_t> _allocatedChunk;
 
+        // a flag of a level which marks a chunk already deallocated by a user but not returned into free memory yet
+        static const uint8_t _releasedChunk = 128u;
+
+        // a number of chunks with the flag above
+        size_t _releasedChunkCount{ 0 };
+
+        // Returns a chunk into free memory. Deallocation must not fail so if there is no memory to do this then the chunk will be returned later
+        void _releaseChunk( std::map <size_t, uint8_t>::iterator pos )
+        {
+            const size_t offset = pos->first;
+            const bool isReleased = (pos->second & _releasedChunk) != 0;
+            const uint8_t level = static_cast<uint8_t>(pos->second & ~_releasedChunk);
+
+            try {
+                _freeChunk[level].insert( offset );
+            }
+            catch ( const std::bad_alloc & ) {
+                if ( !isReleased ) {
+                    pos->second |= _releasedChunk;
+                    ++_releasedChunkCount;
+                }
+                return;
+            }
+
+            if ( isReleased )
+                --_releasedChunkCount;
+
+            _allocatedChunk.erase( pos );
+            _merge( offset, level );
+        }
+
+        void _releaseChunks()
+        {
+            for ( std::map <size_t, uint8_t>::iterator pos = _allocatedChunk.begin(); _releasedChunkCount > 0 && pos != _allocatedChunk.end(); ) {
+                std::map <size_t, uint8_t>::iterator current = pos++;
+                if ( (current->second & _releasedChunk) != 0 )
+                    _releaseChunk( current );
+            }
+        }
+
         // true memory allocation on devices with CUDA support
         virtual void _allocate( size_t size )
         {
@@ -113,13 +168,14 @@ namespace multiCuda
                 throw std::logic_error( "Memory size to be allocated is bigger than available size on device" );
 
             if ( _size != size && size > 0 ) {
+                _releaseChunks();
+
                 if ( !_allocatedChunk.empty() )
                     throw std::logic_error( "Cannot free a memory on device with CUDA support. Not all objects were previously deallocated from allocator." );
 
                 _free();
 
-                cudaError_t error = cudaMalloc( &_data, size );
-                if ( error != cudaSuccess )
+                if ( !cudaSafeCheck( cudaMalloc( &_data, size ) ) )
                     throw std::logic_error( "Cannot allocate a memory for CUDA device" );
 
                 _size = size;
@@ -137,6 +193,7 @@ namespace multiCuda
             }
 
             _allocatedChunk.clear();
+            _releasedChunkCount = 0;
         }
 
         MemoryAllocator( const MemoryAllocator & )
-- 
2.43.0


From d634bcb74688df9a57e9ea36db3d5f6e918dbd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:52 +0000
Subject: [PATCH 53/74] fix: deallocate CUDA memory on the device which owns it
 without exceptions

---
 src/cuda/cuda_device.cu               | 15 +++++++++++++++
 src/cuda/cuda_device.cuh              |  5 +++++
 src/cuda/cuda_memory.cuh              | 13 ++++++++++---
 src/cuda/cuda_types.cuh               |  4 ++--
 src/cuda/image_buffer_cuda.cuh        |  2 +-
 src/cuda/image_buffer_cuda_pinned.cuh |  7 ++++---
 6 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/cuda/cuda_device.cu b/src/cuda/cuda_device.cu
index 4d53419..29e5cbe 100644
--- a/src/cuda/cuda_device.cu
+++ b/src/cuda/cuda_device.cu
@@ -84,6 +84,11 @@ namespace multiCuda
         {
             return CudaDeviceManager::instance().device( deviceId ).allocator();
         }
+
+        void free( void * data )
+        {
+            CudaDeviceManager::instance().freeMemory( data );
+        }
     }
 
 
@@ -388,6 +393,16 @@ namespace multiCuda
         (*foundDevice)->setActive();
     }
 
+    void CudaDeviceManager::freeMemory( void * data )
+    {
+        std::list<CudaDevice *>::iterator foundDevice = std::find_if( _device.begin(), _device.end(),
+                                                                      [&data]( CudaDevice * device ) { return device->allocator().isOwner( data ); } );
+        if( foundDevice != _device.end() )
+            (*foundDevice)->allocator().free( data );
+        else
+            cudaSafeCheck( cudaFree( data ) );
+    }
+
     CudaStream::CudaStream()
         : _id( 0 )
     {
diff --git a/src/cuda/cuda_device.cuh b/src/cuda/cuda_device.cuh
index 706a85a..7c6bd1d 100644
--- a/src/cuda/cuda_device.cuh
+++ b/src/cuda/cuda_device.cuh
@@ -39,6 +39,9 @@ namespace multiCuda
 
         // Returns memory allocator for specified device ID
         MemoryAllocator & memory( int deviceId );
+
+        // Deallocates memory by an allocator of the device which owns the memory no matter what device is actual for current thread
+        void free( void * data );
     }
 
     // This class represents a single CUDA device (videocard) in a system
@@ -121,6 +124,8 @@ namespace multiCuda
 
         void setActiveDevice( int deviceId ); // set CUDA device with specified ID as a active device in current thread
 
+        void freeMemory( void * data ); // deallocates memory of any device. It is being called by destructors so it never throws an exception
+
     private:
         CudaDeviceManager();
         ~CudaDeviceManager();
diff --git a/src/cuda/cuda_memory.cuh b/src/cuda/cuda_memory.cuh
index d2fb0d7..b44496b 100644
--- a/src/cuda/cuda_memory.cuh
+++ b/src/cuda/cuda_memory.cuh
@@ -108,6 +108,14 @@ namespace multiCuda
                 throw std::logic_error( "Cannot deallocate memory for CUDA device" );
         }
 
+        // returns true if an address belongs to memory preallocated by the allocator
+        bool isOwner( const void * address )
+        {
+            std::lock_guard<std::mutex> guard( _lock );
+
+            return _data != nullptr && address >= _data && address < static_cast<uint8_t*>(_data) + _size;
+        }
+
         // returns maximum available space which could be allocated by allocator
         size_t availableSize() const
         {
@@ -186,9 +194,8 @@ namespace multiCuda
         virtual void _deallocate()
         {
             if ( _data != nullptr ) {
-                cudaError_t error = cudaFree( _data );
-                if ( error != cudaSuccess )
-                    throw std::logic_error( "Cannot deallocate memory for CUDA device" );
+                // memory is being deallocated in destructors as well so a failure must not lead to an exception
+                cudaSafeCheck( cudaFree( _data ) );
                 _data = nullptr;
             }
 
diff --git a/src/cuda/cuda_types.cuh b/src/cuda/cuda_types.cuh
index 2acb783..19e722e 100644
--- a/src/cuda/cuda_types.cuh
+++ b/src/cuda/cuda_types.cuh
@@ -105,7 +105,7 @@ namespace multiCuda
         void _free()
         {
             if( _data != NULL ) {
-                MemoryManager::memory().free( _data );
+                MemoryManager::free( _data );
                 _data = NULL;
             }
         }
@@ -267,7 +267,7 @@ namespace multiCuda
         void _free()
         {
             if( _data != NULL ) {
-                MemoryManager::memory().free( _data );
+                MemoryManager::free( _data );
                 _data = NULL;
             }
         }
diff --git a/src/cuda/image_buffer_cuda.cuh b/src/cuda/image_buffer_cuda.cuh
index 3670204..2002807 100644
--- a/src/cuda/image_buffer_cuda.cuh
+++ b/src/cuda/image_buffer_cuda.cuh
@@ -71,7 +71,7 @@ namespace penguinV
 
         static void _deallocateMemory( TColorDepth * data )
         {
-            multiCuda::MemoryManager::memory().free( data );
+            multiCuda::MemoryManager::free( data );
         }
 
         static void _copyMemory( TColorDepth * out, TColorDepth * in, size_t size )
diff --git a/src/cuda/image_buffer_cuda_pinned.cuh b/src/cuda/image_buffer_cuda_pinned.cuh
index e0b3814..6db9591 100644
--- a/src/cuda/image_buffer_cuda_pinned.cuh
+++ b/src/cuda/image_buffer_cuda_pinned.cuh
@@ -21,7 +21,9 @@
 #pragma once
 
 #include <cuda_runtime.h>
+#include "cuda_helper.cuh"
 #include "../image_buffer.h"
+#include "../penguinv_exception.h"
 
 namespace penguinV
 {
@@ -77,9 +79,8 @@ namespace penguinV
 
         static void _deallocateMemory( TColorDepth * data )
         {
-            cudaError_t error = cudaFreeHost( data );
-            if( error != cudaSuccess )
-                throw penguinVException( "Cannot deallocate pinned memory on HOST" );
+            // memory is being deallocated in destructors as well so a failure must not lead to an exception
+            multiCuda::cudaSafeCheck( cudaFreeHost( data ) );
         }
     };
 
-- 
2.43.0


From 75fc2e4b03629d4db791b8f7d3821ab0c0c3217c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:10 +0000
Subject: [PATCH 54/74] fix: do not report a failure of a CUDA memory operation
 again

---
 src/cuda/cuda_types.cuh               | 19 +++++++------------
 src/cuda/image_buffer_cuda.cuh        | 10 ++++------
 src/cuda/image_buffer_cuda_pinned.cuh |  3 +--
 3 files changed, 12 insertions(+), 20 deletions(-)

diff --git a/src/cuda/cuda_types.cuh b/src/cuda/cuda_types.cuh
index 19e722e..b6d9ee2 100644
--- a/src/cuda/cuda_types.cuh
+++ b/src/cuda/cuda_types.cuh
@@ -21,6 +21,7 @@
 #pragma once
 
 #include "cuda_device.cuh"
+#include "cuda_helper.cuh"
 #include "../penguinv_exception.h"
 
 namespace multiCuda
@@ -120,8 +121,7 @@ namespace multiCuda
         void _copy( const Type & in )
         {
             if( _data != NULL && in._data != NULL ) {
-                cudaError_t error = cudaMemcpy( _data, in._data, sizeof( TData ), cudaMemcpyDeviceToDevice );
-                if( error != cudaSuccess )
+                if( !cudaSafeCheck( cudaMemcpy( _data, in._data, sizeof( TData ), cudaMemcpyDeviceToDevice ) ) )
                     throw penguinVException( "Cannot copy a memory in CUDA device" );
             }
             else {
@@ -137,8 +137,7 @@ namespace multiCuda
         void _copyFrom( const TData & in )
         {
             if( _data != NULL ) {
-                cudaError_t error = cudaMemcpy( _data, &in, sizeof( TData ), cudaMemcpyHostToDevice );
-                if( error != cudaSuccess )
+                if( !cudaSafeCheck( cudaMemcpy( _data, &in, sizeof( TData ), cudaMemcpyHostToDevice ) ) )
                     throw penguinVException( "Cannot copy a memory in CUDA device" );
             }
             else {
@@ -151,8 +150,7 @@ namespace multiCuda
             TData out;
 
             if( _data != NULL ) {
-                cudaError_t error = cudaMemcpy( &out, _data, sizeof( TData ), cudaMemcpyDeviceToHost );
-                if( error != cudaSuccess )
+                if( !cudaSafeCheck( cudaMemcpy( &out, _data, sizeof( TData ), cudaMemcpyDeviceToHost ) ) )
                     throw penguinVException( "Cannot copy a memory in CUDA device" );
             }
             else {
@@ -289,8 +287,7 @@ namespace multiCuda
             _allocate( in._size );
 
             if( in._data != NULL ) {
-                cudaError_t error = cudaMemcpy( _data, in._data, _size * sizeof( TData ), cudaMemcpyDeviceToDevice );
-                if( error != cudaSuccess )
+                if( !cudaSafeCheck( cudaMemcpy( _data, in._data, _size * sizeof( TData ), cudaMemcpyDeviceToDevice ) ) )
                     throw penguinVException( "Cannot copy a memory in CUDA device" );
             }
             else {
@@ -307,8 +304,7 @@ namespace multiCuda
         void _copyFrom( const std::vector <TData> & data )
         {
             if( _data != NULL && _size == data.size() ) {
-                cudaError_t error = cudaMemcpy( _data, data.data(), _size * sizeof( TData ), cudaMemcpyHostToDevice );
-                if( error != cudaSuccess )
+                if( !cudaSafeCheck( cudaMemcpy( _data, data.data(), _size * sizeof( TData ), cudaMemcpyHostToDevice ) ) )
                     throw penguinVException( "Cannot copy a memory in CUDA device" );
             }
         }
@@ -318,8 +314,7 @@ namespace multiCuda
             std::vector <TData> out( _size );
 
             if( _data != NULL ) {
-                cudaError_t error = cudaMemcpy( out.data(), _data, _size * sizeof( TData ), cudaMemcpyDeviceToHost );
-                if( error != cudaSuccess )
+                if( !cudaSafeCheck( cudaMemcpy( out.data(), _data, _size * sizeof( TData ), cudaMemcpyDeviceToHost ) ) )
                     throw penguinVException( "Cannot copy a memory in CUDA device" );
             }
 
diff --git a/src/cuda/image_buffer_cuda.cuh b/src/cuda/image_buffer_cuda.cuh
index 2002807..17a2ea5 100644
--- a/src/cuda/image_buffer_cuda.cuh
+++ b/src/cuda/image_buffer_cuda.cuh
@@ -22,6 +22,7 @@
 
 #include "../image_buffer.h"
 #include "cuda_device.cuh"
+#include "cuda_helper.cuh"
 
 namespace penguinV
 {
@@ -76,23 +77,20 @@ namespace penguinV
 
         static void _copyMemory( TColorDepth * out, TColorDepth * in, size_t size )
         {
-            cudaError error = cudaMemcpy( out, in, size, cudaMemcpyDeviceToDevice );
-            if( error != cudaSuccess )
+            if( !multiCuda::cudaSafeCheck( cudaMemcpy( out, in, size, cudaMemcpyDeviceToDevice ) ) )
                 throw penguinVException( "Cannot copy a memory in CUDA device" );
         }
 
         static void _setMemory( TColorDepth * data, TColorDepth value, size_t size )
         {
             if( sizeof( TColorDepth ) == 1u ) {
-                cudaError_t error = cudaMemset( data, value, size );
-                if( error != cudaSuccess )
+                if( !multiCuda::cudaSafeCheck( cudaMemset( data, value, size ) ) )
                     throw penguinVException( "Cannot fill a memory for CUDA device" );
             }
             else {
                 const std::vector<TColorDepth> pattern( size / sizeof( TColorDepth ), value );
 
-                cudaError_t error = cudaMemcpy( data, pattern.data(), size, cudaMemcpyHostToDevice );
-                if( error != cudaSuccess )
+                if( !multiCuda::cudaSafeCheck( cudaMemcpy( data, pattern.data(), size, cudaMemcpyHostToDevice ) ) )
                     throw penguinVException( "Cannot fill a memory for CUDA device" );
             }
         }
diff --git a/src/cuda/image_buffer_cuda_pinned.cuh b/src/cuda/image_buffer_cuda_pinned.cuh
index 6db9591..3eb983b 100644
--- a/src/cuda/image_buffer_cuda_pinned.cuh
+++ b/src/cuda/image_buffer_cuda_pinned.cuh
@@ -70,8 +70,7 @@ namespace penguinV
         {
             TColorDepth * data = nullptr;
 
-            cudaError_t error = cudaMallocHost( &data, sizeof( TColorDepth ) * size );
-            if( error != cudaSuccess )
+            if( !multiCuda::cudaSafeCheck( cudaMallocHost( &data, sizeof( TColorDepth ) * size ) ) )
                 throw penguinVException( "Cannot allocate pinned memory on HOST" );
 
             return data;
-- 
2.43.0


From 9fa15dbda5fb64d2c3702dd3c2f26df0aa87f15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:28 +0000
Subject: [PATCH 55/74] fix: keep CUDA types consistent when an operation fails

---
 src/cuda/cuda_types.cuh | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/cuda/cuda_types.cuh b/src/cuda/cuda_types.cuh
index b6d9ee2..111849d 100644
--- a/src/cuda/cuda_types.cuh
+++ b/src/cuda/cuda_types.cuh
@@ -43,14 +43,26 @@ namespace multiCuda
             : _data( NULL )
         {
             _allocate();
-            _copyFrom( in );
+            try {
+                _copyFrom( in );
+            }
+            catch( ... ) {
+                _free();
+                throw;
+            }
         }
 
         Type( const Type & in )
             : _data( NULL )
         {
             _allocate();
-            _copy( in );
+            try {
+                _copy( in );
+            }
+            catch( ... ) {
+                _free();
+                throw;
+            }
         }
 
         Type( Type && in )
@@ -177,7 +189,13 @@ namespace multiCuda
             , _size( 0 )
         {
             _allocate( data.size() );
-            _copyFrom( data );
+            try {
+                _copyFrom( data );
+            }
+            catch( ... ) {
+                _free();
+                throw;
+            }
         }
 
         Array( size_t size )
@@ -191,7 +209,13 @@ namespace multiCuda
             : _data( NULL )
             , _size( 0 )
         {
-            _copy( in );
+            try {
+                _copy( in );
+            }
+            catch( ... ) {
+                _free();
+                throw;
+            }
         }
 
         Array ( Array && in )
@@ -274,6 +298,7 @@ namespace multiCuda
         {
             if( _size != size ) {
                 _free();
+                _size = 0;
 
                 if( size != 0 )
                     _data = MemoryManager::memory().allocate<TData>( size );
@@ -290,9 +315,6 @@ namespace multiCuda
                 if( !cudaSafeCheck( cudaMemcpy( _data, in._data, _size * sizeof( TData ), cudaMemcpyDeviceToDevice ) ) )
                     throw penguinVException( "Cannot copy a memory in CUDA device" );
             }
-            else {
-                throw penguinVException( "Memory in CUDA device is not allocated" );
-            }
         }
 
         void _swap( Array & in )
-- 
2.43.0


From 9a8bd78149b89d8e7e770b3b0b936aa9d80e1fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:41 +0000
Subject: [PATCH 56/74] fix: keep the active CUDA device while another one is
 being managed

---
 src/cuda/cuda_device.cu | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/cuda/cuda_device.cu b/src/cuda/cuda_device.cu
index 29e5cbe..aeceb11 100644
--- a/src/cuda/cuda_device.cu
+++ b/src/cuda/cuda_device.cu
@@ -20,6 +20,7 @@
 
 #include <algorithm>
 #include <assert.h>
+#include <memory>
 #include "cuda_device.cuh"
 #include "cuda_helper.cuh"
 #include "../penguinv_exception.h"
@@ -59,10 +60,8 @@ namespace
 
         ~DeviceAutoRestorer()
         {
-            if( _currentDeviceId != _previousDeviceId ) {
-                multiCuda::cudaCheck( cudaSetDevice( _previousDeviceId ) );
-                setDefaultDeviceId( _previousDeviceId );
-            }
+            if( _currentDeviceId != _previousDeviceId )
+                multiCuda::cudaSafeCheck( cudaSetDevice( _previousDeviceId ) );
         }
 
     private:
@@ -96,7 +95,7 @@ namespace multiCuda
         : _currentStreamId( 0u )
     {
         if( deviceId_ < 0 )
-            penguinVException( "Invalid CUDA device ID" );
+            throw penguinVException( "Invalid CUDA device ID" );
 
         _deviceId = deviceId_;
 
@@ -127,7 +126,6 @@ namespace multiCuda
 
     CudaDevice::~CudaDevice()
     {
-        setActive();
         delete _allocator;
 
         for( std::vector< CudaStream * >::iterator streamId = _stream.begin(); streamId != _stream.end(); ++streamId )
@@ -204,6 +202,8 @@ namespace multiCuda
 
     void CudaDevice::synchronize()
     {
+        DeviceAutoRestorer restorer( _deviceId );
+
         cudaCheck( cudaDeviceSynchronize() );
     }
 
@@ -247,6 +247,10 @@ namespace multiCuda
     {
         if( streamCount != _stream.size() ) {
             if( streamCount > _stream.size() ) {
+                DeviceAutoRestorer restorer( _deviceId );
+
+                _stream.reserve( streamCount );
+
                 while( streamCount != _stream.size() )
                     _stream.push_back( new CudaStream() );
             }
@@ -312,8 +316,11 @@ namespace multiCuda
 
         std::list<CudaDevice *>::const_iterator foundDevice = std::find_if( _device.begin(), _device.end(),
                                                                             [&deviceId]( const CudaDevice * device ) { return device->deviceId() == deviceId; } );
-        if( foundDevice == _device.end() )
-            _device.push_back( new CudaDevice( deviceId ) );
+        if( foundDevice == _device.end() ) {
+            std::unique_ptr<CudaDevice> device( new CudaDevice( deviceId ) );
+            _device.push_back( device.get() );
+            device.release();
+        }
     }
 
     void CudaDeviceManager::closeDevice( int deviceId )
-- 
2.43.0


From cc14887be68a8f2ac305eba206ee5c96b8a795b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:02 +0000
Subject: [PATCH 57/74] fix: allocate CUDA memory on the device of the
 allocator

---
 src/cuda/cuda_device.cu  | 26 +-------------------------
 src/cuda/cuda_helper.cu  | 16 ++++++++++++++++
 src/cuda/cuda_helper.cuh | 15 +++++++++++++++
 src/cuda/cuda_memory.cuh | 12 +++++++++---
 4 files changed, 41 insertions(+), 28 deletions(-)

diff --git a/src/cuda/cuda_device.cu b/src/cuda/cuda_device.cu
index aeceb11..117edc9 100644
--- a/src/cuda/cuda_device.cu
+++ b/src/cuda/cuda_device.cu
@@ -44,30 +44,6 @@ namespace
     {
         return defaultDeviceId;
     }
-
-    // This class is a helper to remember and restore back
-    // previous device ID for current thread
-    class DeviceAutoRestorer
-    {
-    public:
-        DeviceAutoRestorer( int currentDeviceId )
-            : _currentDeviceId ( currentDeviceId )
-            , _previousDeviceId( getDefaultDeviceId() )
-        {
-            if( _currentDeviceId != _previousDeviceId )
-                multiCuda::cudaCheck( cudaSetDevice( _currentDeviceId ) );
-        }
-
-        ~DeviceAutoRestorer()
-        {
-            if( _currentDeviceId != _previousDeviceId )
-                multiCuda::cudaSafeCheck( cudaSetDevice( _previousDeviceId ) );
-        }
-
-    private:
-        int _currentDeviceId;
-        int _previousDeviceId;
-    };
 }
 
 namespace multiCuda
@@ -110,7 +86,7 @@ namespace multiCuda
 
         assert( totalSpace == _deviceProperty.totalGlobalMem );
 
-        _allocator = new MemoryAllocator( freeSpace );
+        _allocator = new MemoryAllocator( _deviceId, freeSpace );
 
         _backupDeviceProperty = _deviceProperty;
     }
diff --git a/src/cuda/cuda_helper.cu b/src/cuda/cuda_helper.cu
index e909cfb..d925c79 100644
--- a/src/cuda/cuda_helper.cu
+++ b/src/cuda/cuda_helper.cu
@@ -119,6 +119,22 @@ namespace multiCuda
         return sucess;
     }
 
+    DeviceAutoRestorer::DeviceAutoRestorer( int currentDeviceId )
+        : _currentDeviceId ( currentDeviceId )
+        , _previousDeviceId( currentDeviceId )
+    {
+        cudaCheck( cudaGetDevice( &_previousDeviceId ) );
+
+        if( _currentDeviceId != _previousDeviceId )
+            cudaCheck( cudaSetDevice( _currentDeviceId ) );
+    }
+
+    DeviceAutoRestorer::~DeviceAutoRestorer()
+    {
+        if( _currentDeviceId != _previousDeviceId )
+            cudaSafeCheck( cudaSetDevice( _previousDeviceId ) );
+    }
+
     GridParameters::GridParameters()
         : blocksPerGrid  ( 0u )
         , threadsPerBlock( 0u )
diff --git a/src/cuda/cuda_helper.cuh b/src/cuda/cuda_helper.cuh
index 41bcb55..959761c 100644
--- a/src/cuda/cuda_helper.cuh
+++ b/src/cuda/cuda_helper.cuh
@@ -30,6 +30,21 @@ namespace multiCuda
     void cudaCheck( cudaError error ); // validates cudaError value and throws an except if the value is not cudaSuccess
     bool cudaSafeCheck( cudaError error ); // validates cudaError and returns true if the error is cudaSuccess
 
+    // This class is a helper to make a device active for current thread and to restore the previous one back
+    class DeviceAutoRestorer
+    {
+    public:
+        explicit DeviceAutoRestorer( int currentDeviceId );
+        ~DeviceAutoRestorer();
+
+    private:
+        int _currentDeviceId;
+        int _previousDeviceId;
+
+        DeviceAutoRestorer( const DeviceAutoRestorer & );
+        DeviceAutoRestorer & operator=( const DeviceAutoRestorer & );
+    };
+
     // Simple structure which holds minimum list parameters required for kernel launch
     struct GridParameters
     {
diff --git a/src/cuda/cuda_memory.cuh b/src/cuda/cuda_memory.cuh
index b44496b..71fb761 100644
--- a/src/cuda/cuda_memory.cuh
+++ b/src/cuda/cuda_memory.cuh
@@ -31,8 +31,9 @@ namespace multiCuda
     class MemoryAllocator : public BaseMemoryAllocator
     {
     public:
-        explicit MemoryAllocator( size_t availableSpace )
-            : _data         ( nullptr )
+        MemoryAllocator( int deviceId, size_t availableSpace )
+            : _deviceId     ( deviceId )
+            , _data         ( nullptr )
             , _availableSize( availableSpace )
         {
             if ( _availableSize == 0 )
@@ -78,6 +79,7 @@ namespace multiCuda
 
             // if no space in preallocated memory just allocate as usual memory
             _DataType* address = nullptr;
+            DeviceAutoRestorer restorer( _deviceId );
             if ( !cudaSafeCheck( cudaMalloc( &address, size ) ) )
                 throw std::logic_error( "Cannot allocate a memory for CUDA device" );
 
@@ -122,6 +124,8 @@ namespace multiCuda
             return _availableSize;
         }
     private:
+        const int _deviceId; // a device which holds memory
+
         void * _data; // a pointer to memory allocated chunk
         const size_t _availableSize; // maximum available memory size
 
@@ -183,6 +187,7 @@ namespace multiCuda
 
                 _free();
 
+                DeviceAutoRestorer restorer( _deviceId );
                 if ( !cudaSafeCheck( cudaMalloc( &_data, size ) ) )
                     throw std::logic_error( "Cannot allocate a memory for CUDA device" );
 
@@ -204,7 +209,8 @@ namespace multiCuda
         }
 
         MemoryAllocator( const MemoryAllocator & )
-            : _availableSize( 0 )
+            : _deviceId     ( 0 )
+            , _availableSize( 0 )
         {
         }
 
-- 
2.43.0


From 0cebb81a30c8927b8b9d9aa83ea062433c48522d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:53 +0000
Subject: [PATCH 58/74] fix: FFT of images with different width and height

---
 src/cuda/cuda_fft.cu | 2 +-
 src/fft.cpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cuda/cuda_fft.cu b/src/cuda/cuda_fft.cu
index 0f8ac54..7a025c2 100644
--- a/src/cuda/cuda_fft.cu
+++ b/src/cuda/cuda_fft.cu
@@ -227,7 +227,7 @@ namespace FFT_Cuda
 
     void FFTExecutor::_makePlans()
     {
-        if ( cufftPlan2d( &_plan, _width, _height, CUFFT_C2C ) != CUFFT_SUCCESS )
+        if ( cufftPlan2d( &_plan, static_cast<int>(_height), static_cast<int>(_width), CUFFT_C2C ) != CUFFT_SUCCESS )
             throw penguinVException( "Cannot create FFT plan on CUDA device" );
     }
 }
diff --git a/src/fft.cpp b/src/fft.cpp
index a605d2d..55382a9 100644
--- a/src/fft.cpp
+++ b/src/fft.cpp
@@ -205,7 +205,7 @@ namespace FFT
 
     void FFTExecutor::_makePlans()
     {
-        const int dims[2] = { static_cast<int>( _width ), static_cast<int>( _height ) };
+        const int dims[2] = { static_cast<int>( _height ), static_cast<int>( _width ) };
         _planDirect = kiss_fftnd_alloc( dims, 2, false, 0, 0 );
         _planInverse = kiss_fftnd_alloc( dims, 2, true, 0, 0 );
 
-- 
2.43.0


From 3a0a74ec35adfec71f0e96522dc493663d588782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:05 +0000
Subject: [PATCH 59/74] fix: swap quadrants of FFT data with odd sizes

---
 src/cuda/cuda_fft.cu | 4 ++--
 src/fft.cpp          | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cuda/cuda_fft.cu b/src/cuda/cuda_fft.cu
index 7a025c2..558e6b7 100644
--- a/src/cuda/cuda_fft.cu
+++ b/src/cuda/cuda_fft.cu
@@ -62,8 +62,8 @@ namespace
             const uint32_t middleX = width / 2;
             const uint32_t middleY = height / 2;
 
-            const uint32_t outX = (inX < middleX) ? middleX + inX : inX - middleX;
-            const uint32_t outY = (inY < middleY) ? middleY + inY : inY - middleY;
+            const uint32_t outX = (inX < middleX) ? inX + (width - middleX) : inX - middleX;
+            const uint32_t outY = (inY < middleY) ? inY + (height - middleY) : inY - middleY;
 
             out[outY * width + outX] = static_cast<uint8_t>(in[id].x / size + 0.5f);
         }
diff --git a/src/fft.cpp b/src/fft.cpp
index 55382a9..1f4c539 100644
--- a/src/fft.cpp
+++ b/src/fft.cpp
@@ -113,12 +113,12 @@ namespace FFT
         const uint32_t middleY = _height / 2;
 
         for ( uint32_t inY = 0; inY < _height; ++inY ) {
-            const uint32_t outY = ( inY < middleY ) ? middleY + inY : inY - middleY;
+            const uint32_t outY = ( inY < middleY ) ? inY + ( _height - middleY ) : inY - middleY;
 
             const uint32_t posYIn = inY * _width;
             const uint32_t posYOut = outY * _width;
             for ( uint32_t inX = 0; inX < _width; ++inX ) {
-                const uint32_t outX = ( inX < middleX ) ? middleX + inX : inX - middleX;
+                const uint32_t outX = ( inX < middleX ) ? inX + ( _width - middleX ) : inX - middleX;
                 out[posYOut + outX] = static_cast<uint8_t>( _data[posYIn + inX].r / static_cast<float>( size ) + 0.5 );
             }
         }
-- 
2.43.0


From 3420fedd8100f5e53a457c97e4d3f847d608aadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:18 +0000
Subject: [PATCH 60/74] fix: multiply complex data in place

---
 src/cuda/cuda_fft.cu | 7 +++++--
 src/fft.cpp          | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/cuda/cuda_fft.cu b/src/cuda/cuda_fft.cu
index 558e6b7..2503487 100644
--- a/src/cuda/cuda_fft.cu
+++ b/src/cuda/cuda_fft.cu
@@ -80,8 +80,11 @@ namespace
 
         if( x < width && y < height ) {
             const uint32_t id = y * width + x;
-            out[id].x = in1[id].x * in2[id].x - in1[id].y * in2[id].y;
-            out[id].y = in1[id].x * in2[id].y + in1[id].y * in2[id].x;
+            // output data could be the same as one of inputs
+            const cufftComplex value1 = in1[id];
+            const cufftComplex value2 = in2[id];
+            out[id].x = value1.x * value2.x - value1.y * value2.y;
+            out[id].y = value1.x * value2.y + value1.y * value2.x;
         }
     }
 }
diff --git a/src/fft.cpp b/src/fft.cpp
index 1f4c539..7ab22da 100644
--- a/src/fft.cpp
+++ b/src/fft.cpp
@@ -198,8 +198,11 @@ namespace FFT
         const kiss_fft_cpx * outXEnd = outX + size;
 
         for ( ; outX != outXEnd; ++in1X, ++in2X, ++outX ) {
-            outX->r = in1X->r * in2X->r - in1X->i * in2X->i;
-            outX->i = in1X->r * in2X->i + in1X->i * in2X->r;
+            // Output data could be the same as one of inputs.
+            const kiss_fft_cpx value1 = *in1X;
+            const kiss_fft_cpx value2 = *in2X;
+            outX->r = value1.r * value2.r - value1.i * value2.i;
+            outX->i = value1.r * value2.i + value1.i * value2.r;
         }
     }
 
-- 
2.43.0


From efdd3445f6294ba77eef4de2f02e4c9bba7ba00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:29 +0000
Subject: [PATCH 61/74] fix: take row size of an image into account in CUDA FFT

---
 src/cuda/cuda_fft.cu | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cuda/cuda_fft.cu b/src/cuda/cuda_fft.cu
index 2503487..b63c26b 100644
--- a/src/cuda/cuda_fft.cu
+++ b/src/cuda/cuda_fft.cu
@@ -27,14 +27,14 @@
 
 namespace
 {
-    __global__ void copyFromImageCuda( const uint8_t * in, cufftComplex * out, uint32_t width, uint32_t height )
+    __global__ void copyFromImageCuda( const uint8_t * in, uint32_t rowSizeIn, cufftComplex * out, uint32_t width, uint32_t height )
     {
         const uint32_t x = blockDim.x * blockIdx.x + threadIdx.x;
         const uint32_t y = blockDim.y * blockIdx.y + threadIdx.y;
 
         if( x < width && y < height ) {
             const uint32_t id = y * width + x;
-            out[id].x = in[id];
+            out[id].x = in[y * rowSizeIn + x];
             out[id].y = 0;
         }
     }
@@ -128,7 +128,7 @@ namespace FFT_Cuda
         _height = image.height();
 
         launchKernel2D( copyFromImageCuda, _width, _height,
-                        image.data(), _data, _width, _height );
+                        image.data(), image.rowSize(), _data, _width, _height );
     }
 
     void ComplexData::set( const multiCuda::Array<float> & data )
@@ -212,7 +212,7 @@ namespace FFT_Cuda
 
     void FFTExecutor::complexMultiplication( const ComplexData & in1, ComplexData & in2, ComplexData & out ) const
     {
-        if ( !FFT::equalSize( in1, in2 ) || !FFT::equalSize( in1, out ) || in1.width() == 0 || in2.height() == 0 )
+        if ( !FFT::equalSize( *this, in1 ) || !FFT::equalSize( in1, in2 ) || !FFT::equalSize( in1, out ) || in1.width() == 0 || in2.height() == 0 )
             throw penguinVException( "Invalid parameters for FFTExecutor" );
 
         launchKernel2D( complexMultiplicationCuda, _width, _height,
-- 
2.43.0


From 906cb7c349d6a07a6ceb7dfce3a9d8f36a36e953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:41 +0000
Subject: [PATCH 62/74] fix: release FFT data when its construction fails

---
 src/cuda/cuda_fft.cu | 24 ++++++++++++++++++++----
 src/fft.cpp          | 10 ++++++++--
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/cuda/cuda_fft.cu b/src/cuda/cuda_fft.cu
index b63c26b..6c0cb74 100644
--- a/src/cuda/cuda_fft.cu
+++ b/src/cuda/cuda_fft.cu
@@ -97,12 +97,25 @@ namespace FFT_Cuda
 
     ComplexData::ComplexData( const penguinV::Image & image )
     {
-        set( image );
+        try {
+            set( image );
+        }
+        catch ( ... ) {
+            _clean();
+            throw;
+        }
     }
 
     ComplexData::ComplexData( const ComplexData & data )
+        : FFT::BaseComplexData<cufftComplex>()
     {
-        _copy( data );
+        try {
+            _copy( data );
+        }
+        catch ( ... ) {
+            _clean();
+            throw;
+        }
     }
 
     ComplexData::ComplexData( ComplexData && data )
@@ -162,7 +175,7 @@ namespace FFT_Cuda
 
     void ComplexData::_freeData()
     {
-        cudaFree( _data );
+        multiCuda::cudaSafeCheck( cudaFree( _data ) );
     }
 
     void ComplexData::_copyData( const BaseComplexData<cufftComplex> & data )
@@ -230,8 +243,11 @@ namespace FFT_Cuda
 
     void FFTExecutor::_makePlans()
     {
-        if ( cufftPlan2d( &_plan, static_cast<int>(_height), static_cast<int>(_width), CUFFT_C2C ) != CUFFT_SUCCESS )
+        if ( cufftPlan2d( &_plan, static_cast<int>(_height), static_cast<int>(_width), CUFFT_C2C ) != CUFFT_SUCCESS ) {
+            _plan = 0;
+            _clean();
             throw penguinVException( "Cannot create FFT plan on CUDA device" );
+        }
     }
 }
 #endif
diff --git a/src/fft.cpp b/src/fft.cpp
index 7ab22da..0b5e7a6 100644
--- a/src/fft.cpp
+++ b/src/fft.cpp
@@ -33,8 +33,14 @@ namespace FFT
 
     ComplexData::ComplexData( const std::vector<float> & data, uint32_t width, uint32_t height )
     {
-        resize( width, height );
-        set( data );
+        try {
+            resize( width, height );
+            set( data );
+        }
+        catch ( ... ) {
+            _clean();
+            throw;
+        }
     }
 
     ComplexData::ComplexData( const BaseComplexData<kiss_fft_cpx> & data )
-- 
2.43.0


From 750e1ac8c4675b5097863d0b4ca7b3c4dd450b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:45 +0000
Subject: [PATCH 63/74] fix: a busy CUDA stream is not a failure of the next
 kernel

---
 src/cuda/cuda_device.cu | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cuda/cuda_device.cu b/src/cuda/cuda_device.cu
index 117edc9..56ba680 100644
--- a/src/cuda/cuda_device.cu
+++ b/src/cuda/cuda_device.cu
@@ -409,8 +409,11 @@ namespace multiCuda
 
         if( error == cudaSuccess )
             return true;
-        if( error == cudaErrorNotReady )
+        if( error == cudaErrorNotReady ) {
+            cudaGetLastError(); // it is not a failure so next kernel launch must not report it
+
             return false;
+        }
 
         cudaCheck( error );
 
-- 
2.43.0


From 2bb8e939ef1316de16914ae955cff0e30da6cf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:13 +0000
Subject: [PATCH 64/74] fix: keep the global thread pool longer than its task
 providers

---
 src/thread_pool.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 3c28891..0ea1aac 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -367,11 +367,17 @@ ThreadPool & ThreadPoolMonoid::instance()
     return provider._pool;
 }
 
-TaskProviderSingleton::TaskProviderSingleton() {}
+TaskProviderSingleton::TaskProviderSingleton()
+{
+    // the pool must exist longer than any of its providers, including providers with static storage duration
+    ThreadPoolMonoid::instance();
+}
 
 TaskProviderSingleton::TaskProviderSingleton( const TaskProviderSingleton & provider )
     : AbstractTaskProvider( provider )
-{}
+{
+    ThreadPoolMonoid::instance();
+}
 
 TaskProviderSingleton::~TaskProviderSingleton()
 {
-- 
2.43.0


From c3ba6a574e039b9a91d4e65a41ad050cd366b279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:13 +0000
Subject: [PATCH 65/74] fix: keep the CPU memory allocator longer than images
 and FFT data

---
 src/fft.cpp        | 20 +++++++++++---------
 src/image_buffer.h |  6 +++++-
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/fft.cpp b/src/fft.cpp
index 0b5e7a6..2d5ce29 100644
--- a/src/fft.cpp
+++ b/src/fft.cpp
@@ -24,31 +24,33 @@
 
 namespace FFT
 {
-    ComplexData::ComplexData() {}
+    ComplexData::ComplexData()
+    {
+        // the allocator must exist longer than any data, including data with static storage duration
+        cpu_Memory::MemoryAllocator::instance();
+    }
 
     ComplexData::ComplexData( const penguinV::Image & image )
+        : ComplexData()
     {
         set( image );
     }
 
     ComplexData::ComplexData( const std::vector<float> & data, uint32_t width, uint32_t height )
+        : ComplexData()
     {
-        try {
-            resize( width, height );
-            set( data );
-        }
-        catch ( ... ) {
-            _clean();
-            throw;
-        }
+        resize( width, height );
+        set( data );
     }
 
     ComplexData::ComplexData( const BaseComplexData<kiss_fft_cpx> & data )
+        : ComplexData()
     {
         _copy( data );
     }
 
     ComplexData::ComplexData( ComplexData && data )
+        : ComplexData()
     {
         _swap( data );
     }
diff --git a/src/image_buffer.h b/src/image_buffer.h
index 0a68265..c9a62c2 100644
--- a/src/image_buffer.h
+++ b/src/image_buffer.h
@@ -418,7 +418,11 @@ namespace penguinV
             }
 
         private:
-            FunctionFacade() = default;
+            FunctionFacade()
+            {
+                // the allocator must exist longer than any image, including images with static storage duration
+                cpu_Memory::MemoryAllocator::instance();
+            }
 
             FunctionFacade & operator=( const FunctionFacade & )
             {
-- 
2.43.0


From 8f9ed05fb1a188240608e3048396e27a5a64541a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:07 +0000
Subject: [PATCH 66/74] fix: release OpenCL and CUDA memory of static objects
 without a destroyed device manager

---
 src/cuda/cuda_device.cu      |  9 +++++++++
 src/opencl/opencl_device.cpp | 14 ++++++++++++++
 src/opencl/opencl_device.h   |  5 +----
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/cuda/cuda_device.cu b/src/cuda/cuda_device.cu
index 56ba680..7901c09 100644
--- a/src/cuda/cuda_device.cu
+++ b/src/cuda/cuda_device.cu
@@ -44,6 +44,9 @@ namespace
     {
         return defaultDeviceId;
     }
+
+    // Objects with static storage duration can hold device memory longer than the device manager exists.
+    bool isDeviceManagerDestroyed = false;
 }
 
 namespace multiCuda
@@ -62,6 +65,11 @@ namespace multiCuda
 
         void free( void * data )
         {
+            if( isDeviceManagerDestroyed ) {
+                cudaSafeCheck( cudaFree( data ) );
+                return;
+            }
+
             CudaDeviceManager::instance().freeMemory( data );
         }
     }
@@ -270,6 +278,7 @@ namespace multiCuda
     CudaDeviceManager::~CudaDeviceManager()
     {
         closeDevices();
+        isDeviceManagerDestroyed = true;
     }
 
     CudaDeviceManager & CudaDeviceManager::instance()
diff --git a/src/opencl/opencl_device.cpp b/src/opencl/opencl_device.cpp
index 22e0012..778a6d3 100644
--- a/src/opencl/opencl_device.cpp
+++ b/src/opencl/opencl_device.cpp
@@ -44,6 +44,9 @@ namespace
         return defaultDeviceId;
     }
 
+    // Objects with static storage duration can hold OpenCL memory longer than the device manager exists.
+    bool isDeviceManagerDestroyed = false;
+
     const std::string memsetCode = R"(
         __kernel void memsetOpenCL( __global uchar * data, uint offset, uint size, uchar value )
         {
@@ -71,6 +74,11 @@ namespace multiCL
 
         void free( cl_mem data )
         {
+            if ( isDeviceManagerDestroyed ) {
+                openCLCheck( clReleaseMemObject( data ) );
+                return;
+            }
+
             OpenCLDeviceManager::instance().freeMemory( data );
         }
 
@@ -319,6 +327,12 @@ namespace multiCL
         return manager;
     }
 
+    OpenCLDeviceManager::~OpenCLDeviceManager()
+    {
+        closeDevices();
+        isDeviceManagerDestroyed = true;
+    }
+
     void OpenCLDeviceManager::initializeDevices()
     {
         for ( uint32_t deviceId = 0; deviceId < _supportedDeviceId.size(); ++deviceId ) {
diff --git a/src/opencl/opencl_device.h b/src/opencl/opencl_device.h
index 68b8288..dd1e314 100644
--- a/src/opencl/opencl_device.h
+++ b/src/opencl/opencl_device.h
@@ -362,10 +362,7 @@ namespace multiCL
             resetSupportedDevice();
         }
 
-        ~OpenCLDeviceManager()
-        {
-            closeDevices();
-        }
+        ~OpenCLDeviceManager();
 
         std::vector<cl_device_id> _supportedDeviceId;
 
-- 
2.43.0


From a4b166c1e128afc73347fdf26cf3a7cf8347610d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:04 +0000
Subject: [PATCH 67/74] fix: a failed registration of the Windows window class
 must not be permanent

---
 src/ui/win/win_ui.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ui/win/win_ui.cpp b/src/ui/win/win_ui.cpp
index ef52208..c063647 100644
--- a/src/ui/win/win_ui.cpp
+++ b/src/ui/win/win_ui.cpp
@@ -165,6 +165,8 @@ namespace
             wcex.hIconSm = 0;
 
             registered = RegisterClassEx( &wcex );
+            if ( !registered ) // the next window tries it again
+                throw penguinVException( "Unable to create Windows API class" );
         }
         WORD registered;
 #ifdef UNICODE
@@ -181,8 +183,6 @@ UiWindowWin::UiWindowWin( const penguinV::Image & image, const std::string & tit
     , _scaleFactor( 1.0 )
 {
     static const UiWindowWinRegistrator registrator; // we need to register only once hence static variable
-    if ( !registrator.registered )
-        throw penguinVException( "Unable to create Windows API class" );
 
 #ifdef UNICODE
     const std::wstring titleName = std::wstring( title.begin(), title.end() );
-- 
2.43.0


From 726f8afad26ea00754bb63300c0de5143e12bb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:04 +0000
Subject: [PATCH 68/74] fix: a Windows window must exist as long as its object
 does

---
 src/ui/win/win_ui.cpp | 21 +++++++++++++++++++--
 src/ui/win/win_ui.h   |  1 +
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/ui/win/win_ui.cpp b/src/ui/win/win_ui.cpp
index c063647..800ede4 100644
--- a/src/ui/win/win_ui.cpp
+++ b/src/ui/win/win_ui.cpp
@@ -131,8 +131,11 @@ namespace
             }
             EndPaint( window, &paintStructure );
         } break;
-        case WM_DESTROY:
+        case WM_CLOSE:
+            // the window exists as long as its object does: it can be shown again
+            ShowWindow( window, SW_HIDE );
             PostQuitMessage( 0 );
+            break;
         default:
             return DefWindowProc( window, msg, wp, lp );
         }
@@ -195,11 +198,25 @@ UiWindowWin::UiWindowWin( const penguinV::Image & image, const std::string & tit
     if ( _window == nullptr )
         throw penguinVException( "Unable to create Windows API window" );
 
-    UiWindowWin::setImage( image );
+    try {
+        UiWindowWin::setImage( image );
+    }
+    catch ( ... ) {
+        _close();
+        throw;
+    }
 }
 
 UiWindowWin::~UiWindowWin()
 {
+    _close();
+}
+
+void UiWindowWin::_close()
+{
+    SetWindowLongPtr( _window, GWLP_USERDATA, 0 ); // the window does not have an owner anymore
+    DestroyWindow( _window );
+
     _free();
 }
 
diff --git a/src/ui/win/win_ui.h b/src/ui/win/win_ui.h
index 45d3eea..f18412a 100644
--- a/src/ui/win/win_ui.h
+++ b/src/ui/win/win_ui.h
@@ -100,6 +100,7 @@ private:
     friend class WindowsUi::UiWindowWinInfo;
 
     void _free();
+    void _close();
 };
 
 #endif
-- 
2.43.0


From e8f305838130fbf6dbc0d8c9372425dcc8f9b840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:04 +0000
Subject: [PATCH 69/74] fix: a Windows window must keep its image when a new
 image cannot be set

---
 src/ui/win/win_ui.cpp | 71 ++++++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 31 deletions(-)

diff --git a/src/ui/win/win_ui.cpp b/src/ui/win/win_ui.cpp
index 800ede4..2d24911 100644
--- a/src/ui/win/win_ui.cpp
+++ b/src/ui/win/win_ui.cpp
@@ -23,6 +23,7 @@
 #ifdef _WIN32 // Windows
 
 #include <iostream>
+#include <new>
 #include <string>
 
 namespace WindowsUi
@@ -237,11 +238,12 @@ void UiWindowWin::_display()
 
 void UiWindowWin::setImage( const penguinV::Image & image )
 {
-    _free();
+    penguinV::Image newImage;
+    double scaleFactor = 1.0;
 
     // We need to set image upside-down to show correctly in UI window as well as make 4 byte row length for bitmap
-    _image.setAlignment( 4u );
-    _image.setColorCount( image.colorCount() );
+    newImage.setAlignment( 4u );
+    newImage.setColorCount( image.colorCount() );
 
     const int maxWindowWidth = GetSystemMetrics( SM_CXSCREEN ) * 95 / 100;
     const int maxWindowHeight = GetSystemMetrics( SM_CYSCREEN ) * 95 / 100;
@@ -250,22 +252,22 @@ void UiWindowWin::setImage( const penguinV::Image & image )
         const double scaleX = static_cast<double>( maxWindowWidth ) / image.width();
         const double scaleY = static_cast<double>( maxWindowHeight ) / image.height();
 
-        _scaleFactor = scaleX < scaleY ? scaleX : scaleY;
-        _image.resize( static_cast<uint32_t>( _scaleFactor * image.width() ), static_cast<uint32_t>( _scaleFactor * image.height() ) );
+        scaleFactor = scaleX < scaleY ? scaleX : scaleY;
+        newImage.resize( static_cast<uint32_t>( scaleFactor * image.width() ), static_cast<uint32_t>( scaleFactor * image.height() ) );
 
         const uint8_t colorCount = image.colorCount();
 
         const uint32_t widthIn = image.width();
-        uint32_t widthOut = _image.width();
+        uint32_t widthOut = newImage.width();
 
         const uint32_t heightIn = image.height();
-        const uint32_t heightOut = _image.height();
+        const uint32_t heightOut = newImage.height();
 
         const uint32_t rowSizeIn = image.rowSize();
-        const uint32_t rowSizeOut = _image.rowSize();
+        const uint32_t rowSizeOut = newImage.rowSize();
 
         const uint8_t * inY = image.data();
-        uint8_t * outY = _image.data();
+        uint8_t * outY = newImage.data();
         const uint8_t * outYEnd = outY + heightOut * rowSizeOut;
 
         uint32_t idY = 0;
@@ -291,50 +293,57 @@ void UiWindowWin::setImage( const penguinV::Image & image )
         }
     }
     else {
-        _scaleFactor = 1.0;
-
-        _image.resize( image.width(), image.height() );
+        newImage.resize( image.width(), image.height() );
 
         const uint32_t rowSizeIn = image.rowSize();
-        const uint32_t rowSizeOut = _image.rowSize();
+        const uint32_t rowSizeOut = newImage.rowSize();
         const uint32_t width = image.width() * image.colorCount();
 
         const uint8_t * inY = image.data() + image.rowSize() * ( image.height() - 1 );
-        uint8_t * outY = _image.data();
+        uint8_t * outY = newImage.data();
         const uint8_t * outYEnd = outY + image.height() * rowSizeOut;
 
         for ( ; outY != outYEnd; outY += rowSizeOut, inY -= rowSizeIn )
             memcpy( outY, inY, sizeof( uint8_t ) * width );
     }
 
-    const bool rgbImage = ( _image.colorCount() != 1u );
+    const bool rgbImage = ( newImage.colorCount() != 1u );
     const DWORD bmpInfoSize = sizeof( BITMAPINFOHEADER ) + ( rgbImage ? 1 : 256 ) * sizeof( RGBQUAD );
 
-    _bmpInfo = reinterpret_cast<BITMAPINFO *>( malloc( bmpInfoSize ) );
-    _bmpInfo->bmiHeader.biSize = sizeof( BITMAPINFOHEADER );
-    _bmpInfo->bmiHeader.biWidth = _image.width();
-    _bmpInfo->bmiHeader.biHeight = _image.height();
-    _bmpInfo->bmiHeader.biPlanes = 1;
-    _bmpInfo->bmiHeader.biBitCount = _image.colorCount() * 8;
-    _bmpInfo->bmiHeader.biCompression = BI_RGB;
-    _bmpInfo->bmiHeader.biSizeImage = _image.rowSize() * _image.height();
-    _bmpInfo->bmiHeader.biXPelsPerMeter = 0;
-    _bmpInfo->bmiHeader.biYPelsPerMeter = 0;
-    _bmpInfo->bmiHeader.biClrUsed = rgbImage ? 0 : 256;
-    _bmpInfo->bmiHeader.biClrImportant = 0;
+    BITMAPINFO * bmpInfo = reinterpret_cast<BITMAPINFO *>( malloc( bmpInfoSize ) );
+    if ( bmpInfo == nullptr )
+        throw std::bad_alloc();
+
+    bmpInfo->bmiHeader.biSize = sizeof( BITMAPINFOHEADER );
+    bmpInfo->bmiHeader.biWidth = newImage.width();
+    bmpInfo->bmiHeader.biHeight = newImage.height();
+    bmpInfo->bmiHeader.biPlanes = 1;
+    bmpInfo->bmiHeader.biBitCount = newImage.colorCount() * 8;
+    bmpInfo->bmiHeader.biCompression = BI_RGB;
+    bmpInfo->bmiHeader.biSizeImage = newImage.rowSize() * newImage.height();
+    bmpInfo->bmiHeader.biXPelsPerMeter = 0;
+    bmpInfo->bmiHeader.biYPelsPerMeter = 0;
+    bmpInfo->bmiHeader.biClrUsed = rgbImage ? 0 : 256;
+    bmpInfo->bmiHeader.biClrImportant = 0;
 
     if ( !rgbImage ) {
         for ( uint8_t i = 0u;; ++i ) {
-            _bmpInfo->bmiColors[i].rgbRed = i;
-            _bmpInfo->bmiColors[i].rgbGreen = i;
-            _bmpInfo->bmiColors[i].rgbBlue = i;
-            _bmpInfo->bmiColors[i].rgbReserved = 0;
+            bmpInfo->bmiColors[i].rgbRed = i;
+            bmpInfo->bmiColors[i].rgbGreen = i;
+            bmpInfo->bmiColors[i].rgbBlue = i;
+            bmpInfo->bmiColors[i].rgbReserved = 0;
 
             if ( i == 255u ) // to avoid variable overflow
                 break;
         }
     }
 
+    _free();
+
+    _image.swap( newImage );
+    _bmpInfo = bmpInfo;
+    _scaleFactor = scaleFactor;
+
     RECT clientRoi;
     GetClientRect( _window, &clientRoi );
     RECT windowRoi;
-- 
2.43.0


From 33534890550cf6e070a60d24623920898aedf7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:26 +0000
Subject: [PATCH 70/74] fix: a new image of a shown Windows window must be
 displayed

---
 src/ui/win/win_ui.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ui/win/win_ui.cpp b/src/ui/win/win_ui.cpp
index 2d24911..34462b5 100644
--- a/src/ui/win/win_ui.cpp
+++ b/src/ui/win/win_ui.cpp
@@ -352,6 +352,9 @@ void UiWindowWin::setImage( const penguinV::Image & image )
     // Resize window to fit image 1 to 1
     MoveWindow( _window, windowRoi.left, windowRoi.top, windowRoi.right - windowRoi.left - ( clientRoi.right - clientRoi.left ) + _image.width(),
                 windowRoi.bottom - windowRoi.top - ( clientRoi.bottom - clientRoi.top ) + _image.height(), FALSE );
+    InvalidateRect( _window, NULL, TRUE );
+
+    _display();
 }
 
 void UiWindowWin::drawPoint( const Point2d & point, const PaintColor & color )
-- 
2.43.0


From 3632ce0ac634ececaa910cff86108852a6a7b51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:26 +0000
Subject: [PATCH 71/74] fix: a Windows window must not mix pixels of an image
 shown in a smaller window

---
 src/ui/win/win_ui.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ui/win/win_ui.cpp b/src/ui/win/win_ui.cpp
index 34462b5..ca954c9 100644
--- a/src/ui/win/win_ui.cpp
+++ b/src/ui/win/win_ui.cpp
@@ -123,6 +123,7 @@ namespace
             if ( info.valid() ) { // make sure that we draw a valid image
                 RECT clientRoi;
                 GetClientRect( window, &clientRoi );
+                SetStretchBltMode( handleToDisplayDevice, COLORONCOLOR ); // the default mode mixes colors of removed rows and columns
                 const DWORD result = StretchDIBits( handleToDisplayDevice, 0, 0, clientRoi.right, clientRoi.bottom, 0, 0, info.image().width(), info.image().height(),
                                                     info.image().data(), info.bitmapInfo(), DIB_RGB_COLORS, SRCCOPY );
                 if ( result != info.image().height() )
-- 
2.43.0


From 12d612bf485dbbe1d16c23e1318eb4ef7399c8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:26 +0000
Subject: [PATCH 72/74] fix: a Windows window must show an image with an
 extreme ratio of its sides

---
 src/ui/win/win_ui.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ui/win/win_ui.cpp b/src/ui/win/win_ui.cpp
index ca954c9..2f6bf4f 100644
--- a/src/ui/win/win_ui.cpp
+++ b/src/ui/win/win_ui.cpp
@@ -254,7 +254,9 @@ void UiWindowWin::setImage( const penguinV::Image & image )
         const double scaleY = static_cast<double>( maxWindowHeight ) / image.height();
 
         scaleFactor = scaleX < scaleY ? scaleX : scaleY;
-        newImage.resize( static_cast<uint32_t>( scaleFactor * image.width() ), static_cast<uint32_t>( scaleFactor * image.height() ) );
+        const uint32_t scaledWidth = static_cast<uint32_t>( scaleFactor * image.width() );
+        const uint32_t scaledHeight = static_cast<uint32_t>( scaleFactor * image.height() );
+        newImage.resize( scaledWidth > 0u ? scaledWidth : 1u, scaledHeight > 0u ? scaledHeight : 1u ); // a very long image still has pixels
 
         const uint8_t colorCount = image.colorCount();
 
-- 
2.43.0


From 2a3cdbafd7330bdc7b5a2f32149d187652bd338d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:26 +0000
Subject: [PATCH 73/74] fix: a Windows window must not keep a part of a
 rectangle which cannot be drawn

---
 src/ui/win/win_ui.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ui/win/win_ui.cpp b/src/ui/win/win_ui.cpp
index 2f6bf4f..c22d0ee 100644
--- a/src/ui/win/win_ui.cpp
+++ b/src/ui/win/win_ui.cpp
@@ -387,10 +387,9 @@ void UiWindowWin::drawRectangle( const Point2d & topLeftCorner, double width, do
     const Point2d bottomLeftCorner( topLeftCorner.x, topLeftCorner.y + height );
     const Point2d bottomRightCorner( topLeftCorner.x + width, topLeftCorner.y + height );
 
-    _line.emplace_back( topLeftCorner, topRightCorner, color );
-    _line.emplace_back( topLeftCorner, bottomLeftCorner, color );
-    _line.emplace_back( topRightCorner, bottomRightCorner, color );
-    _line.emplace_back( bottomLeftCorner, bottomRightCorner, color );
+    const LineToDraw side[4] = { LineToDraw( topLeftCorner, topRightCorner, color ), LineToDraw( topLeftCorner, bottomLeftCorner, color ),
+                                 LineToDraw( topRightCorner, bottomRightCorner, color ), LineToDraw( bottomLeftCorner, bottomRightCorner, color ) };
+    _line.insert( _line.end(), side, side + 4 ); // either all sides are added or none of them
 
     _display();
 }
-- 
2.43.0


From 566ea035abb6999f2d54a7d34b9222848dfcbaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:47 +0000
Subject: [PATCH 74/74] fix: figures of a reduced image in a Windows window
 must be drawn in their places

---
 src/ui/win/win_ui.cpp | 18 ++++++++++++------
 src/ui/win/win_ui.h   |  4 +++-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/ui/win/win_ui.cpp b/src/ui/win/win_ui.cpp
index c22d0ee..68559a9 100644
--- a/src/ui/win/win_ui.cpp
+++ b/src/ui/win/win_ui.cpp
@@ -53,8 +53,8 @@ namespace WindowsUi
 
         void paint( HDC hdc, RECT clientRoi ) const
         {
-            const double xFactor = static_cast<double>( clientRoi.right - clientRoi.left ) / _window->_image.width() * _window->_scaleFactor;
-            const double yFactor = static_cast<double>( clientRoi.bottom - clientRoi.top ) / _window->_image.height() * _window->_scaleFactor;
+            const double xFactor = static_cast<double>( clientRoi.right - clientRoi.left ) / _window->_image.width() * _window->_xScaleFactor;
+            const double yFactor = static_cast<double>( clientRoi.bottom - clientRoi.top ) / _window->_image.height() * _window->_yScaleFactor;
 
             const int minPointFactor = static_cast<int>( xFactor < yFactor ? xFactor : yFactor );
             const int pointMultiplicator = minPointFactor > 1 ? minPointFactor / 2 : 1;
@@ -185,7 +185,8 @@ namespace
 UiWindowWin::UiWindowWin( const penguinV::Image & image, const std::string & title )
     : UiWindow( penguinV::Image(), title ) // we pass an empty image into base class
     , _bmpInfo( nullptr )
-    , _scaleFactor( 1.0 )
+    , _xScaleFactor( 1.0 )
+    , _yScaleFactor( 1.0 )
 {
     static const UiWindowWinRegistrator registrator; // we need to register only once hence static variable
 
@@ -240,7 +241,8 @@ void UiWindowWin::_display()
 void UiWindowWin::setImage( const penguinV::Image & image )
 {
     penguinV::Image newImage;
-    double scaleFactor = 1.0;
+    double xScaleFactor = 1.0;
+    double yScaleFactor = 1.0;
 
     // We need to set image upside-down to show correctly in UI window as well as make 4 byte row length for bitmap
     newImage.setAlignment( 4u );
@@ -253,11 +255,14 @@ void UiWindowWin::setImage( const penguinV::Image & image )
         const double scaleX = static_cast<double>( maxWindowWidth ) / image.width();
         const double scaleY = static_cast<double>( maxWindowHeight ) / image.height();
 
-        scaleFactor = scaleX < scaleY ? scaleX : scaleY;
+        const double scaleFactor = scaleX < scaleY ? scaleX : scaleY;
         const uint32_t scaledWidth = static_cast<uint32_t>( scaleFactor * image.width() );
         const uint32_t scaledHeight = static_cast<uint32_t>( scaleFactor * image.height() );
         newImage.resize( scaledWidth > 0u ? scaledWidth : 1u, scaledHeight > 0u ? scaledHeight : 1u ); // a very long image still has pixels
 
+        xScaleFactor = static_cast<double>( newImage.width() ) / image.width();
+        yScaleFactor = static_cast<double>( newImage.height() ) / image.height();
+
         const uint8_t colorCount = image.colorCount();
 
         const uint32_t widthIn = image.width();
@@ -345,7 +350,8 @@ void UiWindowWin::setImage( const penguinV::Image & image )
 
     _image.swap( newImage );
     _bmpInfo = bmpInfo;
-    _scaleFactor = scaleFactor;
+    _xScaleFactor = xScaleFactor;
+    _yScaleFactor = yScaleFactor;
 
     RECT clientRoi;
     GetClientRect( _window, &clientRoi );
diff --git a/src/ui/win/win_ui.h b/src/ui/win/win_ui.h
index f18412a..2a3dd59 100644
--- a/src/ui/win/win_ui.h
+++ b/src/ui/win/win_ui.h
@@ -95,7 +95,9 @@ private:
     std::vector<LineToDraw> _line;
     std::vector<EllipseToDraw> _ellipse;
 
-    double _scaleFactor;
+    // a ratio between sizes of shown and original images
+    double _xScaleFactor;
+    double _yScaleFactor;
 
     friend class WindowsUi::UiWindowWinInfo;
 
-- 
2.43.0

