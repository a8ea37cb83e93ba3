From 729223d9bd83ef6f5cdd069ee8c295aa8294eb91 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Tue, 17 Nov 2026 22:02:30 +0000
Subject: [PATCH 01/77] fix: read the semaphore's resource count under its
 mutex

lv::Semaphore::count() read the counter without synchronisation, racing with
notify()/wait() in other threads.
---
 modules/utils/include/litiv/utils/cxx.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/utils/include/litiv/utils/cxx.hpp b/modules/utils/include/litiv/utils/cxx.hpp
index 9d46273..c0216c7 100644
--- a/modules/utils/include/litiv/utils/cxx.hpp
+++ b/modules/utils/include/litiv/utils/cxx.hpp
@@ -991,6 +991,7 @@ namespace lv {
                 m_nCount(nInitCount) {}
         /// returns the current internal resource count
         inline size_t count() {
+            std::unique_lock<std::mutex> oLock(m_oMutex);
             return m_nCount;
         }
         /// notifies one waiter that a resource is now available
-- 
2.43.0


From 29baa93df57ae19e6faf62e7c8f60b619acb10b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:33 +0000
Subject: [PATCH 02/77] verif hook: let LITIV_VERIF_CACHE_MIN_SIZE lower the
 minimum packet cache size

Guarded; without the define nothing changes.
---
 modules/datasets/src/utils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index a739212..e7c23ec 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -27,7 +27,11 @@
 #error "Cache max size exceeds system limit (x86)."
 #endif //(!(defined(...arch...)) && CACHE_MAX_SIZE_MB>2048)
 #define CACHE_MAX_SIZE size_t(((CACHE_MAX_SIZE_MB)*1024)*1024)
+#ifdef LITIV_VERIF_CACHE_MIN_SIZE // verification builds only; lets tiny packets exercise the cache/queue limits
+#define CACHE_MIN_SIZE size_t(LITIV_VERIF_CACHE_MIN_SIZE)
+#else //ndef(LITIV_VERIF_CACHE_MIN_SIZE)
 #define CACHE_MIN_SIZE size_t(((10u)*1024)*1024) // 10mb
+#endif //ndef(LITIV_VERIF_CACHE_MIN_SIZE)
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From d92afcf0f33e91d5cef43412ffcb06bb50f08cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:31 +0000
Subject: [PATCH 03/77] fix: data precacher must not return packets of a
 deallocated buffer, nor rethrow delivered errors

Once precaching stopped (or failed), asking again for the last requested packet
returned a matrix that pointed to the buffer of the joined thread. A loader
error which was already delivered to the caller was also rethrown on each later
stop, and from the destructor (std::terminate).
---
 modules/datasets/src/utils.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index e7c23ec..9a46d06 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -312,7 +312,12 @@ lv::DataPrecacher::DataPrecacher(std::function<cv::Mat(size_t)> lDataLoaderCallb
 }
 
 lv::DataPrecacher::~DataPrecacher() {
-    stopAsyncPrecaching();
+    try {
+        stopAsyncPrecaching();
+    }
+    catch(...) { // destructors cannot throw; an undelivered precaching error can only be logged here
+        lvLog_(1,"data precacher [%" PRIxPTR "] destroyed with an undelivered precaching error",uintptr_t(this));
+    }
 }
 
 const cv::Mat& lv::DataPrecacher::getPacket(size_t nIdx) {
@@ -352,7 +357,11 @@ const cv::Mat& lv::DataPrecacher::getPacket(size_t nIdx) {
         lvLog_(1,"data precacher [%" PRIxPTR "] caught precacher exception while requesting packet #%zu, will rethrow...",uintptr_t(this),nIdx);
         m_bIsActive = false;
         m_hWorker.join();
-        std::rethrow_exception(m_pWorkerException);
+        m_oLastReqPacket = m_oReqPacket = cv::Mat(); // might point to the (now deallocated) precaching buffer
+        m_nLastReqIdx = size_t(-1);
+        std::exception_ptr pWorkerException;
+        std::swap(pWorkerException,m_pWorkerException); // the error is delivered only once
+        std::rethrow_exception(pWorkerException);
     }
     m_oLastReqPacket = m_oReqPacket;
     m_nLastReqIdx = nAnswIdx;
@@ -384,9 +393,14 @@ void lv::DataPrecacher::stopAsyncPrecaching() {
         lvLog_(2,"data precacher [%" PRIxPTR "] joining precaching thread",uintptr_t(this));
         m_hWorker.join();
         lvAssert_(!m_bGotRequest,"last request should have been answered");
+        m_oLastReqPacket = m_oReqPacket = cv::Mat(); // might point to the (now deallocated) precaching buffer
+        m_nLastReqIdx = size_t(-1);
+    }
+    if(m_pWorkerException) {
+        std::exception_ptr pWorkerException;
+        std::swap(pWorkerException,m_pWorkerException); // the error is delivered only once
+        std::rethrow_exception(pWorkerException);
     }
-    if(m_pWorkerException)
-        std::rethrow_exception(m_pWorkerException);
 }
 
 void lv::DataPrecacher::entry(const size_t nBufferSize) {
-- 
2.43.0


From 7b987c35bc3b6a6f9a6d55fb2067794a1b9c638c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:31 +0000
Subject: [PATCH 04/77] fix: data writer lost, duplicated or corrupted packets

Packets stayed in the queue while being written: a second writing thread wrote
(and erased) the same packet again, and a packet queued under the same index in
the meantime was modified under the writer's feet, then erased without ever
being written. Packets queued while the writer was being stopped were accepted
but never written. Writing errors were rethrown from the destructor.
---
 .../datasets/include/litiv/datasets/utils.hpp |  1 +
 modules/datasets/src/utils.cpp                | 71 +++++++++++++------
 2 files changed, 49 insertions(+), 23 deletions(-)

diff --git a/modules/datasets/include/litiv/datasets/utils.hpp b/modules/datasets/include/litiv/datasets/utils.hpp
index dccf0b6..184b050 100644
--- a/modules/datasets/include/litiv/datasets/utils.hpp
+++ b/modules/datasets/include/litiv/datasets/utils.hpp
@@ -805,6 +805,7 @@ namespace lv {
         std::condition_variable m_oQueueCondVar;
         std::condition_variable m_oClearCondVar;
         std::map<size_t,cv::Mat> m_mQueue;
+        std::set<size_t> m_mCurrWrites;
         std::atomic_bool m_bIsActive;
         bool m_bAllowPacketDrop;
         size_t m_nQueueMaxSize;
diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index 9a46d06..be15633 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -1349,7 +1349,12 @@ lv::DataWriter::DataWriter(std::function<size_t(const cv::Mat&,size_t)> lDataArc
 }
 
 lv::DataWriter::~DataWriter() {
-    stopAsyncWriting();
+    try {
+        stopAsyncWriting();
+    }
+    catch(...) { // destructors cannot throw; undelivered writing errors can only be logged here
+        lvLog_(1,"data writer [%" PRIxPTR "] destroyed with undelivered writing error(s)",uintptr_t(this));
+    }
 }
 
 bool lv::DataWriter::queue_check(const cv::Mat& oPacket, size_t nIdx) {
@@ -1379,6 +1384,8 @@ size_t lv::DataWriter::queue(const cv::Mat& oPacket, size_t nIdx) {
         lv::mutex_unique_lock sync_lock(m_oSyncMutex);
         if(!m_bAllowPacketDrop) {
             m_oClearCondVar.wait(sync_lock,[&]{
+                if(!m_bIsActive)
+                    return true;
                 const auto pOldPacketIter = m_mQueue.find(nIdx);
                 const bool bIsNewPacket = pOldPacketIter==m_mQueue.end();
                 const size_t nOldPacketSize = bIsNewPacket?0u:(pOldPacketIter->second.total()*pOldPacketIter->second.elemSize());
@@ -1386,6 +1393,10 @@ size_t lv::DataWriter::queue(const cv::Mat& oPacket, size_t nIdx) {
                 return m_nQueueSize+nPacketSize-nOldPacketSize<=m_nQueueMaxSize;
             });
         }
+        if(!m_bIsActive) { // stopped in the meantime, no thread is left to write this packet
+            sync_lock.unlock();
+            return m_lCallback(oPacket,nIdx);
+        }
         const auto pOldPacketIter = m_mQueue.find(nIdx);
         const bool bIsNewPacket = pOldPacketIter==m_mQueue.end();
         const size_t nOldPacketSize = bIsNewPacket?0u:(pOldPacketIter->second.total()*pOldPacketIter->second.elemSize());
@@ -1417,6 +1428,7 @@ bool lv::DataWriter::startAsyncWriting(size_t nSuggestedQueueSize, bool bDropPac
         m_nQueueSize = 0;
         m_nQueueCount = 0;
         m_mQueue.clear();
+        m_mCurrWrites.clear();
         m_vhWorkers.clear();
         lvLog_(2,"data writer [%" PRIxPTR "] writing thread init (%zu) w/ queue size = %zu mb",uintptr_t(this),nWorkers,(m_nQueueMaxSize/1024)/1024);
         for(size_t n=0; n<nWorkers; ++n)
@@ -1433,13 +1445,14 @@ void lv::DataWriter::stopAsyncWriting() {
             lv::mutex_unique_lock sync_lock(m_oSyncMutex);
             m_bIsActive = false;
             m_oQueueCondVar.notify_all();
+            m_oClearCondVar.notify_all();
         }
         for(std::thread& oWorker : m_vhWorkers)
             oWorker.join();
     }
-    while(!m_vWorkerExceptions.empty()) {
+    if(!m_vWorkerExceptions.empty()) {
         std::exception_ptr pLatestException = m_vWorkerExceptions.top().first; // add packet idx to exception...? somewhow?
-        m_vWorkerExceptions.pop();
+        m_vWorkerExceptions = std::stack<std::pair<std::exception_ptr,size_t>>();
         std::rethrow_exception(pLatestException);
     }
 }
@@ -1447,28 +1460,40 @@ void lv::DataWriter::stopAsyncWriting() {
 void lv::DataWriter::entry() {
     lvDbgExceptionWatch;
     lv::mutex_unique_lock sync_lock(m_oSyncMutex);
-    while(m_bIsActive || m_nQueueCount>0) {
-        m_oQueueCondVar.wait(sync_lock,[&](){return !m_bIsActive || m_nQueueCount>0;});
-        if(m_nQueueCount>0) {
-            auto pCurrPacket = m_mQueue.begin();
-            if(pCurrPacket!=m_mQueue.end()) {
-                const size_t nPacketSize = pCurrPacket->second.total()*pCurrPacket->second.elemSize();
-                if(nPacketSize<=m_nQueueSize) {
-                    try {
-                        lv::unlock_guard<lv::mutex_unique_lock> oUnlock(sync_lock);
-                        lvLog_(4,"data writer [%" PRIxPTR "] writing packet at idx = %zu, with size = %zu kb",uintptr_t(this),pCurrPacket->first,nPacketSize/1024);
-                        m_lCallback(pCurrPacket->second,pCurrPacket->first);
-                    }
-                    catch(...) {
-                        m_vWorkerExceptions.push(std::make_pair(std::current_exception(),pCurrPacket->first));
-                    }
-                    m_nQueueSize -= nPacketSize;
-                    m_mQueue.erase(pCurrPacket);
-                    --m_nQueueCount;
-                    m_oClearCondVar.notify_all();
-                }
+    // packets with an older version still being written by another thread are left in the queue (that thread will pick them up)
+    const auto lFindNextPacket = [&]() {
+        return std::find_if(m_mQueue.begin(),m_mQueue.end(),[&](const std::pair<const size_t,cv::Mat>& oPacket) {
+            return m_mCurrWrites.find(oPacket.first)==m_mCurrWrites.end();
+        });
+    };
+    while(true) {
+        m_oQueueCondVar.wait(sync_lock,[&](){return !m_bIsActive || lFindNextPacket()!=m_mQueue.end();});
+        const auto pNextPacket = lFindNextPacket();
+        if(pNextPacket==m_mQueue.end())
+            break;
+        // the packet leaves the queue before it is written, so that it cannot be replaced or written twice in the meantime
+        const size_t nPacketIdx = pNextPacket->first;
+        const cv::Mat oPacket = pNextPacket->second;
+        const size_t nPacketSize = oPacket.total()*oPacket.elemSize();
+        m_mQueue.erase(pNextPacket);
+        m_mCurrWrites.insert(nPacketIdx);
+        std::exception_ptr pException;
+        {
+            lv::unlock_guard<lv::mutex_unique_lock> oUnlock(sync_lock);
+            try {
+                lvLog_(4,"data writer [%" PRIxPTR "] writing packet at idx = %zu, with size = %zu kb",uintptr_t(this),nPacketIdx,nPacketSize/1024);
+                m_lCallback(oPacket,nPacketIdx);
+            }
+            catch(...) {
+                pException = std::current_exception();
             }
         }
+        if(pException)
+            m_vWorkerExceptions.push(std::make_pair(pException,nPacketIdx));
+        m_mCurrWrites.erase(nPacketIdx);
+        m_nQueueSize -= nPacketSize;
+        --m_nQueueCount;
+        m_oClearCondVar.notify_all();
     }
 }
 
-- 
2.43.0


From 6a0b213f73c4800a90ec07386d5960904709ffaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:58 +0000
Subject: [PATCH 05/77] fix: AutoBuffer moves, bounds checks and self-insertion

Moving a buffer that uses its static storage left the new buffer pointing into the
moved-from object, at() accepted negative (or truncated) indices, and pushing back
an element of a full buffer read it after its deallocation.
---
 modules/utils/include/litiv/utils/cxx.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/modules/utils/include/litiv/utils/cxx.hpp b/modules/utils/include/litiv/utils/cxx.hpp
index c0216c7..0cbffac 100644
--- a/modules/utils/include/litiv/utils/cxx.hpp
+++ b/modules/utils/include/litiv/utils/cxx.hpp
@@ -740,12 +740,16 @@ namespace lv {
         /// move constructor
         template<size_t nStaticSize2>
         explicit AutoBuffer(AutoBuffer<TVal,nStaticSize2,nByteAlign>&&);
+        /// move constructor (same static size; required as the template above never replaces the implicit version)
+        AutoBuffer(AutoBuffer<TVal,nStaticSize,nByteAlign>&& o) : AutoBuffer(size_type(0)) {*this = std::move(o);}
         /// copy assignment operator
         template<size_t nStaticSize2>
         AutoBuffer<TVal,nStaticSize,nByteAlign>& operator=(const AutoBuffer<TVal,nStaticSize2,nByteAlign>&);
         /// move assignment operator
         template<size_t nStaticSize2>
         AutoBuffer<TVal,nStaticSize,nByteAlign>& operator=(AutoBuffer<TVal,nStaticSize2,nByteAlign>&&);
+        /// move assignment operator (same static size; required as the template above never replaces the implicit version)
+        AutoBuffer<TVal,nStaticSize,nByteAlign>& operator=(AutoBuffer<TVal,nStaticSize,nByteAlign>&& o) {return this->template operator=<nStaticSize>(std::move(o));}
         /// access specified element with bounds checking
         template<typename TIndex>
         reference at(TIndex nPosIdx);
@@ -1212,7 +1216,7 @@ template<typename TVal, size_t nStaticSize, size_t nByteAlign>
 template<typename TIndex>
 typename lv::AutoBuffer<TVal,nStaticSize,nByteAlign>::reference lv::AutoBuffer<TVal,nStaticSize,nByteAlign>::at(TIndex nPosIdx) {
     static_assert(std::is_integral<TIndex>::value,"index type must be integral");
-    lvAssert__(nPosIdx<(TIndex)size(),"index out of bounds (req=%d, max=%d)",(int)nPosIdx,(int)size());
+    lvAssert__(nPosIdx>=TIndex(0) && size_type(nPosIdx)<size(),"index out of bounds (req=%d, max=%d)",(int)nPosIdx,(int)size());
     return m_pBufferPtr[nPosIdx];
 }
 
@@ -1220,7 +1224,7 @@ template<typename TVal, size_t nStaticSize, size_t nByteAlign>
 template<typename TIndex>
 typename lv::AutoBuffer<TVal,nStaticSize,nByteAlign>::const_reference lv::AutoBuffer<TVal,nStaticSize,nByteAlign>::at(TIndex nPosIdx) const {
     static_assert(std::is_integral<TIndex>::value,"index type must be integral");
-    lvAssert__(nPosIdx<(TIndex)size(),"index out of bounds (req=%d, max=%d)",(int)nPosIdx,(int)size());
+    lvAssert__(nPosIdx>=TIndex(0) && size_type(nPosIdx)<size(),"index out of bounds (req=%d, max=%d)",(int)nPosIdx,(int)size());
     return m_pBufferPtr[nPosIdx];
 }
 
@@ -1357,10 +1361,12 @@ template<typename TVal, size_t nStaticSize, size_t nByteAlign>
 void lv::AutoBuffer<TVal,nStaticSize,nByteAlign>::push_back(const value_type& o) {
     lvDbgAssert(m_nUsedBufferSize<=m_nBufferSize);
     if(m_nUsedBufferSize==m_nBufferSize) {
+        value_type oCopy(o); // the given element may be part of this buffer, which is about to be reallocated
         reserve(m_nBufferSize*2);
-        lvDbgAssert(m_nBufferSize>m_nUsedBufferSize+1);
+        m_pBufferPtr[m_nUsedBufferSize] = std::move(oCopy);
     }
-    m_pBufferPtr[m_nUsedBufferSize] = o;
+    else
+        m_pBufferPtr[m_nUsedBufferSize] = o;
     ++m_nUsedBufferSize;
 }
 
@@ -1368,9 +1374,11 @@ template<typename TVal, size_t nStaticSize, size_t nByteAlign>
 void lv::AutoBuffer<TVal,nStaticSize,nByteAlign>::push_back(value_type&& o) {
     lvDbgAssert(m_nUsedBufferSize<=m_nBufferSize);
     if(m_nUsedBufferSize==m_nBufferSize) {
+        value_type oCopy(std::move(o)); // the given element may be part of this buffer, which is about to be reallocated
         reserve(m_nBufferSize*2);
-        lvDbgAssert(m_nBufferSize>m_nUsedBufferSize+1);
+        m_pBufferPtr[m_nUsedBufferSize] = std::move(oCopy);
     }
-    m_pBufferPtr[m_nUsedBufferSize] = std::move(o);
+    else
+        m_pBufferPtr[m_nUsedBufferSize] = std::move(o);
     ++m_nUsedBufferSize;
 }
\ No newline at end of file
-- 
2.43.0


From 9f1535c629a00f464243787961a4919e8bb0d6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:58 +0000
Subject: [PATCH 06/77] fix: moved lookup tables must not refer to the
 moved-from object

---
 modules/utils/include/litiv/utils/cxx.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/modules/utils/include/litiv/utils/cxx.hpp b/modules/utils/include/litiv/utils/cxx.hpp
index 0cbffac..7522e07 100644
--- a/modules/utils/include/litiv/utils/cxx.hpp
+++ b/modules/utils/include/litiv/utils/cxx.hpp
@@ -829,6 +829,24 @@ namespace lv {
         /// full constructor; will automatically fill the LUT array for lFunc([tMinLookup,tMaxLookup])
         template<typename TFunc>
         LUT(Tx tMinLookup, Tx tMaxLookup, TFunc lFunc) {init(tMinLookup,tMaxLookup,lFunc);}
+        /// move constructor (also rebinds internal lookup pointers)
+        LUT(LUT&& o) : m_bInitialized(false) {*this = std::move(o);}
+        /// move assignment operator (also rebinds internal lookup pointers)
+        LUT& operator=(LUT&& o) {
+            if(this!=&o) {
+                m_bInitialized = o.m_bInitialized;
+                if(m_bInitialized) {
+                    m_tMin = o.m_tMin; m_tMax = o.m_tMax;
+                    m_tMidOffset = o.m_tMidOffset; m_tLowOffset = o.m_tLowOffset;
+                    m_dScale = o.m_dScale; m_dStep = o.m_dStep;
+                    m_aLUT = std::move(o.m_aLUT);
+                    m_pMid = m_aLUT.data()+nBins/2+nSafety;
+                    m_pLow = m_aLUT.data()+nSafety;
+                    o.m_bInitialized = false;
+                }
+            }
+            return *this;
+        }
         /// LUT initialization function; will fill the array for lFunc([tMinLookup,tMaxLookup])
         template<typename TFunc>
         void init(Tx tMinLookup, Tx tMaxLookup, TFunc lFunc) {
-- 
2.43.0


From f0e228db4e32e79cecfd397b50991813192ebd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:11 +0000
Subject: [PATCH 07/77] fix: assertion text must not be interpreted as a printf
 format

A failing assertion whose expression or message contains a '%' (e.g. the step check of
make_range) read or wrote through nonexistent arguments instead of throwing.
---
 modules/utils/include/litiv/utils/defines.hpp.in | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/utils/include/litiv/utils/defines.hpp.in b/modules/utils/include/litiv/utils/defines.hpp.in
index 5fabe72..6b19cee 100644
--- a/modules/utils/include/litiv/utils/defines.hpp.in
+++ b/modules/utils/include/litiv/utils/defines.hpp.in
@@ -106,11 +106,11 @@
         #define lvStdError(errtype) throw std::errtype()
         #define lvStdError_(errtype,msg) throw std::errtype(msg)
         #define lvStdError__(errtype,msg,...) throw std::errtype(lv::putf(msg,__VA_ARGS__))
-        #define lvError(msg) throw lv::Exception(std::string("[lvError: ").append((msg)).append("]"),__PRETTY_FUNCTION__,__FILE__,__LINE__)
+        #define lvError(msg) throw lv::Exception(std::string("[lvError: %s]"),__PRETTY_FUNCTION__,__FILE__,__LINE__,std::string((msg)).c_str())
         #define lvError_(msg,...) throw lv::Exception(std::string("[lvError: ").append((msg)).append("]"),__PRETTY_FUNCTION__,__FILE__,__LINE__,__VA_ARGS__)
-        #define lvAssert(expr) do {if(!!(expr)); else throw lv::Exception(std::string("[lvAssertError] ("#expr")"),__PRETTY_FUNCTION__,__FILE__,__LINE__);} while(false)
-        #define lvAssert_(expr,msg) do {if(!!(expr)); else throw lv::Exception(std::string("[lvAssertError: ").append((msg)).append("] ("#expr")"),__PRETTY_FUNCTION__,__FILE__,__LINE__);} while(false)
-        #define lvAssert__(expr,msg,...) do {if(!!(expr)); else throw lv::Exception(std::string("[lvAssertError: ").append((msg)).append("] ("#expr")"),__PRETTY_FUNCTION__,__FILE__,__LINE__,__VA_ARGS__);} while(false)
+        #define lvAssert(expr) do {if(!!(expr)); else throw lv::Exception(std::string("[lvAssertError] (%s)"),__PRETTY_FUNCTION__,__FILE__,__LINE__,#expr);} while(false)
+        #define lvAssert_(expr,msg) do {if(!!(expr)); else throw lv::Exception(std::string("[lvAssertError: %s] (%s)"),__PRETTY_FUNCTION__,__FILE__,__LINE__,std::string((msg)).c_str(),#expr);} while(false)
+        #define lvAssert__(expr,msg,...) do {if(!!(expr)); else throw lv::Exception(std::string("[lvAssertError: ").append((msg)).append("] (%s)"),__PRETTY_FUNCTION__,__FILE__,__LINE__,__VA_ARGS__,#expr);} while(false)
         #define lvLog(level,msg) (lv::ostream_guard<std::ostream>(std::cout,level) << (msg) << '\n')
         #define lvLog_(level,msg,...) (lv::ostream_guard<std::ostream>(std::cout,level) << lv::putf(msg,__VA_ARGS__) << '\n')
         #define lvWarn(msg) (lv::ostream_guard<std::ostream>(std::cerr) << "[lvWarn @ " << __FILE__ << "(" << __LINE__ << "):\n\t" << (msg) << "\n]\n")
-- 
2.43.0


From 2d2882f264b29b26dad9832dd41347e058a1074b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:11 +0000
Subject: [PATCH 08/77] fix: putf and safe_print lost the last character of
 1024-byte messages

---
 modules/utils/src/cxx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/utils/src/cxx.cpp b/modules/utils/src/cxx.cpp
index 554d92c..c80e243 100644
--- a/modules/utils/src/cxx.cpp
+++ b/modules/utils/src/cxx.cpp
@@ -31,7 +31,7 @@ std::string lv::putf(const char* acFormat, ...) { // NOLINT; reused in non-C++11
     va_end(vArgs);
     if(nWritten<0)
         lvStdError_(runtime_error,"putf failed (1)");
-    if((size_t)nWritten<=vBuffer.size()) {
+    if((size_t)nWritten<vBuffer.size()) { // string terminator must also fit
         vBuffer.resize((size_t)nWritten);
         return vBuffer;
     }
@@ -148,7 +148,7 @@ std::ostream& lv::safe_print(std::ostream& os, const char* acFormat, ...) { // N
     va_end(vArgs);
     if(nWritten<0)
         lvStdError_(runtime_error,"safe_print failed (1)");
-    if((size_t)nWritten<=vBuffer.size()) {
+    if((size_t)nWritten<vBuffer.size()) { // string terminator must also fit
         vBuffer.resize((size_t)nWritten);
         std::lock_guard<std::mutex> oLock(getLogMutex());
         return os << vBuffer;
-- 
2.43.0


From 015f3f81582f512ce2c6d73794b7bbd4782386f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:11 +0000
Subject: [PATCH 09/77] fix: unique_indices must return the first occurrence of
 each value

The index sort was not stable, so for more than a few elements any occurrence could be returned.
---
 modules/utils/include/litiv/utils/cxx.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/utils/include/litiv/utils/cxx.hpp b/modules/utils/include/litiv/utils/cxx.hpp
index 7522e07..6dd1cef 100644
--- a/modules/utils/include/litiv/utils/cxx.hpp
+++ b/modules/utils/include/litiv/utils/cxx.hpp
@@ -339,7 +339,7 @@ namespace lv {
         static_assert(std::is_integral<TIndex>::value,"index type must be integral");
         std::vector<TIndex> vnIndices(voVals.size());
         std::iota(vnIndices.begin(),vnIndices.end(),TIndex(0));
-        std::sort(vnIndices.begin(),vnIndices.end(),[&voVals](TIndex n1, TIndex n2) {
+        std::stable_sort(vnIndices.begin(),vnIndices.end(),[&voVals](TIndex n1, TIndex n2) {
             return voVals[n1]<voVals[n2];
         });
         return vnIndices;
@@ -351,7 +351,7 @@ namespace lv {
         static_assert(std::is_integral<TIndex>::value,"index type must be integral");
         std::vector<TIndex> vnIndices(voVals.size());
         std::iota(vnIndices.begin(),vnIndices.end(),TIndex(0));
-        std::sort(vnIndices.begin(),vnIndices.end(),oSortFunctor);
+        std::stable_sort(vnIndices.begin(),vnIndices.end(),oSortFunctor);
         return vnIndices;
     }
 
-- 
2.43.0


From 7cf007a0e4c33b97cd671b200a7158deda86d887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:12 +0000
Subject: [PATCH 10/77] fix: report matrix archive write errors that only
 appear when flushing

---
 modules/utils/src/opencv.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index 7415925..a615f9f 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -474,7 +474,7 @@ void lv::write(const std::string& sFilePath, const cv::Mat& _oData, lv::MatArchi
             else
                 ssStr << " ";
         }
-        lvAssert_(ssStr,"plain text archive write failed");
+        lvAssert_(ssStr.flush(),"plain text archive write failed");
     }
 #if USING_LZ4
     else if(eArchiveType==MatArchive_BINARY_LZ4) {
@@ -508,7 +508,7 @@ void lv::write(const std::string& sFilePath, const cv::Mat& _oData, lv::MatArchi
             const int32_t nComprSize = 0;
             ssStr.write((const char*)&nComprSize,sizeof(nComprSize));
         }
-        lvAssert_(ssStr,"binary archive write failed");
+        lvAssert_(ssStr.flush(),"binary archive write failed");
     }
 #endif //USING_LZ4
     else if(eArchiveType==MatArchive_BINARY) {
@@ -527,7 +527,7 @@ void lv::write(const std::string& sFilePath, const cv::Mat& _oData, lv::MatArchi
             ssStr.write((const char*)&nDimSize,sizeof(nDimSize));
         }
         ssStr.write((const char*)(oData.data),nElemSize*nElemCount);
-        lvAssert_(ssStr,"binary archive write failed");
+        lvAssert_(ssStr.flush(),"binary archive write failed");
     }
     else
         lvError("unrecognized mat archive type flag");
-- 
2.43.0


From f7f4cc5fd6fed2b948de87d2e24cfc4d3600607c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:12 +0000
Subject: [PATCH 11/77] fix: plain text matrix archives lost precision, and
 accepted a truncated last value

---
 modules/utils/src/opencv.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index a615f9f..2c4101e 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -462,6 +462,7 @@ void lv::write(const std::string& sFilePath, const cv::Mat& _oData, lv::MatArchi
         for(int nDimIdx=0; nDimIdx<oData.dims; ++nDimIdx)
             ssStr << " " << (int32_t)oData.size[nDimIdx];
         ssStr << "\n\n";
+        ssStr.precision(std::numeric_limits<double>::max_digits10); // so that all values can be restored exactly
         if(oData.depth()!=CV_64F)
             _oData.convertTo(oData,CV_64F);
         double* pdData = (double*)oData.data;
@@ -567,7 +568,7 @@ void lv::read(const std::string& sFilePath, cv::Mat& oData, lv::MatArchiveList e
             for(int nElemPackIdx=1; nElemPackIdx<oDataTemp.channels(); ++nElemPackIdx)
                 ssStr >> *pdData++;
         }
-        lvAssert_(ssStr,"plain text archive read failed");
+        lvAssert_(ssStr && std::isspace(ssStr.get()),"plain text archive read failed"); // the last value might be truncated if nothing follows
         oDataTemp.convertTo(oData,nDataDepth);
     }
 #if USING_LZ4
-- 
2.43.0


From 8cd61f3a122f1e0f2dd7db82ba7fe6e3fae9c2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:12 +0000
Subject: [PATCH 12/77] fix: check the header of binary matrix archives before
 using it

A truncated or inconsistent header led to uninitialized sizes and out-of-bounds writes.
---
 modules/utils/src/opencv.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index 2c4101e..0b8cb84 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -583,10 +583,13 @@ void lv::read(const std::string& sFilePath, cv::Mat& oData, lv::MatArchiveList e
         ssStr.read((char*)&nElemCount,sizeof(nElemCount));
         int32_t nDims;
         ssStr.read((char*)&nDims,sizeof(nDims));
+        lvAssert_(ssStr && nDims>0 && nDims<=32 /*max opencv dim count*/,"bad binary archive header");
         std::vector<int32_t> anSizes(nDims);
         for(int32_t nDimIdx=0; nDimIdx<nDims; ++nDimIdx)
             ssStr.read((char*)&anSizes[nDimIdx],sizeof(anSizes[nDimIdx]));
+        lvAssert_(ssStr,"bad binary archive header");
         oData.create(nDims,anSizes.data(),nDataType);
+        lvAssert_(nElemSize==(uint64_t)oData.elemSize() && nElemCount==(uint64_t)oData.total(),"bad binary archive header");
         lvAssert_(ssStr,"binary archive read failed");
         if(oData.total()>0u) {
             int32_t nComprSize;
@@ -617,10 +620,13 @@ void lv::read(const std::string& sFilePath, cv::Mat& oData, lv::MatArchiveList e
         ssStr.read((char*)&nElemCount,sizeof(nElemCount));
         int32_t nDims;
         ssStr.read((char*)&nDims,sizeof(nDims));
+        lvAssert_(ssStr && nDims>0 && nDims<=32 /*max opencv dim count*/,"bad binary archive header");
         std::vector<int32_t> anSizes(nDims);
         for(int32_t nDimIdx=0; nDimIdx<nDims; ++nDimIdx)
             ssStr.read((char*)&anSizes[nDimIdx],sizeof(anSizes[nDimIdx]));
+        lvAssert_(ssStr,"bad binary archive header");
         oData.create(nDims,anSizes.data(),nDataType);
+        lvAssert_(nElemSize==(uint64_t)oData.elemSize() && nElemCount==(uint64_t)oData.total(),"bad binary archive header");
         ssStr.read((char*)(oData.data),nElemSize*nElemCount);
         lvAssert_(ssStr,"binary archive read failed");
     }
-- 
2.43.0


From 4816111dcf8cf3a3302ded3abe644927ce00a6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:45 +0000
Subject: [PATCH 13/77] fix: createDirIfNotExist failed when the directory was
 concurrently created

---
 modules/utils/src/platform.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/modules/utils/src/platform.cpp b/modules/utils/src/platform.cpp
index 977b5a8..9f7971e 100644
--- a/modules/utils/src/platform.cpp
+++ b/modules/utils/src/platform.cpp
@@ -196,11 +196,10 @@ bool lv::createDirIfNotExist(const std::string& sDirPath) {
     std::wstring swDirPath(sDirPath.begin(),sDirPath.end());
     return CreateDirectory(swDirPath.c_str(),NULL)!=ERROR_PATH_NOT_FOUND;
 #else //(!defined(_MSC_VER))
-    struct stat st;
-    if(stat(sDirPath.c_str(),&st)==-1)
-        return mkdir(sDirPath.c_str(),0777)==0;
-    else
-        return (stat(sDirPath.c_str(),&st)==0 && S_ISDIR(st.st_mode));
+    if(mkdir(sDirPath.c_str(),0777)==0)
+        return true;
+    struct stat st; // might already exist, or might have just been created by someone else
+    return (stat(sDirPath.c_str(),&st)==0 && S_ISDIR(st.st_mode));
 #endif //(!defined(_MSC_VER))
 }
 
-- 
2.43.0


From 884c8090d7acafa01d77cf2a56927fcffeed1fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:14 +0000
Subject: [PATCH 14/77] fix: multi-channel integer distances must not wrap
 around

The L1, squared L2 and L2 distances of 8-bit colour vectors were accumulated in
the type used for a single channel, so that distant colours came out as near.
---
 modules/utils/include/litiv/utils/math.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/modules/utils/include/litiv/utils/math.hpp b/modules/utils/include/litiv/utils/math.hpp
index 8b75d39..183cd92 100644
--- a/modules/utils/include/litiv/utils/math.hpp
+++ b/modules/utils/include/litiv/utils/math.hpp
@@ -225,7 +225,7 @@ namespace lv {
     }
 
     /// computes the L1 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L1dist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L1dist(const Tin* a, const Tin* b) {
         Tout tResult = 0;
         for(size_t c=0; c<nChannels; ++c)
@@ -234,19 +234,19 @@ namespace lv {
     }
 
     /// computes the L1 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L1dist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L1dist(const std::array<Tin,nChannels>& a, const std::array<Tin,nChannels>& b) {
         return L1dist<nChannels,Tin,Tout>(a.data(),b.data());
     }
 
     /// computes the L1 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L1dist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L1dist(const std::array<Tin,nChannels>& a, const Tin* b) {
         return L1dist<nChannels,Tin,Tout>(a.data(),b);
     }
 
     /// computes the L1 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L1dist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L1dist(const Tin* a, const std::array<Tin,nChannels>& b) {
         return L1dist<nChannels,Tin,Tout>(a,b.data());
     }
@@ -284,7 +284,7 @@ namespace lv {
 #if USE_CVCORE_WITH_UTILS
 
     /// computes the L1 distance between two opencv vectors
-    template<int nChannels, typename Tin, typename Tout=decltype(L1dist(Tin(),Tin()))>
+    template<int nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L1dist(const cv::Vec<Tin,nChannels>& a, const cv::Vec<Tin,nChannels>& b) {
         Tin a_array[nChannels], b_array[nChannels];
         for(int c=0; c<nChannels; ++c) {
@@ -314,7 +314,7 @@ namespace lv {
     }
 
     /// computes the squared L2 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L2sqrdist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L2sqrdist(const Tin* a, const Tin* b) {
         Tout tResult = 0;
         for(size_t c=0; c<nChannels; ++c)
@@ -323,19 +323,19 @@ namespace lv {
     }
 
     /// computes the squared L2 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L2sqrdist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L2sqrdist(const std::array<Tin,nChannels>& a, const std::array<Tin,nChannels>& b) {
         return L2sqrdist<nChannels,Tin,Tout>(a.data(),b.data());
     }
 
     /// computes the squared L2 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L2sqrdist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L2sqrdist(const std::array<Tin,nChannels>& a, const Tin* b) {
         return L2sqrdist<nChannels,Tin,Tout>(a.data(),b);
     }
 
     /// computes the squared L2 distance between two generic arrays
-    template<size_t nChannels, typename Tin, typename Tout=decltype(L2sqrdist(Tin(),Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L2sqrdist(const Tin* a, const std::array<Tin,nChannels>& b) {
         return L2sqrdist<nChannels,Tin,Tout>(a,b.data());
     }
@@ -373,7 +373,7 @@ namespace lv {
 #if USE_CVCORE_WITH_UTILS
 
     /// computes the squared L2 distance between two opencv vectors
-    template<int nChannels, typename Tin, typename Tout=decltype(L2sqrdist(Tin(),Tin()))>
+    template<int nChannels, typename Tin, typename Tout=std::conditional_t<std::is_integral<Tin>::value,size_t,Tin>>
     inline Tout L2sqrdist(const cv::Vec<Tin,nChannels>& a, const cv::Vec<Tin,nChannels>& b) {
         Tin a_array[nChannels], b_array[nChannels];
         for(int c=0; c<nChannels; ++c) {
@@ -390,7 +390,7 @@ namespace lv {
     /// computes the L2 distance between two integer arrays
     template<size_t nChannels, typename Tin, typename Tout=float, typename=std::enable_if_t<std::is_integral<Tin>::value>>
     inline Tout L2dist(const Tin* a, const Tin* b) {
-        decltype(L2sqrdist(Tin(),Tin())) tResult = 0;
+        size_t tResult = 0;
         for(size_t c=0; c<nChannels; ++c)
             tResult += L2sqrdist(a[c],b[c]);
         return (Tout)std::sqrt(tResult);
-- 
2.43.0


From 93685cd88ad653763a2e5c31b1e8f4b6fb90682c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:49 +0000
Subject: [PATCH 15/77] fix: interp1 must interpolate on the segment that
 contains the request

The slope of the nearest sample was used, which extrapolates the next segment for
requests in the second half of a segment.
---
 modules/utils/include/litiv/utils/math.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/modules/utils/include/litiv/utils/math.hpp b/modules/utils/include/litiv/utils/math.hpp
index 183cd92..a378bad 100644
--- a/modules/utils/include/litiv/utils/math.hpp
+++ b/modules/utils/include/litiv/utils/math.hpp
@@ -931,12 +931,11 @@ namespace lv {
         }
         const size_t nReqSize = vXReq.size();
         std::vector<Ty> vYReq(nReqSize);
-        typedef decltype(lv::L1dist<Tx>((Tx)0,(Tx)0)) DistType;
-        DistType (&rlDist)(Tx,Tx) = lv::L1dist<Tx>;
         for(size_t i=0; i<nReqSize; ++i) {
-            if(vXReq[i]>=vX.front() && vXReq[i]<=vX.back()) {
-                const size_t nNNIdx = lv::find_nn_index(vXReq[i],vX,rlDist);
-                vYReq[i] = vSlope[nNNIdx]*vXReq[i]+vOffset[nNNIdx];
+            if(vXReq[i]>=vX[0] && vXReq[i]<=vX[nSize-1]) {
+                // the last sample which is not above the request starts the segment to interpolate on
+                const size_t nIdx = size_t(std::upper_bound(vX.begin(),vX.begin()+nSize,vXReq[i])-vX.begin())-1;
+                vYReq[i] = vSlope[nIdx]*vXReq[i]+vOffset[nIdx];
             }
             else
                 lvStdError_(domain_error,"extrapolation not supported");
-- 
2.43.0


From 6b152d87bee040564b2f3a8e55a91300fdfea4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:45 +0000
Subject: [PATCH 16/77] fix: expand_bits must shift in the requested type, not
 in int

---
 modules/utils/include/litiv/utils/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/utils/include/litiv/utils/math.hpp b/modules/utils/include/litiv/utils/math.hpp
index a378bad..47f41ec 100644
--- a/modules/utils/include/litiv/utils/math.hpp
+++ b/modules/utils/include/litiv/utils/math.hpp
@@ -987,7 +987,7 @@ namespace lv {
     constexpr std::enable_if_t<(nWordBitSize>1),T> expand_bits(const T& nBits, size_t n=((sizeof(T)*8)/nWordBitSize)-1) {
         static_assert(std::is_integral<T>::value,"input value type must be integer");
         // only the first [(sizeof(T)*8)/nWordBitSize] bits are kept (otherwise overflow/ignored)
-        return (T)(bool((nBits&(1<<n))!=0)<<(n*nWordBitSize)) + ((n>=1)?expand_bits<nWordBitSize,T>(nBits,n-1):(T)0);
+        return (T)(T((nBits&(T(1)<<n))!=0)<<(n*nWordBitSize)) + ((n>=1)?expand_bits<nWordBitSize,T>(nBits,n-1):(T)0);
     }
 
     /// performs LU decomposition of a MxM matrix A (function signature is the same as OpenCV's LU32f/LU64f) --- only efficient for small matrices
-- 
2.43.0


From 5bee4c2ebdcc35647c019374f8ce77090e23644e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:10 +0000
Subject: [PATCH 17/77] fix: LBSP must describe the pixel that the keypoint
 border filter validated

Keypoints were filtered with rounded coordinates but described (and partly reshaped)
with truncated ones, which read outside the image near its left and top borders.
---
 modules/features2d/src/LBSP.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/modules/features2d/src/LBSP.cpp b/modules/features2d/src/LBSP.cpp
index 18b586b..5a7db5f 100644
--- a/modules/features2d/src/LBSP.cpp
+++ b/modules/features2d/src/LBSP.cpp
@@ -165,8 +165,9 @@ void lbsp_computeImpl(const cv::Mat& oInputImg, const cv::Mat& oRefImg, const st
         else
             oDesc.create(oInputImg.size(),CV_16UC1);
         for(size_t k=0; k<nKeyPoints; ++k) {
-            const int x = (int)voKeyPoints[k].pt.x;
-            const int y = (int)voKeyPoints[k].pt.y;
+            const cv::Point oPt = voKeyPoints[k].pt; // rounded, as done when filtering keypoints near borders
+            const int x = oPt.x;
+            const int y = oPt.y;
             ushort& nResult = bSingleColumnDesc?oDesc.at<ushort>((int)k):oDesc.at<ushort>(y,x);
             LBSP::computeDescriptor<1>(oInputImg,oRefMat.at<uchar>(y,x),x,y,0,t,nResult);
         }
@@ -178,8 +179,9 @@ void lbsp_computeImpl(const cv::Mat& oInputImg, const cv::Mat& oRefImg, const st
             oDesc.create(oInputImg.size(),CV_16UC3);
         alignas(16) const std::array<uchar,3> anThreshold = {t,t,t};
         for(size_t k=0; k<nKeyPoints; ++k) {
-            const int x = (int)voKeyPoints[k].pt.x;
-            const int y = (int)voKeyPoints[k].pt.y;
+            const cv::Point oPt = voKeyPoints[k].pt; // rounded, as done when filtering keypoints near borders
+            const int x = oPt.x;
+            const int y = oPt.y;
             const uchar* acRef = oRefMat.data+oInputImg.step.p[0]*y+oInputImg.step.p[1]*x;
             ushort* anResult = (ushort*)(bSingleColumnDesc?(oDesc.data+oDesc.step.p[0]*k):(oDesc.data+oDesc.step.p[0]*y+oDesc.step.p[1]*x));
             LBSP::computeDescriptor(oInputImg,acRef,x,y,anThreshold,anResult);
@@ -201,8 +203,9 @@ void lbsp_computeImpl(const cv::Mat& oInputImg, const cv::Mat& oRefImg, const st
         else
             oDesc.create(oInputImg.size(),CV_16UC1);
         for(size_t k=0; k<nKeyPoints; ++k) {
-            const int x = (int)voKeyPoints[k].pt.x;
-            const int y = (int)voKeyPoints[k].pt.y;
+            const cv::Point oPt = voKeyPoints[k].pt; // rounded, as done when filtering keypoints near borders
+            const int x = oPt.x;
+            const int y = oPt.y;
             const uchar nThreshold = cv::saturate_cast<uchar>(oRefMat.at<uchar>(y,x)*fThreshold+nThresholdOffset);
             ushort& nResult = bSingleColumnDesc?oDesc.at<ushort>((int)k):oDesc.at<ushort>(y,x);
             LBSP::computeDescriptor<1>(oInputImg,oRefMat.at<uchar>(y,x),x,y,0,nThreshold,nResult);
@@ -214,8 +217,9 @@ void lbsp_computeImpl(const cv::Mat& oInputImg, const cv::Mat& oRefImg, const st
         else
             oDesc.create(oInputImg.size(),CV_16UC3);
         for(size_t k=0; k<nKeyPoints; ++k) {
-            const int x = (int)voKeyPoints[k].pt.x;
-            const int y = (int)voKeyPoints[k].pt.y;
+            const cv::Point oPt = voKeyPoints[k].pt; // rounded, as done when filtering keypoints near borders
+            const int x = oPt.x;
+            const int y = oPt.y;
             const uchar* acRef = oRefMat.data+oInputImg.step.p[0]*y+oInputImg.step.p[1]*x;
             alignas(16) const std::array<uchar,3> anThreshold = {cv::saturate_cast<uchar>(acRef[0]*fThreshold+nThresholdOffset),
                                                                  cv::saturate_cast<uchar>(acRef[1]*fThreshold+nThresholdOffset),
@@ -305,9 +309,10 @@ void LBSP::reshapeDesc(cv::Size oSize, const std::vector<cv::KeyPoint>& voKeypoi
         oOutput.create(oSize,CV_16UC3);
         oOutput = cv::Scalar_<ushort>(0,0,0);
         for(size_t k=0; k<nKeyPoints; ++k) {
-            ushort* output_ptr = (ushort*)(oOutput.data + oOutput.step.p[0]*(int)voKeypoints[k].pt.y);
+            const cv::Point oPt = voKeypoints[k].pt;
+            ushort* output_ptr = (ushort*)(oOutput.data + oOutput.step.p[0]*oPt.y);
             const ushort* const desc_ptr = (ushort*)(oDescriptors.data + oDescriptors.step.p[0]*k);
-            const size_t idx = 3*(int)voKeypoints[k].pt.x;
+            const size_t idx = 3*oPt.x;
             for(size_t n=0; n<3; ++n)
                 output_ptr[idx+n] = desc_ptr[n];
         }
-- 
2.43.0


From 4ee65aaad5e9b77f0879ae4f88afd3b036cff3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:57 +0000
Subject: [PATCH 18/77] fix: keep the strides of non-continuous matrices in
 getBasicMat

The single-channel views of sub-matrices were built as if the elements were
packed, so comparing or printing a sub-matrix used elements outside it.
---
 modules/utils/include/litiv/utils/opencv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/utils/include/litiv/utils/opencv.hpp b/modules/utils/include/litiv/utils/opencv.hpp
index 30a323d..10de508 100644
--- a/modules/utils/include/litiv/utils/opencv.hpp
+++ b/modules/utils/include/litiv/utils/opencv.hpp
@@ -607,11 +607,11 @@ namespace lv {
         static_assert(isDataTypeCompat<T>(),"matrix type must be cv-compatible, and without channels");
         lvAssert_(lv::MatType(oMat.type()).isTypeCompat<T>(),"input mat type is not compatible with required output type");
         if(oMat.channels()==1)
-            return cv::Mat_<T>(oMat.dims,oMat.size,const_cast<T*>((const T*)oMat.data));
+            return cv::Mat_<T>(oMat.dims,oMat.size,const_cast<T*>((const T*)oMat.data),oMat.step.p);
         std::vector<int> vDims((size_t)(oMat.dims+1),oMat.channels());
         for(int nDimIdx=0; nDimIdx<oMat.dims; ++nDimIdx)
             vDims[nDimIdx] = oMat.size[nDimIdx];
-        return cv::Mat_<T>(oMat.dims+1,vDims.data(),const_cast<T*>((const T*)oMat.data));
+        return cv::Mat_<T>(oMat.dims+1,vDims.data(),const_cast<T*>((const T*)oMat.data),oMat.step.p);
     }
 
     /// returns a subselection of a n-dimension matrix by specifying one dim+range pair, without copying data
-- 
2.43.0


From 2cd836caa2775570a9405bebb315cacd05588daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:57 +0000
Subject: [PATCH 19/77] fix: interpolate between the right pixels at negative
 coordinates in getSubPix

Truncation towards zero extrapolated instead of interpolating at positions
left of or above the image.
---
 modules/utils/include/litiv/utils/opencv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/utils/include/litiv/utils/opencv.hpp b/modules/utils/include/litiv/utils/opencv.hpp
index 10de508..b828860 100644
--- a/modules/utils/include/litiv/utils/opencv.hpp
+++ b/modules/utils/include/litiv/utils/opencv.hpp
@@ -641,7 +641,7 @@ namespace lv {
         static_assert(lv::isDataTypeCompat<TMatVal>(),"bad templated data type used for sub pixel sampling");
         static_assert(std::is_arithmetic<TRetVal>::value,"output type must be arithmetic type");
         lvDbgAssert_(!oMat.empty() && oMat.dims==2,"bad input matrix");
-        const int nRows=oMat.rows,nCols=oMat.cols,nX=(int)fX,nY=(int)fY;
+        const int nRows=oMat.rows,nCols=oMat.cols,nX=(int)std::floor(fX),nY=(int)std::floor(fY);
         const int nX0=cv::borderInterpolate(nX,nCols,nBorderType),nX1=cv::borderInterpolate(nX+1,nCols,nBorderType);
         const int nY0=cv::borderInterpolate(nY,nRows,nBorderType),nY1=cv::borderInterpolate(nY+1,nRows,nBorderType);
         const float fDX=fX-(float)nX,fDY=fY-(float)nY;
@@ -670,7 +670,7 @@ namespace lv {
         static_assert(lv::isDataTypeCompat<TMatVal>(),"bad templated data type used for sub pixel sampling");
         static_assert(std::is_arithmetic<TRetVal>::value,"output type must be arithmetic type");
         lvDbgAssert_(!oMat.empty() && oMat.dims==2 && oMat.channels()==1,"bad input matrix");
-        const int nRows=oMat.rows,nCols=oMat.cols,nX=(int)fX,nY=(int)fY;
+        const int nRows=oMat.rows,nCols=oMat.cols,nX=(int)std::floor(fX),nY=(int)std::floor(fY);
         const int nX0=cv::borderInterpolate(nX,nCols,nBorderType),nX1=cv::borderInterpolate(nX+1,nCols,nBorderType);
         const int nY0=cv::borderInterpolate(nY,nRows,nBorderType),nY1=cv::borderInterpolate(nY+1,nRows,nBorderType);
         const float fDX = fX-(float)nX, fDY=fY-(float)nY;
-- 
2.43.0


From 9a8aea7a1f840ea47b53ccc33a78f8193e117391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:57 +0000
Subject: [PATCH 20/77] fix: do not read past the mask for keypoints in its
 last half pixel

Keypoint coordinates are rounded to index the mask, which gave the column
(or row) after the last one.
---
 modules/utils/include/litiv/utils/opencv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/utils/include/litiv/utils/opencv.hpp b/modules/utils/include/litiv/utils/opencv.hpp
index b828860..a19152f 100644
--- a/modules/utils/include/litiv/utils/opencv.hpp
+++ b/modules/utils/include/litiv/utils/opencv.hpp
@@ -1109,7 +1109,7 @@ namespace lv {
         std::vector<cv::KeyPoint> vNewKPs;
         vNewKPs.reserve(vKPs.size());
         for(const auto& oKP : vKPs) {
-            if(oKP.pt.x>=0 && oKP.pt.x<oROI.cols && oKP.pt.y>=0 && oKP.pt.y<oROI.rows && oROI.at<uint8_t>(oKP.pt)>0)
+            if(oKP.pt.x>=0 && oKP.pt.x<oROI.cols && oKP.pt.y>=0 && oKP.pt.y<oROI.rows && oROI.at<uint8_t>(std::min(cvRound(oKP.pt.y),oROI.rows-1),std::min(cvRound(oKP.pt.x),oROI.cols-1))>0)
                 vNewKPs.push_back(oKP);
         }
         vKPs = vNewKPs;
-- 
2.43.0


From cab600d1679369e3e49592b6c58cfeee8e60f738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:53 +0000
Subject: [PATCH 21/77] fix: compare all elements of multi-channel sub-matrices
 in isNearlyEqual

The end iterator of a non-continuous matrix of three dimensions or more equals
the start of its second slice, so only the first slice was compared.
---
 modules/utils/include/litiv/utils/opencv.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/modules/utils/include/litiv/utils/opencv.hpp b/modules/utils/include/litiv/utils/opencv.hpp
index a19152f..70f8556 100644
--- a/modules/utils/include/litiv/utils/opencv.hpp
+++ b/modules/utils/include/litiv/utils/opencv.hpp
@@ -1150,13 +1150,11 @@ namespace lv {
             return false;
         lvDbgAssert(a_.total()*a_.elemSize()==b_.total()*b_.elemSize());
         lvAssert_(lv::MatType(a_.type()).isTypeCompat<T>(),"templated element type mismatch with input mats");
-        cv::Mat_<T> a = lv::getBasicMat<T>(a_), b = lv::getBasicMat<T>(b_);
+        // note: opencv's iterators stop too early on non-continuous n-dim mats, so copy those instead
+        const cv::Mat oContA = a_.isContinuous()?a_:a_.clone(), oContB = b_.isContinuous()?b_:b_.clone();
+        const cv::Mat_<T> a = lv::getBasicMat<T>(oContA), b = lv::getBasicMat<T>(oContB);
         const double dEps = double(eps);
-        if(a.isContinuous() && b.isContinuous())
-            return std::equal((T*)a.data,(T*)(a.data+a.total()*a.elemSize()),(T*)b.data,[&dEps](const T& _a, const T& _b){
-                return std::abs(double(_a)-double(_b))<=dEps;
-            });
-        return std::equal(a.begin(),a.end(),b.begin(),[&dEps](const T& _a, const T& _b){
+        return std::equal((T*)a.data,(T*)(a.data+a.total()*a.elemSize()),(T*)b.data,[&dEps](const T& _a, const T& _b){
             return std::abs(double(_a)-double(_b))<=dEps;
         });
     }
-- 
2.43.0


From c4fc0360236ff7fcccaf3c907359c7cd85926d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:05 +0000
Subject: [PATCH 22/77] fix: do not write around output masks that are views of
 larger images

PBAS, LOBSTER, SuBSENSE and PAWCS indexed the mask they were given as if it
were continuous, overwriting pixels next to it (or out of bounds) otherwise.
---
 .../video/src/BackgroundSubtractorLOBSTER.cpp    |  6 ++----
 modules/video/src/BackgroundSubtractorPAWCS.cpp  |  6 ++----
 modules/video/src/BackgroundSubtractorPBAS.cpp   | 16 ++++++----------
 .../video/src/BackgroundSubtractorSuBSENSE.cpp   |  6 ++----
 4 files changed, 12 insertions(+), 22 deletions(-)

diff --git a/modules/video/src/BackgroundSubtractorLOBSTER.cpp b/modules/video/src/BackgroundSubtractorLOBSTER.cpp
index 9c9bf0a..6721e37 100644
--- a/modules/video/src/BackgroundSubtractorLOBSTER.cpp
+++ b/modules/video/src/BackgroundSubtractorLOBSTER.cpp
@@ -464,9 +464,7 @@ void BackgroundSubtractorLOBSTER::apply(cv::InputArray _oInputImg, cv::OutputArr
     cv::Mat oInputImg = _oInputImg.getMat();
     lvAssert_(oInputImg.type()==m_nImgType && oInputImg.size()==m_oImgSize,"input image type/size mismatch with initialization type/size");
     lvAssert_(oInputImg.isContinuous(),"input image data must be continuous");
-    _oFGMask.create(m_oImgSize,CV_8UC1);
-    cv::Mat oCurrFGMask = _oFGMask.getMat();
-    oCurrFGMask = cv::Scalar_<uchar>(0);
+    cv::Mat oCurrFGMask(m_oImgSize,CV_8UC1,cv::Scalar_<uchar>(0)); // note: internal copy, as the output mask might not be continuous
     const size_t nLearningRate = std::isinf(dLearningRate)?SIZE_MAX:(size_t)ceil(dLearningRate);
     if(m_nImgChannels==1) {
         for(size_t nModelIter=0; nModelIter<m_nTotRelevantPxCount; ++nModelIter) {
@@ -576,7 +574,7 @@ void BackgroundSubtractorLOBSTER::apply(cv::InputArray _oInputImg, cv::OutputArr
         }
     }
     cv::medianBlur(oCurrFGMask,m_oLastFGMask,m_nDefaultMedianBlurKernelSize);
-    m_oLastFGMask.copyTo(oCurrFGMask);
+    m_oLastFGMask.copyTo(_oFGMask);
     oInputImg.copyTo(m_oLastColorFrame);
 }
 
diff --git a/modules/video/src/BackgroundSubtractorPAWCS.cpp b/modules/video/src/BackgroundSubtractorPAWCS.cpp
index 801e774..b1f883f 100644
--- a/modules/video/src/BackgroundSubtractorPAWCS.cpp
+++ b/modules/video/src/BackgroundSubtractorPAWCS.cpp
@@ -562,9 +562,7 @@ void BackgroundSubtractorPAWCS::apply(cv::InputArray _image, cv::OutputArray _fg
     cv::Mat oInputImg = _image.getMat();
     lvAssert_(oInputImg.type()==m_nImgType && oInputImg.size()==m_oImgSize,"input image type/size mismatch with initialization type/size");
     lvAssert_(oInputImg.isContinuous(),"input image data must be continuous");
-    _fgmask.create(m_oImgSize,CV_8UC1);
-    cv::Mat oCurrFGMask = _fgmask.getMat();
-    memset(oCurrFGMask.data,0,oCurrFGMask.cols*oCurrFGMask.rows);
+    cv::Mat oCurrFGMask(m_oImgSize,CV_8UC1,cv::Scalar_<uchar>(0)); // note: internal copy, as the output mask might not be continuous
     const bool bBootstrapping = ++m_nFrameIdx<=DEFAULT_BOOTSTRAP_WIN_SIZE;
     const size_t nCurrSamplesForMovingAvg_LT = bBootstrapping?m_nSamplesForMovingAvgs/2:m_nSamplesForMovingAvgs;
     const size_t nCurrSamplesForMovingAvg_ST = nCurrSamplesForMovingAvg_LT/4;
@@ -1456,7 +1454,7 @@ void BackgroundSubtractorPAWCS::apply(cv::InputArray _image, cv::OutputArray _fg
     cv::bitwise_and(m_oBlinksFrame,m_oLastFGMask_dilated_inverted,m_oBlinksFrame);
     cv::bitwise_not(m_oLastFGMask_dilated,m_oLastFGMask_dilated_inverted);
     cv::bitwise_and(m_oBlinksFrame,m_oLastFGMask_dilated_inverted,m_oBlinksFrame);
-    m_oLastFGMask.copyTo(oCurrFGMask);
+    m_oLastFGMask.copyTo(_fgmask);
     cv::addWeighted(m_oMeanFinalSegmResFrame_LT,(1.0f-fRollAvgFactor_LT),m_oLastFGMask,(1.0/UCHAR_MAX)*fRollAvgFactor_LT,0,m_oMeanFinalSegmResFrame_LT,CV_32F);
     cv::addWeighted(m_oMeanFinalSegmResFrame_ST,(1.0f-fRollAvgFactor_ST),m_oLastFGMask,(1.0/UCHAR_MAX)*fRollAvgFactor_ST,0,m_oMeanFinalSegmResFrame_ST,CV_32F);
     const float fCurrNonFlatRegionRatio = (float)(m_nTotRelevantPxCount-nFlatRegionCount)/m_nTotRelevantPxCount;
diff --git a/modules/video/src/BackgroundSubtractorPBAS.cpp b/modules/video/src/BackgroundSubtractorPBAS.cpp
index 3301dbb..c74401f 100644
--- a/modules/video/src/BackgroundSubtractorPBAS.cpp
+++ b/modules/video/src/BackgroundSubtractorPBAS.cpp
@@ -110,9 +110,7 @@ void BackgroundSubtractorPBAS_1ch::apply(cv::InputArray _image, cv::OutputArray
     lvAssert(m_bInitialized);
     cv::Mat oInputImg = _image.getMat();
     lvAssert(oInputImg.type()==CV_8UC1 && oInputImg.size()==m_oImgSize);
-    _fgmask.create(m_oImgSize,CV_8UC1);
-    cv::Mat oFGMask = _fgmask.getMat();
-    oFGMask = cv::Scalar_<uchar>(0);
+    cv::Mat oFGMask(m_oImgSize,CV_8UC1,cv::Scalar_<uchar>(0)); // note: internal copy, as the output mask might not be continuous
     cv::Mat oBlurredInputImg;
     cv::GaussianBlur(oInputImg,oBlurredInputImg,cv::Size(3,3),0,0,cv::BORDER_DEFAULT);
     cv::Mat oBlurredInputImg_GradX, oBlurredInputImg_GradY;
@@ -259,11 +257,11 @@ void BackgroundSubtractorPBAS_1ch::apply(cv::InputArray _image, cv::OutputArray
     //cv::imshow("median3 de3 fill region",m_oFloodedFGMask);
     cv::bitwise_or(m_oFloodedFGMask,m_oLastFGMask,oFGMask);
     //cv::imshow("median3 post-fill",oFGMask);
-    cv::medianBlur(oFGMask,oFGMask,9);
+    cv::medianBlur(oFGMask,_fgmask,9);
     //cv::imshow("median3 post-fill, +median9 ",oFGMask);
     //cv::waitKey(0);
 #else //(!BGSPBAS_USE_ADVANCED_MORPH_OPS)
-    cv::medianBlur(oFGMask,oFGMask,9);
+    cv::medianBlur(oFGMask,_fgmask,9);
 #endif //(!BGSPBAS_USE_ADVANCED_MORPH_OPS)
 }
 
@@ -334,9 +332,7 @@ void BackgroundSubtractorPBAS_3ch::apply(cv::InputArray _image, cv::OutputArray
         oInputImgRGB = oInputImg;
     else
         cv::cvtColor(oInputImg,oInputImgRGB,cv::COLOR_GRAY2BGR);
-    _fgmask.create(m_oImgSize,CV_8UC1);
-    cv::Mat oFGMask = _fgmask.getMat();
-    oFGMask = cv::Scalar_<uchar>(0);
+    cv::Mat oFGMask(m_oImgSize,CV_8UC1,cv::Scalar_<uchar>(0)); // note: internal copy, as the output mask might not be continuous
     cv::Mat oBlurredInputImg;
     cv::GaussianBlur(oInputImgRGB,oBlurredInputImg,cv::Size(3,3),0,0,cv::BORDER_DEFAULT);
     cv::Mat oBlurredInputImg_GradX, oBlurredInputImg_GradY;
@@ -487,10 +483,10 @@ void BackgroundSubtractorPBAS_3ch::apply(cv::InputArray _image, cv::OutputArray
     //cv::imshow("median3 de3 fill region",m_oFloodedFGMask);
     cv::bitwise_or(m_oFloodedFGMask,m_oLastFGMask,oFGMask);
     //cv::imshow("median3 post-fill",oFGMask);
-    cv::medianBlur(oFGMask,oFGMask,9);
+    cv::medianBlur(oFGMask,_fgmask,9);
     //cv::imshow("median3 post-fill, +median9 ",oFGMask);
     //cv::waitKey(0);
 #else //(!BGSPBAS_USE_ADVANCED_MORPH_OPS)
-    cv::medianBlur(oFGMask,oFGMask,9);
+    cv::medianBlur(oFGMask,_fgmask,9);
 #endif //(!BGSPBAS_USE_ADVANCED_MORPH_OPS)
 }
diff --git a/modules/video/src/BackgroundSubtractorSuBSENSE.cpp b/modules/video/src/BackgroundSubtractorSuBSENSE.cpp
index 055c778..82d191a 100644
--- a/modules/video/src/BackgroundSubtractorSuBSENSE.cpp
+++ b/modules/video/src/BackgroundSubtractorSuBSENSE.cpp
@@ -191,9 +191,7 @@ void BackgroundSubtractorSuBSENSE::apply(cv::InputArray _image, cv::OutputArray
     cv::Mat oInputImg = _image.getMat();
     lvAssert_(oInputImg.type()==m_nImgType && oInputImg.size()==m_oImgSize,"input image type/size mismatch with initialization type/size");
     lvAssert_(oInputImg.isContinuous(),"input image data must be continuous");
-    _fgmask.create(m_oImgSize,CV_8UC1);
-    cv::Mat oCurrFGMask = _fgmask.getMat();
-    memset(oCurrFGMask.data,0,oCurrFGMask.cols*oCurrFGMask.rows);
+    cv::Mat oCurrFGMask(m_oImgSize,CV_8UC1,cv::Scalar_<uchar>(0)); // note: internal copy, as the output mask might not be continuous
     size_t nNonZeroDescCount = 0;
     const float fRollAvgFactor_LT = 1.0f/std::min(++m_nFrameIdx,m_nSamplesForMovingAvgs);
     const float fRollAvgFactor_ST = 1.0f/std::min(m_nFrameIdx,m_nSamplesForMovingAvgs/4);
@@ -549,7 +547,7 @@ void BackgroundSubtractorSuBSENSE::apply(cv::InputArray _image, cv::OutputArray
     cv::bitwise_and(m_oBlinksFrame,m_oLastFGMask_dilated_inverted,m_oBlinksFrame);
     cv::bitwise_not(m_oLastFGMask_dilated,m_oLastFGMask_dilated_inverted);
     cv::bitwise_and(m_oBlinksFrame,m_oLastFGMask_dilated_inverted,m_oBlinksFrame);
-    m_oLastFGMask.copyTo(oCurrFGMask);
+    m_oLastFGMask.copyTo(_fgmask);
     cv::addWeighted(m_oMeanFinalSegmResFrame_LT,(1.0f-fRollAvgFactor_LT),m_oLastFGMask,(1.0/UCHAR_MAX)*fRollAvgFactor_LT,0,m_oMeanFinalSegmResFrame_LT,CV_32F);
     cv::addWeighted(m_oMeanFinalSegmResFrame_ST,(1.0f-fRollAvgFactor_ST),m_oLastFGMask,(1.0/UCHAR_MAX)*fRollAvgFactor_ST,0,m_oMeanFinalSegmResFrame_ST,CV_32F);
     const float fCurrNonZeroDescRatio = (float)nNonZeroDescCount/m_nTotRelevantPxCount;
-- 
2.43.0


From ecd04f13125f90d98da37616d765d4767d1b7f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:05 +0000
Subject: [PATCH 23/77] fix: accept non-continuous frames in grayscale PBAS

The row step of the frame was used to index the internal maps, which are
smaller when the frame is a view of a larger image.
---
 modules/video/src/BackgroundSubtractorPBAS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/video/src/BackgroundSubtractorPBAS.cpp b/modules/video/src/BackgroundSubtractorPBAS.cpp
index c74401f..1bced8c 100644
--- a/modules/video/src/BackgroundSubtractorPBAS.cpp
+++ b/modules/video/src/BackgroundSubtractorPBAS.cpp
@@ -110,6 +110,8 @@ void BackgroundSubtractorPBAS_1ch::apply(cv::InputArray _image, cv::OutputArray
     lvAssert(m_bInitialized);
     cv::Mat oInputImg = _image.getMat();
     lvAssert(oInputImg.type()==CV_8UC1 && oInputImg.size()==m_oImgSize);
+    if(!oInputImg.isContinuous())
+        oInputImg = oInputImg.clone(); // internal maps are all indexed like a continuous image below
     cv::Mat oFGMask(m_oImgSize,CV_8UC1,cv::Scalar_<uchar>(0)); // note: internal copy, as the output mask might not be continuous
     cv::Mat oBlurredInputImg;
     cv::GaussianBlur(oInputImg,oBlurredInputImg,cv::Size(3,3),0,0,cv::BORDER_DEFAULT);
-- 
2.43.0


From 7508740352d28b6670d5df59bd1d8a4519765999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:05 +0000
Subject: [PATCH 24/77] fix: reset the mean gradient distance when PBAS is
 re-initialized

The first frames of a new sequence were otherwise judged with the statistics
of the previous one.
---
 modules/video/src/BackgroundSubtractorPBAS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/video/src/BackgroundSubtractorPBAS.cpp b/modules/video/src/BackgroundSubtractorPBAS.cpp
index 1bced8c..df8c9b8 100644
--- a/modules/video/src/BackgroundSubtractorPBAS.cpp
+++ b/modules/video/src/BackgroundSubtractorPBAS.cpp
@@ -79,6 +79,7 @@ void BackgroundSubtractorPBAS_1ch::initialize(const cv::Mat& oInitImg) {
     m_oFloodedFGMask = cv::Scalar(0);
     lvAssert(m_voBGImg.size()==(size_t)m_nBGSamples);
     lvAssert(m_voBGGrad.size()==(size_t)m_nBGSamples);
+    m_fFormerMeanGradDist = 20.0f;
     cv::Mat oBlurredInitImg;
     cv::GaussianBlur(oInitImg,oBlurredInitImg,cv::Size(3,3),0,0,cv::BORDER_DEFAULT);
     cv::Mat oBlurredInitImg_GradX, oBlurredInitImg_GradY;
@@ -298,6 +299,7 @@ void BackgroundSubtractorPBAS_3ch::initialize(const cv::Mat& oInitImg) {
     m_oFloodedFGMask = cv::Scalar(0);
     lvAssert(m_voBGImg.size()==(size_t)m_nBGSamples);
     lvAssert(m_voBGGrad.size()==(size_t)m_nBGSamples);
+    m_fFormerMeanGradDist = 20.0f;
     cv::Mat oBlurredInitImg;
     cv::GaussianBlur(oInitImgRGB,oBlurredInitImg,cv::Size(3,3),0,0,cv::BORDER_DEFAULT);
     cv::Mat oBlurredInitImg_GradX, oBlurredInitImg_GradY;
-- 
2.43.0


From 3deca62c22ca8647d1e24cfdccfd5dedaac7a703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:23 +0000
Subject: [PATCH 25/77] fix: initialize LOBSTER's descriptors from the actual
 pixels around the ROI

The frame used to fill the model only held the pixels of the ROI, so that
descriptors close to its border (or to the image's) were computed against
zeros and a static scene was segmented as foreground there.
---
 modules/video/src/BackgroundSubtractionUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/video/src/BackgroundSubtractionUtils.cpp b/modules/video/src/BackgroundSubtractionUtils.cpp
index 132e464..96e0d73 100644
--- a/modules/video/src/BackgroundSubtractionUtils.cpp
+++ b/modules/video/src/BackgroundSubtractionUtils.cpp
@@ -113,7 +113,7 @@ void IIBackgroundSubtractor::initialize_common(const cv::Mat& oInitImg, const cv
     m_oLastFGMask.create(m_oImgSize,CV_8UC1);
     m_oLastFGMask = cv::Scalar_<uchar>(0);
     m_oLastColorFrame.create(m_oImgSize,CV_8UC((int)m_nImgChannels));
-    m_oLastColorFrame = cv::Scalar_<uchar>::all(0);
+    oInitImg.copyTo(m_oLastColorFrame); // note: descriptors also look at pixels outside the ROI
     m_vnPxIdxLUT.resize(m_nTotRelevantPxCount);
     m_voPxInfoLUT.resize(m_nTotPxCount);
     if(m_nImgChannels==1) {
-- 
2.43.0


From 6d08d46603bfa7ad249bfc15709e318ef865f498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:35 +0000
Subject: [PATCH 26/77] fix: only use the frame's own pixels in colour PBAS

Blurring and differentiating a view of a larger image used the pixels around
the view, unlike the model initialization, which refuses such views.
---
 modules/video/src/BackgroundSubtractorPBAS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/video/src/BackgroundSubtractorPBAS.cpp b/modules/video/src/BackgroundSubtractorPBAS.cpp
index df8c9b8..1e1929f 100644
--- a/modules/video/src/BackgroundSubtractorPBAS.cpp
+++ b/modules/video/src/BackgroundSubtractorPBAS.cpp
@@ -333,7 +333,7 @@ void BackgroundSubtractorPBAS_3ch::apply(cv::InputArray _image, cv::OutputArray
     lvAssert((oInputImg.type()==CV_8UC1 || oInputImg.type()==CV_8UC3) && oInputImg.size()==m_oImgSize);
     cv::Mat oInputImgRGB;
     if(oInputImg.type()==CV_8UC3)
-        oInputImgRGB = oInputImg;
+        oInputImgRGB = oInputImg.isContinuous()?oInputImg:oInputImg.clone(); // filters would look at pixels around a submatrix
     else
         cv::cvtColor(oInputImg,oInputImgRGB,cv::COLOR_GRAY2BGR);
     cv::Mat oFGMask(m_oImgSize,CV_8UC1,cv::Scalar_<uchar>(0)); // note: internal copy, as the output mask might not be continuous
-- 
2.43.0


From bd6613a9dc549dbf88c3fb83919ceea73a3b4523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:30 +0000
Subject: [PATCH 27/77] fix: drop the previous dictionaries when PAWCS is
 re-initialized

---
 modules/video/src/BackgroundSubtractorPAWCS.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/video/src/BackgroundSubtractorPAWCS.cpp b/modules/video/src/BackgroundSubtractorPAWCS.cpp
index b1f883f..3ae7e73 100644
--- a/modules/video/src/BackgroundSubtractorPAWCS.cpp
+++ b/modules/video/src/BackgroundSubtractorPAWCS.cpp
@@ -513,8 +513,8 @@ void BackgroundSubtractorPAWCS::initialize(const cv::Mat& oInitImg, const cv::Ma
     m_oTempGlobalWordWeightDiffFactor = cv::Scalar(-0.1f);
     m_oMorphExStructElement = cv::getStructuringElement(cv::MORPH_RECT,cv::Size(3,3));
     m_voPxInfoLUT_PAWCS.resize(m_nTotPxCount);
-    m_vpLocalWordDict.resize(m_nTotRelevantPxCount*m_nCurrLocalWords,nullptr);
-    m_vpGlobalWordDict.resize(m_nCurrGlobalWords,nullptr);
+    m_vpLocalWordDict.assign(m_nTotRelevantPxCount*m_nCurrLocalWords,nullptr);
+    m_vpGlobalWordDict.assign(m_nCurrGlobalWords,nullptr);
     if(m_nImgChannels==1) {
         m_voLocalWordList_1ch.resize(m_nTotRelevantPxCount*m_nCurrLocalWords);
         m_pLocalWordListIter_1ch = m_voLocalWordList_1ch.begin();
-- 
2.43.0


From 3fdbd5ca19206233cfbdbe73112436b581b8ab0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:34 +0000
Subject: [PATCH 28/77] fix: only use the frame's own pixels when PBAS gets
 single-row views

---
 modules/video/src/BackgroundSubtractorPBAS.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/video/src/BackgroundSubtractorPBAS.cpp b/modules/video/src/BackgroundSubtractorPBAS.cpp
index 1e1929f..72761fd 100644
--- a/modules/video/src/BackgroundSubtractorPBAS.cpp
+++ b/modules/video/src/BackgroundSubtractorPBAS.cpp
@@ -111,7 +111,7 @@ void BackgroundSubtractorPBAS_1ch::apply(cv::InputArray _image, cv::OutputArray
     lvAssert(m_bInitialized);
     cv::Mat oInputImg = _image.getMat();
     lvAssert(oInputImg.type()==CV_8UC1 && oInputImg.size()==m_oImgSize);
-    if(!oInputImg.isContinuous())
+    if(oInputImg.isSubmatrix() || !oInputImg.isContinuous())
         oInputImg = oInputImg.clone(); // internal maps are all indexed like a continuous image below
     cv::Mat oFGMask(m_oImgSize,CV_8UC1,cv::Scalar_<uchar>(0)); // note: internal copy, as the output mask might not be continuous
     cv::Mat oBlurredInputImg;
@@ -333,7 +333,7 @@ void BackgroundSubtractorPBAS_3ch::apply(cv::InputArray _image, cv::OutputArray
     lvAssert((oInputImg.type()==CV_8UC1 || oInputImg.type()==CV_8UC3) && oInputImg.size()==m_oImgSize);
     cv::Mat oInputImgRGB;
     if(oInputImg.type()==CV_8UC3)
-        oInputImgRGB = oInputImg.isContinuous()?oInputImg:oInputImg.clone(); // filters would look at pixels around a submatrix
+        oInputImgRGB = (oInputImg.isSubmatrix() || !oInputImg.isContinuous())?oInputImg.clone():oInputImg; // filters would look at pixels around a submatrix
     else
         cv::cvtColor(oInputImg,oInputImgRGB,cv::COLOR_GRAY2BGR);
     cv::Mat oFGMask(m_oImgSize,CV_8UC1,cv::Scalar_<uchar>(0)); // note: internal copy, as the output mask might not be continuous
-- 
2.43.0


From 1370ec1837989cd3fd0c821493729326a6425068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:11 +0000
Subject: [PATCH 29/77] fix: check the ROI's own continuity when counting
 binary classification results

The ROI was indexed with the classification's row step but the ground
truth's continuity was checked instead: a non-continuous ROI was read at the
wrong positions, and an evaluation without ground truth was refused.
---
 modules/datasets/src/metrics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/src/metrics.cpp b/modules/datasets/src/metrics.cpp
index e8a8c51..156e1e6 100644
--- a/modules/datasets/src/metrics.cpp
+++ b/modules/datasets/src/metrics.cpp
@@ -21,7 +21,7 @@
 void lv::BinClassif::accumulate(const cv::Mat& oClassif, const cv::Mat& oGT, const cv::Mat& oROI) {
     lvAssert_(!oClassif.empty() && oClassif.dims==2 && oClassif.isContinuous() && oClassif.type()==CV_8UC1,"binary classifier results must be non-empty and of type 8UC1");
     lvAssert_(oGT.empty() || (oGT.type()==CV_8UC1 && oGT.isContinuous()),"gt mat must be empty, or of type 8UC1");
-    lvAssert_(oROI.empty() || (oROI.type()==CV_8UC1 && oGT.isContinuous()),"ROI mat must be empty, or of type 8UC1");
+    lvAssert_(oROI.empty() || (oROI.type()==CV_8UC1 && oROI.isContinuous()),"ROI mat must be empty, or of type 8UC1");
     lvAssert_((oGT.empty() || oClassif.size()==oGT.size()) && (oROI.empty() || oClassif.size()==oROI.size()),"all input mat sizes must match");
     if(oGT.empty()) {
         nDC += oClassif.size().area();
-- 
2.43.0


From d3b2a4d1e6cc0cea92be4b267ef0dc4cf20c6247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:24 +0000
Subject: [PATCH 30/77] fix: avoid integer overflow in the Matthews correlation
 coefficient

The product of the false positive and false negative counts wrapped around
for totals accumulated over a few thousand megapixel frames.
---
 modules/datasets/include/litiv/datasets/metrics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/include/litiv/datasets/metrics.hpp b/modules/datasets/include/litiv/datasets/metrics.hpp
index 24296f8..e2a8f93 100644
--- a/modules/datasets/include/litiv/datasets/metrics.hpp
+++ b/modules/datasets/include/litiv/datasets/metrics.hpp
@@ -251,7 +251,7 @@ namespace lv {
         }
         /// computes Matthew's Correlation Coefficient based on 'BinClassif' counters
         static inline double CalcMatthewsCorrCoeff(const BinClassif& m) {
-            return ((m.nTP+m.nFP)>0)&&((m.nTP+m.nFN)>0)&&((m.nTN+m.nFP)>0)&&((m.nTN+m.nFN)>0)?((((double)m.nTP*m.nTN)-(m.nFP*m.nFN))/sqrt(((double)m.nTP+m.nFP)*(m.nTP+m.nFN)*(m.nTN+m.nFP)*(m.nTN+m.nFN))):0;
+            return ((m.nTP+m.nFP)>0)&&((m.nTP+m.nFN)>0)&&((m.nTN+m.nFP)>0)&&((m.nTN+m.nFN)>0)?((((double)m.nTP*m.nTN)-((double)m.nFP*m.nFN))/sqrt(((double)m.nTP+m.nFP)*(m.nTP+m.nFN)*(m.nTN+m.nFP)*(m.nTN+m.nFN))):0;
         }
         /// default contructor requires a base metrics counters, as otherwise, we would obtain NaN's
         inline BinClassifMetrics(const BinClassif& m) : dRecall(CalcRecall(m)),dSpecificity(CalcSpecificity(m)),dFPR(CalcFalsePositiveRate(m)),dFNR(CalcFalseNegativeRate(m)),dPBC(CalcPercentBadClassifs(m)),dPrecision(CalcPrecision(m)),dFMeasure(CalcFMeasure(m)),dMCC(CalcMatthewsCorrCoeff(m)) {}
-- 
2.43.0


From 50e9a548f622b7f88a767e04373dedf99893871f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:24 +0000
Subject: [PATCH 31/77] fix: scale coloured disparity error maps by the max
 error only

Min-max normalisation mapped the smallest error of a map to black instead of
zero error, so that a map with a large error everywhere looked perfect.
---
 modules/datasets/src/metrics.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/modules/datasets/src/metrics.cpp b/modules/datasets/src/metrics.cpp
index 156e1e6..c9f3209 100644
--- a/modules/datasets/src/metrics.cpp
+++ b/modules/datasets/src/metrics.cpp
@@ -213,11 +213,8 @@ cv::Mat lv::StereoDispErrors::getColoredMask(const cv::Mat& _oDispMap, const cv:
                 oErrorMap(nRowIdx,nColIdx) = 0.0f;
         }
     }
-    const float fOldErrorMapCornerVal = oErrorMap(0,0);
-    oErrorMap(0,0) = fMaxError;
     cv::Mat oOutput;
-    cv::normalize(oErrorMap,oOutput,255,0,cv::NORM_MINMAX,CV_8U);
-    oOutput.at<uchar>(0,0) = uchar((fOldErrorMapCornerVal/fMaxError)*255);
+    oErrorMap.convertTo(oOutput,CV_8U,255.0/fMaxError);
     cv::dilate(oOutput,oOutput,cv::Mat(),cv::Point(-1,-1),2);
     cv::applyColorMap(oOutput,oOutput,cv::COLORMAP_HOT);
     if(!oROI.empty())
-- 
2.43.0


From fd06f13abb11f3e79515c621945e7e8595f55e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:24 +0000
Subject: [PATCH 32/77] fix: accept empty operands when accumulating metrics of
 stream arrays

A batch that has not been evaluated yet has no per-stream counters; adding
it to its group's totals threw an exception.
---
 modules/datasets/src/metrics.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/datasets/src/metrics.cpp b/modules/datasets/src/metrics.cpp
index c9f3209..6f4666a 100644
--- a/modules/datasets/src/metrics.cpp
+++ b/modules/datasets/src/metrics.cpp
@@ -251,6 +251,8 @@ bool lv::IMetricsAccumulator_<lv::DatasetEval_BinaryClassifierArray>::isEqual(co
 
 lv::IIMetricsAccumulatorPtr lv::IMetricsAccumulator_<lv::DatasetEval_BinaryClassifierArray>::accumulate(const IIMetricsAccumulatorConstPtr& m) {
     const auto& m2 = dynamic_cast<const IMetricsAccumulator_<lv::DatasetEval_BinaryClassifierArray>&>(*m.get());
+    if(m2.m_vCounters.empty()) // operand has not accumulated anything yet
+        return shared_from_this();
     if(m_vCounters.empty())
         m_vCounters.resize(m2.m_vCounters.size());
     else
@@ -292,6 +294,8 @@ bool lv::IMetricsAccumulator_<lv::DatasetEval_StereoDisparityEstim>::isEqual(con
 
 lv::IIMetricsAccumulatorPtr lv::IMetricsAccumulator_<lv::DatasetEval_StereoDisparityEstim>::accumulate(const IIMetricsAccumulatorConstPtr& m) {
     const auto& m2 = dynamic_cast<const IMetricsAccumulator_<lv::DatasetEval_StereoDisparityEstim>&>(*m.get());
+    if(m2.m_vErrorLists.empty()) // operand has not accumulated anything yet
+        return shared_from_this();
     if(m_vErrorLists.empty())
         m_vErrorLists.resize(m2.m_vErrorLists.size());
     else
-- 
2.43.0


From 6fa82ca7de3c7b7f6e1660f09765134b904e56f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:37 +0000
Subject: [PATCH 33/77] fix: always unpack array packets from the packet that
 was requested

The unpacked arrays were only refreshed when the packed loader had not
served the same index last, so reading a packet in packed form first (or a
failed unpacking, or a change of packing info) left arrays of an earlier
packet behind, pointing into released memory.
---
 modules/datasets/src/utils.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index be15633..d1c2585 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -768,7 +768,7 @@ const std::vector<cv::Mat>& lv::IDataLoader_<lv::Array>::getInputArray(size_t nP
     lvDbgExceptionWatch;
     if(getInputStreamCount()==0)
         m_vLatestUnpackedInput.resize(0);
-    else if(m_oInputPrecacher.getLastReqIdx()!=nPacketIdx) {
+    else {
         const std::vector<lv::MatInfo>& vPackInfo = getInputInfoArray(nPacketIdx);
         lvAssert_(vPackInfo.size()==getInputStreamCount(),"unexpected stream pack info array size");
         // no need to clone if getInput does not allow reentrancy
@@ -783,7 +783,7 @@ const std::vector<cv::Mat>& lv::IDataLoader_<lv::Array>::getGTArray(size_t nPack
     lvDbgExceptionWatch;
     if(getGTStreamCount()==0)
         m_vLatestUnpackedGT.resize(0);
-    else if(m_oGTPrecacher.getLastReqIdx()!=nPacketIdx) {
+    else {
         const std::vector<lv::MatInfo>& vPackInfo = getGTInfoArray(nPacketIdx);
         lvAssert_(vPackInfo.size()==getGTStreamCount(),"unexpected stream pack info array size");
         // no need to clone if getter does not allow reentrancy
@@ -796,12 +796,10 @@ const std::vector<cv::Mat>& lv::IDataLoader_<lv::Array>::getGTArray(size_t nPack
 
 const std::vector<cv::Mat>& lv::IDataLoader_<lv::Array>::loadFeaturesArray(size_t nPacketIdx, const std::vector<lv::MatInfo>& vPackingInfo) {
     lvDbgExceptionWatch;
-    if(m_oFeaturesPrecacher.getLastReqIdx()!=nPacketIdx) {
-        // no need to clone from packed data if loadFeatures does not allow reentrancy
-        const cv::Mat& oFeatures = loadFeatures(nPacketIdx)/*.clone()*/;
-        // output mats in the vector will stay valid without copy for as long as oFeatures is valid (typically until next loadFeatures call)
-        m_vLatestUnpackedFeatures = lv::unpackData(oFeatures,vPackingInfo);
-    }
+    // no need to clone from packed data if loadFeatures does not allow reentrancy
+    const cv::Mat& oFeatures = loadFeatures(nPacketIdx)/*.clone()*/;
+    // output mats in the vector will stay valid without copy for as long as oFeatures is valid (typically until next loadFeatures call)
+    m_vLatestUnpackedFeatures = lv::unpackData(oFeatures,vPackingInfo);
     return m_vLatestUnpackedFeatures;
 }
 
-- 
2.43.0


From 97f9a02633788f8c03bc4db63c3394b46fd2fd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:03 +0000
Subject: [PATCH 34/77] fix: gray out zones outside the ROI of archived output
 arrays

Array loaders provide their ROIs by stream; the archiver queried the
non-array ROI, which is always empty for them.
---
 modules/datasets/src/utils.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index d1c2585..eb2b088 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -1595,6 +1595,13 @@ void lv::IDataArchiver_<lv::Array>::saveOutputArray(const std::vector<cv::Mat>&
     if(nStreamCount==0)
         return;
     const auto pLoader = shared_from_this_cast<const IIDataLoader>(true);
+    const auto pArrayLoader = shared_from_this_cast<const IDataLoader_<Array>>();
+    const auto lGetGTROI = [&](size_t nStreamIdx) -> cv::Mat { // array loaders only provide their ROIs by stream
+        if(!pArrayLoader)
+            return pLoader->getGTROI(nIdx);
+        const std::vector<cv::Mat>& vROIs = pArrayLoader->getGTROIArray(nIdx);
+        return nStreamIdx<vROIs.size()?vROIs[nStreamIdx]:cv::Mat();
+    };
     if(nStreamCount==size_t(1)) {
         const cv::Mat& _oOutput = vOutput[0];
         std::stringstream sOutputFilePath;
@@ -1604,7 +1611,7 @@ void lv::IDataArchiver_<lv::Array>::saveOutputArray(const std::vector<cv::Mat>&
             // automatically gray-out zones outside ROI if output is binary image mask with 1:1 mapping (e.g. segmentation)
             if((pLoader->getGTPacketType()==ImagePacket || pLoader->getGTPacketType()==ImageArrayPacket) && pLoader->getGTMappingType()==ElemMapping &&
                _oOutput.type()==CV_8UC1 && (cv::countNonZero(_oOutput==UCHAR_MAX)+cv::countNonZero(_oOutput==0))==_oOutput.size().area()) {
-                const cv::Mat& oROI = pLoader->getGTROI(nIdx);
+                const cv::Mat oROI = lGetGTROI(0);
                 if(!oROI.empty() && oROI.size()==_oOutput.size()) {
                     oOutput = _oOutput.clone();
                     cv::bitwise_or(oOutput,UCHAR_MAX/2,oOutput,oROI==0);
@@ -1631,7 +1638,7 @@ void lv::IDataArchiver_<lv::Array>::saveOutputArray(const std::vector<cv::Mat>&
                 // automatically gray-out zones outside ROI if output is binary image mask with 1:1 mapping (e.g. segmentation)
                 if(pLoader->getGTPacketType()==ImageArrayPacket && pLoader->getGTMappingType()==ElemMapping &&
                    _oOutput.type()==CV_8UC1 && (cv::countNonZero(_oOutput==UCHAR_MAX)+cv::countNonZero(_oOutput==0))==_oOutput.size().area()) {
-                    const cv::Mat& oROI = pLoader->getGTROI(nIdx);
+                    const cv::Mat oROI = lGetGTROI(nStreamIdx);
                     if(!oROI.empty() && oROI.size()==_oOutput.size()) {
                         oOutput = _oOutput.clone();
                         cv::bitwise_or(oOutput,UCHAR_MAX/2,oOutput,oROI==0);
-- 
2.43.0


From e6a78d39a1a502c9eb2bd59e9d6561fa5926465c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:03 +0000
Subject: [PATCH 35/77] fix: report outputs that could not be archived

The result of the image encoder was ignored, so outputs pushed while the
output directory is not writable were silently lost.
---
 modules/datasets/src/utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index eb2b088..07eb05e 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -1536,7 +1536,7 @@ void lv::IDataArchiver_<lv::NotArray>::saveOutput(const cv::Mat& _oOutput, size_
         }
         const std::vector<int> vnComprParams = {cv::IMWRITE_PNG_COMPRESSION,9};
         sOutputFilePath << ".png";
-        cv::imwrite(sOutputFilePath.str(),oOutput,vnComprParams);
+        lvAssert__(cv::imwrite(sOutputFilePath.str(),oOutput,vnComprParams),"could not write output packet to '%s'",sOutputFilePath.str().c_str());
     }
     else {
         sOutputFilePath << ".bin";
@@ -1620,7 +1620,7 @@ void lv::IDataArchiver_<lv::Array>::saveOutputArray(const std::vector<cv::Mat>&
             }
             const std::vector<int> vnComprParams = {cv::IMWRITE_PNG_COMPRESSION,9};
             sOutputFilePath << ".png";
-            cv::imwrite(sOutputFilePath.str(),oOutput,vnComprParams);
+            lvAssert__(cv::imwrite(sOutputFilePath.str(),oOutput,vnComprParams),"could not write output packet to '%s'",sOutputFilePath.str().c_str());
         }
         else {
             sOutputFilePath << ".bin";
@@ -1647,7 +1647,7 @@ void lv::IDataArchiver_<lv::Array>::saveOutputArray(const std::vector<cv::Mat>&
                 }
                 const std::vector<int> vnComprParams = {cv::IMWRITE_PNG_COMPRESSION,9};
                 sOutputFilePath << ".png";
-                cv::imwrite(sOutputFilePath.str(),oOutput,vnComprParams);
+                lvAssert__(cv::imwrite(sOutputFilePath.str(),oOutput,vnComprParams),"could not write output packet to '%s'",sOutputFilePath.str().c_str());
             }
             else {
                 sOutputFilePath << ".bin";
-- 
2.43.0


From 5f439d0378c8ac4c9732fe1d28ebb7d1bbe0c5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:03 +0000
Subject: [PATCH 36/77] fix: allow skipped groups in data structure printouts

A work batch directory matched by a skip token forms an empty group; the
structure printout asserted that it holds a batch, so creating the dataset
failed.
---
 modules/datasets/src/utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index 07eb05e..87d5026 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -108,6 +108,8 @@ const std::vector<std::string>& lv::DataHandler::getSkipTokens() const {
 std::string lv::DataHandler::printDataStructure(const std::string& sPrefix) const {
     if(isGroup() && isBare()) {
         auto vBatches = getBatches(true);
+        if(vBatches.empty()) // e.g. if the group was skipped
+            return std::string();
         lvAssert(vBatches.size()==1);
         return vBatches[0]->printDataStructure(sPrefix);
     }
-- 
2.43.0


From 69f7418ba4318afb7cb462ecb665d792bd60273d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:46 +0000
Subject: [PATCH 37/77] fix: allow work batches to be restarted or reset after
 processing

Resetting the output count set the packet count promise again although
stopping had already fulfilled it, so starting a batch a second time or
resetting its metrics after processing threw a future_error.
---
 modules/datasets/include/litiv/datasets/utils.hpp | 3 ++-
 modules/datasets/src/utils.cpp                    | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/modules/datasets/include/litiv/datasets/utils.hpp b/modules/datasets/include/litiv/datasets/utils.hpp
index 184b050..4376b1e 100644
--- a/modules/datasets/include/litiv/datasets/utils.hpp
+++ b/modules/datasets/include/litiv/datasets/utils.hpp
@@ -855,12 +855,13 @@ namespace lv {
         /// resets the processed packets count (and reinitializes promise)
         void resetOutputCount();
         /// default constructor (calls resetOutputCount to initialize all members)
-        inline IDataCounter() {resetOutputCount();}
+        inline IDataCounter() : m_bPacketCountSet(false) {resetOutputCount();}
     private:
         std::unordered_set<size_t> m_mProcessedPackets;
         std::promise<size_t> m_nPacketCountPromise;
         std::future<size_t> m_nPacketCountFuture;
         size_t m_nFinalPacketCount;
+        bool m_bPacketCountSet; ///< specifies whether the current promise was already fulfilled
     };
 
     /// default (specializable) forward declaration of the data consumer interface
diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index 87d5026..53a8a1e 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -1324,14 +1324,17 @@ void lv::IDataCounter::countOutput(size_t nPacketIdx) {
 }
 
 void lv::IDataCounter::setOutputCountPromise() {
-    m_nPacketCountPromise.set_value(m_mProcessedPackets.size());
+    if(!m_bPacketCountSet)
+        m_nPacketCountPromise.set_value(m_mProcessedPackets.size());
+    m_bPacketCountSet = true;
 }
 
 void lv::IDataCounter::resetOutputCount() {
-    m_nPacketCountPromise.set_value(m_mProcessedPackets.size());
+    setOutputCountPromise();
     m_mProcessedPackets.clear();
     m_nPacketCountPromise = std::promise<size_t>();
     m_nPacketCountFuture = m_nPacketCountPromise.get_future();
+    m_bPacketCountSet = false;
     m_nFinalPacketCount = 0;
 }
 
-- 
2.43.0


From 93104d1565b7a68e0820dad443a30ff3cfd03491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:46 +0000
Subject: [PATCH 38/77] fix: let several threads wait for the final count and
 time of a batch

Waiters used to share a one-shot future with each other, and the final time
was fetched from it by stopProcessing itself, so any thread blocked in
getFinalProcessTime raced with the end of the processing.
---
 modules/datasets/include/litiv/datasets.hpp       | 10 +++++-----
 modules/datasets/include/litiv/datasets/utils.hpp |  3 +--
 modules/datasets/src/utils.cpp                    |  5 ++---
 3 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/modules/datasets/include/litiv/datasets.hpp b/modules/datasets/include/litiv/datasets.hpp
index 090a068..5202502 100644
--- a/modules/datasets/include/litiv/datasets.hpp
+++ b/modules/datasets/include/litiv/datasets.hpp
@@ -80,7 +80,7 @@ namespace lv {
             /// returns the time taken so far to process the work batch data (i.e. between start/stopProcessing calls)
             virtual double getCurrentProcessTime() const override final {return this->m_bIsProcessing?this->m_oStopWatch.elapsed():this->m_dFinalElapsedTime;}
             /// returns the final time taken to process the work batch data (i.e. between start/stopProcessing calls)
-            virtual double getFinalProcessTime() override final {return this->m_dElapsedTimeFuture.valid()?(this->m_dFinalElapsedTime=this->m_dElapsedTimeFuture.get()):this->m_dFinalElapsedTime;}
+            virtual double getFinalProcessTime() override final {return this->m_dElapsedTimeFuture.valid()?this->m_dElapsedTimeFuture.get():this->m_dFinalElapsedTime;}
             /// returns whether the work batch is still being processed or not (i.e. between start/stopProcessing calls)
             virtual bool isProcessing() const override final {return m_bIsProcessing;}
             /// always returns false for non-group work batches
@@ -94,7 +94,7 @@ namespace lv {
                 lvDbgExceptionWatch;
                 if(!this->m_bIsProcessing) {
                     m_dElapsedTimePromise = std::promise<double>();
-                    m_dElapsedTimeFuture = m_dElapsedTimePromise.get_future();
+                    m_dElapsedTimeFuture = m_dElapsedTimePromise.get_future().share();
                     m_dFinalElapsedTime = 0.0;
                     this->resetOutputCount();
                     this->startProcessing_impl();
@@ -106,8 +106,8 @@ namespace lv {
             inline void stopProcessing() {
                 lvDbgExceptionWatch;
                 if(this->m_bIsProcessing) {
-                    this->m_dElapsedTimePromise.set_value(this->m_oStopWatch.tock());
-                    this->getFinalProcessTime();
+                    this->m_dFinalElapsedTime = this->m_oStopWatch.tock();
+                    this->m_dElapsedTimePromise.set_value(this->m_dFinalElapsedTime);
                     this->setOutputCountPromise();
                     this->stopProcessing_impl();
                     this->m_bIsProcessing = false;
@@ -124,7 +124,7 @@ namespace lv {
             friend struct WorkBatchGroup;
             lv::StopWatch m_oStopWatch;
             std::promise<double> m_dElapsedTimePromise;
-            std::future<double> m_dElapsedTimeFuture;
+            std::shared_future<double> m_dElapsedTimeFuture; ///< shared, as the final time may be awaited by several threads
             double m_dFinalElapsedTime; ///< returns final time elapsed between start/stop processing calls (always in seconds)
             bool m_bIsProcessing; ///< returns whether in between start/stop processing calls
         };
diff --git a/modules/datasets/include/litiv/datasets/utils.hpp b/modules/datasets/include/litiv/datasets/utils.hpp
index 4376b1e..ee2222f 100644
--- a/modules/datasets/include/litiv/datasets/utils.hpp
+++ b/modules/datasets/include/litiv/datasets/utils.hpp
@@ -859,8 +859,7 @@ namespace lv {
     private:
         std::unordered_set<size_t> m_mProcessedPackets;
         std::promise<size_t> m_nPacketCountPromise;
-        std::future<size_t> m_nPacketCountFuture;
-        size_t m_nFinalPacketCount;
+        std::shared_future<size_t> m_nPacketCountFuture; ///< shared, as the final count may be awaited by several threads
         bool m_bPacketCountSet; ///< specifies whether the current promise was already fulfilled
     };
 
diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index 53a8a1e..ccf38c8 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -1315,7 +1315,7 @@ size_t lv::IDataCounter::getCurrentOutputCount() const {
 }
 
 size_t lv::IDataCounter::getFinalOutputCount() {
-    return m_nPacketCountFuture.valid()?(m_nFinalPacketCount=m_nPacketCountFuture.get()):m_nFinalPacketCount;
+    return m_nPacketCountFuture.get();
 }
 
 void lv::IDataCounter::countOutput(size_t nPacketIdx) {
@@ -1333,9 +1333,8 @@ void lv::IDataCounter::resetOutputCount() {
     setOutputCountPromise();
     m_mProcessedPackets.clear();
     m_nPacketCountPromise = std::promise<size_t>();
-    m_nPacketCountFuture = m_nPacketCountPromise.get_future();
+    m_nPacketCountFuture = m_nPacketCountPromise.get_future().share();
     m_bPacketCountSet = false;
-    m_nFinalPacketCount = 0;
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 19fd35f4537b88bce2b5c9b931c74c8807a262ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:22 +0000
Subject: [PATCH 39/77] fix: thinning read a neighbour past the end of its
 neighbourhood array

---
 modules/imgproc/src/imgproc.cpp | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/modules/imgproc/src/imgproc.cpp b/modules/imgproc/src/imgproc.cpp
index 95fd95d..1b3ff5a 100644
--- a/modules/imgproc/src/imgproc.cpp
+++ b/modules/imgproc/src/imgproc.cpp
@@ -91,29 +91,11 @@ void thinning_internal_LamLeeSuen(cv::Mat& oInput, bool bIter) {
             };
             size_t x_h = 0, n1 = 0, n2 = 0;
             for(size_t k=0; k<4; ++k) {
-#if defined(_MSC_VER) || USE_IMGPROC_THINNING_MATLAB_IMPL_FIX
                 // G1:
                 x_h += bool(!anLUT[2*(k+1)-2] && (anLUT[2*(k+1)-1] || anLUT[(2*(k+1))%8]));
                 // G2:
                 n1 += bool(anLUT[2*(k+1)-2] || anLUT[2*(k+1)-1]);
                 n2 += bool(anLUT[2*(k+1)-1] || anLUT[(2*(k+1))%8]);
-#elif defined(__clang__)
-#pragma clang diagnostic push
-// but no warnings to push...?
-#elif (defined(__GNUC__) || defined(__GNUG__))
-#pragma GCC diagnostic push
-#pragma GCC diagnostic ignored "-Wmaybe-uninitialized"
-#endif //(defined(__GNUC__) || defined(__GNUG__))
-                // G1:
-                x_h += bool(!anLUT[2*(k+1)-2] && (anLUT[2*(k+1)-1] || anLUT[2*(k+1)]));
-                // G2:
-                n1 += bool(anLUT[2*(k+1)-2] || anLUT[2*(k+1)-1]);
-                n2 += bool(anLUT[2*(k+1)-1] || anLUT[2*(k+1)]);
-#if defined(__clang__)
-#pragma clang diagnostic pop
-#elif (defined(__GNUC__) || defined(__GNUG__))
-#pragma GCC diagnostic pop
-#endif //(defined(__GNUC__) || defined(__GNUG__))
             }
             size_t n_min = std::min(n1,n2);
             if(x_h==1 && n_min>=2 && n_min<=3) {
-- 
2.43.0


From d371163d931eb1742d857e5380270b22c8691d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:22 +0000
Subject: [PATCH 40/77] fix: median value of a fully masked matrix read past
 its histogram

---
 modules/imgproc/src/imgproc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/imgproc/src/imgproc.cpp b/modules/imgproc/src/imgproc.cpp
index 1b3ff5a..d9ec666 100644
--- a/modules/imgproc/src/imgproc.cpp
+++ b/modules/imgproc/src/imgproc.cpp
@@ -189,6 +189,7 @@ int lv::calcMedianValue(const cv::Mat& oInput, const cv::Mat_<uchar>& oMask, std
     int nTotCount;
     const std::vector<int> vCounts = lv::calcHistCounts(oInput,oMask,&nTotCount);
     lvDbgAssert(!vCounts.empty());
+    lvAssert_(nTotCount>0,"input mask does not contain any valid pixel");
     if(pHistCounts)
         *pHistCounts = vCounts;
     int nBinVal=0,nCurrElemCount=vCounts[0],nHalfCount=nTotCount/2;
-- 
2.43.0


From e14acb0154ae82f37416ff5142250966d81837bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:22 +0000
Subject: [PATCH 41/77] fix: non-maximum suppression picked a candidate outside
 of fully masked blocks

---
 modules/imgproc/include/litiv/imgproc.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/imgproc/include/litiv/imgproc.hpp b/modules/imgproc/include/litiv/imgproc.hpp
index 65e06d4..bf41d94 100644
--- a/modules/imgproc/include/litiv/imgproc.hpp
+++ b/modules/imgproc/include/litiv/imgproc.hpp
@@ -138,6 +138,8 @@ void lv::nonMaxSuppression(const cv::Mat& oInput, cv::Mat& oOutput, const cv::Ma
             cv::Range ic(m,std::min(m+nWinSize+1,M));
             cv::Range jc(n,std::min(n+nWinSize+1,N));
             cv::minMaxLoc(oInput(ic,jc), NULL, &vcmax, NULL, &ijmax, masked ? oMask(ic,jc) : cv::noArray());
+            if(ijmax.x<0 || ijmax.y<0)
+                continue; // the whole block is masked out; there is no candidate
             cv::Point cc = ijmax + cv::Point(jc.start,ic.start);
             // search the neighbours centered around the candidate for the true maxima
             cv::Range in(std::max(cc.y-nWinSize,0),std::min(cc.y+nWinSize+1,M));
-- 
2.43.0


From 2fdb62e1b21b8f557d8f5258d85236d5e2f7880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:22 +0000
Subject: [PATCH 42/77] fix: integral images could not be computed with the
 default output depth

---
 modules/imgproc/src/imgproc.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/imgproc/src/imgproc.cpp b/modules/imgproc/src/imgproc.cpp
index d9ec666..9c8dcbc 100644
--- a/modules/imgproc/src/imgproc.cpp
+++ b/modules/imgproc/src/imgproc.cpp
@@ -592,6 +592,8 @@ void lv::computeDescriptorAffinity(const cv::cuda::GpuMat& oDescMap1, const cv::
 
 void lv::integral(const cv::Mat& oInput, cv::Mat& oIntegralImg, int nOutDepth) {
     lvAssert_(!oInput.empty() && oInput.depth()==CV_8U && oInput.dims==2 && oInput.isContinuous(),"invalid input matrix");
+    if(nOutDepth<0)
+        nOutDepth = CV_32S; // same as opencv's default for 8U inputs
     lvAssert_(nOutDepth==CV_32S || nOutDepth==CV_32F,"invalid requested output matrix depth");
     if(oInput.rows+1!=oIntegralImg.rows || oInput.cols+1!=oIntegralImg.cols || oInput.channels()!=oIntegralImg.channels() || oIntegralImg.depth()!=nOutDepth || !oIntegralImg.isContinuous())
         oIntegralImg.create(oInput.rows+1,oInput.cols+1,CV_MAKE_TYPE(nOutDepth,oInput.channels()));
-- 
2.43.0


From f5486ccd23cae07af39f8b9932b7581b96bb5075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:28 +0000
Subject: [PATCH 43/77] fix: masked integral images were refused for most
 channel counts

---
 modules/imgproc/src/imgproc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/imgproc/src/imgproc.cpp b/modules/imgproc/src/imgproc.cpp
index 9c8dcbc..fe518ba 100644
--- a/modules/imgproc/src/imgproc.cpp
+++ b/modules/imgproc/src/imgproc.cpp
@@ -654,7 +654,7 @@ void lv::integral(const cv::Mat& oInput, cv::Mat& oIntegralImg, const cv::Mat_<u
     else {
         static thread_local cv::Mat oMaskedInput;
         oInput.copyTo(oMaskedInput);
-        oMaskedInput.setTo(cv::Scalar_<uchar>::all(0),oMask==0);
+        oMaskedInput.setTo(cv::Scalar::all(0),oMask==0);
         lv::integral(oMaskedInput,oIntegralImg,nOutDepth);
     }
 }
-- 
2.43.0


From 883c779c9cd2f40e5539f07f37edc34420bf59b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:08 +0000
Subject: [PATCH 44/77] fix: warping read out of bounds where the rotation
 between point sets is undefined

---
 modules/imgproc/src/imwarp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/imgproc/src/imwarp.cpp b/modules/imgproc/src/imwarp.cpp
index 5aa6c2c..5168f34 100644
--- a/modules/imgproc/src/imwarp.cpp
+++ b/modules/imgproc/src/imwarp.cpp
@@ -188,7 +188,7 @@ bool ImageWarper::computeTransform() {
                     const double dMIU = sqrt(s1*s1+s2*s2);
                     vCurrPt -= vWgDestPt;
                     const cv::Point2d vCurrPt_R(-vCurrPt.y,vCurrPt.x);
-                    for(nPtIdx=0u; nPtIdx<nPtCount; ++nPtIdx) {
+                    for(nPtIdx=0u; dMIU>0 && nPtIdx<nPtCount; ++nPtIdx) { // the rotation/scale is undefined (and ignored) if null
                         if(nColIdx==m_vDestPts[nPtIdx].x && nRowIdx==m_vDestPts[nPtIdx].y)
                             continue;
                         const cv::Point2d vPtI = m_vDestPts[nPtIdx]-vWgDestPt;
@@ -263,7 +263,7 @@ bool ImageWarper::computeTransform() {
                     }
                     vCurrPt -= vWgDestPt;
                     const cv::Point2d vCurrPt_R(-vCurrPt.y,vCurrPt.x);
-                    for(nPtIdx=0u; nPtIdx<nPtCount; ++nPtIdx) {
+                    for(nPtIdx=0u; dMIU>0 && nPtIdx<nPtCount; ++nPtIdx) { // the rotation/scale is undefined (and ignored) if null
                         if(nColIdx==m_vDestPts[nPtIdx].x && nRowIdx==m_vDestPts[nPtIdx].y)
                             continue;
                         const cv::Point2d vPtI = m_vDestPts[nPtIdx]-vWgDestPt;
-- 
2.43.0


From 03c80dd095040fc0b8ef3bcf749f376bb20f0276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:44 +0000
Subject: [PATCH 45/77] fix: LBSP edges were reported two rows above their
 gradients, and the last two rows never updated

---
 modules/imgproc/src/EdgeDetectorLBSP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/imgproc/src/EdgeDetectorLBSP.cpp b/modules/imgproc/src/EdgeDetectorLBSP.cpp
index f1e9885..2208e2c 100644
--- a/modules/imgproc/src/EdgeDetectorLBSP.cpp
+++ b/modules/imgproc/src/EdgeDetectorLBSP.cpp
@@ -259,7 +259,7 @@ void EdgeDetectorLBSP::apply_internal_threshold(const cv::Mat& oInputImg, cv::Ma
                 std::fill(anGradRow+oInputImg.cols*nGradMapColStep,anGradRow+(oInputImg.cols+nNMSHalfWinSize)*nGradMapColStep,0);
                 if(nRowIter<oCurrScaleSize.height-int(nNMSHalfWinSize)) {
                     anGradRow += nGradMapRowStep*nNMSHalfWinSize; // offset by nNMSHalfWinSize rows
-                    uchar* anEdgeMapRow = oEdgeTempMask.ptr<uchar>(nRowIter+nNMSHalfWinSize)+nNMSHalfWinSize*nEdgeMapColStep;
+                    uchar* anEdgeMapRow = oEdgeTempMask.ptr<uchar>(nRowIter+nNMSHalfWinSize*2)+nNMSHalfWinSize*nEdgeMapColStep;
                     std::fill(anEdgeMapRow-nEdgeMapColStep*nNMSHalfWinSize,anEdgeMapRow,1);
                     std::fill(anEdgeMapRow+oInputImg.cols*nEdgeMapColStep,anEdgeMapRow+(oInputImg.cols+nNMSHalfWinSize)*nEdgeMapColStep,1);
                     stack_check_size(oInputImg.cols);
-- 
2.43.0


From 3abf25566b07ac786893b9e922576de847481391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:44 +0000
Subject: [PATCH 46/77] fix: LBSP edge orientations were always lost (initial
 gradient values were in the wrong byte order)

---
 modules/imgproc/src/EdgeDetectorLBSP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/imgproc/src/EdgeDetectorLBSP.cpp b/modules/imgproc/src/EdgeDetectorLBSP.cpp
index 2208e2c..d9c018f 100644
--- a/modules/imgproc/src/EdgeDetectorLBSP.cpp
+++ b/modules/imgproc/src/EdgeDetectorLBSP.cpp
@@ -185,7 +185,7 @@ void EdgeDetectorLBSP::apply_internal_threshold(const cv::Mat& oInputImg, cv::Ma
     std::fill(m_vuEdgeTempMaskData.data()+(oMapSize.height-nNMSHalfWinSize)*nEdgeMapRowStep,m_vuEdgeTempMaskData.data()+oMapSize.height*nEdgeMapRowStep,1);
 #if USE_MIN_GRAD_ORIENT
     static_assert(nGradMapColStep==4,"Need 32-bit chunks to copy (see lines with uint32_t)");
-    constexpr uint32_t nDefaultGradMapVal4Ch = (CHAR_MAX<<24)|(CHAR_MAX<<16)|(UCHAR_MAX)<<8;
+    constexpr uint32_t nDefaultGradMapVal4Ch = (UCHAR_MAX<<16)|(CHAR_MAX<<8)|CHAR_MAX; // little-endian (gradx, grady, gradmag, 'dont care')
     std::fill((uint32_t*)(m_vuLBSPGradMapData.data()+nGradMapRowStep*nNMSHalfWinSize+nGradMapColStep*nNMSHalfWinSize),(uint32_t*)(m_vuLBSPGradMapData.data()+(oMapSize.height-nNMSHalfWinSize)*nGradMapRowStep-nNMSHalfWinSize*nGradMapColStep),nDefaultGradMapVal4Ch);
     const auto lAbsCharComp = [](char a, char b){return std::abs(a)<std::abs(b);};
 #else //(!USE_MIN_GRAD_ORIENT)
-- 
2.43.0


From 5c75bba03c6c1e3c5da607cffed6346594064761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:09 +0000
Subject: [PATCH 47/77] fix: LBSP edge detection read and wrote out of bounds
 on small images or pyramid levels

---
 modules/imgproc/src/EdgeDetectorLBSP.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/imgproc/src/EdgeDetectorLBSP.cpp b/modules/imgproc/src/EdgeDetectorLBSP.cpp
index d9c018f..c786bda 100644
--- a/modules/imgproc/src/EdgeDetectorLBSP.cpp
+++ b/modules/imgproc/src/EdgeDetectorLBSP.cpp
@@ -102,14 +102,14 @@ void EdgeDetectorLBSP::apply_internal_lookup(const cv::Mat& oInputImg) {
                 lBorderColLookup(nRowIter,nCurrRowLUTIdx,nColIter);
         };
         size_t nRowIter = 0;
-        for(; nRowIter<nROIBorderSize; ++nRowIter)
+        for(; nRowIter<std::min(nROIBorderSize,nCurrScaleRows); ++nRowIter)
             lBorderRowLookup(nRowIter);
-        for(; nRowIter<nCurrScaleRows-nROIBorderSize; ++nRowIter) {
+        for(; nRowIter+nROIBorderSize<nCurrScaleRows; ++nRowIter) {
             const size_t nCurrRowLUTIdx = nRowIter*nCurrRowLUTStep;
             size_t nColIter = 0;
-            for(; nColIter<nROIBorderSize; ++nColIter)
+            for(; nColIter<std::min(nROIBorderSize,nCurrScaleCols); ++nColIter)
                 lBorderColLookup(nRowIter,nCurrRowLUTIdx,nColIter);
-            for(; nColIter<nCurrScaleCols-nROIBorderSize; ++nColIter) {
+            for(; nColIter+nROIBorderSize<nCurrScaleCols; ++nColIter) {
                 const size_t nCurrColLUTIdx = nCurrRowLUTIdx+nColIter*nColLUTStep;
                 uchar* aanCurrLUT = m_vvuLBSPLookupMaps[nLevelIter].data()+nCurrColLUTIdx;
                 lvDbgAssert(nCurrColLUTIdx<m_vvuLBSPLookupMaps[nLevelIter].size() && (nCurrColLUTIdx%LBSP::DESC_SIZE_BITS)==0);
-- 
2.43.0


From 1f02c6ce05dbdeb93d20342aa8692f0e9bf9944e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:21 +0000
Subject: [PATCH 48/77] fix: shifting a submatrix filled the uncovered area
 with pixels of its parent instead of the requested fill

---
 modules/utils/src/opencv.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index 0b8cb84..351a32a 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -805,7 +805,7 @@ void lv::shift(const cv::Mat& oInput, cv::Mat& oOutput, const cv::Point2f& vDelt
     const int nLeft = (vDeltaInt.x>0)?vDeltaInt.x:0;    // NOLINT
     const int nRight = (vDeltaInt.x<0)?-vDeltaInt.x:0;  // NOLINT
     cv::Mat oPaddedInput;
-    cv::copyMakeBorder(oInput,oPaddedInput,nTop,nBottom,nLeft,nRight,nFillType,vConstantFillValue);
+    cv::copyMakeBorder(oInput,oPaddedInput,nTop,nBottom,nLeft,nRight,nFillType|cv::BORDER_ISOLATED,vConstantFillValue);
     if(vDeltaSubPx.x>std::numeric_limits<float>::epsilon() || vDeltaSubPx.y>std::numeric_limits<float>::epsilon()) {
         switch(oInput.depth()) {
             case CV_32F: {
-- 
2.43.0


From 6c80fddce9b847673e50babb186b844ea8e55c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:21 +0000
Subject: [PATCH 49/77] fix: log-polar masks with a single radial bin were
 empty (division by zero)

---
 modules/utils/src/opencv.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index 351a32a..d6bdafc 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -52,7 +52,7 @@ void lv::getLogPolarMask(int nMaskSize, int nRadialBins, int nAngularBins, cv::M
         std::vector<float> vRadBinDists((size_t)nRadialBins);
         const float fRadBinPowBase = (float)std::pow(nRadialBins,1/(float)nRadialBins);
         for(int nRadBinIdx=0; nRadBinIdx<nRadialBins; ++nRadBinIdx)
-            vRadBinDists[nRadBinIdx] = float(((std::pow(fRadBinPowBase,nRadBinIdx+1)-1)/(nRadialBins-1)*nCenterIdx)+((nRadBinIdx==(nRadialBins-1))?0.0f:fRadiusOffset));
+            vRadBinDists[nRadBinIdx] = float((((nRadialBins>1)?(std::pow(fRadBinPowBase,nRadBinIdx+1)-1)/(nRadialBins-1):1.0)*nCenterIdx)+((nRadBinIdx==(nRadialBins-1))?0.0f:fRadiusOffset));
         for(int nRowIdx=0; nRowIdx<nMaskSize; ++nRowIdx) {
             int* const pnMaskRow = oOutputMask.ptr<int>(nRowIdx);
             for(int nColIdx=0; nColIdx<nMaskSize; ++nColIdx,++nCurrMaskIdx) {
-- 
2.43.0


From 6175e691a22401b4c380736ff531e9bbaae34ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:54 +0000
Subject: [PATCH 50/77] fix: mutual information was always null with the fast
 histogram approximation

---
 modules/features2d/include/litiv/features2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/features2d/include/litiv/features2d.hpp b/modules/features2d/include/litiv/features2d.hpp
index 6f8daa0..183a42e 100644
--- a/modules/features2d/include/litiv/features2d.hpp
+++ b/modules/features2d/include/litiv/features2d.hpp
@@ -172,7 +172,7 @@ namespace lv {
         lvDbgAssert(lv::getElemCount(pJointProbHistOutput->aMargHists[0])>0 && lv::getElemCount(pJointProbHistOutput->aMargHists[1])>0 && lv::getElemCount(pJointProbHistOutput->oJointHist)>0);
         double dMutualInfoScore = 0.0f;
         std::array<int,2> anIterPos;
-        for(auto pIter=pJointProbHistOutput->oJointCount.begin(); pIter!=pJointProbHistOutput->oJointCount.end(); ++pIter) {
+        for(auto pIter=pJointProbHistOutput->oJointHist.begin(); pIter!=pJointProbHistOutput->oJointHist.end(); ++pIter) {
             const int* anPos = lv::getIterPos(pIter,anIterPos);
             const float& fCurrElemJointProb = lv::getElem(pJointProbHistOutput->oJointHist,anPos);
             if(fCurrElemJointProb>0) {
-- 
2.43.0


From 32bd401532fed4760045ded7abc4ba70bb96a38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:54 +0000
Subject: [PATCH 51/77] fix: dense descriptors were dropped when the output
 matrix had been used with another image size

---
 modules/features2d/src/DASC.cpp | 4 +---
 modules/features2d/src/LSS.cpp  | 4 +---
 modules/features2d/src/SC.cpp   | 4 +---
 3 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/modules/features2d/src/DASC.cpp b/modules/features2d/src/DASC.cpp
index 8730e55..1a86183 100644
--- a/modules/features2d/src/DASC.cpp
+++ b/modules/features2d/src/DASC.cpp
@@ -136,10 +136,8 @@ bool DASC::isPreProcessing() const {
 void DASC::compute2(const cv::Mat& oImage, cv::Mat& oDescMap_) {
     lvAssert_(oDescMap_.empty() || oDescMap_.type()==CV_32FC1,"wrong output desc map type");
     cv::Mat_<float> oDescMap = oDescMap_;
-    const bool bEmptyInit = oDescMap.empty();
     compute2(oImage,oDescMap);
-    if(bEmptyInit)
-        oDescMap_ = oDescMap;
+    oDescMap_ = oDescMap;
 }
 
 void DASC::compute2(const cv::Mat& oImage, cv::Mat_<float>& oDescMap) {
diff --git a/modules/features2d/src/LSS.cpp b/modules/features2d/src/LSS.cpp
index 2dda719..3066302 100644
--- a/modules/features2d/src/LSS.cpp
+++ b/modules/features2d/src/LSS.cpp
@@ -113,10 +113,8 @@ bool LSS::isUsingLienhartMask() const {
 void LSS::compute2(const cv::Mat& oImage, cv::Mat& oDescMap_) {
     lvAssert_(oDescMap_.empty() || oDescMap_.type()==CV_32FC1,"wrong output desc map type");
     cv::Mat_<float> oDescMap = oDescMap_;
-    const bool bEmptyInit = oDescMap.empty();
     compute2(oImage,oDescMap);
-    if(bEmptyInit)
-        oDescMap_ = oDescMap;
+    oDescMap_ = oDescMap;
 }
 
 void LSS::compute2(const cv::Mat& oImage, cv::Mat_<float>& oDescMap) {
diff --git a/modules/features2d/src/SC.cpp b/modules/features2d/src/SC.cpp
index 915bda7..1af9f0e 100644
--- a/modules/features2d/src/SC.cpp
+++ b/modules/features2d/src/SC.cpp
@@ -212,10 +212,8 @@ int ShapeContext::chainDetectMethod() const {
 void ShapeContext::compute2(const cv::Mat& oImage, cv::Mat& oDescMap_) {
     lvAssert_(oDescMap_.empty() || oDescMap_.type()==CV_32FC1,"wrong output desc map type");
     cv::Mat_<float> oDescMap = oDescMap_;
-    const bool bEmptyInit = oDescMap.empty();
     compute2(oImage,oDescMap);
-    if(bEmptyInit)
-        oDescMap_ = oDescMap;
+    oDescMap_ = oDescMap;
 }
 
 void ShapeContext::compute2(const cv::Mat& oImage, cv::Mat_<float>& oDescMap) {
-- 
2.43.0


From 1087c1e43535dea990f308fc90c02c4444cac844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:54 +0000
Subject: [PATCH 52/77] fix: LSS and DASC keypoints were filtered at their
 rounded position but described at the truncated one

---
 modules/features2d/src/DASC.cpp | 4 ++--
 modules/features2d/src/LSS.cpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/features2d/src/DASC.cpp b/modules/features2d/src/DASC.cpp
index 1a86183..1074345 100644
--- a/modules/features2d/src/DASC.cpp
+++ b/modules/features2d/src/DASC.cpp
@@ -203,8 +203,8 @@ void DASC::detectAndCompute(cv::InputArray _oImage, cv::InputArray _oMask, std::
     _oDescriptors.create((int)voKeypoints.size(),(int)pretrained::nLUTSize,CV_32FC1);
     cv::Mat oDescriptors = _oDescriptors.getMat();
     for(size_t nKeyPtIdx=0; nKeyPtIdx<voKeypoints.size(); ++nKeyPtIdx) {
-        const int nRowIdx = (int)voKeypoints[nKeyPtIdx].pt.y;
-        const int nColIdx = (int)voKeypoints[nKeyPtIdx].pt.x;
+        const int nRowIdx = cvRound(voKeypoints[nKeyPtIdx].pt.y);
+        const int nColIdx = cvRound(voKeypoints[nKeyPtIdx].pt.x);
         const float* pData = oDenseDecriptors.ptr<float>(nRowIdx,nColIdx);
         std::copy_n(pData,pretrained::nLUTSize,oDescriptors.ptr<float>((int)nKeyPtIdx));
     }
diff --git a/modules/features2d/src/LSS.cpp b/modules/features2d/src/LSS.cpp
index 3066302..a54ef05 100644
--- a/modules/features2d/src/LSS.cpp
+++ b/modules/features2d/src/LSS.cpp
@@ -237,8 +237,8 @@ void LSS::ssdescs_impl(const cv::Mat& _oImage, std::vector<cv::KeyPoint>& voKeyp
         oDescriptors.create(int(voKeypoints.size()),nDescSize);
     for(int nKeyPtIdx=0; nKeyPtIdx<int(voKeypoints.size()); ++nKeyPtIdx) {
         const cv::KeyPoint& oCurrKeyPt = voKeypoints[nKeyPtIdx];
-        const int nRowIdx = int(oCurrKeyPt.pt.y);
-        const int nColIdx = int(oCurrKeyPt.pt.x);
+        const int nRowIdx = cvRound(oCurrKeyPt.pt.y);
+        const int nColIdx = cvRound(oCurrKeyPt.pt.x);
         lvDbgAssert(nRowIdx>=0 && nColIdx>=0);
         const cv::Mat oWindow = oImage(cv::Rect(nColIdx-nCorrWinRadius,nRowIdx-nCorrWinRadius,m_nCorrWinSize,m_nCorrWinSize));
         const cv::Mat oTempl = oImage(cv::Rect(nColIdx-nPatchRadius,nRowIdx-nPatchRadius,m_nPatchSize,m_nPatchSize));
-- 
2.43.0


From 20aeba0bbcc9513576c2c00afc2e4bb0d4c79b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:54 +0000
Subject: [PATCH 53/77] fix: LSS descriptor maps were uninitialized away from
 the keypoints

---
 modules/features2d/src/LSS.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/features2d/src/LSS.cpp b/modules/features2d/src/LSS.cpp
index a54ef05..6f7e938 100644
--- a/modules/features2d/src/LSS.cpp
+++ b/modules/features2d/src/LSS.cpp
@@ -231,8 +231,10 @@ void LSS::ssdescs_impl(const cv::Mat& _oImage, std::vector<cv::KeyPoint>& voKeyp
     static thread_local lv::AutoBuffer<float> s_aTempDesc;
     s_aTempDesc.resize(((size_t)nDescSize));
     cv::Mat_<float> oTempDesc(1,nDescSize,s_aTempDesc.data());
-    if(bGenDescMap)
+    if(bGenDescMap) {
         oDescriptors.create(3,std::array<int,3>{oImage.rows,oImage.cols,nDescSize}.data());
+        oDescriptors = 0.0f;
+    }
     else
         oDescriptors.create(int(voKeypoints.size()),nDescSize);
     for(int nKeyPtIdx=0; nKeyPtIdx<int(voKeypoints.size()); ++nKeyPtIdx) {
-- 
2.43.0


From 6fa8069b77945e29d6cb4b4c37e038466f34626d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:54 +0000
Subject: [PATCH 54/77] fix: LSS preprocessing of a submatrix depended on the
 pixels of its parent

---
 modules/features2d/src/LSS.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/features2d/src/LSS.cpp b/modules/features2d/src/LSS.cpp
index 6f7e938..2040d25 100644
--- a/modules/features2d/src/LSS.cpp
+++ b/modules/features2d/src/LSS.cpp
@@ -219,7 +219,7 @@ void LSS::ssdescs_impl(const cv::Mat& _oImage, std::vector<cv::KeyPoint>& voKeyp
     }
     cv::Mat oImage;
     if(m_bPreProcess)
-        cv::GaussianBlur(_oImage,oImage,cv::Size(7,7),1.0);
+        cv::GaussianBlur(_oImage,oImage,cv::Size(7,7),1.0,0.0,cv::BORDER_DEFAULT|cv::BORDER_ISOLATED);
     else
         oImage = _oImage;
     const int nCorrWinRadius = m_nCorrWinSize/2;
@@ -271,7 +271,7 @@ void LSS::ssdescs_impl(const cv::Mat& _oImage, cv::Mat_<float>& oDescriptors) {
     lvDbgAssert(m_oDescLUMap.rows==m_nCorrPatchSize && m_oDescLUMap.cols==m_nCorrPatchSize);
     cv::Mat oImage;
     if(m_bPreProcess)
-        cv::GaussianBlur(_oImage,oImage,cv::Size(7,7),1.0);
+        cv::GaussianBlur(_oImage,oImage,cv::Size(7,7),1.0,0.0,cv::BORDER_DEFAULT|cv::BORDER_ISOLATED);
     else
         oImage = _oImage;
     const int nRows = oImage.rows;
-- 
2.43.0


From 42c10dc5231ad5ace82a68a7751ba5d482ff38f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:54 +0000
Subject: [PATCH 55/77] fix: LSS reported the opposite of its noise
 normalization mode

---
 modules/features2d/src/LSS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/features2d/src/LSS.cpp b/modules/features2d/src/LSS.cpp
index 2040d25..41bfdf6 100644
--- a/modules/features2d/src/LSS.cpp
+++ b/modules/features2d/src/LSS.cpp
@@ -95,7 +95,7 @@ bool LSS::empty() const {
 }
 
 bool LSS::isUsingDynamicNoiseVarNorm() const {
-    return USE_STATIC_VAR_NOISE;
+    return !USE_STATIC_VAR_NOISE;
 }
 
 bool LSS::isNormalizingBins() const {
-- 
2.43.0


From a22dde44163657ebd880cfc9b35c651783b34b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:54 +0000
Subject: [PATCH 56/77] fix: shape contexts reused the keypoint map of another
 image size after a call without keypoints

---
 modules/features2d/src/SC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/features2d/src/SC.cpp b/modules/features2d/src/SC.cpp
index 1af9f0e..6da27e2 100644
--- a/modules/features2d/src/SC.cpp
+++ b/modules/features2d/src/SC.cpp
@@ -279,6 +279,7 @@ void ShapeContext::detectAndCompute(cv::InputArray _oImage, cv::InputArray _oMas
     cv::Mat oMask = _oMask.getMat();
     lvAssert_(oMask.empty() || (!oMask.empty() && oMask.size()==oImage.size()),"mask must be empty or of equal size to the input image");
     scdesc_fill_contours(oImage);
+    m_bUsingFullKeyPtMap = false;
     if(!bUseProvidedKeypoints) {
         voKeypoints.resize(m_oContourPts.total());
         for(size_t nContourPtIdx=0; nContourPtIdx<voKeypoints.size(); ++nContourPtIdx)
@@ -290,7 +291,6 @@ void ShapeContext::detectAndCompute(cv::InputArray _oImage, cv::InputArray _oMas
         _oDescriptors.release();
         return;
     }
-    m_bUsingFullKeyPtMap = false;
     m_oKeyPts.create((int)voKeypoints.size(),1);
     for(size_t nKeyPtIdx=0; nKeyPtIdx<voKeypoints.size(); ++nKeyPtIdx)
         m_oKeyPts((int)nKeyPtIdx) = voKeypoints[nKeyPtIdx].pt;
-- 
2.43.0


From ada9f0636a3fe181e3826d00b812cddeef584c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:54 +0000
Subject: [PATCH 57/77] fix: shape contexts accessed memory out of bounds for
 keypoints outside the image

---
 modules/features2d/src/SC.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/features2d/src/SC.cpp b/modules/features2d/src/SC.cpp
index 6da27e2..fdba709 100644
--- a/modules/features2d/src/SC.cpp
+++ b/modules/features2d/src/SC.cpp
@@ -487,6 +487,8 @@ void ShapeContext::scdesc_fill_desc(cv::Mat_<float>& oDescriptors, bool bGenDesc
         const cv::Point2f& vKeyPt = ((cv::Point2f*)m_oKeyPts.data)[nKeyPtIdx];
         const int nKeyPtRowIdx = (int)std::round(vKeyPt.y);
         const int nKeyPtColIdx = (int)std::round(vKeyPt.x);
+        if(bGenDescMap && (nKeyPtRowIdx<0 || nKeyPtRowIdx>=m_oCurrImageSize.height || nKeyPtColIdx<0 || nKeyPtColIdx>=m_oCurrImageSize.width))
+            continue; // note: keypoints outside the image have no place in the descriptor map
         float* aDesc = bGenDescMap?oDescriptors.ptr<float>(nKeyPtRowIdx,nKeyPtColIdx):oDescriptors.ptr<float>(nKeyPtIdx);
         for(int nContourPtIdx=0; nContourPtIdx<(int)m_oContourPts.total(); ++nContourPtIdx) {
             const cv::Point2f& vContourPt = ((cv::Point2f*)m_oContourPts.data)[nContourPtIdx];
@@ -557,8 +559,9 @@ void ShapeContext::scdesc_fill_desc_direct(cv::Mat_<float>& oDescriptors, bool b
         const cv::Point2f& vKeyPt = ((cv::Point2f*)m_oKeyPts.data)[nKeyPtIdx];
         const int nKeyPtRowIdx = (int)std::round(vKeyPt.y);
         const int nKeyPtColIdx = (int)std::round(vKeyPt.x);
-        if(!m_oDistMask(nKeyPtRowIdx,nKeyPtColIdx))
-            continue;
+        const bool bInsideImage = nKeyPtRowIdx>=0 && nKeyPtRowIdx<m_oCurrImageSize.height && nKeyPtColIdx>=0 && nKeyPtColIdx<m_oCurrImageSize.width;
+        if(bInsideImage?!m_oDistMask(nKeyPtRowIdx,nKeyPtColIdx):bGenDescMap)
+            continue; // note: keypoints outside the image have no place in the descriptor map
         float* aDesc = bGenDescMap?oDescriptors.ptr<float>(nKeyPtRowIdx,nKeyPtColIdx):oDescriptors.ptr<float>(nKeyPtIdx);
         for(int nContourPtIdx=0; nContourPtIdx<(int)m_oContourPts.total(); ++nContourPtIdx) {
             const cv::Point2f& vContourPt = ((cv::Point2f*)m_oContourPts.data)[nContourPtIdx];
-- 
2.43.0


From 8e5e8d4fc020a562c9e21ec4d92df801fabbe463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:20 +0000
Subject: [PATCH 58/77] fix: boundary benchmark skipped the confidence level
 equal to a threshold

---
 modules/datasets/src/impl/BSDS500.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/src/impl/BSDS500.cpp b/modules/datasets/src/impl/BSDS500.cpp
index 95392cf..14bbc29 100644
--- a/modules/datasets/src/impl/BSDS500.cpp
+++ b/modules/datasets/src/impl/BSDS500.cpp
@@ -413,7 +413,7 @@ void lv::MetricsAccumulator_<lv::DatasetEval_BinaryClassifier,lv::Dataset_BSDS50
         lvAssert(nSegmPosCount>=nSegmTPAccCount);
         oMetricsBase.vnTotalTP[nThresholdBinIdx] = nSegmTPAccCount;
         oMetricsBase.vnTotalTPFP[nThresholdBinIdx] = nSegmPosCount;
-        while(nNextEvalUniqueValIdx+1<vuEvalUniqueVals.size() && vuEvalUniqueVals[nNextEvalUniqueValIdx]<=oMetricsBase.vnThresholds[nThresholdBinIdx])
+        while(nNextEvalUniqueValIdx+1<vuEvalUniqueVals.size() && vuEvalUniqueVals[nNextEvalUniqueValIdx]<oMetricsBase.vnThresholds[nThresholdBinIdx])
             ++nNextEvalUniqueValIdx;
         while(++nThresholdBinIdx<oMetricsBase.vnThresholds.size() && oMetricsBase.vnThresholds[nThresholdBinIdx]<=vuEvalUniqueVals[nNextEvalUniqueValIdx]) {
             oMetricsBase.vnIndivTP[nThresholdBinIdx] = oMetricsBase.vnIndivTP[nThresholdBinIdx-1];
-- 
2.43.0


From 91a59a3d6266c1b27ccea249a7ff83f4de0ea5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:20 +0000
Subject: [PATCH 59/77] fix: boundary benchmark read past the end of its
 interpolated precisions

---
 modules/datasets/src/impl/BSDS500.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/src/impl/BSDS500.cpp b/modules/datasets/src/impl/BSDS500.cpp
index 14bbc29..c3534a4 100644
--- a/modules/datasets/src/impl/BSDS500.cpp
+++ b/modules/datasets/src/impl/BSDS500.cpp
@@ -590,7 +590,7 @@ void lv::MetricsCalculator_<lv::DatasetEval_BinaryClassifier,lv::Dataset_BSDS500
             vdInterpReqIdx[n] = double(n)/nInterpReqIdxCount;
         std::vector<double> vdInterpVals = lv::interp1(vdCumulRecall_uniques,vdCumulPrecision_uniques,vdInterpReqIdx);
         if(!vdInterpVals.empty())
-            for(size_t n = 0; n<=vdInterpVals.size(); ++n)
+            for(size_t n = 0; n<vdInterpVals.size(); ++n)
                 dAreaPR += vdInterpVals[n]*0.01;
     }
     // ^^^ oCumulScore,dMaxRecall,dMaxPrecision,dMaxFMeasure,dAreaPR => eval_bdry.txt
-- 
2.43.0


From 603861453e4035d614becbf4610b5fd0a4b2d023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:20 +0000
Subject: [PATCH 60/77] fix: boundary benchmark failed whenever the recalls 0
 and 1 were not both reached

---
 modules/datasets/src/impl/BSDS500.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/datasets/src/impl/BSDS500.cpp b/modules/datasets/src/impl/BSDS500.cpp
index c3534a4..8e97a8f 100644
--- a/modules/datasets/src/impl/BSDS500.cpp
+++ b/modules/datasets/src/impl/BSDS500.cpp
@@ -585,9 +585,10 @@ void lv::MetricsCalculator_<lv::DatasetEval_BinaryClassifier,lv::Dataset_BSDS500
             vdCumulPrecision_uniques[n] = voThresholdScores[vnCumulRecallIdx_uniques[n]].dPrecision;
         }
         const size_t nInterpReqIdxCount = 100;
-        std::vector<double> vdInterpReqIdx(nInterpReqIdxCount+1);
+        std::vector<double> vdInterpReqIdx; // precision is considered null for recall values which were never reached
         for(size_t n = 0; n<=nInterpReqIdxCount; ++n)
-            vdInterpReqIdx[n] = double(n)/nInterpReqIdxCount;
+            if(double(n)/nInterpReqIdxCount>=vdCumulRecall_uniques.front() && double(n)/nInterpReqIdxCount<=vdCumulRecall_uniques.back())
+                vdInterpReqIdx.push_back(double(n)/nInterpReqIdxCount);
         std::vector<double> vdInterpVals = lv::interp1(vdCumulRecall_uniques,vdCumulPrecision_uniques,vdInterpReqIdx);
         if(!vdInterpVals.empty())
             for(size_t n = 0; n<vdInterpVals.size(); ++n)
-- 
2.43.0


From 4bacb03332eb363bd0a851e259b348256860ff1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:20 +0000
Subject: [PATCH 61/77] fix: resetting the flow wrote past the end of the
 terminal capacities

---
 3rdparty/sospd/include/litiv/3rdparty/sospd/sos-graph.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/3rdparty/sospd/include/litiv/3rdparty/sospd/sos-graph.hpp b/3rdparty/sospd/include/litiv/3rdparty/sospd/sos-graph.hpp
index 595014c..9162c9e 100644
--- a/3rdparty/sospd/include/litiv/3rdparty/sospd/sos-graph.hpp
+++ b/3rdparty/sospd/include/litiv/3rdparty/sospd/sos-graph.hpp
@@ -356,7 +356,8 @@ inline void sospd::SoSGraph<V,I>::ResetFlow() {
         node.dis = std::numeric_limits<I>::max();
         node.state = NodeState::N;
         node.parent = i;
-        m_phi_si[i] = m_phi_it[i] = 0;
+        if (i < m_num_nodes) // terminals have no capacities of their own
+            m_phi_si[i] = m_phi_it[i] = 0;
     }
 
     // Reset Clique parameters
-- 
2.43.0


From 46819b96aa97bd9921ea2d0ba03f3eeb5f048ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:20 +0000
Subject: [PATCH 62/77] fix: layered flow solvers read past the last layer

---
 3rdparty/sospd/include/litiv/3rdparty/sospd/flow-solver.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/3rdparty/sospd/include/litiv/3rdparty/sospd/flow-solver.hpp b/3rdparty/sospd/include/litiv/3rdparty/sospd/flow-solver.hpp
index e4ba83e..c5a6f48 100644
--- a/3rdparty/sospd/include/litiv/3rdparty/sospd/flow-solver.hpp
+++ b/3rdparty/sospd/include/litiv/3rdparty/sospd/flow-solver.hpp
@@ -633,7 +633,7 @@ inline void sospd::SourceIBFS<V,I>::IBFSInit()
 
     const I n = m_graph->NumNodes();
 
-    m_source_layers = std::vector<NodeQueue>(n+1);
+    m_source_layers = std::vector<NodeQueue>(n+2);
 
     m_source_orphans.clear();
 
@@ -963,7 +963,7 @@ inline void sospd::ParametricIBFS<V,I>::IBFSInit() {
 
     const I n = m_graph->NumNodes();
 
-    m_source_layers = std::vector<NodeQueue>(n+1);
+    m_source_layers = std::vector<NodeQueue>(n+2);
 
     m_source_orphans.clear();
 
-- 
2.43.0


From 736ff59c64ef534af9a37ac3059141920fcd81f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:20 +0000
Subject: [PATCH 63/77] fix: constant terms were ignored in multi-label
 energies

---
 .../include/litiv/3rdparty/sospd/multilabel-energy.hpp      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/3rdparty/sospd/include/litiv/3rdparty/sospd/multilabel-energy.hpp b/3rdparty/sospd/include/litiv/3rdparty/sospd/multilabel-energy.hpp
index cc116fa..f8a7296 100644
--- a/3rdparty/sospd/include/litiv/3rdparty/sospd/multilabel-energy.hpp
+++ b/3rdparty/sospd/include/litiv/3rdparty/sospd/multilabel-energy.hpp
@@ -193,8 +193,8 @@ inline typename sospd::MultilabelEnergy<V,I,L>::VarId sospd::MultilabelEnergy<V,
 }
 
 template<typename V, typename I, typename L>
-inline void sospd::MultilabelEnergy<V,I,L>::addConstantTerm(REAL /*c*/) {
-    m_constantTerm++;
+inline void sospd::MultilabelEnergy<V,I,L>::addConstantTerm(REAL c) {
+    m_constantTerm += c;
 }
 
 template<typename V, typename I, typename L>
@@ -222,7 +222,7 @@ inline void sospd::MultilabelEnergy<V,I,L>::addClique(CliquePtr c) {
 template<typename V, typename I, typename L>
 inline typename sospd::MultilabelEnergy<V,I,L>::REAL sospd::MultilabelEnergy<V,I,L>::computeEnergy(const std::vector<Label>& labels) const {
     ASSERT(VarId(labels.size()) == m_numVars);
-    REAL energy = 0;
+    REAL energy = m_constantTerm;
     std::vector<Label> label_buf;
     for (const CliquePtr& cp : m_cliques) {
         int k = (int)cp->size();
-- 
2.43.0


From aaa3e720079b3049d4d775f739c509f2820ce954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:20 +0000
Subject: [PATCH 64/77] fix: virtual PTZ camera failed to open every colour
 video

---
 modules/vptz/src/virtualptz.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index b5a296c..97b5035 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -48,11 +48,11 @@ vptz::Camera::Camera( const std::string& sInputPath, double verti_FOV, double ou
         cv::Mat oTestFrame1, oTestFrame2;
         if(!panoCapture.set(cv::CAP_PROP_POS_FRAMES,0) || !panoCapture.read(oTestFrame1) || oTestFrame1.empty() || !panoCapture.read(oTestFrame2) || oTestFrame2.empty())
             lvError("could not fetch the first two frames of the image sequence");
-        if(cv::countNonZero(oTestFrame1!=oTestFrame2)==0)
+        if(cv::countNonZero(cv::Mat(oTestFrame1!=oTestFrame2).reshape(1))==0)
             lvError("opencv impl cannot properly parse the image sequence, all frames are identical");
         if(!panoCapture.set(cv::CAP_PROP_POS_FRAMES,0) || !panoCapture.read(oTestFrame2) || oTestFrame2.empty())
             lvError("could not fetch the first frame of the image sequence");
-        if(cv::countNonZero(oTestFrame1!=oTestFrame2))
+        if(cv::countNonZero(cv::Mat(oTestFrame1!=oTestFrame2).reshape(1)))
             lvError("opencv impl could not seek back to the first frame of the image sequence");
         panoCapture >> panoImage;
         panoCapture.set(cv::CAP_PROP_POS_FRAMES,0);
-- 
2.43.0


From 566e4676a8644acafa5554444db2a7cddc5661b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:21 +0000
Subject: [PATCH 65/77] fix: ground truth translator validated its old angles
 instead of the new ones

---
 modules/vptz/src/virtualptz.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index 97b5035..e3fdf68 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -317,7 +317,7 @@ vptz::GTTranslator::GTTranslator( int cur_output_width, int cur_output_height, d
     lvDbgExceptionWatch;
     if(cur_output_width<1 || cur_output_height<1 || cur_verti_FOV<=0.0 || cur_verti_FOV>=180.0 ||
         bgt_output_width<1 || bgt_output_height<1 || bgt_verti_FOV<=0.0 || bgt_verti_FOV>=180.0 ||
-        curHoriAngle<=-180.0 || curHoriAngle>180.0 || curVertiAngle<0.0 || curVertiAngle>180.0)
+        cur_hori_angle<=-180.0 || cur_hori_angle>180.0 || cur_verti_angle<0.0 || cur_verti_angle>180.0)
         lvError("invalid parameter(s)");
     curOutputWidth = cur_output_width;
     curOutputHeight = cur_output_height;
@@ -331,7 +331,7 @@ vptz::GTTranslator::GTTranslator( int cur_output_width, int cur_output_height, d
 
 void vptz::GTTranslator::UpdateViewAngle(double cur_hori_angle, double cur_verti_angle) {
     lvDbgExceptionWatch;
-    if(curHoriAngle<=-180.0 || curHoriAngle>180.0 || curVertiAngle<0.0 || curVertiAngle>180.0)
+    if(cur_hori_angle<=-180.0 || cur_hori_angle>180.0 || cur_verti_angle<0.0 || cur_verti_angle>180.0)
         lvError("invalid input parameter");
     curHoriAngle = cur_hori_angle;
     curVertiAngle = cur_verti_angle;
-- 
2.43.0


From 3b16a57fd8155b5e9b0e5e5a98d192ee6cca435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:21 +0000
Subject: [PATCH 66/77] fix: camera angle changes could not be read, and had
 the wrong sign for turns across the rear

---
 modules/vptz/src/virtualptz.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index e3fdf68..909f1cb 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -132,7 +132,7 @@ void vptz::Camera::GoToPosition(int x, int y) {
     PTZPointXYtoHV(x, y, horiAngle, vertiAngle, int(outputWidth), int(outputHeight), vertiFOV, horiAngle, vertiAngle);
     horiAngleChange = horiAngle-tempHoriAngle;
     if(horiAngleChange>180.0)
-        horiAngleChange = 360.0-horiAngleChange;
+        horiAngleChange = horiAngleChange-360.0;
     else if(horiAngleChange<=-180.0)
         horiAngleChange = horiAngleChange+360.0;
     vertiAngleChange = vertiAngle-tempVertiAngle;
@@ -208,6 +208,8 @@ double vptz::Camera::Get(CameraPropertyFlag flag) {
     switch(flag) {
         case PTZ_CAM_IS_VIDEO : return isVideo;
         case PTZ_CAM_FRAME_NUM : return m_nScenarioFrameCount;
+        case PTZ_CAM_HORI_ANGLE_CHANGE : return horiAngleChange;
+        case PTZ_CAM_VERTI_ANGLE_CHANGE : return vertiAngleChange;
         case PTZ_CAM_GET_FRAME_OVERHEAD : return getFrameOverhead;
         case PTZ_CAM_EXECUTION_DELAY : return executionDelay;
         case PTZ_CAM_MOTION_DELAY : return motionDelay;
@@ -251,7 +253,7 @@ void vptz::Camera::Set(CameraPropertyFlag flag, double value) {
             horiAngle = value;
             horiAngleChange = horiAngle-tempHoriAngle;
             if(horiAngleChange>180.0)
-                horiAngleChange = 360.0-horiAngleChange;
+                horiAngleChange = horiAngleChange-360.0;
             else if(horiAngleChange<=-180.0)
                 horiAngleChange = horiAngleChange+360.0;
         } break;
-- 
2.43.0


From 27dbc35c2950380102103e79e776d489c8f3c85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:21 +0000
Subject: [PATCH 67/77] fix: pan angles could become -180, which is refused
 everywhere

---
 modules/vptz/src/virtualptz.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index 909f1cb..d52d867 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -247,8 +247,10 @@ void vptz::Camera::Set(CameraPropertyFlag flag, double value) {
             bRefreshProj = true;
             break;
         case PTZ_CAM_HORI_ANGLE: {
-            if(value<=-180.0 || value>180.0)
-                value = fmod(value+180-360*(value<0),360)-180+360*(value<0);
+            if(value<=-180.0 || value>180.0) {
+                value = fmod(value-180.0,360.0);
+                value += (value>0.0)?-180.0:180.0;
+            }
             double tempHoriAngle = horiAngle;
             horiAngle = value;
             horiAngleChange = horiAngle-tempHoriAngle;
@@ -832,6 +834,8 @@ void vptz::PTZPointXYtoHV( int target2dX, int target2dY, double& tarHoriAngle, d
     double target3dY = ray_world.at<double>(1,0);
     double target3dZ = ray_world.at<double>(2,0);
     tarHoriAngle = R2D(atan2(target3dY, target3dX));     // horizontal angle
+    if(tarHoriAngle<=-180.0)
+        tarHoriAngle += 360.0;
     double target3dR = sqrt(target3dX*target3dX+target3dY*target3dY+target3dZ*target3dZ);
     tarVertiAngle = R2D(acos(target3dZ/target3dR));    // vertical angle
 }
-- 
2.43.0


From 3514e29f7dd530dd18ec7d3d70a63d24f766c5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:21 +0000
Subject: [PATCH 68/77] fix: a target right behind the camera was reported as
 visible

---
 modules/vptz/src/virtualptz.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index d52d867..1ecc4f6 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -874,7 +874,8 @@ bool vptz::PTZPointHVtoXY( double tarHoriAngle, double tarVertiAngle, int& targe
     cameraVec3d.x = sin(D2R(camVertiAngle))*cos(D2R(camHoriAngle));
     cameraVec3d.y = sin(D2R(camVertiAngle))*sin(D2R(camHoriAngle));
     cameraVec3d.z = cos(D2R(camVertiAngle));
-    double angleDifference = R2D(acos(targetVec3d.ddot(cameraVec3d)/(targetVec3d.ddot(targetVec3d)*cameraVec3d.ddot(cameraVec3d))));
+    double cosDifference = targetVec3d.ddot(cameraVec3d)/(targetVec3d.ddot(targetVec3d)*cameraVec3d.ddot(cameraVec3d));
+    double angleDifference = R2D(acos(std::max(std::min(cosDifference,1.0),-1.0)));
     if(angleDifference>90.0) {
         target2dX = INT_MAX;
         target2dY = INT_MAX;
-- 
2.43.0


From 8a7a7e19e4f41a569a931f29ac7ac056ba2a9735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:21 +0000
Subject: [PATCH 69/77] fix: positions left of or above the view were rounded
 towards it

---
 modules/vptz/src/virtualptz.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index 1ecc4f6..923f460 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -923,8 +923,8 @@ bool vptz::PTZPointHVtoXY( double tarHoriAngle, double tarVertiAngle, int& targe
     //cout<<cv::Point2d(x_normal, y_normal)<<endl;
 
     // 2d image coordinate, range [0:width, height:0]
-    target2dX = int((x_normal+0.5)*camOutputWidth+0.5);
-    target2dY = int((0.5-y_normal)*camOutputHeight+0.5);
+    target2dX = int(std::floor((x_normal+0.5)*camOutputWidth+0.5));
+    target2dY = int(std::floor((0.5-y_normal)*camOutputHeight+0.5));
     return true;
 }
 
-- 
2.43.0


From 0a0d514a15a8df575f7179f7f5d0dbd32b2168e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:21 +0000
Subject: [PATCH 70/77] fix: ground truth boxes as large as the image could not
 be translated

---
 modules/vptz/src/virtualptz.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index 923f460..9386b8d 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -368,10 +368,12 @@ bool vptz::GTTranslator::GetGTBoundingBox(double bgtHoriAngle, double bgtVertiAn
     }
     // 1. Ground Truth Domain
     // the four vertexes of bounding box on image plane
-    cv::Point l_t_XY((bgtOutputWidth-bgtBBoxWidth)/2, (bgtOutputHeight-bgtBBoxHeight)/2);
-    cv::Point l_b_XY((bgtOutputWidth-bgtBBoxWidth)/2, (bgtOutputHeight+bgtBBoxHeight)/2);
-    cv::Point r_t_XY((bgtOutputWidth+bgtBBoxWidth)/2, (bgtOutputHeight-bgtBBoxHeight)/2);
-    cv::Point r_b_XY((bgtOutputWidth+bgtBBoxWidth)/2, (bgtOutputHeight+bgtBBoxHeight)/2);
+    const int left = (bgtOutputWidth-bgtBBoxWidth)/2, right = std::min((bgtOutputWidth+bgtBBoxWidth)/2,bgtOutputWidth-1);
+    const int top = (bgtOutputHeight-bgtBBoxHeight)/2, bottom = std::min((bgtOutputHeight+bgtBBoxHeight)/2,bgtOutputHeight-1);
+    cv::Point l_t_XY(left, top);
+    cv::Point l_b_XY(left, bottom);
+    cv::Point r_t_XY(right, top);
+    cv::Point r_b_XY(right, bottom);
     // the four vertexes of bounding box on spherical surface
     cv::Point2d l_t_HV, l_b_HV, r_t_HV, r_b_HV;
     PTZPointXYtoHV(l_t_XY, l_t_HV, bgtOutputWidth, bgtOutputHeight, bgtVertiFOV, bgtHoriAngle, bgtVertiAngle);
-- 
2.43.0


From 50f2d747f6bfa661d53fb399ce2296e8b55fd576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:21 +0000
Subject: [PATCH 71/77] fix: out-of-view test compared a column with the image
 height

---
 modules/vptz/src/virtualptz.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index 9386b8d..9354fdc 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -679,7 +679,7 @@ void vptz::Evaluator::UpdateCurrentResult(cv::Rect& rCurrTargetBBox, bool bPrint
     double dCurrTargetPointError;  // target point error (pixel, -1.0 if out of view), L2 dist between tracked point and gt point
     double dCurrTargetPointOffset; // target point offset (pixel, -1.0 if out of view), L2 dist between gt point and image center
     if(tgtTargetPoint.x<0 || tgtTargetPoint.y<0 ||
-        tgtTargetPoint.x>m_pTranslator->curOutputWidth-1 || tgtTargetPoint.x>m_pTranslator->curOutputHeight-1 ||
+        tgtTargetPoint.x>m_pTranslator->curOutputWidth-1 || tgtTargetPoint.y>m_pTranslator->curOutputHeight-1 ||
         (rCurrTargetBBox.width<VPTZ_MINIMUM_BBOX_RADIUS || rCurrTargetBBox.height<VPTZ_MINIMUM_BBOX_RADIUS) ) {
         ++m_nCurrOutOfViewFrameCount;
         dCurrTargetPointError = -1.0;
-- 
2.43.0


From ea8ba7dc0f58a1205bfb908a543bf69366bb02eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:21 +0000
Subject: [PATCH 72/77] fix: tracking evaluation used the box of an earlier
 frame for targets that cannot be seen

---
 modules/vptz/src/virtualptz.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index 9354fdc..a1e5d20 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -674,7 +674,8 @@ void vptz::Evaluator::UpdateCurrentResult(cv::Rect& rCurrTargetBBox, bool bPrint
     double bgtVertiAngle = m_voCurrGTSequence_FN[nCurrGTArrayIdx]["verticalAngle"];
     // translated ground truth for required frame
     m_pTranslator->GetGTTargetPoint(bgtHoriAngle, bgtVertiAngle, tgtTargetPoint);
-    m_pTranslator->GetGTBoundingBox(bgtHoriAngle, bgtVertiAngle, bgtBBoxwidth, bgtBBoxheight, tgtBoundingBox);
+    if(!m_pTranslator->GetGTBoundingBox(bgtHoriAngle, bgtVertiAngle, bgtBBoxwidth, bgtBBoxheight, tgtBoundingBox))
+        tgtBoundingBox = cv::Rect(); // the target cannot be seen, the box of an earlier frame must not be used again
     // target point distance and offset
     double dCurrTargetPointError;  // target point error (pixel, -1.0 if out of view), L2 dist between tracked point and gt point
     double dCurrTargetPointOffset; // target point offset (pixel, -1.0 if out of view), L2 dist between gt point and image center
@@ -696,8 +697,9 @@ void vptz::Evaluator::UpdateCurrentResult(cv::Rect& rCurrTargetBBox, bool bPrint
     // overlap ratio of bounding box
     double AND = double((tgtBoundingBox&rCurrTargetBBox).area());
     double OR = double(tgtBoundingBox.area()+rCurrTargetBBox.area()-AND);
-    double dCurrBBoxOverlapRatio = AND/OR ;
-    m_dCurrBBoxOverlapRatioSum += dCurrBBoxOverlapRatio;
+    double dCurrBBoxOverlapRatio = OR>0?AND/OR:0.0;
+    if(dCurrTargetPointError>=0) // averaged over the same frames as the other metrics
+        m_dCurrBBoxOverlapRatioSum += dCurrBBoxOverlapRatio;
     m_oOutputEvalFS << "{:" << "framePos" << m_nCurrFrameIdx
                     << "targetPointError" << dCurrTargetPointError
                     << "targetPointOffset" << dCurrTargetPointOffset
-- 
2.43.0


From c3a4c151f672077743df9317adf7e084dae76cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:21 +0000
Subject: [PATCH 73/77] fix: tracking evaluation ratios were not relative to
 the number of test frames

---
 modules/vptz/src/virtualptz.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index a1e5d20..95fc114 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -550,9 +550,9 @@ void vptz::Evaluator::EndTesting() {
     const double dTargetPointError = m_dCurrTargetPointErrorSum/nValidProcessedFrames;
     const double dTargetPointOffset = m_dCurrTargetPointOffsetSum/nValidProcessedFrames;
     const double dBBoxOverlapRatio = m_dCurrBBoxOverlapRatioSum/nValidProcessedFrames;
-    const double dTrackFragmentation = double(m_nCurrOutOfViewFrameCount)/m_nCurrProcessedFrameCount;
-    const double dOutOfViewRatio = (double)m_nCurrOutOfViewFrameCount/(m_nTestFrameCount-1);
-    const double dProcessedRatio = (double)m_nCurrProcessedFrameCount/(m_nTestFrameCount-1);
+    const double dTrackFragmentation = double(m_nCurrOutOfViewFrameCount)/std::max(m_nCurrProcessedFrameCount,1);
+    const double dOutOfViewRatio = (double)m_nCurrOutOfViewFrameCount/m_nTestFrameCount;
+    const double dProcessedRatio = (double)m_nCurrProcessedFrameCount/m_nTestFrameCount;
     m_oOutputEvalFS << "]"
                     << "targetPointError_avg" << dTargetPointError
                     << "targetPointOffset_avg" << dTargetPointOffset
-- 
2.43.0


From b30421882859421fef064c71e9c741b4ed3117bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:21 +0000
Subject: [PATCH 74/77] fix: data sets without group directories could not be
 created

---
 modules/datasets/src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index ccf38c8..6f3d6f8 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -178,7 +178,7 @@ lv::DataHandler::DataHandler(const std::string& sBatchName, const std::string& s
         m_sBatchName(sBatchName),
         m_sRelativePath(lv::addDirSlashIfMissing(sRelativePath)),
         m_sDataPath(getRootNodeHelper(oParent).getDataPath()+lv::addDirSlashIfMissing(sRelativePath)),
-        m_sOutputPath(createOutputDir(getRootNodeHelper(oParent).getOutputPath(),sRelativePath)),
+        m_sOutputPath(sRelativePath.empty()?getRootNodeHelper(oParent).getOutputPath():createOutputDir(getRootNodeHelper(oParent).getOutputPath(),sRelativePath)),
         m_sFeaturesPath(createOutputDir(getRootNodeHelper(oParent).getOutputPath(),lv::addDirSlashIfMissing(sRelativePath)+"precomp/")),
         m_oParent(oParent),
         m_oRoot(getRootNodeHelper(oParent)) {}
-- 
2.43.0


From 552e24c5dff69fc92ba2d5d0d94ad4004a2c52ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:21 +0000
Subject: [PATCH 75/77] fix: scaled BSDS500 ground truth was declared with the
 wrong height

---
 modules/datasets/include/litiv/datasets/impl/BSDS500.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/include/litiv/datasets/impl/BSDS500.hpp b/modules/datasets/include/litiv/datasets/impl/BSDS500.hpp
index cb80b34..61d6a7f 100644
--- a/modules/datasets/include/litiv/datasets/impl/BSDS500.hpp
+++ b/modules/datasets/include/litiv/datasets/impl/BSDS500.hpp
@@ -115,7 +115,7 @@ namespace lv {
                 const std::vector<std::string> vsTempPaths = lv::getFilesFromDir(this->m_vsGTPaths[nImageIdx]);
                 lvAssert(!vsTempPaths.empty());
                 this->m_vInputInfos.push_back(lv::MatInfo{cv::Size(int(oCurrInput.cols*dScale),int(oCurrInput.rows*dScale)),CV_8UC3});
-                this->m_vGTInfos.push_back(lv::MatInfo{cv::Size(int(oCurrInput.cols*dScale),int(oCurrInput.rows*vsTempPaths.size()*dScale)),CV_8UC1});
+                this->m_vGTInfos.push_back(lv::MatInfo{cv::Size(int(oCurrInput.cols*dScale),int(oCurrInput.rows*dScale)*int(vsTempPaths.size())),CV_8UC1});
             }
             lvAssert(this->m_vInputInfos.size()>0);
         }
-- 
2.43.0


From 6142e66d7f2c4dcf3a07c899fdfb2e99c70eac3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:29 +0000
Subject: [PATCH 76/77] fix: initial LBSP descriptors were missing next to the
 border and around the ROI

---
 modules/video/src/BackgroundSubtractorLBSP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/video/src/BackgroundSubtractorLBSP.cpp b/modules/video/src/BackgroundSubtractorLBSP.cpp
index f68eeeb..1808ae3 100644
--- a/modules/video/src/BackgroundSubtractorLBSP.cpp
+++ b/modules/video/src/BackgroundSubtractorLBSP.cpp
@@ -31,7 +31,7 @@ void IBackgroundSubtractorLBSP_<eImpl>::initialize_common(const cv::Mat& oInitIm
         for(size_t nPxIter=0; nPxIter<this->m_nTotPxCount; ++nPxIter) {
             const int nImgCoord_X = this->m_voPxInfoLUT[nPxIter].nImgCoord_X;
             const int nImgCoord_Y = this->m_voPxInfoLUT[nPxIter].nImgCoord_Y;
-            if(this->m_oROI.data[nPxIter] && nImgCoord_X>nLBSPBorderSize && nImgCoord_Y>nLBSPBorderSize && nImgCoord_X<oInitImg.cols-nLBSPBorderSize && nImgCoord_Y<oInitImg.rows-nLBSPBorderSize) {
+            if(nImgCoord_X>=nLBSPBorderSize && nImgCoord_Y>=nLBSPBorderSize && nImgCoord_X<oInitImg.cols-nLBSPBorderSize && nImgCoord_Y<oInitImg.rows-nLBSPBorderSize) {
                 const size_t nDescIter = nPxIter*2;
                 LBSP::computeDescriptor<1>(oInitImg,oInitImg.data[nPxIter],nImgCoord_X,nImgCoord_Y,0,m_anLBSPThreshold_8bitLUT[oInitImg.data[nPxIter]],*((ushort*)(m_oLastDescFrame.data+nDescIter)));
             }
@@ -44,7 +44,7 @@ void IBackgroundSubtractorLBSP_<eImpl>::initialize_common(const cv::Mat& oInitIm
         for(size_t nPxIter=0; nPxIter<this->m_nTotPxCount; ++nPxIter) {
             const int nImgCoord_X = this->m_voPxInfoLUT[nPxIter].nImgCoord_X;
             const int nImgCoord_Y = this->m_voPxInfoLUT[nPxIter].nImgCoord_Y;
-            if(this->m_oROI.data[nPxIter] && nImgCoord_X>nLBSPBorderSize && nImgCoord_Y>nLBSPBorderSize && nImgCoord_X<oInitImg.cols-nLBSPBorderSize && nImgCoord_Y<oInitImg.rows-nLBSPBorderSize) {
+            if(nImgCoord_X>=nLBSPBorderSize && nImgCoord_Y>=nLBSPBorderSize && nImgCoord_X<oInitImg.cols-nLBSPBorderSize && nImgCoord_Y<oInitImg.rows-nLBSPBorderSize) {
                 const size_t nPxRGBIter = nPxIter*this->m_nImgChannels;
                 const size_t nDescRGBIter = nPxRGBIter*2;
                 if(this->m_nImgChannels==3) {
-- 
2.43.0


From f9eed7cc60d696e63b88d36a4df9363f09b53a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:38 +0000
Subject: [PATCH 77/77] fix: bit counts of vectors of 256 or more bits wrapped
 around

The default result type of the multi-word popcount/hdist was the one of a
single word (8 bits), so distances between descriptors of 256 or more bits
were returned modulo 256. Count in 32 bits whenever 8 are not enough.
---
 modules/utils/include/litiv/utils/math.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/modules/utils/include/litiv/utils/math.hpp b/modules/utils/include/litiv/utils/math.hpp
index 47f41ec..b4e7def 100644
--- a/modules/utils/include/litiv/utils/math.hpp
+++ b/modules/utils/include/litiv/utils/math.hpp
@@ -684,8 +684,12 @@ namespace lv {
 
 #endif //(!HAVE_POPCNT)
 
+    /// default output type for the bit counts of (nChannels*N)-byte vectors (8-bit counters only if all bits can be counted)
+    template<size_t nChannels, typename Tin>
+    using BitCountType = std::conditional_t<(nChannels*sizeof(Tin)*8<=std::numeric_limits<uint8_t>::max()),uint8_t,uint32_t>;
+
     /// computes the population count of a (nChannels*N)-byte vector
-    template<size_t nChannels, typename Tin, typename Tout=decltype(popcount(Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=BitCountType<nChannels,Tin>>
     inline Tout popcount(const Tin* x) {
         Tout tResult = 0;
         for(size_t c=0; c<nChannels; ++c)
@@ -694,7 +698,7 @@ namespace lv {
     }
 
     /// computes the population count of a (nChannels*N)-byte vector
-    template<size_t nChannels, typename Tin, typename Tout=decltype(popcount(Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=BitCountType<nChannels,Tin>>
     inline Tout popcount(const std::array<Tin,nChannels>& x) {
         return popcount<nChannels,Tin,Tout>(x.data());
     }
@@ -707,7 +711,7 @@ namespace lv {
     }
 
     /// computes the hamming distance between two (nChannels*N)-byte vectors
-    template<size_t nChannels, typename Tin, typename Tout=decltype(popcount(Tin()))>
+    template<size_t nChannels, typename Tin, typename Tout=BitCountType<nChannels,Tin>>
     inline Tout hdist(const Tin* a, const Tin* b) {
         static_assert(std::is_integral<Tin>::value,"type must be integral");
         Tout tResult = 0;
-- 
2.43.0

