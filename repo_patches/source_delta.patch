From 1e4b44e5ad1c5874a00698f33ede170739d3ba84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:24 +0000
Subject: [PATCH 01/57] fix: keep the core's list of enabled caches in step
 with concurrent consumer changes

addConsumer/removeConsumer evaluated cacheEnabled before taking cacheLock, so two threads
changing the consumers of one node could apply their registrations in the wrong order and
leave an enabled cache unregistered, out of reach of clearCoreCaches and the pressure sweeps.
---
 src/core/vscore.cpp | 14 ++++++++------
 src/core/vscore.h   |  2 +-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/core/vscore.cpp b/src/core/vscore.cpp
index 49a9fbc..ae160b4 100644
--- a/src/core/vscore.cpp
+++ b/src/core/vscore.cpp
@@ -846,9 +846,11 @@ VSNode::~VSNode() {
     core->destroyFilterInstance(this);
 }
 
-void VSNode::registerCache(bool add) {
+void VSNode::registerCache(bool alive) {
     std::lock_guard<std::mutex> lock(core->cacheLock);
-    if (add) {
+    // the state has to be read here, concurrent changes could otherwise be applied in the wrong
+    // order and leave an enabled cache the core doesn't know about
+    if (alive && cacheEnabled) {
         core->caches.insert(this);
     } else {
         core->caches.erase(this);
@@ -872,7 +874,7 @@ void VSNode::addConsumer(VSNode *consumer, int strictSpatial) {
 
         updateCacheState();
     }
-    registerCache(cacheEnabled);
+    registerCache(true);
 }
 
 void VSNode::removeConsumer(VSNode *consumer, int strictSpatial) {
@@ -887,7 +889,7 @@ void VSNode::removeConsumer(VSNode *consumer, int strictSpatial) {
 
         updateCacheState();
     }
-    registerCache(cacheEnabled);
+    registerCache(true);
 }
 
 
@@ -998,7 +1000,7 @@ int VSNode::setLinear() {
         cache.setFixedSize(true);
         cache.setMaxFrames(static_cast<int>(threadCount) * 2 + 20);
     }
-    registerCache(cacheEnabled);
+    registerCache(true);
     return cache.getMaxFrames() / 2;
 }
 
@@ -1032,7 +1034,7 @@ void VSNode::setCacheMode(int mode) {
         if (!cacheEnabled)
             cache.clear();
     }
-    registerCache(cacheEnabled);
+    registerCache(true);
 }
 
 void VSNode::setCacheOptions(int fixedSize, int maxSize, int maxHistorySize) {
diff --git a/src/core/vscore.h b/src/core/vscore.h
index f006060..f1aca6e 100644
--- a/src/core/vscore.h
+++ b/src/core/vscore.h
@@ -916,7 +916,7 @@ private:
     // api3
     vs3::VSVideoInfo v3vi = {};
 
-    void registerCache(bool add);
+    void registerCache(bool alive);
     PVSFrame getCachedFrameInternal(int n);
     PVSFrame getFrameInternal(int n, int activationReason, VSFrameContext *frameCtx);
     void updateTransientAllocEstimate(int64_t sample);
-- 
2.43.0


From 5d12c328ff2b4853f04d3842f944f148d2ee61a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:34 +0000
Subject: [PATCH 02/57] fix: reject out of range colors for 32 bit integer
 formats

The color was saturated to 32 bits before it was compared with the limit, so
BlankClip and AddBorders silently accepted values past the end of the range.
---
 src/core/simplefilters.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 6b82c43..2e56cee 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -52,18 +52,13 @@ static inline uint32_t doubleToUInt32S(double v) {
 static inline uint32_t doubleToIntPixelValue(double v, int bits, int *err) {
     *err = 0;
 
-    if (!isfinite(v) || v < 0) {
+    // compare before converting since the conversion saturates and would hide values too big for 32 bit formats
+    if (!isfinite(v) || v < 0 || v + 0.5 >= (double)((uint64_t)1 << bits)) {
         *err = 1;
         return 0;
     }
 
-    uint32_t i = doubleToUInt32S(v);
-    if (i >= ((uint64_t)1 << bits)) {
-        *err = 1;
-        return 0;
-    }
-
-    return i;
+    return doubleToUInt32S(v);
 }
 
 static inline uint32_t doubleToFloatPixelValue(double v, int *err) {
-- 
2.43.0


From 8bb859a129165a831ed4f317c8012726c2dde6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:27 +0000
Subject: [PATCH 03/57] fix: don't count threads blocked in a synchronous
 request as processing in admission control

A filter that calls getFrame while memory use is above the limit blocked forever: its own call was
counted as processing so the requested frame was never admitted.
---
 src/core/vscore.h         |  1 +
 src/core/vsthreadpool.cpp | 15 ++++++++++-----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/core/vscore.h b/src/core/vscore.h
index f1aca6e..1de1b11 100644
--- a/src/core/vscore.h
+++ b/src/core/vscore.h
@@ -1032,6 +1032,7 @@ private:
     std::atomic<uint64_t> completedExternalFrames;
     std::atomic<int64_t> inflightAllocation;
     std::atomic<size_t> processingThreads;
+    size_t reservedThreads; // pool threads blocked in a synchronous request, protected by taskLock
     std::atomic<bool> cacheSweepActive;
     bool stopThreads;
     bool flushCaches;
diff --git a/src/core/vsthreadpool.cpp b/src/core/vsthreadpool.cpp
index b648e8c..717018d 100644
--- a/src/core/vsthreadpool.cpp
+++ b/src/core/vsthreadpool.cpp
@@ -178,10 +178,11 @@ void VSThreadPool::runTasks(bool &stop) {
 // Some filters allocate several frames worth of temporary memory in a
 // single call and having many threads enter such calls at once can overshoot the memory limit
 // by a large factor before any other mechanism gets a chance to react, so don't start calls
-// whose predicted allocations don't fit in the allowed overshoot
+// whose predicted allocations don't fit in the allowed overshoot, calls blocked in a synchronous
+// request don't count since they can't complete before the task that's being considered does
 
             int64_t expectedAlloc = node->expectedTransientAllocation();
-            if (expectedAlloc > 0 && processingThreads.load(std::memory_order_relaxed) > 0) {
+            if (expectedAlloc > 0 && processingThreads.load(std::memory_order_relaxed) > reservedThreads) {
                 int64_t memLimit = static_cast<int64_t>(core->memory->limit());
                 if (static_cast<int64_t>(core->memory->allocated_bytes()) + inflightAllocation.load(std::memory_order_relaxed) + expectedAlloc > memLimit + memLimit / 4)
                     continue;
@@ -384,7 +385,7 @@ void VSThreadPool::runTasks(bool &stop) {
     }
 }
 
-VSThreadPool::VSThreadPool(VSCore *core) : core(core), activeThreads(0), idleThreads(0), reqCounter(0), overLimitSince(0), lastCacheSweep(0), completedExternalFrames(0), inflightAllocation(0), processingThreads(0), cacheSweepActive(false), stopThreads(false), flushCaches(false) {
+VSThreadPool::VSThreadPool(VSCore *core) : core(core), activeThreads(0), idleThreads(0), reqCounter(0), overLimitSince(0), lastCacheSweep(0), completedExternalFrames(0), inflightAllocation(0), processingThreads(0), reservedThreads(0), cacheSweepActive(false), stopThreads(false), flushCaches(false) {
     setThreadCount(0);
 }
 
@@ -442,8 +443,10 @@ void VSThreadPool::startExternal(const PVSFrameContext &context) {
     std::lock_guard<std::mutex> l(taskLock);
     context->reqOrder = ++reqCounter;
     context->reserveThread = context->reserveThread && (allThreads.count(std::this_thread::get_id()) > 0);
-    if (context->reserveThread)
+    if (context->reserveThread) {
         --activeThreads;
+        ++reservedThreads;
+    }
     assert(context);
     // A reserveThread request comes from a pool thread that immediately blocks waiting for this exact
     // frame. Parking it in altTasks during a flush would deadlock: the blocked thread never becomes idle,
@@ -488,8 +491,10 @@ void VSThreadPool::returnFrame(VSFrameContext *rCtx, const PVSFrame &f, std::uni
     if (core->enableFrameRefDebug)
         core->logMessage(mtInformation, core->getFrameRefInfo());
     lock.lock();
-    if (reserveThread)
+    if (reserveThread) {
         ++activeThreads;
+        --reservedThreads;
+    }
 }
 
 void VSThreadPool::startInternalRequest(const PVSFrameContext &notify, NodeOutputKey key) {
-- 
2.43.0


From c28777759e8a1f43182b27093294315fd2f5241e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:34 +0000
Subject: [PATCH 04/57] fix: hold vspipe's output lock for the whole frame done
 callback

The completed frame counters were increased before the frame was written and
without the lock, so the main thread could see its wait condition satisfied,
close the output and free all state while the last frame was being written.
---
 src/vspipe/vspipe.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vspipe/vspipe.cpp b/src/vspipe/vspipe.cpp
index 5c19fd7..1f0d6b5 100644
--- a/src/vspipe/vspipe.cpp
+++ b/src/vspipe/vspipe.cpp
@@ -296,6 +296,9 @@ static std::string doubleToString(double v) {
 static void VS_CC frameDoneCallback(void *userData, const VSFrame *f, int n, VSNode *rnode, const char *errorMsg) {
     VSPipeOutputData *data = reinterpret_cast<VSPipeOutputData *>(userData);
 
+    // The main thread may evaluate its wait condition at any time so the frame counters can't be updated before everything has been written
+    std::lock_guard<std::mutex> lock(data->mutex);
+
     bool printToConsole = false;
     bool hasMeaningfulFPS = false;
     double fps = 0;
@@ -430,10 +433,8 @@ static void VS_CC frameDoneCallback(void *userData, const VSFrame *f, int n, VSN
         }
     }
 
-    if (data->totalFrames == data->completedFrames && data->totalFrames == data->completedAlphaFrames) {
-        std::lock_guard<std::mutex> lock(data->mutex);
+    if (data->totalFrames == data->completedFrames && data->totalFrames == data->completedAlphaFrames)
         data->condition.notify_one();
-    }
 }
 
 static std::string floatBitsToLetter(int bits) {
-- 
2.43.0


From 78f34bb5abc59b5acad3a611ed69179ebf786690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:34 +0000
Subject: [PATCH 05/57] fix: don't free the error map twice in vspipe when the
 requested range is invalid

---
 src/vspipe/vspipe.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/vspipe/vspipe.cpp b/src/vspipe/vspipe.cpp
index 1f0d6b5..63298c3 100644
--- a/src/vspipe/vspipe.cpp
+++ b/src/vspipe/vspipe.cpp
@@ -1200,7 +1200,6 @@ int main(int argc, char **argv) {
 
             if (mapError) {
                 fprintf(stderr, "%s\n", vsapi->mapGetError(mapError));
-                vsapi->freeMap(mapError);
                 vsapi->freeMap(result);
                 vsapi->freeMap(alphaResult);
                 vsapi->freeNode(node);
-- 
2.43.0


From 89339c475d9589930a810de4be9504300d72a6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:34 +0000
Subject: [PATCH 06/57] fix: release the untrimmed alpha node in vspipe

---
 src/vspipe/vspipe.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vspipe/vspipe.cpp b/src/vspipe/vspipe.cpp
index 63298c3..41d0395 100644
--- a/src/vspipe/vspipe.cpp
+++ b/src/vspipe/vspipe.cpp
@@ -1209,6 +1209,7 @@ int main(int argc, char **argv) {
             } else {
                 vsapi->freeNode(node);
                 node = vsapi->mapGetNode(result, "clip", 0, nullptr);
+                vsapi->freeNode(alphaNode);
                 if (alphaResult)
                     alphaNode = vsapi->mapGetNode(alphaResult, "clip", 0, nullptr);
                 vsapi->freeMap(result);
-- 
2.43.0


From 2db958a849c9cd2d28127ff57c8729f16aee3f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:07 +0000
Subject: [PATCH 07/57] fix: report failures to write buffered output in vspipe

The results of the final flushes were ignored so vspipe exited successfully
even though the last, or all, buffered bytes were never accepted.
---
 src/vspipe/vspipe.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/vspipe/vspipe.cpp b/src/vspipe/vspipe.cpp
index 41d0395..4b89224 100644
--- a/src/vspipe/vspipe.cpp
+++ b/src/vspipe/vspipe.cpp
@@ -69,6 +69,15 @@ static void HandlerRoutine(int sig) {
 
 using namespace vsh;
 
+// Buffered data is only known to have been accepted once it has been flushed
+static bool flushFile(FILE *f, const char *name) {
+    if (f && (fflush(f) != 0 || ferror(f))) {
+        fprintf(stderr, "Error: failed to write all data to the %s, errno: %d\n", name, errno);
+        return false;
+    }
+    return true;
+}
+
 static FILE *OpenFile(const std::filesystem::path &Path) {
 #ifdef VS_TARGET_OS_WINDOWS
     return _wfopen(Path.c_str(), L"wb");
@@ -1135,7 +1144,7 @@ int main(int argc, char **argv) {
             vsapi->freeNode(mainNode);
         }
         vssapi->freeScript(se);
-        return 0;
+        return flushFile(outFile, "output") ? 0 : 1;
     }
 
     VSNode *node = vssapi->getOutputNode(se, opts.outputIndex);
@@ -1262,12 +1271,9 @@ int main(int argc, char **argv) {
                 success = !outputNode(opts, data.get(), vssapi->getCore(se));
         }
 
-        if (outFile)
-            fflush(outFile);
-        if (timecodesFile)
-            fflush(timecodesFile);
-        if (jsonFile)
-            fflush(jsonFile);
+        success = flushFile(outFile, "output") && success;
+        success = flushFile(timecodesFile, "timecodes file") && success;
+        success = flushFile(jsonFile, "JSON file") && success;
 
         std::chrono::duration<double> elapsedSeconds = std::chrono::steady_clock::now() - data->startTime;
         if (opts.mode == VSPipeMode::Output) {
@@ -1282,9 +1288,13 @@ int main(int argc, char **argv) {
         if (filterTimeGraphFile) {
             std::string graph = printNodeGraph(NodePrintMode::FullWithTimes, node, elapsedSeconds.count(), vsapi);
             fprintf(filterTimeGraphFile, "%s", graph.c_str());
+            success = flushFile(filterTimeGraphFile, "filter time graph file") && success;
         }
     }
 
+    if (opts.mode != VSPipeMode::Output)
+        success = flushFile(outFile, "output");
+
     if (outFile && closeOutFile)
         fclose(outFile);
     if (timecodesFile)
-- 
2.43.0


From df0096955f1aaa39d306e9bfbec1802f4d9f08d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:45 +0000
Subject: [PATCH 08/57] fix: don't hang in vspipe when a clip is its own alpha
 clip

Main and alpha frames were told apart by comparing nodes, so no alpha frame was
ever seen when both are the same clip, which set_output allows for gray clips.
---
 src/vspipe/vspipe.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/vspipe/vspipe.cpp b/src/vspipe/vspipe.cpp
index 4b89224..a1dd839 100644
--- a/src/vspipe/vspipe.cpp
+++ b/src/vspipe/vspipe.cpp
@@ -302,9 +302,11 @@ static std::string doubleToString(double v) {
     return std::string(buffer, res.ptr - buffer);
 }
 
-static void VS_CC frameDoneCallback(void *userData, const VSFrame *f, int n, VSNode *rnode, const char *errorMsg) {
-    VSPipeOutputData *data = reinterpret_cast<VSPipeOutputData *>(userData);
+static void VS_CC frameDoneCallback(void *userData, const VSFrame *f, int n, VSNode *rnode, const char *errorMsg);
+static void VS_CC alphaFrameDoneCallback(void *userData, const VSFrame *f, int n, VSNode *rnode, const char *errorMsg);
 
+// The node can't be used to tell the main and alpha frames apart since the same clip may be used for both
+static void frameDone(VSPipeOutputData *data, const VSFrame *f, int n, VSNode *rnode, bool isAlpha, const char *errorMsg) {
     // The main thread may evaluate its wait condition at any time so the frame counters can't be updated before everything has been written
     std::lock_guard<std::mutex> lock(data->mutex);
 
@@ -331,7 +333,7 @@ static void VS_CC frameDoneCallback(void *userData, const VSFrame *f, int n, VSN
     }
 
     // completed frames simply correspond to how many times the completion callback is called
-    if (rnode == data->node) {
+    if (!isAlpha) {
         data->completedFrames++;
         if (!data->alphaNode)
             data->completedAlphaFrames++;
@@ -340,7 +342,7 @@ static void VS_CC frameDoneCallback(void *userData, const VSFrame *f, int n, VSN
     }
 
     if (f) {
-        if (rnode == data->node)
+        if (!isAlpha)
             data->reorderMap[n].first = f;
         else
             data->reorderMap[n].second = f;
@@ -348,9 +350,9 @@ static void VS_CC frameDoneCallback(void *userData, const VSFrame *f, int n, VSN
         bool completed = isCompletedFrame(data->reorderMap[n], !!data->alphaNode);
 
         if (completed && data->requestedFrames < data->totalFrames) {
-            data->vsapi->getFrameAsync(data->requestedFrames, data->node, frameDoneCallback, userData);
+            data->vsapi->getFrameAsync(data->requestedFrames, data->node, frameDoneCallback, data);
             if (data->alphaNode)
-                data->vsapi->getFrameAsync(data->requestedFrames, data->alphaNode, frameDoneCallback, userData);
+                data->vsapi->getFrameAsync(data->requestedFrames, data->alphaNode, alphaFrameDoneCallback, data);
             data->requestedFrames++;
         }
 
@@ -446,6 +448,14 @@ static void VS_CC frameDoneCallback(void *userData, const VSFrame *f, int n, VSN
         data->condition.notify_one();
 }
 
+static void VS_CC frameDoneCallback(void *userData, const VSFrame *f, int n, VSNode *rnode, const char *errorMsg) {
+    frameDone(reinterpret_cast<VSPipeOutputData *>(userData), f, n, rnode, false, errorMsg);
+}
+
+static void VS_CC alphaFrameDoneCallback(void *userData, const VSFrame *f, int n, VSNode *rnode, const char *errorMsg) {
+    frameDone(reinterpret_cast<VSPipeOutputData *>(userData), f, n, rnode, true, errorMsg);
+}
+
 static std::string floatBitsToLetter(int bits) {
     switch (bits) {
     case 16:
@@ -611,7 +621,7 @@ static bool outputNode(const VSPipeOptions &opts, VSPipeOutputData *data, VSCore
     for (int n = 0; n < intitalRequestSize; n++) {
         data->vsapi->getFrameAsync(n, data->node, frameDoneCallback, data);
         if (data->alphaNode)
-            data->vsapi->getFrameAsync(n, data->alphaNode, frameDoneCallback, data);
+            data->vsapi->getFrameAsync(n, data->alphaNode, alphaFrameDoneCallback, data);
     }
 
     data->condition.wait(lock, [&]() { return data->totalFrames == data->completedFrames && data->totalFrames == data->completedAlphaFrames; });
-- 
2.43.0


From 924c7b70c3f7a593eaf172b0f4fe5e4b9f6820cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:45 +0000
Subject: [PATCH 09/57] fix: write large and small floating point properties
 completely in vspipe's JSON output

The fixed notation of a double can need several hundred characters. to_chars()
then failed and the uninitialized buffer was written instead.
---
 src/vspipe/vsjson.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vspipe/vsjson.cpp b/src/vspipe/vsjson.cpp
index bc06c81..8df6a77 100644
--- a/src/vspipe/vsjson.cpp
+++ b/src/vspipe/vsjson.cpp
@@ -29,7 +29,7 @@ static bool isAsciiPrintable(const std::string &s) {
 }
 
 static std::string doubleToString(double v) {
-    char buffer[100];
+    char buffer[512];
     auto res = std::to_chars(buffer, buffer + sizeof(buffer), v, std::chars_format::fixed);
     return std::string(buffer, res.ptr - buffer);
 }
-- 
2.43.0


From a11b4d6ac766258e7f71c376ce151d6328f89746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:08 +0000
Subject: [PATCH 10/57] fix: avoid integer overflow in 16 bit 7x7 convolutions
 with large coefficients

---
 src/core/kernel/x86/square_impl.h | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/core/kernel/x86/square_impl.h b/src/core/kernel/x86/square_impl.h
index 3f23c2a..7552663 100644
--- a/src/core/kernel/x86/square_impl.h
+++ b/src/core/kernel/x86/square_impl.h
@@ -30,10 +30,11 @@
 * is bit-exact with the scalar reference), so the bit-exactness / mirror behaviour
 * matches kernel/generic.cpp conv_plane_square exactly. Integer paths pair
 * two taps per pmaddwd (a trick the auto-vectoriser does not apply). byte accumulates in
-* int32 (never overflows). word at N<=7 accumulates in int32 (worst case N*N*1023*32768 <
-* INT32_MAX at 7x7); word at N>=9 sums each row in int32 (a single row is always safe) and
-* spills into int64 accumulators, converting int64 -> float exactly at the end -- all
-* bit-exact with the C reference. Float uses FMA -> not bit-exact with the scalar/SSE2
+* int32 (never overflows). word at N<=5 accumulates in int32 (worst case 5*5*1023*65535 <
+* INT32_MAX), and so does 7x7 unless its coefficients are so big that the sum with the word
+* bias removed again could overflow; word at N>=9 sums each row in int32 (a single row is
+* always safe) and spills into int64 accumulators, converting int64 -> float exactly at the
+* end -- all bit-exact with the C reference. Float uses FMA -> not bit-exact with the scalar/SSE2
 * tiers, matching convolution_impl.h's float behaviour.
 */
 
@@ -178,7 +179,17 @@ static unsigned sq_interior_word(const uint16_t *const *rows, uint16_t *dst, uns
     return j;
 }
 
-// Word path for N>=9, where N*N taps overflow int32: each row summed in int32 (always safe),
+// True if the sum of all taps doesn't fit int32 for some word input.
+template <unsigned N>
+static bool sq_word_overflows_i32(const int16_t *m)
+{
+    int64_t pos = 0, neg = 0;
+    for (unsigned i = 0; i < N * N; ++i)
+        (m[i] > 0 ? pos : neg) += m[i];
+    return pos * UINT16_MAX > INT32_MAX || neg * UINT16_MAX < INT32_MIN;
+}
+
+// Word path for N*N taps that overflow int32 (always used for N>=9): each row summed in int32 (always safe),
 // spilled into int64 accumulators, exact int64 -> float at the end -- bit-exact with the int64 C
 // reference. One run of BLK independent blocks (b loop innermost for ILP). The 64-bit accumulators
 // are heavy, so the 512-bit tier uses 2 blocks (4 spills registers past 9x9); 256-bit stays at 1.
@@ -290,6 +301,8 @@ static void sq_plane(const void *src, ptrdiff_t ss, void *dst, ptrdiff_t ds, con
             typename ISA::ivec mv = ISA::word_maxval(p.maxval);
             if constexpr (N > 7)
                 aend = sq_interior_word_i64<ISA, N>(rows, d, S, W, p.matrix, sc, bi, sm, mv);
+            else if (N > 5 && sq_word_overflows_i32<N>(p.matrix))
+                aend = sq_interior_word_i64<ISA, N>(rows, d, S, W, p.matrix, sc, bi, sm, mv);
             else
                 aend = sq_interior_word<ISA, N>(rows, d, S, W, p.matrix, sc, bi, sm, mv);
         } else
-- 
2.43.0


From 57e81b705b4b7dfb34e6bf908f487dd31156ec8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:48 +0000
Subject: [PATCH 11/57] fix: report an error when the FrameEval function
 returns an audio clip

---
 src/core/simplefilters.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 2e56cee..3916415 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -1400,7 +1400,8 @@ static const VSFrame *VS_CC frameEvalGetFrameWithProps(int n, int activationReas
         VSNode *node = vsapi->mapGetNode(d->out, "val", 0, &err);
         vsapi->clearMap(d->out);
 
-        if (err) {
+        if (err || vsapi->getNodeType(node) != mtVideo) {
+            vsapi->freeNode(node);
             vsapi->setFilterError("FrameEval: Function didn't return a clip", frameCtx);
             return nullptr;
         }
@@ -1455,7 +1456,8 @@ static const VSFrame *VS_CC frameEvalGetFrameNoProps(int n, int activationReason
         VSNode *node = vsapi->mapGetNode(d->out, "val", 0, &err);
         vsapi->clearMap(d->out);
 
-        if (err) {
+        if (err || vsapi->getNodeType(node) != mtVideo) {
+            vsapi->freeNode(node);
             vsapi->setFilterError("FrameEval: Function didn't return a clip", frameCtx);
             return nullptr;
         }
-- 
2.43.0


From c4f8b440c42dfddcebc5de793c5997a664496f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:48 +0000
Subject: [PATCH 12/57] fix: report an error when the ModifyFrame function
 returns an audio frame

---
 src/core/simplefilters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 3916415..9195348 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -1579,7 +1579,7 @@ static const VSFrame *VS_CC modifyFrameGetFrame(int n, int activationReason, voi
 
         const VSFrame *f = vsapi->mapGetFrame(d->out, "val", 0, &err);
         vsapi->clearMap(d->out);
-        if (err) {
+        if (err || vsapi->getFrameType(f) != mtVideo) {
             vsapi->freeFrame(f);
             vsapi->setFilterError("ModifyFrame: Returned value not a frame", frameCtx);
             return nullptr;
-- 
2.43.0


From 5b855c4c097a4870a3deb4e59d8e462c5c39edf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:48 +0000
Subject: [PATCH 13/57] fix: report an error when PropToClip finds an audio
 frame

---
 src/core/simplefilters.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 9195348..beb8b58 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -2115,7 +2115,7 @@ static const VSFrame *VS_CC propToClipGetFrame(int n, int activationReason, void
         vsapi->freeFrame(src);
 
         if (dst) {
-            if (!isSameVideoFormat(&d->vi.format, vsapi->getVideoFrameFormat(dst)) || d->vi.height != vsapi->getFrameHeight(dst, 0) || d->vi.width != vsapi->getFrameWidth(dst, 0)) {
+            if (vsapi->getFrameType(dst) != mtVideo || !isSameVideoFormat(&d->vi.format, vsapi->getVideoFrameFormat(dst)) || d->vi.height != vsapi->getFrameHeight(dst, 0) || d->vi.width != vsapi->getFrameWidth(dst, 0)) {
                 vsapi->freeFrame(dst);
                 vsapi->setFilterError("PropToClip: retrieved frame doesn't match output format or dimensions", frameCtx);
                 return nullptr;
@@ -2162,6 +2162,12 @@ static void VS_CC propToClipCreate(const VSMap *in, VSMap *out, void *userData,
         RETERROR(("PropToClip: no frame stored in property: " + d->prop + " index " + std::to_string(d->index)).c_str());
     }
 
+    if (vsapi->getFrameType(msrc) != mtVideo) {
+        vsapi->freeFrame(msrc);
+        vsapi->freeFrame(src);
+        RETERROR(("PropToClip: frame stored in property isn't a video frame: " + d->prop + " index " + std::to_string(d->index)).c_str());
+    }
+
     d->vi.format = *vsapi->getVideoFrameFormat(msrc);
     d->vi.width = vsapi->getFrameWidth(msrc, 0);
     d->vi.height = vsapi->getFrameHeight(msrc, 0);
-- 
2.43.0


From 818b82e22cfe01cc25263ebe9b00eae32890c34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:31 +0000
Subject: [PATCH 14/57] fix: reject more than three weights in Merge before
 storing them

---
 src/core/mergefilters.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/mergefilters.cpp b/src/core/mergefilters.cpp
index e54e37f..6e1978c 100644
--- a/src/core/mergefilters.cpp
+++ b/src/core/mergefilters.cpp
@@ -389,6 +389,8 @@ static void VS_CC mergeCreate(const VSMap *in, VSMap *out, void *userData, VSCor
     std::unique_ptr<MergeData> d(new MergeData(vsapi));
 
     int nweight = vsapi->mapNumElements(in, "weight");
+    if (nweight > 3)
+        RETERROR("Merge: more weights given than the number of planes to merge");
     for (int i = 0; i < 3; i++)
         d->fweight[i] = 0.5f;
     for (int i = 0; i < nweight; i++)
-- 
2.43.0


From 80d90bce39109b23a7e3e5b83dd630fce982f50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:47 +0000
Subject: [PATCH 15/57] fix: reject processing planes that the second clip of
 Lut2 doesn't have

---
 src/core/lutfilters.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/lutfilters.cpp b/src/core/lutfilters.cpp
index d1dd677..83f6227 100644
--- a/src/core/lutfilters.cpp
+++ b/src/core/lutfilters.cpp
@@ -592,6 +592,10 @@ static void VS_CC lut2Create(const VSMap *in, VSMap *out, void *userData, VSCore
 
         getPlanesArg(in, d->process, vsapi);
 
+        for (int plane = d->vi[1]->format.numPlanes; plane < d->vi[0]->format.numPlanes; plane++)
+            if (d->process[plane])
+                RETERROR("Lut2: clipb must have all the planes that are processed");
+
         VSFunction *func = vsapi->mapGetFunction(in, "function", 0, &err);
         int lut_elem = vsapi->mapNumElements(in, "lut");
         int lutf_elem = vsapi->mapNumElements(in, "lutf");
-- 
2.43.0


From de2f5c5c02dcfa50b278e5ad0259964f15c093c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:45 +0000
Subject: [PATCH 16/57] fix: don't take an empty error from Lut's function for
 success

---
 src/core/lutfilters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/lutfilters.cpp b/src/core/lutfilters.cpp
index 83f6227..b691697 100644
--- a/src/core/lutfilters.cpp
+++ b/src/core/lutfilters.cpp
@@ -164,7 +164,7 @@ static bool funcToLut(int nin, int nout, void *vlut, VSFunction *func, const VSA
 
         const char *ret = vsapi->mapGetError(out);
         if (ret) {
-            errstr = ret;
+            errstr = "Lut: function(" + std::to_string(i) + ") returned an error: " + ret;
             break;
         }
 
-- 
2.43.0


From a50bda4120e54e744434307064f1cc1736336ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:16 +0000
Subject: [PATCH 17/57] fix: don't share planes of a different sample size in
 Lut and Lut2

---
 src/core/lutfilters.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/lutfilters.cpp b/src/core/lutfilters.cpp
index b691697..a6978ab 100644
--- a/src/core/lutfilters.cpp
+++ b/src/core/lutfilters.cpp
@@ -281,6 +281,10 @@ static void VS_CC lutCreate(const VSMap *in, VSMap *out, void *userData, VSCore
 
         getPlanesArg(in, d->process, vsapi);
 
+        for (int plane = 0; plane < d->vi_out.format.numPlanes; plane++)
+            if (!d->process[plane] && !isSameVideoFormat(&d->vi_out.format, &d->vi->format))
+                RETERROR("Lut: all planes must be processed when the output format differs from the input format");
+
         VSFunction *func = vsapi->mapGetFunction(in, "function", 0, &err);
         int lut_elem = vsapi->mapNumElements(in, "lut");
         int lutf_elem = vsapi->mapNumElements(in, "lutf");
@@ -592,6 +596,10 @@ static void VS_CC lut2Create(const VSMap *in, VSMap *out, void *userData, VSCore
 
         getPlanesArg(in, d->process, vsapi);
 
+        for (int plane = 0; plane < d->vi_out.format.numPlanes; plane++)
+            if (!d->process[plane] && !isSameVideoFormat(&d->vi_out.format, &d->vi[0]->format))
+                RETERROR("Lut2: all planes must be processed when the output format differs from the input format");
+
         for (int plane = d->vi[1]->format.numPlanes; plane < d->vi[0]->format.numPlanes; plane++)
             if (d->process[plane])
                 RETERROR("Lut2: clipb must have all the planes that are processed");
-- 
2.43.0


From 07c87dc2e99a056614f8152867b02cd1f245ccb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:43 +0000
Subject: [PATCH 18/57] fix: keep the constant when all other terms of a sum
 cancel in Expr

---
 src/core/expr/expr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/expr/expr.cpp b/src/core/expr/expr.cpp
index 4b5e282..07a94da 100644
--- a/src/core/expr/expr.cpp
+++ b/src/core/expr/expr.cpp
@@ -801,7 +801,7 @@ public:
                 head = addNode;
             }
         } else {
-            head = tree.makeNode({ ExprOpType::CONSTANT, 0.0f });
+            head = tree.makeNode({ ExprOpType::CONSTANT, scalarTerm });
         }
 
         return head;
-- 
2.43.0


From 72bfec3234239980620d97d37c4dc83a361c854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:43 +0000
Subject: [PATCH 19/57] fix: don't expand huge exponents into multiplications
 in Expr

---
 src/core/expr/expr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/expr/expr.cpp b/src/core/expr/expr.cpp
index 07a94da..9d81039 100644
--- a/src/core/expr/expr.cpp
+++ b/src/core/expr/expr.cpp
@@ -1316,7 +1316,8 @@ bool applyStrengthReduction(ExpressionTree &tree)
         //
         // This step is required, or else the canonical expressions generated by the algebraic pass will evaluate incorrectly
         // when processed by the inexact pow() functions used in JIT, e.g. negative bases are unsupported!
-        if (node.op == ExprOpType::POW && isConstant(*node.right) && isInteger(node.right->op.imm.f) && node.right->op.imm.f > 0) {
+        // Huge (and infinite) exponents can't be expanded and are left as they are.
+        if (node.op == ExprOpType::POW && isConstant(*node.right) && isInteger(node.right->op.imm.f) && node.right->op.imm.f > 0 && node.right->op.imm.f <= 65536.0f) {
             ExpressionTreeNode *replacement = emitIntegerPow(tree, *node.left, static_cast<int>(node.right->op.imm.f));
             replaceNode(node, *replacement);
             changed = true;
-- 
2.43.0


From 0efdc658ce4e355445136d33f44d9a916541ab02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:48 +0000
Subject: [PATCH 20/57] fix: don't distribute fractional powers over products
 in Expr

---
 src/core/expr/expr.cpp | 49 +++++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/src/core/expr/expr.cpp b/src/core/expr/expr.cpp
index 9d81039..0f5e1d8 100644
--- a/src/core/expr/expr.cpp
+++ b/src/core/expr/expr.cpp
@@ -526,24 +526,42 @@ class ExponentMap {
     // e.g. 3 * v0^2 * v1^3
     // map = { 0: 2, 1: 3 }, coeff = 3
     std::map<int, float> map; // key = valueNum, value = exponent
-    std::vector<int> origSequence;
+    std::vector<std::pair<int, float>> origSequence; // valueNum, exponent
     float coeff;
 
+    // A fractional power only guarantees that its base as a whole is non-negative, not that the factors of the base are.
+    static bool canExpand(const ExpressionTreeNode &value, float exponent)
+    {
+        if (value.op == ExprOpType::POW && isConstant(*value.right))
+            return isInteger(exponent) || !isInteger(value.right->op.imm.f);
+        else if (value.op == ExprOpType::MUL || value.op == ExprOpType::DIV)
+            return isInteger(exponent);
+        else
+            return false;
+    }
+
     bool expandOrigSequence(ValueIndex &index)
     {
         bool changed = false;
 
         for (size_t i = 0; i < origSequence.size(); ++i) {
-            const ExpressionTreeNode *value = index.at(origSequence[i]);
+            const ExpressionTreeNode *value = index.at(origSequence[i].first);
+            float exponent = origSequence[i].second;
 
-            if (value->op == ExprOpType::POW && isConstant(*value->right)) {
-                origSequence[i] = value->left->valueNum;
-                changed = true;
-            } else if (value->op == ExprOpType::MUL || value->op == ExprOpType::DIV) {
-                origSequence[i] = value->left->valueNum;
-                origSequence.insert(origSequence.begin() + i + 1, value->right->valueNum);
-                changed = true;
+            if (!canExpand(*value, exponent))
+                continue;
+
+            index[value->left->valueNum] = value->left;
+
+            if (value->op == ExprOpType::POW) {
+                origSequence[i] = { value->left->valueNum, exponent * value->right->op.imm.f };
+            } else {
+                index[value->right->valueNum] = value->right;
+
+                origSequence[i] = { value->left->valueNum, exponent };
+                origSequence.insert(origSequence.begin() + i + 1, { value->right->valueNum, value->op == ExprOpType::DIV ? -exponent : exponent });
             }
+            changed = true;
         }
 
         return changed;
@@ -557,7 +575,12 @@ class ExponentMap {
             const ExpressionTreeNode *value = index.at(it->first);
             bool erase = false;
 
-            if (value->op == ExprOpType::POW && isConstant(*value->right)) {
+            if (!canExpand(*value, it->second)) {
+                ++it;
+                continue;
+            }
+
+            if (value->op == ExprOpType::POW) {
                 index[value->left->valueNum] = value->left;
 
                 map[value->left->valueNum] += it->second * value->right->op.imm.f;
@@ -608,7 +631,7 @@ public:
     void addTerm(int valueNum, float exp)
     {
         map[valueNum] += exp;
-        origSequence.push_back(valueNum);
+        origSequence.push_back({ valueNum, exp });
     }
 
     void addCoeff(float val) { coeff += val; }
@@ -652,8 +675,8 @@ public:
     bool isCanonical(const ValueIndex &index) const
     {
         std::vector<std::pair<int, float>> tmp;
-        for (int x : origSequence) {
-            tmp.push_back({ x, 1.0f });
+        for (const auto &x : origSequence) {
+            tmp.push_back({ x.first, 1.0f });
         }
         return std::is_sorted(tmp.begin(), tmp.end(), CanonicalCompare{ index });
     }
-- 
2.43.0


From 2179073ed9ee22a89175e6a2975324bb411e233b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:34 +0000
Subject: [PATCH 21/57] fix: AudioTrim: don't overflow when checking a huge
 length against the clip end

---
 src/core/audiofilters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/audiofilters.cpp b/src/core/audiofilters.cpp
index 7e967c5..3e9e8c8 100644
--- a/src/core/audiofilters.cpp
+++ b/src/core/audiofilters.cpp
@@ -123,7 +123,7 @@ static void VS_CC audioTrimCreate(const VSMap *in, VSMap *out, void *userData, V
     if (lengthset && length < 1)
         RETERROR("AudioTrim: invalid length specified (less than 1)");
 
-    if ((lastset && last >= d->ai.numSamples) || (lengthset && (d->first + length) > d->ai.numSamples))
+    if ((lastset && last >= d->ai.numSamples) || (lengthset && length > d->ai.numSamples - d->first))
         RETERROR("AudioTrim: last sample beyond clip end");
 
     if (lastset) {
-- 
2.43.0


From 492749a47249d031e340132de1f8c447d9d31375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:46 +0000
Subject: [PATCH 22/57] fix: BlankAudio: don't reuse the kept frame for a
 shorter last frame

---
 src/core/audiofilters.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/audiofilters.cpp b/src/core/audiofilters.cpp
index 3e9e8c8..3b43e99 100644
--- a/src/core/audiofilters.cpp
+++ b/src/core/audiofilters.cpp
@@ -1246,14 +1246,17 @@ static const VSFrame *VS_CC blankAudioGetframe(int n, int activationReason, void
             return frame;
         }
 
+        // the last frame can be shorter than the ones before it and then needs its own frame
+        bool keep = d->keep && samples == std::min<int64_t>(VS_AUDIO_FRAME_SAMPLES, d->ai.numSamples);
+
         VSFrame *frame = nullptr;
-        if (!d->f) {
+        if (!keep || !d->f) {
             frame = vsapi->newAudioFrame(&d->ai.format, samples, nullptr, core);
             for (int channel = 0; channel < d->ai.format.numChannels; channel++)
                 memset(vsapi->getWritePtr(frame, channel), 0, samples * d->ai.format.bytesPerSample);
         }
 
-        if (d->keep) {
+        if (keep) {
             if (frame)
                 d->f = frame;
             return vsapi->addFrameRef(d->f);
-- 
2.43.0


From 6e51b94a62f294a436eef66b0bc1c941d1035728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:02 +0000
Subject: [PATCH 23/57] fix: don't let huge arguments wrap around in Crop's
 area checks

---
 src/core/simplefilters.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index beb8b58..e69a53e 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -114,7 +114,7 @@ static int cropVerify(int x, int y, int width, int height, int srcwidth, int src
         snprintf(msg, len, "Crop: negative/zero cropping dimensions not allowed");
 
     if (srcheight > 0 && srcwidth > 0)
-        if (srcheight < height + y || srcwidth < width + x)
+        if (srcheight < static_cast<int64_t>(height) + y || srcwidth < static_cast<int64_t>(width) + x)
             snprintf(msg, len, "Crop: cropped area extends beyond frame dimensions");
 
     if (fi) {
@@ -223,8 +223,9 @@ static void VS_CC cropRelCreate(const VSMap *in, VSMap *out, void *userData, VSC
     d->x = vsapi->mapGetIntSaturated(in, "left", 0, &err);
     d->y = vsapi->mapGetIntSaturated(in, "top", 0, &err);
 
-    d->height = d->vi->height - d->y - vsapi->mapGetIntSaturated(in, "bottom", 0, &err);
-    d->width = d->vi->width - d->x - vsapi->mapGetIntSaturated(in, "right", 0, &err);
+    // saturated so that huge arguments can't wrap around to an acceptable size
+    d->height = int64ToIntS(static_cast<int64_t>(d->vi->height) - d->y - vsapi->mapGetIntSaturated(in, "bottom", 0, &err));
+    d->width = int64ToIntS(static_cast<int64_t>(d->vi->width) - d->x - vsapi->mapGetIntSaturated(in, "right", 0, &err));
 
     // passthrough for the no cropping case
     if (d->x == 0 && d->y == 0 && d->width == d->vi->width && d->height == d->vi->height) {
-- 
2.43.0


From 4bec26bd8341eb8a0b0df119b28e83d44327d93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:16 +0000
Subject: [PATCH 24/57] fix: reject borders that don't fit the frame dimensions
 in AddBorders

---
 src/core/simplefilters.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index e69a53e..fdcd423 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -288,6 +288,12 @@ static const VSFrame *VS_CC addBordersGetframe(int n, int activationReason, void
         const VSVideoFormat *fi = vsapi->getVideoFrameFormat(src);
         VSFrame *dst;
 
+        if (d->left + d->right > INT_MAX - vsapi->getFrameWidth(src, 0) || d->top + d->bottom > INT_MAX - vsapi->getFrameHeight(src, 0)) {
+            vsapi->freeFrame(src);
+            vsapi->setFilterError("AddBorders: resulting frame is too big", frameCtx);
+            return nullptr;
+        }
+
         if (addBordersVerify(d->left, d->right, d->top, d->bottom, fi, msg, sizeof(msg))) {
             vsapi->freeFrame(src);
             vsapi->setFilterError(msg, frameCtx);
@@ -428,6 +434,9 @@ static void VS_CC addBordersCreate(const VSMap *in, VSMap *out, void *userData,
         RETERROR("AddBorders: invalid number of color values specified");
     }
 
+    if (static_cast<int64_t>(d->left) + d->right > INT_MAX - vi.width || static_cast<int64_t>(d->top) + d->bottom > INT_MAX - vi.height)
+        RETERROR("AddBorders: resulting frame is too big");
+
     vi.height += vi.height ? (d->top + d->bottom) : 0;
     vi.width += vi.width ? (d->left + d->right) : 0;
 
-- 
2.43.0


From b0818d2e0d70ddb725aebd44d888858377501a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:44 +0000
Subject: [PATCH 25/57] fix: report clipped sample intervals beyond the 32 bit
 range correctly in AudioGain and AudioMix

---
 src/core/audiofilters.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/audiofilters.cpp b/src/core/audiofilters.cpp
index 3b43e99..094514e 100644
--- a/src/core/audiofilters.cpp
+++ b/src/core/audiofilters.cpp
@@ -498,10 +498,10 @@ static const VSFrame *VS_CC audioGainGetFrame16(int n, int activationReason, voi
                 double value = quantizeIntSample(static_cast<double>(srcPtr[i]) * gain, range, sampleClipped);
                 if (sampleClipped) {
                     if (d->overflowError) {
-                        vsapi->setFilterError(("AudioGain: clipping detected in the sample interval " + std::to_string(n * VS_AUDIO_FRAME_SAMPLES) + " to " + std::to_string(n * VS_AUDIO_FRAME_SAMPLES + length - 1)).c_str(), frameCtx);
+                        vsapi->setFilterError(("AudioGain: clipping detected in the sample interval " + std::to_string(static_cast<int64_t>(n) * VS_AUDIO_FRAME_SAMPLES) + " to " + std::to_string(static_cast<int64_t>(n) * VS_AUDIO_FRAME_SAMPLES + length - 1)).c_str(), frameCtx);
                         error = true;
                     } else if (!d->overflowWarned.exchange(true)) {
-                        vsapi->logMessage(mtWarning, ("AudioGain: clipping detected in the sample interval " + std::to_string(n * VS_AUDIO_FRAME_SAMPLES) + " to " + std::to_string(n * VS_AUDIO_FRAME_SAMPLES  + length - 1) + ", only the first encountered clipped segment has a warning printed").c_str(), core);
+                        vsapi->logMessage(mtWarning, ("AudioGain: clipping detected in the sample interval " + std::to_string(static_cast<int64_t>(n) * VS_AUDIO_FRAME_SAMPLES) + " to " + std::to_string(static_cast<int64_t>(n) * VS_AUDIO_FRAME_SAMPLES  + length - 1) + ", only the first encountered clipped segment has a warning printed").c_str(), core);
                     }
                 }
 
@@ -544,10 +544,10 @@ static const VSFrame *VS_CC audioGainGetFrame32(int n, int activationReason, voi
                 double value = quantizeIntSample(static_cast<double>(srcPtr[i]) * gain, range, sampleClipped);
                 if (sampleClipped) {
                     if (d->overflowError) {
-                        vsapi->setFilterError(("AudioGain: clipping detected in the sample interval " + std::to_string(n * VS_AUDIO_FRAME_SAMPLES) + " to " + std::to_string(n * VS_AUDIO_FRAME_SAMPLES + length - 1)).c_str(), frameCtx);
+                        vsapi->setFilterError(("AudioGain: clipping detected in the sample interval " + std::to_string(static_cast<int64_t>(n) * VS_AUDIO_FRAME_SAMPLES) + " to " + std::to_string(static_cast<int64_t>(n) * VS_AUDIO_FRAME_SAMPLES + length - 1)).c_str(), frameCtx);
                         error = true;
                     } else if (!d->overflowWarned.exchange(true)) {
-                        vsapi->logMessage(mtWarning, ("AudioGain: clipping detected in the sample interval " + std::to_string(n * VS_AUDIO_FRAME_SAMPLES) + " to " + std::to_string(n * VS_AUDIO_FRAME_SAMPLES + length - 1) + ", only the first encountered clipped segment has a warning printed").c_str(), core);
+                        vsapi->logMessage(mtWarning, ("AudioGain: clipping detected in the sample interval " + std::to_string(static_cast<int64_t>(n) * VS_AUDIO_FRAME_SAMPLES) + " to " + std::to_string(static_cast<int64_t>(n) * VS_AUDIO_FRAME_SAMPLES + length - 1) + ", only the first encountered clipped segment has a warning printed").c_str(), core);
                     }
                 }
 
@@ -674,10 +674,10 @@ static const VSFrame *VS_CC audioMixGetFrame16(int n, int activationReason, void
                 double value = quantizeIntSample(tmp, range, sampleClipped);
                 if (sampleClipped) {
                     if (d->overflowError) {
-                        vsapi->setFilterError(("AudioMix: clipping detected in the sample interval " + std::to_string(n * VS_AUDIO_FRAME_SAMPLES) + " to " + std::to_string(n * VS_AUDIO_FRAME_SAMPLES + srcLength - 1)).c_str(), frameCtx);
+                        vsapi->setFilterError(("AudioMix: clipping detected in the sample interval " + std::to_string(static_cast<int64_t>(n) * VS_AUDIO_FRAME_SAMPLES) + " to " + std::to_string(static_cast<int64_t>(n) * VS_AUDIO_FRAME_SAMPLES + srcLength - 1)).c_str(), frameCtx);
                         error = true;
                     } else if (!d->overflowWarned.exchange(true)) {
-                        vsapi->logMessage(mtWarning, ("AudioMix: clipping detected in the sample interval " + std::to_string(n * VS_AUDIO_FRAME_SAMPLES) + " to " + std::to_string(n * VS_AUDIO_FRAME_SAMPLES + srcLength - 1) + ", only the first encountered clipped segment has a warning printed").c_str(), core);
+                        vsapi->logMessage(mtWarning, ("AudioMix: clipping detected in the sample interval " + std::to_string(static_cast<int64_t>(n) * VS_AUDIO_FRAME_SAMPLES) + " to " + std::to_string(static_cast<int64_t>(n) * VS_AUDIO_FRAME_SAMPLES + srcLength - 1) + ", only the first encountered clipped segment has a warning printed").c_str(), core);
                     }
                 }
 
@@ -737,10 +737,10 @@ static const VSFrame *VS_CC audioMixGetFrame32(int n, int activationReason, void
                 double value = quantizeIntSample(tmp, range, sampleClipped);
                 if (sampleClipped) {
                     if (d->overflowError) {
-                        vsapi->setFilterError(("AudioMix: clipping detected in the sample interval " + std::to_string(n * VS_AUDIO_FRAME_SAMPLES) + " to " + std::to_string(n * VS_AUDIO_FRAME_SAMPLES + srcLength - 1)).c_str(), frameCtx);
+                        vsapi->setFilterError(("AudioMix: clipping detected in the sample interval " + std::to_string(static_cast<int64_t>(n) * VS_AUDIO_FRAME_SAMPLES) + " to " + std::to_string(static_cast<int64_t>(n) * VS_AUDIO_FRAME_SAMPLES + srcLength - 1)).c_str(), frameCtx);
                         error = true;
                     } else if (!d->overflowWarned.exchange(true)) {
-                        vsapi->logMessage(mtWarning, ("AudioMix: clipping detected in the sample interval " + std::to_string(n * VS_AUDIO_FRAME_SAMPLES) + " to " + std::to_string(n * VS_AUDIO_FRAME_SAMPLES + srcLength - 1) + ", only the first encountered clipped segment has a warning printed").c_str(), core);
+                        vsapi->logMessage(mtWarning, ("AudioMix: clipping detected in the sample interval " + std::to_string(static_cast<int64_t>(n) * VS_AUDIO_FRAME_SAMPLES) + " to " + std::to_string(static_cast<int64_t>(n) * VS_AUDIO_FRAME_SAMPLES + srcLength - 1) + ", only the first encountered clipped segment has a warning printed").c_str(), core);
                     }
                 }
 
-- 
2.43.0


From 81c60d8ec922e8f91ea080e82fd55e3fead03849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:44 +0000
Subject: [PATCH 26/57] fix: don't overflow when calculating BlankClip's
 default length for huge framerates

---
 src/core/simplefilters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index fdcd423..bdfd9fc 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -1245,7 +1245,7 @@ static void VS_CC blankClipCreate(const VSMap *in, VSMap *out, void *userData, V
     if (err) {
         if (!hasvi) {
             if (d->vi.fpsNum > 0 && d->vi.fpsDen > 0)
-                d->vi.numFrames = int64ToIntS((d->vi.fpsNum * 10) / d->vi.fpsDen);
+                d->vi.numFrames = int64ToIntS((d->vi.fpsNum > INT64_MAX / 10) ? (std::min<int64_t>(d->vi.fpsNum / d->vi.fpsDen, INT_MAX) * 10) : ((d->vi.fpsNum * 10) / d->vi.fpsDen));
             else
                 d->vi.numFrames = 300;
         }
-- 
2.43.0


From 07f342c774fe7c91af900ea235ed210dcc3e77e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:00 +0000
Subject: [PATCH 27/57] fix: don't read the key passed to mapDeleteKey after
 erasing it

---
 src/core/vsapi.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/vsapi.cpp b/src/core/vsapi.cpp
index 8df20d0..1de5359 100644
--- a/src/core/vsapi.cpp
+++ b/src/core/vsapi.cpp
@@ -496,8 +496,10 @@ static const VSFrame *VS_CC mapGetFrame(const VSMap *map, const char *key, int i
 
 static int VS_CC mapDeleteKey(VSMap *map, const char *key) VS_NOEXCEPT {
     assert(map && key);
+    // key may come from mapGetKey and point into the map
+    bool isColorRange = !strcmp(key, "_ColorRange");
     bool result = map->erase(key);
-    if (!strcmp(key, "_ColorRange"))
+    if (isColorRange)
         result = map->erase("_Range") || result;
     return result;
 }
-- 
2.43.0


From b352b519783834851f9e79b9cf18fff66aa0c1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:25 +0000
Subject: [PATCH 28/57] fix: return an error for invalid modes in SetVideoCache
 and SetAudioCache

---
 src/core/internalfilters.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/internalfilters.cpp b/src/core/internalfilters.cpp
index 0865032..31ddc8b 100644
--- a/src/core/internalfilters.cpp
+++ b/src/core/internalfilters.cpp
@@ -41,8 +41,14 @@ static void VS_CC setCache(const VSMap *in, VSMap *out, void *userData, VSCore *
     int err;
     VSNode *node = vsapi->mapGetNode(in, "clip", 0, nullptr);
     int mode = vsapi->mapGetIntSaturated(in, "mode", 0, &err);
-    if (!err)
+    if (!err) {
+        if (mode < cmAuto || mode > cmForceEnable) {
+            vsapi->mapSetError(out, (vsapi->getNodeType(node) == mtVideo) ? "SetVideoCache: invalid cache mode specified" : "SetAudioCache: invalid cache mode specified");
+            vsapi->freeNode(node);
+            return;
+        }
         vsapi->setCacheMode(node, mode);
+    }
     int fixedsize = vsapi->mapGetIntSaturated(in, "fixedsize", 0, &err);
     if (err)
         fixedsize = -1;
-- 
2.43.0


From dbd28b7bba6e6ebe74cdac32a78cbaae7be8cf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:25 +0000
Subject: [PATCH 29/57] fix: don't multiply the frame count in Interleave when
 it overflows

---
 src/core/reorderfilters.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/reorderfilters.cpp b/src/core/reorderfilters.cpp
index d3b5760..b80f6a3 100644
--- a/src/core/reorderfilters.cpp
+++ b/src/core/reorderfilters.cpp
@@ -242,7 +242,8 @@ static void VS_CC interleaveCreate(const VSMap *in, VSMap *out, void *userData,
         if (extend) {
             if (d->vi.numFrames > INT_MAX / d->numclips)
                 overflow = true;
-            d->vi.numFrames *= d->numclips;
+            else
+                d->vi.numFrames *= d->numclips;
         } else {
             // this is exactly how avisynth does it
             d->vi.numFrames = 0;
-- 
2.43.0


From afa6560933006f2b0f8f67c77458941e44e08226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:29 +0000
Subject: [PATCH 30/57] fix: report an error for paths the filesystem rejects
 in LoadPlugin instead of terminating

---
 src/core/vscore.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/vscore.cpp b/src/core/vscore.cpp
index ae160b4..95df576 100644
--- a/src/core/vscore.cpp
+++ b/src/core/vscore.cpp
@@ -2244,7 +2244,10 @@ static void VS_CC configPlugin3(const char *identifier, const char *defaultNames
 
 VSPlugin::VSPlugin(const std::filesystem::path &relFilename, const std::string &forcedNamespace, const std::string &forcedId, bool altSearchPath, bool loadCPUOptimized, std::string separator, VSCore *core)
     : fnamespace(forcedNamespace), id(forcedId), core(core) {
-    std::filesystem::path fullPath = std::filesystem::absolute(relFilename);
+    std::error_code ec;
+    std::filesystem::path fullPath = std::filesystem::absolute(relFilename, ec);
+    if (ec)
+        throw VSException("Failed to load " + relFilename.u8string() + ". Error given: " + ec.message());
 
 #ifdef VS_TARGET_CPU_X86
     if (loadCPUOptimized) {
@@ -2262,7 +2265,8 @@ VSPlugin::VSPlugin(const std::filesystem::path &relFilename, const std::string &
 
             std::filesystem::path abiLevelPath = std::filesystem::path(fullPath).replace_extension();
             abiLevelPath += newExtension;
-            if (std::filesystem::exists(abiLevelPath)) {
+            std::error_code existsError;
+            if (std::filesystem::exists(abiLevelPath, existsError)) {
                 fullPath = abiLevelPath;
                 return true;
             }
-- 
2.43.0


From 0f4815cd4ca17738bd0a144eb22cf77f161a5f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 31/57] fix: don't terminate when a plugin manifest only
 contains line breaks

---
 src/core/vscore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/vscore.cpp b/src/core/vscore.cpp
index 95df576..c086378 100644
--- a/src/core/vscore.cpp
+++ b/src/core/vscore.cpp
@@ -1870,7 +1870,7 @@ bool VSCore::loadPluginManifest(const std::filesystem::path &path) {
     std::vector<std::string> lines;
 
     size_t lastPos = contents.find_first_not_of("\r\n", 0);
-    size_t pos = contents.find_first_of("\r\n", lastPos + 1);
+    size_t pos = contents.find_first_of("\r\n", lastPos);
     while (pos != std::string::npos) {
         lines.push_back(contents.substr(lastPos, pos - lastPos));
         lastPos = contents.find_first_not_of("\r\n", pos + 1);
-- 
2.43.0


From 532876615b487ccde4b0d4b5b0d6e1fa69245ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:53 +0000
Subject: [PATCH 32/57] fix: release the clip when SplitPlanes rejects it

---
 src/core/simplefilters.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index bdfd9fc..005d560 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -640,6 +640,7 @@ static void VS_CC splitPlanesCreate(const VSMap *in, VSMap *out, void *userData,
 
     if (vi->format.colorFamily == cfUndefined) {
         vsapi->mapSetError(out, "SplitPlanes: only constant format clips supported");
+        vsapi->freeNode(node);
         return;
     }
 
-- 
2.43.0


From b194dd027b0a1f739ac06f645962b3fb474ce813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:28 +0000
Subject: [PATCH 33/57] fix: make the row buffer of the separable convolution
 large enough for AVX-512 kernels

---
 src/core/kernel/x86/convolution_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/kernel/x86/convolution_impl.h b/src/core/kernel/x86/convolution_impl.h
index 71cdf45..9f7f151 100644
--- a/src/core/kernel/x86/convolution_impl.h
+++ b/src/core/kernel/x86/convolution_impl.h
@@ -702,7 +702,7 @@ void conv_plane_x(const void *src, ptrdiff_t src_stride, void *dst, ptrdiff_t ds
     // Multi-pass threshold = 9 (v), 13 (h).
     auto kernel_v = select_conv_scanline_v_for<ISA>(T{})(params.matrixsize);
     auto kernel_h = select_conv_scanline_h_for<ISA>(T{})(params.matrixsize);
-    T *tmp1 = vsh::vsh_aligned_malloc<T>((width + 64) * sizeof(T), ISA::ALIGN);
+    T *tmp1 = vsh::vsh_aligned_malloc<T>((width + 64 + ISA::TMP_PAD) * sizeof(T), ISA::ALIGN);
     void *tmp2 = (params.matrixsize > 9 && std::is_integral<T>::value) ? vsh::vsh_aligned_malloc((width + ISA::TMP_PAD) * sizeof(int32_t), ISA::ALIGN) : nullptr;
 
     for (unsigned i = 0; i < height; ++i) {
-- 
2.43.0


From 75c4aea2205601c34ae9161f37e4f1c7206a1931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:14 +0000
Subject: [PATCH 34/57] fix: release the GIL while frames() waits for a
 completion callback

The consumer waited in a busy loop without ever giving other threads a chance to run, so the callback that issues the next request could starve forever.
---
 src/cython/vapoursynth.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index ff695af..197efd6 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -35,6 +35,7 @@ import os
 import enum
 import ctypes
 import threading
+import time
 import traceback
 import gc
 import sys
@@ -2222,7 +2223,9 @@ cdef class RawNode(object):
         try:
             while (not finished) or (curr_frames > 0) or running > 0:
                 if sidx not in reorder:
-                    # Spin. Reorder being empty should never happen.
+                    # The completion callback that requests more frames or ends the iteration
+                    # hasn't run yet. Release the GIL so it can.
+                    time.sleep(0)
                     continue
 
                 # Get next requested frame
-- 
2.43.0


From 792354e1c5c48707ddb87396dc2a24e926c6e0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:06 +0000
Subject: [PATCH 35/57] fix: store strings containing NUL characters as frame
 properties without truncating them

---
 src/cython/vapoursynth.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 197efd6..59b0edd 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -1449,7 +1449,8 @@ cdef class FrameProps(object):
                     if funcs.mapSetFloat(m, b, float(v), 1) != 0:
                         raise Error('Not all values are of the same type')
                 elif isinstance(v, str):
-                    if funcs.mapSetData(m, b, v.encode('utf-8'), -1, dtUtf8, 1) != 0:
+                    s = v.encode('utf-8')
+                    if funcs.mapSetData(m, b, s, <int>len(s), dtUtf8, 1) != 0:
                         raise Error('Not all values are of the same type')
                 elif isinstance(v, (bytes, bytearray)):
                     if funcs.mapSetData(m, b, v, <int>len(v), dtBinary, 1) != 0:
-- 
2.43.0


From 501b1b0a0fa6c066bd4f420e7d8f6926f6fd7d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:06 +0000
Subject: [PATCH 36/57] fix: don't leave half of a value behind when setting a
 frame property fails with a non-VapourSynth exception

---
 src/cython/vapoursynth.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 59b0edd..b12eddf 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -1457,7 +1457,7 @@ cdef class FrameProps(object):
                         raise Error('Not all values are of the same type')
                 else:
                     raise Error('Setter was passed an unsupported type (' + type(v).__name__ + ')')
-        except Error:
+        except:
             self.__delitem__(name)
             raise
 
-- 
2.43.0


From ec48d360205bb6dbec7c0fedb657caa48a435302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:23 +0000
Subject: [PATCH 37/57] fix: don't share plane memory that can still be written
 to with copies of a frame

---
 src/cython/vapoursynth.pyx | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index b12eddf..4a8bbf9 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -1671,6 +1671,7 @@ cdef class RawFrame(object):
         cdef const uint8_t *d = self.funcs.getWritePtr(self.f, plane)
         if d == NULL:
             raise IndexError('Specified plane index out of range')
+        self.flags &= ~_frame.mask(self.f, plane, self.funcs)
         return ctypes.c_void_p(<uintptr_t>d)
 
     def get_read_ptr(self, int plane):
@@ -1702,7 +1703,7 @@ cdef class VideoFrame(RawFrame):
 
     def copy(self):
         self._ensure_open()
-        return createVideoFrame(self.funcs.copyFrame(self.constf, self.core), self.funcs, self.core)
+        return createVideoFrame(_frame.copy(self.constf, self.f, self.flags, self.core, self.funcs), self.funcs, self.core)
 
     def readchunks(self):
         self._ensure_open()
@@ -1816,15 +1817,35 @@ cdef VideoFrame createVideoFrame(VSFrame *f, const VSAPI *funcs, VSCore *core):
 @cython.internal
 cdef class _frame:
 
+    @staticmethod
+    cdef unsigned mask(const VSFrame* frame, int index, const VSAPI* lib) noexcept nogil:
+        if lib.getFrameType(frame) == mtVideo:
+            return 1 << index+1
+        else:
+            return ~1  # there's only one plane in audio frames
+
+    @staticmethod
+    cdef VSFrame* copy(const VSFrame* constf, VSFrame* f, unsigned flags, VSCore* core, const VSAPI* lib) noexcept nogil:
+        cdef:
+            VSFrame* result = lib.copyFrame(constf, core)
+            int num_planes = 1
+            int plane
+
+        # planes whose memory has already been handed out for writing can't be shared with the copy,
+        # later writes through the same memory would otherwise show up in both frames
+        if f != NULL:
+            if lib.getFrameType(constf) == mtVideo:
+                num_planes = lib.getVideoFrameFormat(constf).numPlanes
+            for plane in range(num_planes):
+                if not flags & _frame.mask(constf, plane, lib):
+                    lib.getWritePtr(result, plane)
+        return result
+
     @staticmethod
     cdef void* getdata(VSFrame* frame, int index, unsigned* flags, const VSAPI* lib) noexcept nogil:
         cdef:
-            unsigned mask
+            unsigned mask = _frame.mask(frame, index, lib)
 
-        if lib.getFrameType(frame) == mtVideo:
-            mask = 1 << index+1
-        else:
-            mask = ~1  # there's only one plane in audio frames
         if flags[0] & mask:  # trigger copy-on-write
             flags[0] &= ~mask  # only do so once, see GH-724
             return <void*> lib.getWritePtr(frame, index)
@@ -1924,7 +1945,7 @@ cdef class AudioFrame(RawFrame):
 
     def copy(self):
         self._ensure_open()
-        return createAudioFrame(self.funcs.copyFrame(self.constf, self.core), self.funcs, self.core)
+        return createAudioFrame(_frame.copy(self.constf, self.f, self.flags, self.core, self.funcs), self.funcs, self.core)
 
     @property
     def channels(self):
-- 
2.43.0


From bd04a7cef270dbdae8c3aab7e32d48300c29a096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:33 +0000
Subject: [PATCH 38/57] fix: don't crash in VideoNode.output when the _Alpha
 property isn't a frame or is larger than the clip

---
 src/cython/vapoursynth.pyx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 4a8bbf9..4917c9a 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -2518,6 +2518,7 @@ cdef class VideoNode(RawNode):
             const VSAPI *lib = self.funcs
             const VSVideoFormat *fi
             uint8_t *buffer = NULL
+            uint8_t *new_buffer
             size_t buffer_size = <size_t>0
             ptrdiff_t stride
             const uint8_t *readPtr
@@ -2556,6 +2557,8 @@ cdef class VideoNode(RawNode):
                 if alpha is not None:
                     if y4m:
                         raise ValueError("Can only apply y4m headers to clips without alpha")
+                    if not isinstance(alpha, VideoFrame):
+                        raise ValueError("The _Alpha frame property must be a single video frame")
 
                     constf = (<VideoFrame>alpha).constf
                     fi = lib.getVideoFrameFormat(constf)
@@ -2568,6 +2571,15 @@ cdef class VideoNode(RawNode):
                         if stride == <ptrdiff_t>rowSize:
                             write(PyMemoryView_FromMemory(<char *>readPtr, rowSize * height, PyBUF_READ))
                         else:
+                            # the alpha frame may have a different size and format than the clip
+                            if rowSize * height > buffer_size:
+                                new_buffer = <uint8_t *>realloc(buffer, rowSize * height)
+                                if not new_buffer:
+                                    raise Error("Failed to reallocate output buffer")
+
+                                buffer = new_buffer
+                                buffer_size = rowSize * height
+
                             with nogil:
                                 bitblt(buffer, rowSize, readPtr, stride, rowSize, height)
                             write(PyMemoryView_FromMemory(<char *>buffer, rowSize * height, PyBUF_READ))
-- 
2.43.0


From 8cc5d698cfce1332c96ed47455055a3b2e2a8ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:48 +0000
Subject: [PATCH 39/57] fix: raise an error instead of crashing when a
 destroyed environment's objects are used

---
 src/cython/vapoursynth.pyx | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 4917c9a..c8e76bc 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -2296,24 +2296,29 @@ cdef class RawNode(object):
 
     @property
     def node_name(self):
+        self.ensure_valid()
         return self.funcs.getNodeName(self.node).decode("utf-8")
 
     @property
     def timings(self):
+        self.ensure_valid()
         return self.funcs.getNodeProcessingTime(self.node, False)
 
     @timings.setter
     def timings(self, bint value):
         if value != 0:
             raise ValueError("You can only set timings to 0, to reset its counter!")
+        self.ensure_valid()
         self.funcs.getNodeProcessingTime(self.node, True)
 
     @property
     def mode(self):
+        self.ensure_valid()
         return FilterMode(self.funcs.getNodeFilterMode(self.node))
 
     @property
     def dependencies(self):
+        self.ensure_valid()
         return tuple(
             createNode(self.funcs.addNodeRef(self.funcs.getNodeDependency(self.node, idx).source), self.funcs, self.core)
             for idx in range(self.funcs.getNumNodeDependencies(self.node))
@@ -2890,6 +2895,7 @@ cdef class AudioNode(RawNode):
             fileobj.flush()
 
     def set_output(self, int index = 0):
+        self.ensure_valid()
         _get_output_dict("set_output")[index] = self
 
     @property
@@ -3052,20 +3058,24 @@ cdef class CoreTimings(object):
 
     @property
     def enabled(self):
+        self.core.ensure_valid()
         return bool(self.core.funcs.getCoreNodeTiming(self.core.core))
 
     @enabled.setter
     def enabled(self, bint enabled):
+        self.core.ensure_valid()
         self.core.funcs.setCoreNodeTiming(self.core.core, enabled)
 
     @property
     def freed_nodes(self):
+        self.core.ensure_valid()
         return self.core.funcs.getFreedNodeProcessingTime(self.core.core, False)
 
     @freed_nodes.setter
     def freed_nodes(self, bint value):
         if value != 0:
             raise ValueError("You can only set freed_nodes to 0, to reset its counter!")
+        self.core.ensure_valid()
         self.core.funcs.getFreedNodeProcessingTime(self.core.core, True)
 
     def __repr__(self):
@@ -3163,19 +3173,23 @@ cdef class Core(object):
             raise AttributeError('No attribute with the name ' + name + ' exists. Did you mistype a plugin namespace or forget to install a plugin?')
 
     def plugins(self):
+        self.ensure_valid()
         cdef VSPlugin *plugin = self.funcs.getNextPlugin(NULL, self.core)
         while plugin:
             tmp = createPlugin(plugin, self.funcs, self)
             plugin = self.funcs.getNextPlugin(plugin, self.core)
             yield tmp
+            self.ensure_valid()
 
     def query_video_format(self, int color_family, int sample_type, int bits_per_sample, int subsampling_w = 0, int subsampling_h = 0):
+        self.ensure_valid()
         cdef VSVideoFormat fmt
         if not self.funcs.queryVideoFormat(&fmt, color_family, sample_type, bits_per_sample, subsampling_w, subsampling_h, self.core):
             raise Error('Invalid format specified')
         return createVideoFormat(&fmt, self.funcs, self.core)
 
     def get_video_format(self, uint32_t id):
+        self.ensure_valid()
         cdef VSVideoFormat fmt
         if not self.funcs.getVideoFormatByID(&fmt, id, self.core):
             raise Error('Invalid format id specified')
@@ -3183,6 +3197,7 @@ cdef class Core(object):
             return createVideoFormat(&fmt, self.funcs, self.core)
 
     def create_video_frame(self, int format, int width, int height):
+        self.ensure_valid()
         cdef VSVideoFormat fmt
         if not self.funcs.getVideoFormatByID(&fmt, format, self.core):
             raise Error('Invalid format id specified')
@@ -3191,6 +3206,7 @@ cdef class Core(object):
         return createVideoFrame(ref, self.funcs, self.core)
 
     def log_message(self, int message_type, str message):
+        self.ensure_valid()
         # released gil, the log api dispatches to handlers that acquire the gil so calling in
         # while holding it can deadlock against a thread mid message delivery
         cdef bytes message_bytes = message.encode('utf-8')
@@ -3199,6 +3215,7 @@ cdef class Core(object):
             self.funcs.logMessage(message_type, message_cstr, self.core)
 
     def add_log_handler(self, handler_func):
+        self.ensure_valid()
         handler_func(mtDebug, 'New message handler installed from python')
         cdef LogHandle lh = createLogHandle(handler_func)
         Py_INCREF(lh)
@@ -3210,6 +3227,7 @@ cdef class Core(object):
         return lh
 
     def remove_log_handler(self, LogHandle handle):
+        self.ensure_valid()
         cdef VSLogHandle *h = handle.handle
         cdef bint result
         with nogil:
@@ -3217,10 +3235,12 @@ cdef class Core(object):
         return result
 
     def clear_cache(self):
+        self.ensure_valid()
         self.funcs.clearCoreCaches(self.core)
 
     @property
     def core_version(self):
+        self.ensure_valid()
         cdef VSCoreInfo2 v
         self.funcs.getCoreInfo2(self.core, &v)
 
@@ -3228,6 +3248,7 @@ cdef class Core(object):
 
     @property
     def api_version(self):
+        self.ensure_valid()
         cdef VSCoreInfo2 v
         self.funcs.getCoreInfo2(self.core, &v)
 
@@ -3258,6 +3279,7 @@ cdef class Core(object):
         )
 
     def __str__(self):
+        self.ensure_valid()
         cdef VSCoreInfo2 v
         self.funcs.getCoreInfo2(self.core, &v)
 
@@ -3402,6 +3424,7 @@ cdef class Plugin(object):
         raise Error('Class cannot be instantiated directly')
 
     def __getattr__(self, name):
+        self.core.ensure_valid()
         tname = name.encode('utf-8')
         cdef const char *cname = tname
         cdef VSPluginFunction *func = self.funcs.getPluginFunctionByName(cname, self.plugin)
@@ -3412,14 +3435,17 @@ cdef class Plugin(object):
             raise AttributeError('There is no function named ' + name)
 
     def functions(self):
+        self.core.ensure_valid()
         cdef VSPluginFunction *func = self.funcs.getNextPluginFunction(NULL, self.plugin)
         while func:
             tmp = createFunction(func, self, self.funcs)
             func = self.funcs.getNextPluginFunction(func, self.plugin)
             yield tmp
+            self.core.ensure_valid()
 
     @property
     def version(self):
+        self.core.ensure_valid()
         ver = <int>self.funcs.getPluginVersion(self.plugin)
 
         ver_major = (ver >> 16)
@@ -3429,6 +3455,7 @@ cdef class Plugin(object):
 
     @property
     def plugin_path(self):
+        self.core.ensure_valid()
         cdef const char *ppath = self.funcs.getPluginPath(self.plugin)
         if ppath:
             return ppath.decode('utf-8')
@@ -3507,6 +3534,7 @@ cdef class Function(object):
         return first_arg_i > 0 and self.signature.find(':anode') == first_arg_i
 
     def __call__(self, *args, **kwargs):
+        self.plugin.core.ensure_valid()
         cdef VSMap *inm
         cdef VSMap *outm
         cdef char *cname
-- 
2.43.0


From 71b5978181fb4080c1cf5c662ddc7f1cb28a6505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:20 +0000
Subject: [PATCH 40/57] fix: refuse closed frames and invalidated clips as
 values instead of storing null pointers

---
 src/cython/vapoursynth.pyx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index c8e76bc..643a474 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -1163,9 +1163,11 @@ cdef void dictToMap(dict ndict, VSMap *inm, VSCore *core, const VSAPI *funcs) ex
                 if funcs.mapSetData(inm, ckey, v, <int>len(v), dtBinary, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif isinstance(v, RawNode):
+                (<RawNode>v).ensure_valid()
                 if funcs.mapSetNode(inm, ckey, (<RawNode>v).node, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif isinstance(v, RawFrame):
+                (<RawFrame>v)._ensure_open()
                 if funcs.mapSetFrame(inm, ckey, (<RawFrame>v).constf, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif isinstance(v, Func):
@@ -1198,9 +1200,11 @@ cdef void typedDictToMap(dict ndict, dict atypes, VSMap *inm, VSCore *core, cons
 
         for v in val:
             if (atypes[key][:5] == 'vnode' and isinstance(v, VideoNode)) or (atypes[key][:5] == 'anode' and isinstance(v, AudioNode)):
+                (<RawNode>v).ensure_valid()
                 if funcs.mapSetNode(inm, ckey, (<RawNode>v).node, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif ((atypes[key][:6] == 'vframe') and isinstance(v, VideoFrame)) or (atypes[key][:6] == 'aframe' and isinstance(v, AudioFrame)):
+                (<RawFrame>v)._ensure_open()
                 if funcs.mapSetFrame(inm, ckey, (<RawFrame>v).constf, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif atypes[key][:4] == 'func' and isinstance(v, Func):
@@ -1430,9 +1434,11 @@ cdef class FrameProps(object):
         try:
             for v in val:
                 if isinstance(v, RawNode):
+                    (<RawNode>v).ensure_valid()
                     if funcs.mapSetNode(m, b, (<RawNode>v).node, 1) != 0:
                         raise Error('Not all values are of the same type')
                 elif isinstance(v, RawFrame):
+                    (<RawFrame>v)._ensure_open()
                     if funcs.mapSetFrame(m, b, (<RawFrame>v).constf, 1) != 0:
                         raise Error('Not all values are of the same type')
                 elif isinstance(v, Func):
@@ -2453,6 +2459,7 @@ cdef class VideoNode(RawNode):
     def set_output(self, int index = 0, VideoNode alpha = None, int alt_output = 0):
         self.ensure_valid()
         if alpha is not None:
+            alpha.ensure_valid()
             if (self.vi.width != alpha.vi.width) or (self.vi.height != alpha.vi.height):
                 raise Error('Alpha clip dimensions must match the main video')
             if (self.num_frames != alpha.num_frames):
-- 
2.43.0


From 889b3a1c2848e778b52b3bc905c7c2f8956b3178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:06 +0000
Subject: [PATCH 41/57] fix: refuse to output clips with variable format
 instead of overflowing the packing buffer

---
 src/cython/vapoursynth.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 643a474..f6033ca 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -2488,7 +2488,7 @@ cdef class VideoNode(RawNode):
                 raise TypeError("progress_update must be a callable")
             progress_update(0, self.num_frames)
 
-        if self.format is None or self.width == 0 or self.height == 0:
+        if self.vi.format.colorFamily == cfUndefined or self.width == 0 or self.height == 0:
             raise ValueError("Cannot output clips with variable format or size")
 
         if y4m:
-- 
2.43.0


From 5e51a40b335b9e4ee4a3c2934d028967d9c12fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:08 +0000
Subject: [PATCH 42/57] fix: keep nodes alive until their outstanding Python
 frame requests have completed

---
 src/cython/vapoursynth.pyx | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index f6033ca..ae78a95 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -997,6 +997,8 @@ cdef class CallbackData(object):
     cdef object callback
 
     cdef RawNode node
+    # Environment teardown invalidates the wrapper even if requests are still outstanding
+    cdef VSNode *noderef
 
     cdef EnvironmentData env
 
@@ -1019,6 +1021,7 @@ cdef class CallbackData(object):
 cdef createCallbackData(const VSAPI* funcs, RawNode node, object cb):
     cbd = CallbackData(node, _env_current(), cb)
     cbd.funcs = funcs
+    cbd.noderef = funcs.addNodeRef(node.node)
     return cbd
 
 
@@ -1041,9 +1044,13 @@ cdef FramePtr createFramePtr(const VSFrame *f, const VSAPI *funcs):
 
 
 cdef void __stdcall frameDoneCallback(void *data, const VSFrame *f, int n, VSNode *node, const char *errormsg) noexcept nogil:
+    cdef VSNode *noderef
+    cdef const VSAPI *funcs
     with gil:
         result = error = None
         d = <CallbackData>data
+        noderef = d.noderef
+        funcs = d.funcs
 
         try:
             if d.node.node == NULL or d.node.core is None:
@@ -1067,6 +1074,7 @@ cdef void __stdcall frameDoneCallback(void *data, const VSFrame *f, int n, VSNod
         finally:
             d.fut.set_result(None)
             Py_DECREF(d)
+    funcs.freeNode(noderef)
 
 cdef object intToRangeFilter(int64_t value, str key):
     isrange = (key == '_Range')
@@ -2169,8 +2177,9 @@ cdef class RawNode(object):
 
         cdef CallbackData data = createCallbackData(self.funcs, self, cb)
         Py_INCREF(data)
+        cdef VSNode *node = data.noderef
         with nogil:
-            self.funcs.getFrameAsync(n, self.node, frameDoneCallback, <void *>data)
+            self.funcs.getFrameAsync(n, node, frameDoneCallback, <void *>data)
 
 
     def frames(self, prefetch=None, backlog=None, close=False):
@@ -2434,6 +2443,8 @@ cdef class VideoNode(RawNode):
         cdef const VSFrame *f
         self.ensure_valid_frame_number(n)
         cdef EnvironmentData env = _env_current()
+        # the environment may be destroyed by another thread during the call
+        cdef VSNode *node = self.funcs.addNodeRef(self.node)
 
         # tracked so environment teardown can wait for blocking requests as well
         fut = Future()
@@ -2442,11 +2453,15 @@ cdef class VideoNode(RawNode):
             env.active_futures.add(fut)
         try:
             with nogil:
-                f = self.funcs.getFrame(n, self.node, errorMsg, 4096)
+                f = self.funcs.getFrame(n, node, errorMsg, 4096)
+                self.funcs.freeNode(node)
         finally:
             fut.set_result(None)
 
-        if f == NULL:
+        if self.node == NULL:
+            self.funcs.freeFrame(f)
+            self.ensure_valid()
+        elif f == NULL:
             if (errorMsg[0]):
                 msg_str = ep.decode('utf-8')
                 py_exc = env.retrieve_exception(msg_str) if env is not None else None
@@ -2769,6 +2784,8 @@ cdef class AudioNode(RawNode):
         cdef const VSFrame *f
         self.ensure_valid_frame_number(n)
         cdef EnvironmentData env = _env_current()
+        # the environment may be destroyed by another thread during the call
+        cdef VSNode *node = self.funcs.addNodeRef(self.node)
 
         # tracked so environment teardown can wait for blocking requests as well
         fut = Future()
@@ -2777,11 +2794,15 @@ cdef class AudioNode(RawNode):
             env.active_futures.add(fut)
         try:
             with nogil:
-                f = self.funcs.getFrame(n, self.node, errorMsg, 4096)
+                f = self.funcs.getFrame(n, node, errorMsg, 4096)
+                self.funcs.freeNode(node)
         finally:
             fut.set_result(None)
 
-        if f == NULL:
+        if self.node == NULL:
+            self.funcs.freeFrame(f)
+            self.ensure_valid()
+        elif f == NULL:
             if (errorMsg[0]):
                 msg_str = ep.decode('utf-8')
                 py_exc = env.retrieve_exception(msg_str) if env is not None else None
-- 
2.43.0


From 6498db3c0c4fef90f73b18ef3564c9df4ba00932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:04 +0000
Subject: [PATCH 43/57] fix: use the current environment's core for functions
 passed to Func objects instead of a null pointer

---
 src/cython/vapoursynth.pyx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index ae78a95..371c0c1 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -955,16 +955,19 @@ cdef class Func(object):
         cdef VSMap *inm
         cdef const VSAPI *vsapi
         cdef const char *error
+        cdef EnvironmentData env = _env_current()
+        cdef VSCore *core = NULL
+        if env is not None and env.core is not None:
+            core = env.core.core
         vsapi = getVSAPIInternal()
         outm = self.funcs.createMap()
         inm = self.funcs.createMap()
         try:
-            dictToMap(kwargs, inm, NULL, vsapi)
+            dictToMap(kwargs, inm, core, vsapi)
             self.funcs.callFunction(self.ref, inm, outm)
             error = self.funcs.mapGetError(outm)
             if error:
                 msg_str = error.decode('utf-8')
-                env = _env_current()
                 py_exc = env.retrieve_exception(msg_str) if env is not None else None
                 raise py_exc or Error(msg_str)
             return mapToDict(outm, True)
@@ -977,7 +980,7 @@ cdef Func createFuncPython(object func, VSCore *core, const VSAPI *funcs):
     instance.funcs = funcs
 
     cdef EnvironmentData env = _env_current()
-    if env is None:
+    if env is None or core == NULL:
         raise Error('Internal environment id not set. Did the environment die?')
     fdata = createFuncData(func, core, env)
 
-- 
2.43.0


From ee61c62cffe6588a72f1d6b0383c2db4c5ddd3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:34 +0000
Subject: [PATCH 44/57] fix: invalidate frames and nodes with the environment
 of their core instead of the currently active one

---
 src/cython/vapoursynth.pyx | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 371c0c1..4308647 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -357,6 +357,13 @@ cdef object _policy = None
 
 cdef const VSAPI *_vsapi = NULL
 
+# The environments by the address of their core, objects have to be invalidated together with
+# the core they were created by and not with whatever environment happened to be active then.
+cdef object _core_environments = weakref.WeakValueDictionary()
+
+cdef EnvironmentData _env_of_core(VSCore *core):
+    return _core_environments.get(<uintptr_t>core)
+
 
 cdef void _set_logger(EnvironmentData env, VSLogHandler handler, VSLogHandlerFree free, void *userData):
     vsscript_get_core_internal(env)
@@ -503,6 +510,7 @@ cdef class EnvironmentPolicyAPI:
         cdef Core c = env.core
         if c is not None:
             if c.core:
+                _core_environments.pop(<uintptr_t>c.core, None)
                 if c.funcs:
                     with nogil:
                         c.funcs.freeCore(c.core)
@@ -1097,7 +1105,7 @@ cdef int64_t rangeToIntFilter(object value, str key):
             value = Range.RANGE_FULL
     return int(value)
 
-cdef object mapToDict(const VSMap *map, bint flatten):
+cdef object mapToDict(const VSMap *map, bint flatten, Core core = None):
     cdef const VSAPI *funcs = getVSAPIInternal()
     cdef int numKeys = funcs.mapNumKeys(map)
     retdict = {}
@@ -1122,9 +1130,9 @@ cdef object mapToDict(const VSMap *map, bint flatten):
                 if funcs.mapGetDataTypeHint(map, retkey, y, NULL) == dtUtf8:
                     newval = newval.decode('utf-8')
             elif proptype == ptVideoNode or proptype == ptAudioNode:
-                newval = createNode(funcs.mapGetNode(map, retkey, y, NULL), funcs, _get_core())
+                newval = createNode(funcs.mapGetNode(map, retkey, y, NULL), funcs, core or _get_core())
             elif proptype == ptVideoFrame or proptype == ptAudioFrame:
-                newval = createConstFrame(funcs.mapGetFrame(map, retkey, y, NULL), funcs, _get_core().core)
+                newval = createConstFrame(funcs.mapGetFrame(map, retkey, y, NULL), funcs, (<Core>(core or _get_core())).core)
             elif proptype == ptFunction:
                 newval = createFuncRef(funcs.mapGetFunction(map, retkey, y, NULL), funcs)
 
@@ -1406,7 +1414,7 @@ cdef class FrameProps(object):
                 ol.append(aval)
         elif t == ptVideoNode or t == ptAudioNode:
             for i in range(numelem):
-                ol.append(createNode(self.funcs.mapGetNode(m, b, i, NULL), self.funcs, _get_core()))
+                ol.append(createNode(self.funcs.mapGetNode(m, b, i, NULL), self.funcs, _get_core_object(self.core)))
         elif t == ptVideoFrame or t == ptAudioFrame:
             for i in range(numelem):
                 ol.append(createConstFrame(self.funcs.mapGetFrame(m, b, i, NULL), self.funcs, self.core))
@@ -1799,7 +1807,7 @@ cdef class VideoFrame(RawFrame):
 cdef VideoFrame createConstVideoFrame(const VSFrame *constf, const VSAPI *funcs, VSCore *core):
     cdef:
         VideoFrame instance = VideoFrame.__new__(VideoFrame)
-        EnvironmentData env = _env_current()
+        EnvironmentData env = _env_of_core(core)
     instance.constf = constf
     instance.f = NULL
     instance.funcs = funcs
@@ -1816,7 +1824,7 @@ cdef VideoFrame createConstVideoFrame(const VSFrame *constf, const VSAPI *funcs,
 cdef VideoFrame createVideoFrame(VSFrame *f, const VSAPI *funcs, VSCore *core):
     cdef:
         VideoFrame instance = VideoFrame.__new__(VideoFrame)
-        EnvironmentData env = _env_current()
+        EnvironmentData env = _env_of_core(core)
     instance.constf = f
     instance.f = f
     instance.funcs = funcs
@@ -2025,7 +2033,7 @@ cdef AudioFrame createConstAudioFrame(const VSFrame *constf, const VSAPI *funcs,
     cdef:
         AudioFrame instance = AudioFrame.__new__(AudioFrame)
         const VSAudioFormat *format = funcs.getAudioFrameFormat(constf)
-        EnvironmentData env = _env_current()
+        EnvironmentData env = _env_of_core(core)
     instance.constf = constf
     instance.f = NULL
     instance.funcs = funcs
@@ -2045,7 +2053,7 @@ cdef AudioFrame createAudioFrame(VSFrame *f, const VSAPI *funcs, VSCore *core):
     cdef:
         AudioFrame instance = AudioFrame.__new__(AudioFrame)
         const VSAudioFormat *format = funcs.getAudioFrameFormat(f)
-        EnvironmentData env = _env_current()
+        EnvironmentData env = _env_of_core(core)
     instance.constf = f
     instance.f = f
     instance.funcs = funcs
@@ -2726,7 +2734,7 @@ cdef class VideoNode(RawNode):
 cdef VideoNode createVideoNode(VSNode *node, const VSAPI *funcs, Core core):
     cdef:
         VideoNode instance = VideoNode.__new__(VideoNode)
-        EnvironmentData env = _env_current()
+        EnvironmentData env = _env_of_core(core.core)
     instance.core = core
     instance.node = node
     instance.funcs = funcs
@@ -3037,7 +3045,7 @@ cdef class AudioNode(RawNode):
 cdef AudioNode createAudioNode(VSNode *node, const VSAPI *funcs, Core core):
     cdef:
         AudioNode instance = AudioNode.__new__(AudioNode)
-        EnvironmentData env = _env_current()
+        EnvironmentData env = _env_of_core(core.core)
 
     instance.core = core
     instance.node = node
@@ -3372,9 +3380,14 @@ cdef Core _get_core(threads = None):
 
     return vsscript_get_core_internal(env)
 
+cdef Core _get_core_object(VSCore *core):
+    cdef EnvironmentData env = _env_of_core(core)
+    return _get_core() if env is None else vsscript_get_core_internal(env)
+
 cdef Core vsscript_get_core_internal(EnvironmentData env):
     if env.core is None:
         env.core = createCore(env)
+        _core_environments[<uintptr_t>env.core.core] = env
     return env.core
 
 cdef class _CoreProxy(object):
@@ -3654,7 +3667,7 @@ cdef class Function(object):
             py_exc = env.retrieve_exception(msg_str) if env is not None else None
             raise py_exc or Error(msg_str)
 
-        retdict = mapToDict(outm, True)
+        retdict = mapToDict(outm, True, self.plugin.core)
         self.funcs.freeMap(outm)
         return retdict
 
@@ -3834,6 +3847,7 @@ cdef class VSScriptEnvironmentPolicy:
 
         if se and se.core:
             env.core = createCore2(se.core)
+            _core_environments[<uintptr_t>env.core.core] = env
             se.core = NULL # unset the core to indicate it's been used
 
         self._env_map[script_id] = env
-- 
2.43.0


From b0d358a01c3c78ec7500be47fc7bb881f74c5f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:23 +0000
Subject: [PATCH 45/57] fix: complete asynchronous requests made outside of any
 environment

---
 src/cython/vapoursynth.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 4308647..7a21aa5 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -1030,7 +1030,12 @@ cdef class CallbackData(object):
 
 
 cdef createCallbackData(const VSAPI* funcs, RawNode node, object cb):
-    cbd = CallbackData(node, _env_current(), cb)
+    cdef EnvironmentData env = _env_current()
+    if env is None:
+        env = _env_of_core(node.core.core)
+    if env is None:
+        raise Error('No environment is currently activated.')
+    cbd = CallbackData(node, env, cb)
     cbd.funcs = funcs
     cbd.noderef = funcs.addNodeRef(node.node)
     return cbd
-- 
2.43.0


From fb095c0f7963d2bf32b0f4473e1fcad2024a96f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:46 +0000
Subject: [PATCH 46/57] fix: evaluate script files completely instead of
 cutting them off at 16 MiB or a NUL byte

---
 src/cython/vapoursynth.pyx | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 7a21aa5..5a4d973 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -3985,25 +3985,27 @@ cdef public api int vpy4_createScript(VSScript *se) nogil:
             return 1
         return 0
 
+cdef int _vpy_evaluate_script(VSScript *se, bytes script, const char *scriptFilename):
+    if not se.pyenvdict:
+        _vpy_replace_pyenvdict(se, {})
+
+    fn = None
+    if scriptFilename:
+        fn = scriptFilename.decode('utf-8')
+
+    if se.setCWD:
+        with __chdir(fn, 1):
+            return _vpy_evaluate(se, script, fn)
+    else:
+        return _vpy_evaluate(se, script, fn)
+
 cdef public api int vpy4_evaluateBuffer(VSScript *se, const char *buffer, const char *scriptFilename) nogil:
     with gil:
         try:
-            if not se.pyenvdict:
-                _vpy_replace_pyenvdict(se, {})
-            pyenvdict = <dict>se.pyenvdict
-
             if buffer == NULL:
                 raise RuntimeError("NULL buffer passed.")
 
-            fn = None
-            if scriptFilename:
-                fn = scriptFilename.decode('utf-8')
-
-            if se.setCWD:
-                with __chdir(fn, 1):
-                    return _vpy_evaluate(se, buffer, fn)
-            else:
-                return _vpy_evaluate(se, buffer, fn)
+            return _vpy_evaluate_script(se, buffer, scriptFilename)
 
         except BaseException, e:
             errstr = 'File reading exception:\n' + str(e)
@@ -4019,8 +4021,8 @@ cdef public api int vpy4_evaluateFile(VSScript *se, const char *scriptFilename)
                 raise RuntimeError("NULL scriptFilename passed.")
 
             with open(scriptFilename.decode('utf-8'), 'rb') as f:
-                script = f.read(1024*1024*16)
-            return vpy4_evaluateBuffer(se, script, scriptFilename)
+                script = f.read()
+            return _vpy_evaluate_script(se, script, scriptFilename)
         except BaseException, e:
             errstr = 'File reading exception:\n' + str(e)
             errstr = errstr.encode('utf-8')
-- 
2.43.0


From 5779779ad1ce2996fdc8f402c690ecb84e69fc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:37 +0000
Subject: [PATCH 47/57] fix: run a script's destroy callbacks while its
 variables and core still exist and always free its core

---
 src/cython/vapoursynth.pyx | 55 +++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 5a4d973..9259fdc 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -233,6 +233,7 @@ __api_version__ = VapourSynthAPIVersion(VAPOURSYNTH_API_MAJOR, VAPOURSYNTH_API_M
 @final
 cdef class EnvironmentData(object):
     cdef bint alive
+    cdef bint destroying
     cdef Core core
     cdef object on_destroy
     cdef dict outputs
@@ -399,6 +400,28 @@ cdef void __stdcall _logFree(void* userData) noexcept nogil:
     with gil:
         Py_DECREF(<object>userData)
 
+cdef _run_destroy_callbacks(EnvironmentData env):
+    if env.on_destroy is None:
+        return
+
+    futs = env.active_futures
+    env.active_futures = None
+    wait_futures(futs)
+
+    callbacks = env.on_destroy
+    env.on_destroy = None
+
+    with use_environment(env).use():
+        for callback in callbacks:
+            try:
+                callback()
+            except Exception as e:
+                formatted = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
+                if env.core is not None:
+                    env.core.log_message(MessageType.MESSAGE_TYPE_CRITICAL, formatted)
+                else:
+                    sys.stderr.write(formatted)
+
 @final
 cdef class EnvironmentPolicyAPI:
     # This must be a weak-ref to prevent a cyclic dependency that happens if the API
@@ -441,6 +464,7 @@ cdef class EnvironmentPolicyAPI:
         env.known_frames = weakref.WeakSet()
         env.active_futures = weakref.WeakSet()
         env.alive = True
+        env.destroying = False
 
         with self._lock:
             counter = self._known_environments_counter
@@ -463,26 +487,12 @@ cdef class EnvironmentPolicyAPI:
 
     def destroy_environment(self, EnvironmentData env):
         self.ensure_policy_matches()
-        if not env.alive:
+        # destroying it again from one of its callbacks has no effect
+        if not env.alive or env.destroying:
             return
+        env.destroying = True
 
-        futs = env.active_futures
-        env.active_futures = None
-        wait_futures(futs)
-
-        callbacks = env.on_destroy
-        env.on_destroy = None
-
-        with use_environment(env).use():
-            for callback in callbacks:
-                try:
-                    callback()
-                except Exception as e:
-                    formatted = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
-                    if env.core is not None:
-                        env.core.log_message(MessageType.MESSAGE_TYPE_CRITICAL, formatted)
-                    else:
-                        sys.stderr.write(formatted)
+        _run_destroy_callbacks(env)
 
         # Invalidate all remaining nodes and frames from this environment
         for node in list(env.known_nodes):
@@ -4040,19 +4050,20 @@ cdef public api void vpy4_freeScript(VSScript *se) noexcept nogil:
     with gil:
         if se.pyenvdict:
             pyenvdict = <dict>se.pyenvdict
-            for key in pyenvdict:
-                pyenvdict[key] = None
-            pyenvdict.clear()
             try:
                 # Environment is lazily created at the time of exec'ing a script,
                 # if the process errors out before that (e.g. fails compiling),
                 # the environment might be None.
                 env = _get_vsscript_policy().get_environment(se.id)
                 if env is not None:
+                    # the callbacks still need the variables and the core of the script
+                    _run_destroy_callbacks(env)
                     env.outputs.clear()
-                    env.core = None
             except:
                 pass
+            for key in pyenvdict:
+                pyenvdict[key] = None
+            pyenvdict.clear()
 
             se.pyenvdict = NULL
             Py_DECREF(pyenvdict)
-- 
2.43.0


From 7322e6e1fc7c7364bba0ef100dffedaad3741e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:37 +0000
Subject: [PATCH 48/57] fix: free the environment of a script even if one of
 its finalizers creates variables

---
 src/cython/vapoursynth.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 9259fdc..fb30613 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -4061,7 +4061,7 @@ cdef public api void vpy4_freeScript(VSScript *se) noexcept nogil:
                     env.outputs.clear()
             except:
                 pass
-            for key in pyenvdict:
+            for key in list(pyenvdict):
                 pyenvdict[key] = None
             pyenvdict.clear()
 
-- 
2.43.0


From fa087fc135ce6ca005fcfc44e055b5b7a41562d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:44 +0000
Subject: [PATCH 49/57] fix: error and log messages that are not valid UTF-8
 reach Python

Decoding them raised inside the completion callback, so asynchronous requests were
never answered and log messages were lost, and get_frame() raised UnicodeDecodeError
instead of the error, also when its buffer ended inside of a character.
---
 src/cython/vapoursynth.pyx | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index fb30613..553571b 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -393,7 +393,7 @@ cdef void _unset_logger(EnvironmentData env):
 
 cdef void __stdcall _logCb(int msgType, const char *msg, void *userData) noexcept nogil:
     with gil:
-        message = msg.decode("utf-8")
+        message = msg.decode("utf-8", "replace")
         (<object>userData)(msgType, message)
 
 cdef void __stdcall _logFree(void* userData) noexcept nogil:
@@ -985,7 +985,7 @@ cdef class Func(object):
             self.funcs.callFunction(self.ref, inm, outm)
             error = self.funcs.mapGetError(outm)
             if error:
-                msg_str = error.decode('utf-8')
+                msg_str = error.decode('utf-8', 'replace')
                 py_exc = env.retrieve_exception(msg_str) if env is not None else None
                 raise py_exc or Error(msg_str)
             return mapToDict(outm, True)
@@ -1086,7 +1086,7 @@ cdef void __stdcall frameDoneCallback(void *data, const VSFrame *f, int n, VSNod
             elif f == NULL:
                 error_str = 'Internal error - no error message.'
                 if errormsg != NULL:
-                    error_str = errormsg.decode('utf-8')
+                    error_str = errormsg.decode('utf-8', 'replace')
                 py_exc = d.env.retrieve_exception(error_str) if d.env is not None else None
                 error = py_exc or Error(error_str)
             else:
@@ -2489,7 +2489,7 @@ cdef class VideoNode(RawNode):
             self.ensure_valid()
         elif f == NULL:
             if (errorMsg[0]):
-                msg_str = ep.decode('utf-8')
+                msg_str = ep.decode('utf-8', 'replace')
                 py_exc = env.retrieve_exception(msg_str) if env is not None else None
                 raise py_exc or Error(msg_str)
             else:
@@ -2830,7 +2830,7 @@ cdef class AudioNode(RawNode):
             self.ensure_valid()
         elif f == NULL:
             if (errorMsg[0]):
-                msg_str = ep.decode('utf-8')
+                msg_str = ep.decode('utf-8', 'replace')
                 py_exc = env.retrieve_exception(msg_str) if env is not None else None
                 raise py_exc or Error(msg_str)
             else:
@@ -3095,7 +3095,7 @@ cdef LogHandle createLogHandle(object handler_func):
 
 cdef void __stdcall log_handler_wrapper(int msgType, const char *msg, void *userData) noexcept nogil:
     with gil:
-        (<LogHandle>userData).handler_func(msgType, msg.decode('utf-8'))
+        (<LogHandle>userData).handler_func(msgType, msg.decode('utf-8', 'replace'))
 
 cdef void __stdcall log_handler_free(void *userData) noexcept nogil:
     with gil:
@@ -3677,7 +3677,7 @@ cdef class Function(object):
         if err:
             emsg = err
             self.funcs.freeMap(outm)
-            msg_str = emsg.decode('utf-8')
+            msg_str = emsg.decode('utf-8', 'replace')
             env = _env_current()
             py_exc = env.retrieve_exception(msg_str) if env is not None else None
             raise py_exc or Error(msg_str)
-- 
2.43.0


From 973a08d3bc83538face27380943da2a779311d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:44 +0000
Subject: [PATCH 50/57] fix: exceptions whose text has lone surrogates are no
 longer lost

Encoding the traceback (of a file name that is not valid UTF-8, for example) raised
itself, so functions called by the core seemed to succeed without a result and
VSScript reported a file reading exception instead of the one of the script.
---
 src/cython/vapoursynth.pyx | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 553571b..338eb7f 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -3785,10 +3785,10 @@ cdef void __stdcall publicFunction(const VSMap *inm, VSMap *outm, void *userData
             if (isinstance(e, BaseException) and not isinstance(e, Exception)) or isinstance(e, FutureCancelledError):
                 exc_id = d.env.store_exception(e) if d.env is not None else 0
                 tb_str = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
-                emsg = f"[VS_PY_EXC_ID:{exc_id}]\n{tb_str}".encode('utf-8')
+                emsg = f"[VS_PY_EXC_ID:{exc_id}]\n{tb_str}".encode('utf-8', 'backslashreplace')
                 vsapi.mapSetError(outm, emsg)
             else:
-                emsg = b'\n' + ''.join(traceback.format_exception(type(e), e, e.__traceback__)).encode('utf-8')
+                emsg = b'\n' + ''.join(traceback.format_exception(type(e), e, e.__traceback__)).encode('utf-8', 'backslashreplace')
                 vsapi.mapSetError(outm, emsg)
 
 
@@ -3963,19 +3963,19 @@ cdef int _vpy_evaluate(VSScript *se, bytes script, str filename):
         except OverflowError:
             se.exitCode = 1
         errstr = 'Python exit with code ' + str(e.code) + '\n'
-        errstr = errstr.encode('utf-8')
+        errstr = errstr.encode('utf-8', 'backslashreplace')
         Py_INCREF(errstr)
         se.errstr = <void *>errstr
         return 3
     except BaseException, e:
         errstr = 'Python exception: ' + str(e) + '\n\n' + traceback.format_exc()
-        errstr = errstr.encode('utf-8')
+        errstr = errstr.encode('utf-8', 'backslashreplace')
         Py_INCREF(errstr)
         se.errstr = <void *>errstr
         return 2
     except:
         errstr = 'Unspecified Python exception' + '\n\n' + traceback.format_exc()
-        errstr = errstr.encode('utf-8')
+        errstr = errstr.encode('utf-8', 'backslashreplace')
         Py_INCREF(errstr)
         se.errstr = <void *>errstr
         return 1
@@ -3989,7 +3989,7 @@ cdef public api int vpy4_createScript(VSScript *se) nogil:
 
         except:
             errstr = 'Unspecified Python exception' + '\n\n' + traceback.format_exc()
-            errstr = errstr.encode('utf-8')
+            errstr = errstr.encode('utf-8', 'backslashreplace')
             Py_INCREF(errstr)
             se.errstr = <void *>errstr
             return 1
@@ -4019,7 +4019,7 @@ cdef public api int vpy4_evaluateBuffer(VSScript *se, const char *buffer, const
 
         except BaseException, e:
             errstr = 'File reading exception:\n' + str(e)
-            errstr = errstr.encode('utf-8')
+            errstr = errstr.encode('utf-8', 'backslashreplace')
             Py_INCREF(errstr)
             se.errstr = <void *>errstr
             return 2
@@ -4035,13 +4035,13 @@ cdef public api int vpy4_evaluateFile(VSScript *se, const char *scriptFilename)
             return _vpy_evaluate_script(se, script, scriptFilename)
         except BaseException, e:
             errstr = 'File reading exception:\n' + str(e)
-            errstr = errstr.encode('utf-8')
+            errstr = errstr.encode('utf-8', 'backslashreplace')
             Py_INCREF(errstr)
             se.errstr = <void *>errstr
             return 2
         except:
             errstr = 'Unspecified file reading exception'
-            errstr = errstr.encode('utf-8')
+            errstr = errstr.encode('utf-8', 'backslashreplace')
             Py_INCREF(errstr)
             se.errstr = <void *>errstr
             return 1
-- 
2.43.0


From f84642c0064c90b17b00917c53374802db1dc29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:44 +0000
Subject: [PATCH 51/57] fix: log records from outside of an environment

The bridge of VSScript used the wrong name of its parent handler, so logging from
a thread without an environment raised AttributeError.
---
 src/cython/vapoursynth.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 338eb7f..55806b9 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -3742,7 +3742,7 @@ class PythonVSScriptLoggingBridge(logging.Handler):
     def emit(self, record):
         env = _env_current()
         if env is None:
-            self.parent.handle(record)
+            self._parent.handle(record)
             return
         core = vsscript_get_core_internal(env)
 
-- 
2.43.0


From a760922f8ddd79a52f6f9e3adf9715247e88acdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:56 +0000
Subject: [PATCH 52/57] fix: exceptions of functions that belong to another
 environment

KeyboardInterrupt, SystemExit and cancellations were looked up in the environment that
was active when the error arrived instead of the one of the function, so outside of it
they became an Error with an internal marker or another exception with the same number.
---
 src/cython/vapoursynth.pyx | 46 +++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 55806b9..25f415f 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -45,6 +45,7 @@ import atexit
 import contextlib
 import logging
 import functools
+import itertools
 import typing
 import warnings
 import keyword
@@ -238,7 +239,6 @@ cdef class EnvironmentData(object):
     cdef object on_destroy
     cdef dict outputs
     cdef dict active_exceptions
-    cdef int next_exc_id
     cdef object exc_lock
 
     cdef int coreCreationFlags
@@ -270,23 +270,31 @@ cdef class EnvironmentData(object):
             return 0
 
         with self.exc_lock:
-            self.next_exc_id += 1
-            self.active_exceptions[self.next_exc_id] = e
+            exc_id = next(_exception_ids)
+            self.active_exceptions[exc_id] = e
 
             if len(self.active_exceptions) > 1000:
                 self.active_exceptions.pop(next(iter(self.active_exceptions)), None)
 
-            return self.next_exc_id
+            return exc_id
 
-    cdef object retrieve_exception(self, str msg_str):
-        if self.active_exceptions is not None and msg_str.startswith("[VS_PY_EXC_ID:"):
-            try:
-                parts = msg_str.split("]\n", 1)
-                exc_id = int(parts[0][len("[VS_PY_EXC_ID:"):])
-                return self.active_exceptions.pop(exc_id, None)
-            except (ValueError, KeyError, IndexError):
-                pass
-        return None
+
+# The ids are unique among all environments, an exception may be raised in another one than the function
+# it comes from belongs to.
+cdef object _exception_ids = itertools.count(1)
+
+cdef object _retrieve_exception(str msg_str):
+    cdef EnvironmentData env
+    if msg_str.startswith("[VS_PY_EXC_ID:"):
+        try:
+            parts = msg_str.split("]\n", 1)
+            exc_id = int(parts[0][len("[VS_PY_EXC_ID:"):])
+        except ValueError:
+            return None
+        for env in list(_core_environments.values()):
+            if env.active_exceptions is not None and exc_id in env.active_exceptions:
+                return env.active_exceptions.pop(exc_id, None)
+    return None
 
 
 class EnvironmentPolicy(object):
@@ -455,7 +463,6 @@ cdef class EnvironmentPolicyAPI:
         env.log = NULL
         env.outputs = {}
         env.active_exceptions = {}
-        env.next_exc_id = 0
         env.exc_lock = Lock()
         env.coreCreationFlags = flags
         env.on_destroy = []
@@ -986,7 +993,7 @@ cdef class Func(object):
             error = self.funcs.mapGetError(outm)
             if error:
                 msg_str = error.decode('utf-8', 'replace')
-                py_exc = env.retrieve_exception(msg_str) if env is not None else None
+                py_exc = _retrieve_exception(msg_str)
                 raise py_exc or Error(msg_str)
             return mapToDict(outm, True)
         finally:
@@ -1087,7 +1094,7 @@ cdef void __stdcall frameDoneCallback(void *data, const VSFrame *f, int n, VSNod
                 error_str = 'Internal error - no error message.'
                 if errormsg != NULL:
                     error_str = errormsg.decode('utf-8', 'replace')
-                py_exc = d.env.retrieve_exception(error_str) if d.env is not None else None
+                py_exc = _retrieve_exception(error_str)
                 error = py_exc or Error(error_str)
             else:
                 result = createConstFrame(f, d.funcs, d.node.core.core)
@@ -2490,7 +2497,7 @@ cdef class VideoNode(RawNode):
         elif f == NULL:
             if (errorMsg[0]):
                 msg_str = ep.decode('utf-8', 'replace')
-                py_exc = env.retrieve_exception(msg_str) if env is not None else None
+                py_exc = _retrieve_exception(msg_str)
                 raise py_exc or Error(msg_str)
             else:
                 raise Error('Internal error - no error given')
@@ -2831,7 +2838,7 @@ cdef class AudioNode(RawNode):
         elif f == NULL:
             if (errorMsg[0]):
                 msg_str = ep.decode('utf-8', 'replace')
-                py_exc = env.retrieve_exception(msg_str) if env is not None else None
+                py_exc = _retrieve_exception(msg_str)
                 raise py_exc or Error(msg_str)
             else:
                 raise Error('Internal error - no error given')
@@ -3678,8 +3685,7 @@ cdef class Function(object):
             emsg = err
             self.funcs.freeMap(outm)
             msg_str = emsg.decode('utf-8', 'replace')
-            env = _env_current()
-            py_exc = env.retrieve_exception(msg_str) if env is not None else None
+            py_exc = _retrieve_exception(msg_str)
             raise py_exc or Error(msg_str)
 
         retdict = mapToDict(outm, True, self.plugin.core)
-- 
2.43.0


From 63d2e080cd4810621971e5e6df865a0aae85366e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:23 +0000
Subject: [PATCH 53/57] fix: scripts ended by an exception that has no text

str() of the exception or exit code may fail, VSScript then reported a file reading
exception (and no exit code) instead of the one of the script.
---
 src/cython/vapoursynth.pyx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 25f415f..6d257b7 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -3936,6 +3936,13 @@ cdef void _vpy_replace_pyenvdict(VSScript *se, dict pyenvdict):
         se.pyenvdict = <void*>pyenvdict
 
 
+cdef str _exception_text(value):
+    try:
+        return str(value)
+    except Exception:
+        return '<exception str() failed>'
+
+
 cdef int _vpy_evaluate(VSScript *se, bytes script, str filename):
     try:
         pyenvdict = {}
@@ -3968,13 +3975,13 @@ cdef int _vpy_evaluate(VSScript *se, bytes script, str filename):
             se.exitCode = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
         except OverflowError:
             se.exitCode = 1
-        errstr = 'Python exit with code ' + str(e.code) + '\n'
+        errstr = 'Python exit with code ' + _exception_text(e.code) + '\n'
         errstr = errstr.encode('utf-8', 'backslashreplace')
         Py_INCREF(errstr)
         se.errstr = <void *>errstr
         return 3
     except BaseException, e:
-        errstr = 'Python exception: ' + str(e) + '\n\n' + traceback.format_exc()
+        errstr = 'Python exception: ' + _exception_text(e) + '\n\n' + traceback.format_exc()
         errstr = errstr.encode('utf-8', 'backslashreplace')
         Py_INCREF(errstr)
         se.errstr = <void *>errstr
-- 
2.43.0


From 0bd0ff2e3316298b0aa58bc0125b3f4da00d0f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:22 +0000
Subject: [PATCH 54/57] fix: wait for requests made in other environments
 before the core is freed

Only requests made while the environment was active were waited for, others could still
be queued when the core was freed and their completion then destroyed the core from one
of its own threads, which terminates the process.
---
 src/cython/vapoursynth.pyx | 46 +++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 6d257b7..1eb3e5c 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -408,12 +408,31 @@ cdef void __stdcall _logFree(void* userData) noexcept nogil:
     with gil:
         Py_DECREF(<object>userData)
 
+# Requests are waited for by the environment they were made in and by the one whose core makes the frame
+cdef _track_request(object fut, EnvironmentData env, VSCore *core):
+    cdef EnvironmentData owner = _env_of_core(core)
+    if env is not None and env.active_futures is not None:
+        env.active_futures.add(fut)
+    if owner is not None and owner.active_futures is not None:
+        owner.active_futures.add(fut)
+
+cdef _invalidate_nodes(EnvironmentData env):
+    for node in list(env.known_nodes):
+        if not isinstance(node, RawNode):
+            continue
+        rn = <RawNode>node
+        if rn.node:
+            if rn.funcs:
+                rn.funcs.freeNode(rn.node)
+            rn.node = NULL
+            rn.core = None
+
 cdef _run_destroy_callbacks(EnvironmentData env):
     if env.on_destroy is None:
         return
 
     futs = env.active_futures
-    env.active_futures = None
+    env.active_futures = weakref.WeakSet()
     wait_futures(futs)
 
     callbacks = env.on_destroy
@@ -502,15 +521,13 @@ cdef class EnvironmentPolicyAPI:
         _run_destroy_callbacks(env)
 
         # Invalidate all remaining nodes and frames from this environment
-        for node in list(env.known_nodes):
-            if not isinstance(node, RawNode):
-                continue
-            rn = <RawNode>node
-            if rn.node:
-                if rn.funcs:
-                    rn.funcs.freeNode(rn.node)
-                rn.node = NULL
-                rn.core = None
+        _invalidate_nodes(env)
+
+        # The core can't be freed with requests outstanding that were made since the first wait
+        futs = env.active_futures
+        env.active_futures = None
+        wait_futures(futs)
+        _invalidate_nodes(env)
 
         for frame in list(env.known_frames):
             if not isinstance(frame, RawFrame):
@@ -1042,8 +1059,7 @@ cdef class CallbackData(object):
         # just the future returning form
         self.fut = Future()
         self.fut.set_running_or_notify_cancel()
-        if env is not None and env.active_futures is not None:
-            env.active_futures.add(self.fut)
+        _track_request(self.fut, env, (<RawNode>node).core.core)
 
 
 cdef createCallbackData(const VSAPI* funcs, RawNode node, object cb):
@@ -2482,8 +2498,7 @@ cdef class VideoNode(RawNode):
         # tracked so environment teardown can wait for blocking requests as well
         fut = Future()
         fut.set_running_or_notify_cancel()
-        if env is not None and env.active_futures is not None:
-            env.active_futures.add(fut)
+        _track_request(fut, env, self.core.core)
         try:
             with nogil:
                 f = self.funcs.getFrame(n, node, errorMsg, 4096)
@@ -2823,8 +2838,7 @@ cdef class AudioNode(RawNode):
         # tracked so environment teardown can wait for blocking requests as well
         fut = Future()
         fut.set_running_or_notify_cancel()
-        if env is not None and env.active_futures is not None:
-            env.active_futures.add(fut)
+        _track_request(fut, env, self.core.core)
         try:
             with nogil:
                 f = self.funcs.getFrame(n, node, errorMsg, 4096)
-- 
2.43.0


From b111055b0e6fef8263917e2652473faaa3d1d1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:46 +0000
Subject: [PATCH 55/57] fix: functions can be invoked while others are
 registered with the same plugin

VSPlugin::invoke and getFunctions3 went through the function map without taking functionLock.
---
 src/core/vscore.cpp | 8 +++++---
 src/core/vscore.h   | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/vscore.cpp b/src/core/vscore.cpp
index c086378..89cf5b9 100644
--- a/src/core/vscore.cpp
+++ b/src/core/vscore.cpp
@@ -2429,9 +2429,10 @@ bool VSPlugin::registerFunction(const std::string &name, const std::string &args
 }
 
 VSMap *VSPlugin::invoke(const std::string &funcName, const VSMap &args) {
-    auto it = funcs.find(funcName);
-    if (it != funcs.end()) {
-        return it->second.invoke(args);
+    // functions can be registered at the same time, they are never removed so the lock doesn't have to be held while one runs
+    VSPluginFunction *func = getFunctionByName(funcName);
+    if (func) {
+        return func->invoke(args);
     } else {
         VSMap *v = new VSMap();
         vs_internal_vsapi.mapSetError(v, ("Function '" + funcName + "' not found in " + id).c_str());
@@ -2460,6 +2461,7 @@ VSPluginFunction *VSPlugin::getFunctionByName(const std::string name) {
 }
 
 void VSPlugin::getFunctions3(VSMap *out) const {
+    std::lock_guard<std::mutex> lock(functionLock);
     for (const auto &f : funcs) {
         if (f.second.isV3Compatible()) {
             std::string b = f.first + ";" + f.second.getV3ArgString();
diff --git a/src/core/vscore.h b/src/core/vscore.h
index 1de1b11..340cc98 100644
--- a/src/core/vscore.h
+++ b/src/core/vscore.h
@@ -1101,7 +1101,7 @@ private:
     void *libHandle;
 #endif
     std::map<std::string, VSPluginFunction> funcs;
-    std::mutex functionLock;
+    mutable std::mutex functionLock;
     VSCore *core;
 public:
     explicit VSPlugin(VSCore *core);
-- 
2.43.0


From e747c99ac2a3b9dab8b39740dc2f612ea59a0f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:16 +0000
Subject: [PATCH 56/57] fix: dropping a cached frame that holds the last
 reference to a node no longer deadlocks

Frames left the caches with the cache locks held, destroying a node through a frame's
properties takes the same locks again. Frames are now released after the locks.
---
 src/core/vscore.cpp | 17 +++++++++++++++--
 src/core/vscore.h   | 40 ++++++++++++++++++++++++++++++++++------
 2 files changed, 49 insertions(+), 8 deletions(-)

diff --git a/src/core/vscore.cpp b/src/core/vscore.cpp
index 89cf5b9..faa4d8e 100644
--- a/src/core/vscore.cpp
+++ b/src/core/vscore.cpp
@@ -869,6 +869,7 @@ void VSNode::updateCacheState() {
 
 void VSNode::addConsumer(VSNode *consumer, int strictSpatial) {
     {
+        VSDeferredFrames droppedFrames;
         std::lock_guard<std::mutex> lock(cacheMutex);
         consumers.push_back({consumer, strictSpatial});
 
@@ -879,6 +880,7 @@ void VSNode::addConsumer(VSNode *consumer, int strictSpatial) {
 
 void VSNode::removeConsumer(VSNode *consumer, int strictSpatial) {
     {
+        VSDeferredFrames droppedFrames;
         std::lock_guard<std::mutex> lock(cacheMutex);
         for (auto iter = consumers.begin(); iter != consumers.end(); ++iter) {
             if (iter->source == consumer && iter->requestPattern == strictSpatial) {
@@ -992,6 +994,7 @@ const VSMap *VSNode::getCreationFunctionArguments(int level) const {
 int VSNode::setLinear() {
     {
         size_t threadCount = core->threadPool->threadCount();
+        VSDeferredFrames droppedFrames;
         std::lock_guard<std::mutex> lock(cacheMutex);
         cacheLinear = true;
         cacheOverride = true;
@@ -1006,6 +1009,7 @@ int VSNode::setLinear() {
 
 void VSNode::setCacheMode(int mode) {
     {
+        VSDeferredFrames droppedFrames;
         std::lock_guard<std::mutex> lock(cacheMutex);
 
         if (cacheLinear || mode < -1 || mode > 1) {
@@ -1038,6 +1042,7 @@ void VSNode::setCacheMode(int mode) {
 }
 
 void VSNode::setCacheOptions(int fixedSize, int maxSize, int maxHistorySize) {
+    VSDeferredFrames droppedFrames;
     std::lock_guard<std::mutex> lock(cacheMutex);
     if (fixedSize >= 0)
         cache.setFixedSize(!!fixedSize);
@@ -1048,6 +1053,7 @@ void VSNode::setCacheOptions(int fixedSize, int maxSize, int maxHistorySize) {
 }
 
 PVSFrame VSNode::getCachedFrameInternal(int n) {
+    VSDeferredFrames droppedFrames;
     std::lock_guard<std::mutex> lock(cacheMutex);
     if (cacheEnabled)
         return cache.object(n);
@@ -1108,6 +1114,7 @@ PVSFrame VSNode::getFrameInternal(int n, int activationReason, VSFrameContext *f
         PVSFrame ref(const_cast<VSFrame *>(r));
 
         if (cacheEnabled) {
+            VSDeferredFrames droppedFrames;
             std::lock_guard<std::mutex> lock(cacheMutex);
             int lastFrame = (nodeType == mtVideo ? vi.numFrames : ai.numFrames) - 1;
             if (cacheEnabled && (!cacheLastOnly || n == lastFrame))
@@ -1152,12 +1159,14 @@ void VS_CC MakeLinearWrapper::freeFilter(void *instanceData, VSCore *core, const
 }
 
 void VSNode::cacheFrame(const VSFrame *frame, int n) {
+    VSDeferredFrames droppedFrames;
     std::lock_guard<std::mutex> lock(cacheMutex);
     assert(cacheLinear);
     cache.insert(n, {const_cast<VSFrame *>(frame), true});
 }
 
 void VSNode::clearCache(bool resetSize) {
+    VSDeferredFrames droppedFrames;
     std::lock_guard<std::mutex> lock(cacheMutex);
     cache.clear();
     if (resetSize && !cacheLinear && !cache.getFixedSize())
@@ -1165,6 +1174,7 @@ void VSNode::clearCache(bool resetSize) {
 }
 
 void VSNode::notifyCache(bool memoryComfortable, uint64_t completedExtFrames) {
+    VSDeferredFrames droppedFrames;
     std::lock_guard<std::mutex> lock(cacheMutex);
     cache.adjustSize(memoryComfortable, completedExtFrames);
 }
@@ -1175,6 +1185,7 @@ VSNode::CachePressureInfo VSNode::getCachePressureInfo() {
 }
 
 size_t VSNode::evictCacheBytes(size_t maxBytes) {
+    VSDeferredFrames droppedFrames;
     std::lock_guard<std::mutex> lock(cacheMutex);
     return cache.dropLRUFrames(maxBytes);
 }
@@ -1211,6 +1222,7 @@ int64_t VSNode::expectedTransientAllocation() const {
 
 void VSCore::notifyCaches(bool needMemory) {
     uint64_t completedExtFrames = threadPool->getCompletedExternalFrames();
+    VSDeferredFrames droppedFrames;
     std::lock_guard<std::mutex> lock(cacheLock);
 
     if (needMemory) {
@@ -1976,6 +1988,7 @@ void VSCore::destroyFilterInstance(VSNode *node) {
 }
 
 void VSCore::clearCaches(bool resetSize) {
+    VSDeferredFrames droppedFrames;
     std::lock_guard<std::mutex> lock(cacheLock);
     for (const auto &iter : caches)
         iter->clearCache(resetSize);
@@ -2550,8 +2563,7 @@ size_t VSNode::VSCache::evictFrames(int maxCount, size_t byteBudget) {
             weakpoint = weakpoint->prevNode;
 
         if (weakpoint) {
-            freed += subtractFrameBytes(*weakpoint);
-            weakpoint->frame.reset();
+            freed += dropFrame(*weakpoint);
         }
 
         currentSize--;
@@ -2633,5 +2645,6 @@ ptrdiff_t VSFrame::alignment = 32;
 #endif
 
 thread_local VSNode *VSCore::currentProcessingNode = nullptr;
+thread_local VSDeferredFrames *VSDeferredFrames::current = nullptr;
 thread_local PVSFunctionFrame VSCore::functionFrame;
 std::atomic<uint64_t> VSFrame::allocationSeq = 0;
\ No newline at end of file
diff --git a/src/core/vscore.h b/src/core/vscore.h
index 340cc98..f9da53b 100644
--- a/src/core/vscore.h
+++ b/src/core/vscore.h
@@ -650,6 +650,33 @@ struct VSFunctionFrame {
 
 
 
+// Keeps the frames dropped from caches until it goes out of scope, has to be declared before the lock
+// taken to modify a cache. A frame's properties can hold the last reference to a node and destroying it
+// needs the same locks again.
+class VSDeferredFrames {
+private:
+    static thread_local VSDeferredFrames *current;
+    std::vector<PVSFrame> frames;
+    bool outermost;
+public:
+    VSDeferredFrames() : outermost(!current) {
+        if (outermost)
+            current = this;
+    }
+    ~VSDeferredFrames() {
+        if (outermost)
+            current = nullptr;
+    }
+    VSDeferredFrames(const VSDeferredFrames &) = delete;
+    VSDeferredFrames &operator=(const VSDeferredFrames &) = delete;
+
+    static void release(PVSFrame &frame) {
+        if (current)
+            current->frames.push_back(frame);
+        frame.reset();
+    }
+};
+
 struct VSNode {
     friend class VSThreadPool;
     friend struct VSCore;
@@ -695,11 +722,12 @@ private:
 
         static constexpr uint64_t deadBranchDelay = 3;
 
-        inline size_t subtractFrameBytes(const Node &n) {
+        inline size_t dropFrame(Node &n) {
             if (!n.frame)
                 return 0;
             size_t frameBytes = n.frame->totalByteSize();
             currentBytes -= frameBytes;
+            VSDeferredFrames::release(n.frame);
             return frameBytes;
         }
 
@@ -720,7 +748,7 @@ private:
                 first = n.nextNode;
 
             if (n.frame) {
-                subtractFrameBytes(n);
+                dropFrame(n);
                 currentSize--;
             } else {
                 historySize--;
@@ -769,13 +797,11 @@ private:
             if (!weakpoint) {
                 if (currentSize > maxSize) {
                     weakpoint = last;
-                    subtractFrameBytes(*weakpoint);
-                    weakpoint->frame.reset();
+                    dropFrame(*weakpoint);
                 }
             } else if (&n == origWeakPoint || historySize > maxHistorySize) {
                 weakpoint = weakpoint->prevNode;
-                subtractFrameBytes(*weakpoint);
-                weakpoint->frame.reset();
+                dropFrame(*weakpoint);
             }
 
             assert(historySize <= maxHistorySize);
@@ -829,6 +855,8 @@ private:
         }
 
         inline void clear() {
+            for (auto &iter : hash)
+                dropFrame(iter.second);
             hash.clear();
             first = nullptr;
             last = nullptr;
-- 
2.43.0


From b0ad715030973ef727307d7ca4007382ba01e48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:24 +0000
Subject: [PATCH 57/57] fix: worker threads no longer drop frame references
 while holding taskLock

A frame can hold the last reference to a node or function in its properties. Destroying
it runs filter code, which deadlocked when it used the core or waited for a lock (such as
the GIL) held by a thread that needs taskLock.
---
 src/core/vscore.h         |  2 +-
 src/core/vsthreadpool.cpp | 38 ++++++++++++++++++++++++++------------
 2 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/core/vscore.h b/src/core/vscore.h
index f9da53b..0bab6b0 100644
--- a/src/core/vscore.h
+++ b/src/core/vscore.h
@@ -1076,7 +1076,7 @@ private:
 public:
     VSThreadPool(VSCore *core);
     ~VSThreadPool();
-    void returnFrame(VSFrameContext *rCtx, const PVSFrame &f, std::unique_lock<std::mutex> &lock);
+    void returnFrame(VSFrameContext *rCtx, PVSFrame &f, std::unique_lock<std::mutex> &lock);
     size_t threadCount();
     size_t setThreadCount(size_t threads);
     void startExternal(const PVSFrameContext &context);
diff --git a/src/core/vsthreadpool.cpp b/src/core/vsthreadpool.cpp
index 717018d..e210547 100644
--- a/src/core/vsthreadpool.cpp
+++ b/src/core/vsthreadpool.cpp
@@ -242,6 +242,12 @@ void VSThreadPool::runTasks(bool &stop) {
             if (frameContext->hasError() && f)
                 core->logFatal("A frame was returned by " + node->name + " but an error was also set, this is not allowed");
 
+            // frame properties can hold the last reference to a node or function and destroying one runs filter code
+            // that may need taskLock, directly or through other locks, so frame references that could be the last one
+            // are only dropped without holding it
+            if (frameProcessingDone)
+                frameContext->availableFrames.clear();
+
 /////////////////////////////////////////////////////////////////////////////////////////////
 // Unlock so the next job can run on the context
             if (useSerialLock) {
@@ -356,17 +362,23 @@ void VSThreadPool::runTasks(bool &stop) {
 
             if (++idleThreads == allThreads.size()) {
                 if (flushCaches) {
-                    core->clearCaches(true);
-                    flushCaches = false;
-                    lastCacheSweep = steadyClockNow();
-                    overLimitSince = 0; // require another full interval over the limit before flushing again
-                    std::swap(tasks, altTasks);
-                    deferredLog = "Pipeline flushed, resuming processing";
-                    // the thread can't notify itself ahead of waiting so instead skip the wait and just loop back around to check for work immediately
-                    shouldWait = false;
-                    ++activeThreads;
-                    --idleThreads;
-                    newWork.notify_all();
+                    {
+                        VSDeferredFrames droppedFrames;
+                        core->clearCaches(true);
+                        flushCaches = false;
+                        lastCacheSweep = steadyClockNow();
+                        overLimitSince = 0; // require another full interval over the limit before flushing again
+                        std::swap(tasks, altTasks);
+                        deferredLog = "Pipeline flushed, resuming processing";
+                        // the thread can't notify itself ahead of waiting so instead skip the wait and just loop back around to check for work immediately
+                        shouldWait = false;
+                        ++activeThreads;
+                        --idleThreads;
+                        newWork.notify_all();
+                        // the frames have to be released without holding taskLock here as well
+                        lock.unlock();
+                    }
+                    lock.lock();
                 } else {
                     allIdle.notify_one();
                 }
@@ -461,7 +473,7 @@ void VSThreadPool::startExternal(const PVSFrameContext &context) {
     }
 }
 
-void VSThreadPool::returnFrame(VSFrameContext *rCtx, const PVSFrame &f, std::unique_lock<std::mutex> &lock) {
+void VSThreadPool::returnFrame(VSFrameContext *rCtx, PVSFrame &f, std::unique_lock<std::mutex> &lock) {
     assert(rCtx->frameDone);
     completedExternalFrames.fetch_add(1, std::memory_order_relaxed);
     bool outputLock = rCtx->lockOnOutput;
@@ -487,6 +499,8 @@ void VSThreadPool::returnFrame(VSFrameContext *rCtx, const PVSFrame &f, std::uni
         rCtx->frameDone(rCtx->userData, f.get(), rCtx->key.second, rCtx->key.first, nullptr);
         if (outputLock)
             callbackLock.unlock();
+        // most likely the last reference and has to be dropped before taskLock is acquired again
+        f.reset();
     }
     if (core->enableFrameRefDebug)
         core->logMessage(mtInformation, core->getFrameRefInfo());
-- 
2.43.0

