From 360a79bf5e38ab9f3a82245ff594231641bb2e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 01/69] fix: trace_on with buffer sizes took the success code
 of initNewTape for a failure

---
 ADOL-C/src/tape_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/tape_interface.cpp b/ADOL-C/src/tape_interface.cpp
index e680731..f09cf1d 100644
--- a/ADOL-C/src/tape_interface.cpp
+++ b/ADOL-C/src/tape_interface.cpp
@@ -68,7 +68,7 @@ int trace_on(short tapeId, int keepTaylors, size_t obs, size_t lbs, size_t vbs,
   setCurrentTape(tapeId);
 
   int retval = tape.initNewTape();
-  if (retval) {
+  if (retval == 0) {
 #ifdef ADOLC_MEDIPACK_SUPPORT
     tape.mediInitTape(tapeId);
 #endif
-- 
2.43.0


From 77eeac6dac8c57c28a3f1f00ce041a422a606a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 02/69] fix: re-recording a trace kept the file flags and
 buffer sizes of its previous recording

---
 ADOL-C/src/valuetape/valuetape.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index c9ea082..1e9c794 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -82,7 +82,25 @@ int ValueTape::initNewTape() {
   tapestats(TapeInfos::LOC_BUFFER_SIZE, locationBufferSize());
   tapestats(TapeInfos::VAL_BUFFER_SIZE, valueBufferSize());
   tapestats(TapeInfos::TAY_BUFFER_SIZE, taylorBufferSize());
-  ;
+
+  // nothing of the new trace has been written to disk yet
+  tapestats(TapeInfos::OP_FILE_ACCESS, 0);
+  tapestats(TapeInfos::LOC_FILE_ACCESS, 0);
+  tapestats(TapeInfos::VAL_FILE_ACCESS, 0);
+
+  // buffers of another size can not be reused
+  if (tapeInfos_.opBuffer_.capacity() !=
+      tapestats(TapeInfos::OP_BUFFER_SIZE))
+    tapeInfos_.opBuffer_ = {};
+  if (tapeInfos_.locBuffer_.capacity() !=
+      tapestats(TapeInfos::LOC_BUFFER_SIZE))
+    tapeInfos_.locBuffer_ = {};
+  if (tapeInfos_.valBuffer_.capacity() !=
+      tapestats(TapeInfos::VAL_BUFFER_SIZE))
+    tapeInfos_.valBuffer_ = {};
+  if (tapeInfos_.tayBuffer_.capacity() !=
+      tapestats(TapeInfos::TAY_BUFFER_SIZE))
+    tapeInfos_.tayBuffer_ = {};
   return 0;
 }
 
-- 
2.43.0


From 2e5051c693c0eaa99b7b47d4983499fa27422c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 03/69] fix: a trace without retained Taylor coefficients was
 admitted to first-order reverse

---
 ADOL-C/include/adolc/valuetape/tapeinfos.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/valuetape/tapeinfos.h b/ADOL-C/include/adolc/valuetape/tapeinfos.h
index 64ce268..51f5833 100644
--- a/ADOL-C/include/adolc/valuetape/tapeinfos.h
+++ b/ADOL-C/include/adolc/valuetape/tapeinfos.h
@@ -67,7 +67,7 @@ struct TapeInfos {
   // in core(first call of reverse)
   char lastTayBlockInCore{0};
   // degree to save and saved respectively
-  int deg_save{0};
+  int deg_save{-1};
   // # of independents for the taylor stack
   size_t tay_numInds{0};
   // # of dependents for the taylor stack
-- 
2.43.0


From 6671225c65b3d09a572fff988bf929065ad0a29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 04/69] fix: writing more Taylor coefficients than the Taylor
 buffer holds overran the buffer

---
 ADOL-C/src/valuetape/tapeinfos.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/valuetape/tapeinfos.cpp b/ADOL-C/src/valuetape/tapeinfos.cpp
index 7324e78..28bd3ed 100644
--- a/ADOL-C/src/valuetape/tapeinfos.cpp
+++ b/ADOL-C/src/valuetape/tapeinfos.cpp
@@ -83,7 +83,7 @@ void TapeInfos::freeTapeResources() {
 /****************************************************************************/
 void TapeInfos::write_taylor(double *taylorCoefficientPos, std::ptrdiff_t keep,
                              const char *tay_fileName) {
-  while (tayBuffer_.position() > tayBuffer_.capacity() - keep) {
+  while (static_cast<size_t>(keep) > tayBuffer_.remainingCapacity()) {
     for (auto i = tayBuffer_.position(); i < tayBuffer_.capacity(); ++i) {
       tayBuffer_[i] = *taylorCoefficientPos;
       ++taylorCoefficientPos;
@@ -120,7 +120,7 @@ void TapeInfos::write_taylors(double *taylorCoefficientPos, int keep,
 void TapeInfos::write_scaylors(const double *taylorCoefficientPos,
                                std::ptrdiff_t size, const char *tay_fileName) {
   size_t pos = 0;
-  while (tayBuffer_.position() > tayBuffer_.capacity() - size) {
+  while (static_cast<size_t>(size) > tayBuffer_.remainingCapacity()) {
     std::span<double> taySpan(tayBuffer_.current(),
                               tayBuffer_.begin() + tayBuffer_.capacity());
     for (double &tay : taySpan) {
-- 
2.43.0


From 63c1680f5b4dbd05e6df1032682a72e86e83c0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 05/69] fix: Taylor coefficients spanning two blocks were read
 back shifted by one

---
 ADOL-C/src/valuetape/tapeinfos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/valuetape/tapeinfos.cpp b/ADOL-C/src/valuetape/tapeinfos.cpp
index 28bd3ed..3b66fa1 100644
--- a/ADOL-C/src/valuetape/tapeinfos.cpp
+++ b/ADOL-C/src/valuetape/tapeinfos.cpp
@@ -144,7 +144,7 @@ void TapeInfos::get_taylors(double *taylorCoefficients, std::ptrdiff_t degree) {
   while (tayBuffer_.position() < static_cast<size_t>(degree)) {
     std::span<double> taySpan(tayBuffer_.begin(), tayBuffer_.current());
     for (auto tay = taySpan.rbegin(); tay != taySpan.rend(); tay++) {
-      *(T--) = *tay;
+      *(--T) = *tay;
     }
     degree -= tayBuffer_.position();
     get_tay_block_r();
-- 
2.43.0


From f0d028d9d38d7b948a281407ba47b1a2473c3753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 06/69] fix: parameters spanning several value blocks were
 written and skipped wrongly

---
 ADOL-C/src/valuetape/valuetape.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 1e9c794..127fee0 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -353,8 +353,8 @@ void ValueTape::save_params() {
            tapestats(TapeInfos::NUM_PARAM) * sizeof(double));
 
   free_all_taping_params();
-  if (tapeInfos_.valBuffer_.position() <
-      tapeInfos_.valBuffer_.capacity() - tapestats(TapeInfos::NUM_PARAM))
+  if (tapestats(TapeInfos::NUM_PARAM) <
+      tapeInfos_.valBuffer_.remainingCapacity())
     put_vals_notWriteBlock(paramstore(), tapestats(TapeInfos::NUM_PARAM));
   else {
     size_t np = tapestats(TapeInfos::NUM_PARAM);
@@ -652,30 +652,30 @@ void ValueTape::discard_params_r(void) {
     ip -= rsize;
     tapeInfos_.valBuffer_.position(tapeInfos_.valBuffer_.position() - rsize);
     if (ip > 0) {
+      const size_t number = tapestats(TapeInfos::VAL_BUFFER_SIZE);
+      const size_t chunks = number / chunkSize;
       fseek(tapeInfos_.valBuffer_.file(),
             static_cast<long>(sizeof(double) *
-                              (tapeInfos_.valBuffer_.numOnTape() -
-                               TapeInfos::VAL_BUFFER_SIZE)),
+                              (tapeInfos_.valBuffer_.numOnTape() - number)),
             SEEK_SET);
 
-      for (size_t i = 0; i < to_size_t(TapeInfos::VAL_BUFFER_SIZE / chunkSize);
-           ++i)
+      for (size_t i = 0; i < chunks; ++i)
         if (fread(tapeInfos_.valBuffer_.begin() + i * chunkSize,
                   chunkSize * sizeof(double), 1,
                   tapeInfos_.valBuffer_.file()) != 1)
           ADOLCError::fail(ADOLCError::ErrorType::EVAL_VAL_TAPE_READ_FAILED,
                            CURRENT_LOCATION);
 
-      remain = TapeInfos::VAL_BUFFER_SIZE % chunkSize;
+      remain = number % chunkSize;
       if (remain != 0)
-        if (fread(tapeInfos_.valBuffer_.begin() + TapeInfos::VAL_BUFFER_SIZE,
+        if (fread(tapeInfos_.valBuffer_.begin() + chunks * chunkSize,
                   remain * sizeof(double), 1,
                   tapeInfos_.valBuffer_.file()) != 1)
           ADOLCError::fail(ADOLCError::ErrorType::EVAL_VAL_TAPE_READ_FAILED,
                            CURRENT_LOCATION);
 
       tapeInfos_.valBuffer_.numOnTape(tapeInfos_.valBuffer_.numOnTape() -
-                                      TapeInfos::VAL_BUFFER_SIZE);
+                                      number);
       tapeInfos_.valBuffer_.position(tapeInfos_.valBuffer_.capacity());
     }
   }
-- 
2.43.0


From 5af408a382c895b8b2609c4bcea38a266340323b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 07/69] fix: evaluating a trace on disk discarded changed
 parameters

---
 ADOL-C/src/valuetape/valuetape.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 127fee0..f20d878 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -624,7 +624,8 @@ void ValueTape::read_tape_stats() {
 
   compare_adolc_ids(get_adolc_id(), tape_ADOLC_ID);
   fclose(loc_file);
-  if (tapestats(TapeInfos::NUM_PARAM) > 0)
+  // parameters already in memory may have been changed by set_param_vec
+  if (tapestats(TapeInfos::NUM_PARAM) > 0 && paramstore() == nullptr)
     read_params();
 }
 
-- 
2.43.0


From 85cb1755614e97dcfb91f745827b067e1051d09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:25 +0000
Subject: [PATCH 08/69] fix: a tape file left from an earlier recording was
 closed twice when replaced

---
 ADOL-C/include/adolc/valuetape/tapeinfos.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/include/adolc/valuetape/tapeinfos.h b/ADOL-C/include/adolc/valuetape/tapeinfos.h
index 51f5833..fddee72 100644
--- a/ADOL-C/include/adolc/valuetape/tapeinfos.h
+++ b/ADOL-C/include/adolc/valuetape/tapeinfos.h
@@ -194,9 +194,8 @@ struct TapeInfos {
     using ADOLCError::ErrorType::CANNOT_REMOVE_FILE;
     if (Info::file(*this) == nullptr) {
       if constexpr (!std::is_same_v<Info, TayInfo<TapeInfos, ErrorType>>) {
-        Info::openFile(*this, fileName);
-        if (Info::file(*this) != nullptr) {
-          fclose(Info::file(*this));
+        if (FILE *oldFile = fopen(fileName, "rb")) {
+          fclose(oldFile);
           if (Info::removeFile(fileName)) {
             fail(CANNOT_REMOVE_FILE, CURRENT_LOCATION);
           }
-- 
2.43.0


From 05572204e002e69e4b5ba7bd4eac496310f240af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 09/69] fix: evaluating a tape that was never recorded did not
 terminate

---
 ADOL-C/src/valuetape/valuetape.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index f20d878..2cade4f 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -109,7 +109,11 @@ int ValueTape::initNewTape() {
 void ValueTape::openTape() {
   using ADOLCError::fail;
   using ADOLCError::FailInfo;
+  using ADOLCError::ErrorType::NO_TAPE_ID;
   using ADOLCError::ErrorType::TAPING_TAPE_STILL_IN_USE;
+  // nothing has been recorded yet
+  if (tapestats(TapeInfos::LOC_BUFFER_SIZE) == 0)
+    fail(NO_TAPE_ID, CURRENT_LOCATION, FailInfo{.info1 = tapeId()});
   // check if we are currently writing to the tape, which is not allowed when we
   // want to read.
   if (workMode() == TapeInfos::WRITE_ACCESS) {
-- 
2.43.0


From 3c03951c8a83120850d7e8970194aac46306eb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 10/69] fix: a sweep left by an exception blocked its tape and
 left unfinished Taylor coefficients

---
 ADOL-C/include/adolc/valuetape/tapeinfos.h |  2 ++
 ADOL-C/include/adolc/valuetape/valuetape.h | 26 ++++++++++++++++++++++
 ADOL-C/src/fo_rev.cpp                      |  1 +
 ADOL-C/src/ho_rev.cpp                      |  1 +
 ADOL-C/src/tapedoc/tapedoc.cpp             |  1 +
 ADOL-C/src/uni5_for.cpp                    |  1 +
 ADOL-C/src/valuetape/tapeinfos.cpp         |  4 +++-
 ADOL-C/src/valuetape/valuetape.cpp         |  2 ++
 8 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/valuetape/tapeinfos.h b/ADOL-C/include/adolc/valuetape/tapeinfos.h
index fddee72..1b41e19 100644
--- a/ADOL-C/include/adolc/valuetape/tapeinfos.h
+++ b/ADOL-C/include/adolc/valuetape/tapeinfos.h
@@ -66,6 +66,8 @@ struct TapeInfos {
   // == 1 if last taylor buffer is still in
   // in core(first call of reverse)
   char lastTayBlockInCore{0};
+  // writing of taylors has begun but has not been finished
+  bool taylorsUnfinished{false};
   // degree to save and saved respectively
   int deg_save{-1};
   // # of independents for the taylor stack
diff --git a/ADOL-C/include/adolc/valuetape/valuetape.h b/ADOL-C/include/adolc/valuetape/valuetape.h
index d3f45f4..61fd580 100644
--- a/ADOL-C/include/adolc/valuetape/valuetape.h
+++ b/ADOL-C/include/adolc/valuetape/valuetape.h
@@ -16,6 +16,7 @@
 #include <adolc/valuetape/tapeinfos.h>
 #include <cstdarg>
 #include <cstdio>
+#include <exception>
 #include <limits>
 #include <memory>
 #include <stack>
@@ -815,6 +816,31 @@ public:
   }
   // finish a forward or reverse sweep
   void end_sweep();
+
+  /**
+   * @brief Ends a sweep that is left by an exception.
+   *
+   * Without this the tape would stay in READ_ACCESS mode and could not be
+   * recorded again. Taylor coefficients of an unfinished forward sweep can not
+   * be used.
+   */
+  class SweepGuard {
+    ValueTape &tape_;
+    int exceptions_{std::uncaught_exceptions()};
+
+  public:
+    explicit SweepGuard(ValueTape &tape) : tape_(tape) {}
+    SweepGuard(const SweepGuard &) = delete;
+    SweepGuard &operator=(const SweepGuard &) = delete;
+    ~SweepGuard() {
+      if (std::uncaught_exceptions() > exceptions_ &&
+          tape_.workMode() == TapeInfos::READ_ACCESS) {
+        if (tape_.tapeInfos_.taylorsUnfinished)
+          tape_.deg_save(-1);
+        tape_.end_sweep();
+      }
+    }
+  };
   // initialization for the taping process -> buffer allocation, sets files
   // names, and calls appropriate setup routines
   void start_trace();
diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index e67ffc1..9bc52c6 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -446,6 +446,7 @@ int int_reverse_safe(
   /*------------------------------------------------------------------------*/
   /* Set up stuff for the tape */
   /* Initialize the Reverse Sweep */
+  const ValueTape::SweepGuard sweepGuard(tape);
   tape.init_sweep<ValueTape::Reverse>();
 
   if ((to_size_t(depen) != tape.tapestats(TapeInfos::NUM_DEPENDENTS)) ||
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 079180b..8ffad80 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -402,6 +402,7 @@ int hov_ti_reverse(
   /* Set up stuff for the tape */
 
   /* Initialize the Reverse Sweep */
+  const ValueTape::SweepGuard sweepGuard(tape);
   tape.init_sweep<ValueTape::Reverse>();
 
   if ((to_size_t(depen) != tape.tapestats(TapeInfos::NUM_DEPENDENTS)) ||
diff --git a/ADOL-C/src/tapedoc/tapedoc.cpp b/ADOL-C/src/tapedoc/tapedoc.cpp
index 50b4bd6..7182829 100644
--- a/ADOL-C/src/tapedoc/tapedoc.cpp
+++ b/ADOL-C/src/tapedoc/tapedoc.cpp
@@ -266,6 +266,7 @@ void tape_doc(short tnum,     /* tape id */
   int i;
   double aDouble;
 #endif
+  const ValueTape::SweepGuard sweepGuard(tape);
   tape.init_sweep<ValueTape::Forward>();
   tag = tnum;
 
diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index d5b5313..abb381c 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -1093,6 +1093,7 @@ int hov_forward(
   /* Set up stuff for the tape */
 
   /* Initialize the Forward Sweep */
+  const ValueTape::SweepGuard sweepGuard(tape);
   tape.init_sweep<ValueTape::Forward>();
 
   if ((to_size_t(depcheck) != tape.tapestats(TapeInfos::NUM_DEPENDENTS)) ||
diff --git a/ADOL-C/src/valuetape/tapeinfos.cpp b/ADOL-C/src/valuetape/tapeinfos.cpp
index 3b66fa1..c7f6ac1 100644
--- a/ADOL-C/src/valuetape/tapeinfos.cpp
+++ b/ADOL-C/src/valuetape/tapeinfos.cpp
@@ -20,7 +20,8 @@ TapeInfos::TapeInfos(TapeInfos &&other) noexcept
       tapeId_(other.tapeId_), numInds(other.numInds), numDeps(other.numDeps),
       keepTaylors(other.keepTaylors), num_eq_prod(other.num_eq_prod),
       nextBufferNumber(other.nextBufferNumber),
-      lastTayBlockInCore(other.lastTayBlockInCore), deg_save(other.deg_save),
+      lastTayBlockInCore(other.lastTayBlockInCore),
+      taylorsUnfinished(other.taylorsUnfinished), deg_save(other.deg_save),
       tay_numInds(other.tay_numInds), tay_numDeps(other.tay_numDeps),
       workMode(other.workMode), ext_diff_fct_index(other.ext_diff_fct_index),
       nestedReverseEval(other.nestedReverseEval),
@@ -48,6 +49,7 @@ TapeInfos &TapeInfos::operator=(TapeInfos &&other) noexcept {
     tayBuffer_ = std::move(other.tayBuffer_);
     nextBufferNumber = other.nextBufferNumber;
     lastTayBlockInCore = other.lastTayBlockInCore;
+    taylorsUnfinished = other.taylorsUnfinished;
 
     deg_save = other.deg_save;
     tay_numInds = other.tay_numInds;
diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 2cade4f..ca26eae 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -216,6 +216,7 @@ void ValueTape::taylor_begin(size_t bufferSize, int degreeSave) {
     tapeInfos_.tayBuffer_.allocIfNull(bufferSize);
   }
 
+  tapeInfos_.taylorsUnfinished = true;
   deg_save(degreeSave);
   if (degreeSave >= 0)
     keepTaylors(1);
@@ -244,6 +245,7 @@ void ValueTape::taylor_close() {
   } else {
     tapeInfos_.tayBuffer_.numOnTape(tapeInfos_.tayBuffer_.position());
   }
+  tapeInfos_.taylorsUnfinished = false;
   lastTayBlockInCore(1);
   tapestats(TapeInfos::NUM_TAYS, tapeInfos_.tayBuffer_.numOnTape());
   tay_numInds(tapestats(TapeInfos::NUM_INDEPENDENTS));
-- 
2.43.0


From ff9b29457f452e61229d77a1687e36225b8d55c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 11/69] fix: a recording that could not be started or ended
 blocked its tape and stayed the current one

---
 ADOL-C/include/adolc/valuetape/valuetape.h |  4 +++
 ADOL-C/src/tape_interface.cpp              | 30 ++++++++++++++++++++++
 ADOL-C/src/valuetape/valuetape.cpp         |  9 +++++++
 3 files changed, 43 insertions(+)

diff --git a/ADOL-C/include/adolc/valuetape/valuetape.h b/ADOL-C/include/adolc/valuetape/valuetape.h
index 61fd580..2f9981e 100644
--- a/ADOL-C/include/adolc/valuetape/valuetape.h
+++ b/ADOL-C/include/adolc/valuetape/valuetape.h
@@ -857,6 +857,10 @@ public:
   // stop Tracing, clean up, and turn off trace_flag
   void stop_trace(int flag);
 
+  // leave a recording that can not be completed; the tape has to be recorded
+  // again before it can be evaluated
+  void abort_trace();
+
   /* initializes a new tape
    * - returns 0 on success
    * - returns 1 in case tapeId is already/still in use */
diff --git a/ADOL-C/src/tape_interface.cpp b/ADOL-C/src/tape_interface.cpp
index f09cf1d..5f109e7 100644
--- a/ADOL-C/src/tape_interface.cpp
+++ b/ADOL-C/src/tape_interface.cpp
@@ -22,6 +22,7 @@
 #include <algorithm>
 #include <array>
 #include <cassert>
+#include <exception>
 #include <iostream>
 #include <memory>
 #include <sstream>
@@ -36,12 +37,39 @@
 #include "ampi/tape/support.h"
 #endif // ADOLC_AMPI_SUPPORT
 
+namespace {
+/**
+ * Leaves a recording that could not be started or completed: the tape becomes
+ * unused and the tape that was current before trace_on becomes current again.
+ */
+class TraceGuard {
+  ValueTape &tape_;
+  bool ownsTrace_;
+  int exceptions_{std::uncaught_exceptions()};
+
+public:
+  TraceGuard(ValueTape &tape, bool ownsTrace)
+      : tape_(tape), ownsTrace_(ownsTrace) {}
+  TraceGuard(const TraceGuard &) = delete;
+  TraceGuard &operator=(const TraceGuard &) = delete;
+  ~TraceGuard() {
+    if (std::uncaught_exceptions() > exceptions_) {
+      if (ownsTrace_)
+        tape_.abort_trace();
+      setCurrentTape(currentTapeStack().top());
+      currentTapeStack().pop();
+    }
+  }
+};
+} // namespace
+
 int trace_on(short tapeId, int keepTaylors) {
 
   ValueTape &tape = findTape(tapeId);
   // store Id to restore it after trace_off
   currentTapeStack().push(currentTapePtr());
   setCurrentTape(tapeId);
+  const TraceGuard guard(tape, tape.workMode() == TapeInfos::NO_MODE);
 
   int retval = tape.initNewTape();
 #ifdef ADOLC_MEDIPACK_SUPPORT
@@ -66,6 +94,7 @@ int trace_on(short tapeId, int keepTaylors, size_t obs, size_t lbs, size_t vbs,
   // store Id to restore it after trace_off
   currentTapeStack().push(currentTapePtr());
   setCurrentTape(tapeId);
+  const TraceGuard guard(tape, tape.workMode() == TapeInfos::NO_MODE);
 
   int retval = tape.initNewTape();
   if (retval == 0) {
@@ -99,6 +128,7 @@ void trace_off(int flag) {
   if (tape.workMode() != TapeInfos::WRITE_ACCESS)
     fail(TAPING_NOT_ACTUALLY_TAPING, CURRENT_LOCATION,
          FailInfo{.info1 = tape.tapeId()});
+  const TraceGuard guard(tape, true);
   tape.keepTape(flag);
   tape.keep_stock(); /* copy remaining live variables + trace_flag = 0 */
   tape.stop_trace(flag);
diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index ca26eae..8648ea0 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -410,6 +410,15 @@ void ValueTape::stop_trace(int flag) {
                        tape stats to the integer tape */
 }
 
+/****************************************************************************/
+/* Leave a recording that can not be completed.                             */
+/****************************************************************************/
+void ValueTape::abort_trace() {
+  const short id = tapeId();
+  tapeInfos_ = TapeInfos();
+  tapeInfos_.tapeId_ = id;
+}
+
 /****************************************************************************/
 /* Close open tapes, update stats and clean up.                             */
 /****************************************************************************/
-- 
2.43.0


From 3d0b691546bd473ace19f0278874445bb6aabf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 12/69] fix: Taylor coefficients of an aborted forward sweep
 were offered to reverse

---
 ADOL-C/src/uni5_for.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index abb381c..afac2bb 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -5832,8 +5832,12 @@ int hov_forward(
 #endif /* ADOLC_DEBUG */
 
 #if defined(_KEEP_)
-  if (keep)
-    tape.taylor_close();
+  if (keep) {
+    if (ret_c < 0) /* aborted sweep => no Taylor coefficients to use */
+      tape.finish_tay_file();
+    else
+      tape.taylor_close();
+  }
 #endif
 
   /* clean up */
-- 
2.43.0


From 29255ce350436fdc4dd19ebf60afaffc7e1bd3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 13/69] fix: the work arrays of a version 2 external function
 were allocated too small

---
 ADOL-C/src/externfcts2.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/ADOL-C/src/externfcts2.cpp b/ADOL-C/src/externfcts2.cpp
index 3e1db36..95d4028 100644
--- a/ADOL-C/src/externfcts2.cpp
+++ b/ADOL-C/src/externfcts2.cpp
@@ -48,15 +48,17 @@ static void update_ext_fct_memory(ext_diff_fct_v2 *edfct, size_t nin,
       edfct->Zp == nullptr || edfct->max_nin < nin || edfct->max_nout < nout ||
       edfct->max_insz < m_isz || edfct->max_outsz < m_osz) {
     char *tmp;
-    size_t q = nout * m_osz;
-    size_t totalmem =
-        (3 * nin * m_isz + 3 * nout * m_osz
-         // + nin*m_isz*p + nout*m_osz*p
-         // + q*nout*m_osz + q*nin*m_isz
-         ) * sizeof(double) +
-        (3 * nin + 3 * nout + nin * m_isz + nout * m_osz + q * nout + q * nin) *
-            sizeof(double *) +
-        (nin + nout + 2 * q) * sizeof(double **);
+    // never shrink what an earlier call with another shape needs
+    nin = (nin < edfct->max_nin) ? edfct->max_nin : nin;
+    nout = (nout < edfct->max_nout) ? edfct->max_nout : nout;
+    m_isz = (m_isz < edfct->max_insz) ? edfct->max_insz : m_isz;
+    m_osz = (m_osz < edfct->max_outsz) ? edfct->max_outsz : m_osz;
+    // x, xp, zp and y, yp, up with data; Xp, Zp and Yp, Up without
+    size_t totalmem = (3 * nin * m_isz + 3 * nout * m_osz) * sizeof(double) +
+                      (3 * nin + 3 * nout + 2 * nin * m_isz +
+                       2 * nout * m_osz) *
+                          sizeof(double *) +
+                      (2 * nin + 2 * nout) * sizeof(double **);
     if (edfct->allmem != NULL)
       free(edfct->allmem);
     edfct->allmem = (char *)malloc(totalmem);
-- 
2.43.0


From b504fca3ee206228472b575d09291c9e19e6d569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 14/69] fix: vector copy and axpy retained the wrong Taylor
 coefficients while recording

---
 ADOL-C/src/adouble.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/adouble.cpp b/ADOL-C/src/adouble.cpp
index cd5d856..87c1c48 100644
--- a/ADOL-C/src/adouble.cpp
+++ b/ADOL-C/src/adouble.cpp
@@ -5573,7 +5573,7 @@ void adolc_vec_copy(adouble *const dest, const adouble *const src,
       tape.increment_numTays_Tape();
 
       if (tape.keepTaylors())
-        tape.write_scaylor(dest[0].value());
+        tape.write_scaylor(tape.get_ad_value(dest[0].loc() + i));
     }
   }
   for (size_t i = 0; i < size; ++i)
@@ -5638,7 +5638,7 @@ void adolc_vec_axpy(adouble *const res, const adouble &a,
       tape.increment_numTays_Tape();
 
       if (tape.keepTaylors())
-        tape.write_scaylor(tape.get_ad_value(vec_a[0].loc() + i));
+        tape.write_scaylor(tape.get_ad_value(res[0].loc() + i));
     }
   }
   for (size_t i = 0; i < size; ++i)
-- 
2.43.0


From 12056820acbe3fb4245d0e7ddebd59d7b5e55c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 15/69] fix: fmin of two variables returned the location
 instead of the value of its first argument

---
 ADOL-C/src/adouble.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/adouble.cpp b/ADOL-C/src/adouble.cpp
index 87c1c48..825a151 100644
--- a/ADOL-C/src/adouble.cpp
+++ b/ADOL-C/src/adouble.cpp
@@ -4704,7 +4704,7 @@ adouble fmin(const adouble &a, const adouble &b) {
   adouble ret_adouble;
 
   const double coval = b.value() < a.value() ? 0.0 : 1.0;
-  const double tmp = b.value() < a.value() ? b.value() : to_double(a.loc());
+  const double tmp = b.value() < a.value() ? b.value() : a.value();
 
   if (tape.workMode() == TapeInfos::WRITE_ACCESS) {
 
-- 
2.43.0


From 9a6e9cb94487af0513dd39775ef68ba9a989c57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:13 +0000
Subject: [PATCH 16/69] fix: reverse sweeps accepted Taylor coefficients of
 another order or number of directions

---
 ADOL-C/include/adolc/valuetape/tapeinfos.h |  2 ++
 ADOL-C/include/adolc/valuetape/valuetape.h |  3 ++-
 ADOL-C/src/fo_rev.cpp                      |  2 +-
 ADOL-C/src/ho_rev.cpp                      | 16 ++++++++++------
 ADOL-C/src/uni5_for.cpp                    |  2 +-
 ADOL-C/src/valuetape/tapeinfos.cpp         |  2 ++
 ADOL-C/src/valuetape/valuetape.cpp         |  3 ++-
 7 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/ADOL-C/include/adolc/valuetape/tapeinfos.h b/ADOL-C/include/adolc/valuetape/tapeinfos.h
index 1b41e19..df95219 100644
--- a/ADOL-C/include/adolc/valuetape/tapeinfos.h
+++ b/ADOL-C/include/adolc/valuetape/tapeinfos.h
@@ -70,6 +70,8 @@ struct TapeInfos {
   bool taylorsUnfinished{false};
   // degree to save and saved respectively
   int deg_save{-1};
+  // number of directions saved
+  int dir_save{1};
   // # of independents for the taylor stack
   size_t tay_numInds{0};
   // # of dependents for the taylor stack
diff --git a/ADOL-C/include/adolc/valuetape/valuetape.h b/ADOL-C/include/adolc/valuetape/valuetape.h
index 2f9981e..ccf1e5d 100644
--- a/ADOL-C/include/adolc/valuetape/valuetape.h
+++ b/ADOL-C/include/adolc/valuetape/valuetape.h
@@ -223,6 +223,7 @@ public:
 
   void deg_save(int val) { tapeInfos_.deg_save = val; }
   int deg_save() const { return tapeInfos_.deg_save; }
+  int dir_save() const { return tapeInfos_.dir_save; }
 
   int keepTaylors() const { return tapeInfos_.keepTaylors; }
   void keepTaylors(int val) { tapeInfos_.keepTaylors = val; }
@@ -511,7 +512,7 @@ public:
   /* tries to read a local config file containing, e.g., buffer sizes */
   std::array<std::string, 4> readConfigFile();
   // ------------------------ set up statics for writing taylor data
-  void taylor_begin(size_t bufferSize, int degreeSave);
+  void taylor_begin(size_t bufferSize, int degreeSave, int dirSave = 1);
 
   // close taylor file if necessary and refill buffer if possible
   void finish_tay_file();
diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 9bc52c6..1f98204 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -532,7 +532,7 @@ int int_reverse_safe(
 #if !defined(_NTIGHT_)
   tape.taylor_back();
 
-  if (tape.deg_save() < 0)
+  if (tape.deg_save() != 0)
     ADOLCError::fail(ADOLCError::ErrorType::REVERSE_NO_FOWARD, CURRENT_LOCATION,
                      ADOLCError::FailInfo{.info3 = 0, .info4 = 1});
 
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 8ffad80..98f05c6 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -350,11 +350,9 @@ int hov_ti_reverse(
 #ifdef _HOV_
   const int p = nrows;
   const int pk1 = p * k1;
-  const int q = 1;
 #elif _HOS_OV_
   const int p = nrows;
   const int pk1 = p * k1;
-  const int q = p;
 #else
   // We want to store number of directions in edfct. Since we have scalar and
   // vector methods in the same file we have to define nrows for the case that
@@ -448,14 +446,20 @@ int hov_ti_reverse(
   rp_Ttemp2 = myalloc1(p * k);
 #endif
   rp_Ttemp = myalloc1(k);
-  x = myalloc1(q);
-  jj = myalloc1_ulong(q);
+  x = myalloc1(p);
+  jj = myalloc1_ulong(p);
 
   /************************************************************************/
   /*                                                TAYLOR INITIALIZATION */
   tape.taylor_back();
 
-  if (tape.deg_save() != degre)
+  // the values are shared by all directions
+#if defined(_HOS_OV_)
+  const bool dirsMatch = degre == 0 || tape.dir_save() == p;
+#else
+  const bool dirsMatch = degre == 0 || tape.dir_save() == 1;
+#endif
+  if (tape.deg_save() != degre || !dirsMatch)
     ADOLCError::fail(ADOLCError::ErrorType::REVERSE_NO_FOWARD, CURRENT_LOCATION,
                      ADOLCError::FailInfo{.info3 = degre, .info4 = degre + 1});
 
@@ -1764,7 +1768,7 @@ int hov_ti_reverse(
       ASSIGN_A(Aarg, rpp_A[arg])
       Targ = rpp_T[arg];
 
-      for (int l = 0; l < q; ++l) {
+      for (int l = 0; l < p; ++l) {
         x[l] = 0.0;
         jj[l] = 0;
         for (int i = 0; i < k; i++)
diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index afac2bb..a9ffe7c 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -1249,7 +1249,7 @@ int hov_forward(
 #if defined(_KEEP_)
   if (keep) {
     const size_t taylbuf = tape.tapestats(TapeInfos::TAY_BUFFER_SIZE);
-    tape.taylor_begin(taylbuf, keep - 1);
+    tape.taylor_begin(taylbuf, keep - 1, p);
   }
 #endif
 #endif
diff --git a/ADOL-C/src/valuetape/tapeinfos.cpp b/ADOL-C/src/valuetape/tapeinfos.cpp
index c7f6ac1..2eee678 100644
--- a/ADOL-C/src/valuetape/tapeinfos.cpp
+++ b/ADOL-C/src/valuetape/tapeinfos.cpp
@@ -22,6 +22,7 @@ TapeInfos::TapeInfos(TapeInfos &&other) noexcept
       nextBufferNumber(other.nextBufferNumber),
       lastTayBlockInCore(other.lastTayBlockInCore),
       taylorsUnfinished(other.taylorsUnfinished), deg_save(other.deg_save),
+      dir_save(other.dir_save),
       tay_numInds(other.tay_numInds), tay_numDeps(other.tay_numDeps),
       workMode(other.workMode), ext_diff_fct_index(other.ext_diff_fct_index),
       nestedReverseEval(other.nestedReverseEval),
@@ -52,6 +53,7 @@ TapeInfos &TapeInfos::operator=(TapeInfos &&other) noexcept {
     taylorsUnfinished = other.taylorsUnfinished;
 
     deg_save = other.deg_save;
+    dir_save = other.dir_save;
     tay_numInds = other.tay_numInds;
     tay_numDeps = other.tay_numDeps;
 
diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 8648ea0..519e541 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -197,7 +197,7 @@ size_t ValueTape::keep_stock() {
 /****************************************************************************/
 /* Set up statics for writing taylor data                                   */
 /****************************************************************************/
-void ValueTape::taylor_begin(size_t bufferSize, int degreeSave) {
+void ValueTape::taylor_begin(size_t bufferSize, int degreeSave, int dirSave) {
   using ADOLCError::fail;
   using ADOLCError::FailInfo;
   using ADOLCError::ErrorType::TAPING_TBUFFER_ALLOCATION_FAILED;
@@ -218,6 +218,7 @@ void ValueTape::taylor_begin(size_t bufferSize, int degreeSave) {
 
   tapeInfos_.taylorsUnfinished = true;
   deg_save(degreeSave);
+  tapeInfos_.dir_save = dirSave;
   if (degreeSave >= 0)
     keepTaylors(1);
   tapeInfos_.tayBuffer_.position(0);
-- 
2.43.0


From 940baed87876a940b85cd2b152d7cba8be3a161f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:36 +0000
Subject: [PATCH 17/69] fix: vector dot products and axpy were counted as
 dependent variables

---
 ADOL-C/include/adolc/valuetape/valuetape.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/valuetape/valuetape.h b/ADOL-C/include/adolc/valuetape/valuetape.h
index ccf1e5d..8959b39 100644
--- a/ADOL-C/include/adolc/valuetape/valuetape.h
+++ b/ADOL-C/include/adolc/valuetape/valuetape.h
@@ -250,7 +250,7 @@ public:
   size_t num_eq_prod() const { return tapeInfos_.num_eq_prod; }
   void num_eq_prod(size_t num) { tapeInfos_.num_eq_prod = num; }
   void increment_num_eq_prod() { ++(tapeInfos_.num_eq_prod); }
-  void add_num_eq_prod(size_t val) { tapeInfos_.numDeps += val; }
+  void add_num_eq_prod(size_t val) { tapeInfos_.num_eq_prod += val; }
 
   void increment_numInds() { ++tapeInfos_.numInds; }
   size_t numInds() const { return tapeInfos_.numInds; }
-- 
2.43.0


From 3868403c3a550e817e5487e8c552e87f00be7f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:49 +0000
Subject: [PATCH 18/69] fix: reverse sweep crashed when the Taylor coefficients
 exactly filled the buffer

---
 ADOL-C/src/valuetape/valuetape.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 519e541..d8b7170 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -263,8 +263,14 @@ void ValueTape::taylor_back() {
 
   nextBufferNumber(tapeInfos_.tayBuffer_.numOnTape() /
                    tapestats(TapeInfos::TAY_BUFFER_SIZE));
-  const size_t number =
+  size_t number =
       tapeInfos_.tayBuffer_.numOnTape() % tapestats(TapeInfos::TAY_BUFFER_SIZE);
+  if (number == 0 && tapeInfos_.tayBuffer_.numOnTape() > 0) {
+    // the last block is completely filled
+    number = tapestats(TapeInfos::TAY_BUFFER_SIZE);
+    decrement_nextBufferNumber();
+  }
+
   tapeInfos_.tayBuffer_.position(number);
 
   if (lastTayBlockInCore() != 1) {
-- 
2.43.0


From 8fb41601350626f761843bde39cb1206710a459f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:03 +0000
Subject: [PATCH 19/69] fix: adjoints of vector operations, subscripts, ceil
 and floor in vector reverse sweeps

---
 ADOL-C/src/fo_rev.cpp | 45 +++++++++++++++++------------
 ADOL-C/src/ho_rev.cpp | 66 ++++++++++++++++++++++++-------------------
 2 files changed, 64 insertions(+), 47 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 1f98204..c03ea62 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -2028,7 +2028,7 @@ int int_reverse_safe(
         ARES_INC = 0;
 #else
         AARG1_INC += *Ares;
-        *Ares = 0.0;
+        ARES_INC = 0.0;
 #endif
       }
       rp_T[res] = tape.get_taylor();
@@ -2324,7 +2324,7 @@ int int_reverse_safe(
       res = tape.get_locint_r();
       size = tape.get_locint_r();
       arg = tape.get_locint_r();
-      for (locint qq = 0; qq < size; qq++) {
+      for (locint qq = size; qq-- > 0;) {
 
         ASSIGN_A(Aarg, ADJOINT_BUFFER[arg + qq])
         ASSIGN_A(Ares, ADJOINT_BUFFER[res + qq])
@@ -2367,6 +2367,14 @@ int int_reverse_safe(
         arg2++;
         arg1++;
       }
+      // the result has been overwritten
+      ASSIGN_A(Ares, ADJOINT_BUFFER[res])
+      FOR_0_LE_l_LT_p
+#if defined(_INT_REV_)
+          ARES_INC = 0;
+#else
+          ARES_INC = 0.0;
+#endif
 #if !defined(_NTIGHT_)
       rp_T[res] = tape.get_taylor();
 #endif /* !_NTIGHT_ */
@@ -2378,28 +2386,29 @@ int int_reverse_safe(
       arg2 = tape.get_locint_r();
       arg1 = tape.get_locint_r();
       arg = tape.get_locint_r();
-      for (locint qq = 0; qq < size; qq++) {
-        ASSIGN_A(Ares, ADJOINT_BUFFER[res])
+      for (locint qq = size; qq-- > 0;) {
+#if !defined(_NTIGHT_)
+        rp_T[res + qq] = tape.get_taylor();
+#endif /* !_NTIGHT_ */
+        ASSIGN_A(Ares, ADJOINT_BUFFER[res + qq])
         ASSIGN_A(Aarg, ADJOINT_BUFFER[arg])
-        ASSIGN_A(Aarg2, ADJOINT_BUFFER[arg2])
-        ASSIGN_A(Aarg1, ADJOINT_BUFFER[arg1])
+        ASSIGN_A(Aarg2, ADJOINT_BUFFER[arg2 + qq])
+        ASSIGN_A(Aarg1, ADJOINT_BUFFER[arg1 + qq])
         FOR_0_LE_l_LT_p {
 #if defined(_INT_REV_)
-          AARG_INC |= *Ares;
-          AARG2_INC |= *Ares;
-          AARG1_INC |= ARES_INC;
+          const auto aTmp = *Ares;
+          ARES_INC = 0;
+          AARG_INC |= aTmp;
+          AARG2_INC |= aTmp;
+          AARG1_INC |= aTmp;
 #else
-          AARG2_INC += *Ares;
-          AARG1_INC += (*Ares) * TARG;
-          AARG_INC += ARES_INC * TARG1;
+          const revreal aTmp = *Ares;
+          ARES_INC = 0.0;
+          AARG2_INC += aTmp;
+          AARG1_INC += aTmp * TARG;
+          AARG_INC += aTmp * rp_T[arg1 + qq];
 #endif
         }
-#if !defined(_NTIGHT_)
-        rp_T[res] = tape.get_taylor();
-#endif /* !_NTIGHT_ */
-        arg2++;
-        arg1++;
-        res++;
       }
       break;
 
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 98f05c6..4a0f91a 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -1826,6 +1826,7 @@ int hov_ti_reverse(
       coval = (coval != ceil(*rpp_T[arg]));
 
       ASSIGN_A(Ares, rpp_A[res])
+      ASSIGN_A(Aarg, rpp_A[arg])
 
       for (int l = 0; l < p; l++)
         if (0 == ARES) {
@@ -1861,7 +1862,7 @@ int hov_ti_reverse(
           HOV_INC(Aarg, k1)
           HOV_INC(Ares, k1)
         } else {
-          ARES = 0.0;
+          ARES_INC = 0.0;
           AARG_INC = 5.0;
           for (int i = 0; i < k; i++) {
             if ((coval != 0.0) && (ARES != 0.0))
@@ -2446,7 +2447,7 @@ int hov_ti_reverse(
       size = tape.get_locint_r();
       arg = tape.get_locint_r();
 
-      for (locint qq = 0; qq < size; qq++) {
+      for (locint qq = size; qq-- > 0;) {
 
         ASSIGN_A(Aarg, rpp_A[arg + qq])
         ASSIGN_A(Ares, rpp_A[res + qq])
@@ -2502,10 +2503,14 @@ int hov_ti_reverse(
             HOV_INC(Aarg2, k)
             HOS_OV_INC(Targ1, k)
             HOS_OV_INC(Targ2, k)
-            HOS_OV_INC(Tres, k)
           }
         }
       }
+      // the result has been overwritten
+      ASSIGN_A(Ares, rpp_A[res])
+      for (int l = 0; l < p; l++)
+        for (int i = 0; i < k1; i++)
+          ARES_INC = 0.0;
       GET_TAYL(res, k, p)
       break;
 
@@ -2515,40 +2520,43 @@ int hov_ti_reverse(
       arg2 = tape.get_locint_r();
       arg1 = tape.get_locint_r();
       arg = tape.get_locint_r();
-      for (locint qq = 0; qq < size; qq++) {
+      for (locint qq = size; qq-- > 0;) {
+        GET_TAYL(res + qq, k, p)
+
         ASSIGN_A(Ares, rpp_A[res + qq])
         ASSIGN_A(Aarg, rpp_A[arg])
         ASSIGN_A(Aarg2, rpp_A[arg2 + qq])
         ASSIGN_A(Aarg1, rpp_A[arg1 + qq])
         Targ = rpp_T[arg];
         Targ1 = rpp_T[arg1 + qq];
-        if (0 == ARES) {
-          HOV_INC(Aarg, k1)
-          HOV_INC(Aarg1, k1)
-          HOV_INC(Aarg2, k1)
-          HOV_INC(Ares, k1)
-        } else {
-          comp = (ARES > 2.0) ? ARES : 2.0;
-          MAXDEC(AARG2, ARES);
-          ARES_INC = 0.0;
-          MAXDEC(AARG, comp);
-          MAXDEC(AARG1, comp);
-          AARG_INC_O;
-          AARG1_INC_O;
-          AARG2_INC_O;
-          copyAndZeroset(k, Ares, rp_Atemp);
-          inconv(k, rp_Atemp, Targ1, Aarg);
-          inconv(k, rp_Atemp, Targ, Aarg1);
-          for (int i = 0; i < k; i++)
-            AARG2_INC += rp_Atemp[i];
+        for (int l = 0; l < p; l++) {
+          if (0 == ARES) {
+            HOV_INC(Aarg, k1)
+            HOV_INC(Aarg1, k1)
+            HOV_INC(Aarg2, k1)
+            HOV_INC(Ares, k1)
+          } else {
+            comp = (ARES > 2.0) ? ARES : 2.0;
+            MAXDEC(AARG2, ARES);
+            ARES_INC = 0.0;
+            MAXDEC(AARG, comp);
+            MAXDEC(AARG1, comp);
+            AARG_INC_O;
+            AARG1_INC_O;
+            AARG2_INC_O;
+            copyAndZeroset(k, Ares, rp_Atemp);
+            inconv(k, rp_Atemp, Targ1, Aarg);
+            inconv(k, rp_Atemp, Targ, Aarg1);
+            for (int i = 0; i < k; i++)
+              AARG2_INC += rp_Atemp[i];
 
-          HOV_INC(Ares, k)
-          HOV_INC(Aarg, k)
-          HOV_INC(Aarg1, k)
-          HOS_OV_INC(Targ, k)
-          HOS_OV_INC(Targ1, k)
+            HOV_INC(Ares, k)
+            HOV_INC(Aarg, k)
+            HOV_INC(Aarg1, k)
+            HOS_OV_INC(Targ, k)
+            HOS_OV_INC(Targ1, k)
+          }
         }
-        GET_TAYL(res + qq, k, p)
       }
       break;
 
-- 
2.43.0


From 32b82ea4c2bad7a0fab66e160044226921a9ad15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:38 +0000
Subject: [PATCH 20/69] fix: unreadable tape files and failing seeks went
 unnoticed in sweeps

A sweep over a trace on disk dereferenced a null FILE when a tape file could
not be opened (or, for reverse sweeps, had never been created because the
trace contains no values), and continued with other data when a seek failed.
---
 ADOL-C/include/adolc/valuetape/valuetape.h | 23 +++++++++++++++++-----
 ADOL-C/src/valuetape/tapeinfos.cpp         | 18 +++++++++++------
 ADOL-C/src/valuetape/valuetape.cpp         | 10 ++++++----
 3 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/ADOL-C/include/adolc/valuetape/valuetape.h b/ADOL-C/include/adolc/valuetape/valuetape.h
index 8959b39..4191f1a 100644
--- a/ADOL-C/include/adolc/valuetape/valuetape.h
+++ b/ADOL-C/include/adolc/valuetape/valuetape.h
@@ -654,6 +654,18 @@ public:
     readRemaining<Info>(numChunks, lengthBlock);
   }
 
+  /**
+   * @brief Open the tape file for a sweep.
+   *
+   * Errors:
+   *  - Fails with Info::error if the file cannot be opened.
+   */
+  template <InfoTypeBase<TapeInfos, ErrorType> Info> void openForReading() {
+    Info::openFile(tapeInfos_, fileName<Info>());
+    if (Info::file(tapeInfos_) == nullptr)
+      ADOLCError::fail(Info::error, CURRENT_LOCATION);
+  }
+
   /**
    * @brief Prepare for a forward sweep.
    *
@@ -678,11 +690,10 @@ public:
   template <InfoType<TapeInfos, ErrorType> Info> void prepare_for() {
     size_t lengthBlock = 0;
     if (tapestats(Info::fileAccess) == 1) {
-      Info::openFile(tapeInfos_, fileName<Info>());
-
       // preload at most one block, but never more than total elements on tape
       lengthBlock = std::min(tapestats(Info::bufferSize), tapestats(Info::num));
       if (lengthBlock != 0) {
+        openForReading<Info>();
         readBloc<Info>(lengthBlock);
       }
       // remaining elements still residing on disk (not yet in buffer)
@@ -718,8 +729,9 @@ public:
     auto number = (tapestats(Info::num) / tapestats(Info::bufferSize)) *
                   tapestats(Info::bufferSize);
     auto offset = static_cast<long>(number * sizeof(typename Info::value_type));
-    Info::openFile(tapeInfos_, fileName<Info>());
-    fseek(Info::file(tapeInfos_), offset, SEEK_SET);
+    openForReading<Info>();
+    if (fseek(Info::file(tapeInfos_), offset, SEEK_SET) != 0)
+      ADOLCError::fail(Info::error, CURRENT_LOCATION);
   }
 
   /**
@@ -740,7 +752,8 @@ public:
    */
   template <InfoType<TapeInfos, ErrorType> Info> void prepare_rev() {
     size_t lengthLB = tapestats(Info::num);
-    if (tapestats(Info::fileAccess) == 1) {
+    // a file without any element has never been created
+    if (tapestats(Info::fileAccess) == 1 && lengthLB != 0) {
       setFilePosition<Info>();
 
       // size of last (possibly partial) block
diff --git a/ADOL-C/src/valuetape/tapeinfos.cpp b/ADOL-C/src/valuetape/tapeinfos.cpp
index 2eee678..469b613 100644
--- a/ADOL-C/src/valuetape/tapeinfos.cpp
+++ b/ADOL-C/src/valuetape/tapeinfos.cpp
@@ -260,9 +260,11 @@ void TapeInfos::get_loc_block_r() {
   const size_t chunks = number / chunkSize;
   const size_t remain = number % chunkSize;
 
-  fseek(locBuffer_.file(),
+  if (fseek(locBuffer_.file(),
         static_cast<long>(sizeof(size_t) * (locBuffer_.numOnTape() - number)),
-        SEEK_SET);
+        SEEK_SET) != 0)
+    ADOLCError::fail(ADOLCError::ErrorType::EVAL_LOC_TAPE_READ_FAILED,
+                     CURRENT_LOCATION);
   for (size_t i = 0; i < chunks; ++i) {
     if (fread(locBuffer_.begin() + i * chunkSize, chunkSize * sizeof(size_t), 1,
               locBuffer_.file()) != 1)
@@ -375,10 +377,12 @@ void TapeInfos::get_op_block_r() {
   size_t number, remain, chunkSize;
 
   number = stats[TapeInfos::OP_BUFFER_SIZE];
-  fseek(opBuffer_.file(),
+  if (fseek(opBuffer_.file(),
         static_cast<long>(sizeof(unsigned char) *
                           (opBuffer_.numOnTape() - number)),
-        SEEK_SET);
+        SEEK_SET) != 0)
+    ADOLCError::fail(ADOLCError::ErrorType::EVAL_OP_TAPE_READ_FAILED,
+                     CURRENT_LOCATION);
   chunkSize = ADOLC_IO_CHUNK_SIZE / sizeof(unsigned char);
   chunks = number / chunkSize;
   for (i = 0; i < chunks; ++i)
@@ -465,9 +469,11 @@ void TapeInfos::get_val_block_r() {
   size_t temp;
 
   number = stats[TapeInfos::VAL_BUFFER_SIZE];
-  fseek(valBuffer_.file(),
+  if (fseek(valBuffer_.file(),
         static_cast<long>(sizeof(double) * (valBuffer_.numOnTape() - number)),
-        SEEK_SET);
+        SEEK_SET) != 0)
+    ADOLCError::fail(ADOLCError::ErrorType::EVAL_VAL_TAPE_READ_FAILED,
+                     CURRENT_LOCATION);
   chunkSize = ADOLC_IO_CHUNK_SIZE / sizeof(double);
   chunks = number / chunkSize;
   for (i = 0; i < chunks; ++i)
diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index d8b7170..86b5b65 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -677,10 +677,12 @@ void ValueTape::discard_params_r(void) {
     if (ip > 0) {
       const size_t number = tapestats(TapeInfos::VAL_BUFFER_SIZE);
       const size_t chunks = number / chunkSize;
-      fseek(tapeInfos_.valBuffer_.file(),
-            static_cast<long>(sizeof(double) *
-                              (tapeInfos_.valBuffer_.numOnTape() - number)),
-            SEEK_SET);
+      if (fseek(tapeInfos_.valBuffer_.file(),
+                static_cast<long>(sizeof(double) *
+                                  (tapeInfos_.valBuffer_.numOnTape() - number)),
+                SEEK_SET) != 0)
+        ADOLCError::fail(ADOLCError::ErrorType::EVAL_VAL_TAPE_READ_FAILED,
+                         CURRENT_LOCATION);
 
       for (size_t i = 0; i < chunks; ++i)
         if (fread(tapeInfos_.valBuffer_.begin() + i * chunkSize,
-- 
2.43.0


From c3b8a8510b21cea266944173f8078e2061555093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 21/69] fix: failing writes of tape files went unnoticed

Opening a tape file for writing was not checked, errors that surface only when
the buffered data is flushed at fclose were dropped, the tape stats were written
unchecked, and a recording that lost a block could be completed successfully.
---
 ADOL-C/include/adolc/valuetape/bufferstate.h |  8 +++++--
 ADOL-C/include/adolc/valuetape/tapeinfos.h   | 13 ++++++++++-
 ADOL-C/src/valuetape/tapeinfos.cpp           |  7 +++---
 ADOL-C/src/valuetape/valuetape.cpp           | 23 ++++++++++++++------
 4 files changed, 38 insertions(+), 13 deletions(-)

diff --git a/ADOL-C/include/adolc/valuetape/bufferstate.h b/ADOL-C/include/adolc/valuetape/bufferstate.h
index 0c99bbf..fa23dfe 100644
--- a/ADOL-C/include/adolc/valuetape/bufferstate.h
+++ b/ADOL-C/include/adolc/valuetape/bufferstate.h
@@ -94,8 +94,12 @@ public:
   FILE *file() { return file_.get(); }
   FILE *file() const { return file_.get(); }
 
-  /// Closes the owned FILE handle, if present.
-  void closeFile() { file_.reset(); }
+  /// Closes the owned FILE handle, if present. Returns false if buffered data
+  /// could not be written.
+  bool closeFile() {
+    FILE *file = file_.release();
+    return file == nullptr || fclose(file) == 0;
+  }
 
   /// Releases the FILE handle without closing it.
   FILE *releaseFile() { return file_.release(); }
diff --git a/ADOL-C/include/adolc/valuetape/tapeinfos.h b/ADOL-C/include/adolc/valuetape/tapeinfos.h
index df95219..18cf794 100644
--- a/ADOL-C/include/adolc/valuetape/tapeinfos.h
+++ b/ADOL-C/include/adolc/valuetape/tapeinfos.h
@@ -68,6 +68,9 @@ struct TapeInfos {
   char lastTayBlockInCore{0};
   // writing of taylors has begun but has not been finished
   bool taylorsUnfinished{false};
+
+  // a block of the recording could not be written
+  bool blocksLost_{false};
   // degree to save and saved respectively
   int deg_save{-1};
   // number of directions saved
@@ -186,6 +189,7 @@ struct TapeInfos {
    *
    * Errors:
    *  - Fails with CANNOT_REMOVE_FILE if an old tape file cannot be deleted.
+   *  - Fails with TAPING_FATAL_IO_ERROR if the file cannot be opened.
    *
    * Notes:
    *  - The actual file handle and buffer fields are provided by the Info
@@ -196,6 +200,7 @@ struct TapeInfos {
   template <InfoTypeBase<TapeInfos, ErrorType> Info>
   void openFile(const char *fileName) {
     using ADOLCError::ErrorType::CANNOT_REMOVE_FILE;
+    using ADOLCError::ErrorType::TAPING_FATAL_IO_ERROR;
     if (Info::file(*this) == nullptr) {
       if constexpr (!std::is_same_v<Info, TayInfo<TapeInfos, ErrorType>>) {
         if (FILE *oldFile = fopen(fileName, "rb")) {
@@ -211,6 +216,8 @@ struct TapeInfos {
       } else {
         static_assert(!std::is_same_v<Info, Info>, "Not Implemented!");
       }
+      if (Info::file(*this) == nullptr)
+        fail(TAPING_FATAL_IO_ERROR, CURRENT_LOCATION);
     }
   }
 
@@ -240,9 +247,12 @@ struct TapeInfos {
   void put_block(const char *fileName, size_t lengthBlock) {
     using ADOLC::detail::write;
     using ADOLCError::fail;
-    using ADOLCError::ErrorType::CANNOT_REMOVE_FILE;
     using ADOLCError::ErrorType::TAPING_FATAL_IO_ERROR;
 
+    // a block is missing unless this function is left normally
+    const bool blocksLost = blocksLost_;
+    blocksLost_ = true;
+
     openFile<Info>(fileName);
     const size_t numChunks = lengthBlock / Info::chunkSize;
 
@@ -265,6 +275,7 @@ struct TapeInfos {
 
     Info::setNum(*this, Info::getNum(*this) + lengthBlock);
     Info::setCurr(*this, 0);
+    blocksLost_ = blocksLost;
   }
   // functions for handling val tape
 
diff --git a/ADOL-C/src/valuetape/tapeinfos.cpp b/ADOL-C/src/valuetape/tapeinfos.cpp
index 469b613..1d32226 100644
--- a/ADOL-C/src/valuetape/tapeinfos.cpp
+++ b/ADOL-C/src/valuetape/tapeinfos.cpp
@@ -21,9 +21,9 @@ TapeInfos::TapeInfos(TapeInfos &&other) noexcept
       keepTaylors(other.keepTaylors), num_eq_prod(other.num_eq_prod),
       nextBufferNumber(other.nextBufferNumber),
       lastTayBlockInCore(other.lastTayBlockInCore),
-      taylorsUnfinished(other.taylorsUnfinished), deg_save(other.deg_save),
-      dir_save(other.dir_save),
-      tay_numInds(other.tay_numInds), tay_numDeps(other.tay_numDeps),
+      taylorsUnfinished(other.taylorsUnfinished),
+      blocksLost_(other.blocksLost_), deg_save(other.deg_save),
+      dir_save(other.dir_save), tay_numInds(other.tay_numInds), tay_numDeps(other.tay_numDeps),
       workMode(other.workMode), ext_diff_fct_index(other.ext_diff_fct_index),
       nestedReverseEval(other.nestedReverseEval),
       numSwitches(other.numSwitches), signature(other.signature) {
@@ -51,6 +51,7 @@ TapeInfos &TapeInfos::operator=(TapeInfos &&other) noexcept {
     nextBufferNumber = other.nextBufferNumber;
     lastTayBlockInCore = other.lastTayBlockInCore;
     taylorsUnfinished = other.taylorsUnfinished;
+    blocksLost_ = other.blocksLost_;
 
     deg_save = other.deg_save;
     dir_save = other.dir_save;
diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 86b5b65..2f98da0 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -430,6 +430,11 @@ void ValueTape::abort_trace() {
 /* Close open tapes, update stats and clean up.                             */
 /****************************************************************************/
 void ValueTape::close_tape(int flag) {
+  using ADOLCError::fail;
+  using ADOLCError::ErrorType::TAPING_FATAL_IO_ERROR;
+  if (tapeInfos_.blocksLost_)
+    fail(TAPING_FATAL_IO_ERROR, CURRENT_LOCATION);
+
   /* finish operations tape, close it, update stats */
   if (flag != 0 || (tapeInfos_.opBuffer_.file() != nullptr)) {
     if (tapeInfos_.opBuffer_.position() > 0) {
@@ -437,7 +442,8 @@ void ValueTape::close_tape(int flag) {
           perTapeInfos_.op_fileName, tapeInfos_.opBuffer_.position());
     }
     tapestats(TapeInfos::OP_FILE_ACCESS, 1);
-    tapeInfos_.opBuffer_.closeFile();
+    if (!tapeInfos_.opBuffer_.closeFile())
+      fail(TAPING_FATAL_IO_ERROR, CURRENT_LOCATION);
     delete[] tapeInfos_.opBuffer_.releaseBuffer();
   } else {
     tapeInfos_.opBuffer_.numOnTape(tapeInfos_.opBuffer_.position());
@@ -451,7 +457,8 @@ void ValueTape::close_tape(int flag) {
           perTapeInfos_.val_fileName, tapeInfos_.valBuffer_.position());
     }
     tapestats(TapeInfos::VAL_FILE_ACCESS, 1);
-    tapeInfos_.valBuffer_.closeFile();
+    if (!tapeInfos_.valBuffer_.closeFile())
+      fail(TAPING_FATAL_IO_ERROR, CURRENT_LOCATION);
     delete[] tapeInfos_.valBuffer_.releaseBuffer();
   } else {
     tapeInfos_.valBuffer_.numOnTape(tapeInfos_.valBuffer_.position());
@@ -467,11 +474,13 @@ void ValueTape::close_tape(int flag) {
     tapestats(TapeInfos::NUM_LOCATIONS, tapeInfos_.locBuffer_.numOnTape());
     tapestats(TapeInfos::LOC_FILE_ACCESS, 1);
     /* write tape stats */
-    fseek(tapeInfos_.locBuffer_.file(), 0, 0);
-    fwrite(&get_adolc_id(), sizeof(ADOLC_ID), 1, tapeInfos_.locBuffer_.file());
-    fwrite(tapestats().data(), TapeInfos::STAT_SIZE * sizeof(size_t), 1,
-           tapeInfos_.locBuffer_.file());
-    tapeInfos_.locBuffer_.closeFile();
+    if (fseek(tapeInfos_.locBuffer_.file(), 0, 0) != 0 ||
+        fwrite(&get_adolc_id(), sizeof(ADOLC_ID), 1,
+               tapeInfos_.locBuffer_.file()) != 1 ||
+        fwrite(tapestats().data(), TapeInfos::STAT_SIZE * sizeof(size_t), 1,
+               tapeInfos_.locBuffer_.file()) != 1 ||
+        !tapeInfos_.locBuffer_.closeFile())
+      fail(TAPING_FATAL_IO_ERROR, CURRENT_LOCATION);
     delete[] tapeInfos_.locBuffer_.releaseBuffer();
   } else {
     tapeInfos_.locBuffer_.numOnTape(tapeInfos_.locBuffer_.position());
-- 
2.43.0


From 60bc9f5ce9853aa98d87c28944eb94fa717aad6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:14 +0000
Subject: [PATCH 22/69] fix: parameters read incompletely from disk were used
 by later evaluations

A failing read_params left partly filled parameters behind that later sweeps
took for complete ones, ignored failing seeks, and leaked its file and buffer.
---
 ADOL-C/src/valuetape/valuetape.cpp | 42 ++++++++++++++++++------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 2f98da0..8945ff2 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -6,6 +6,7 @@
 #include <adolc/valuetape/tapeinfos.h>
 #include <adolc/valuetape/valuetape.h>
 #include <cassert>
+#include <memory>
 #include <string>
 #include <sys/stat.h> // used in readconfigFile
 
@@ -494,14 +495,18 @@ void ValueTape::close_tape(int flag) {
 void ValueTape::read_params() {
   constexpr size_t chunkSize = ADOLC_IO_CHUNK_SIZE / sizeof(double);
 
-  if (!paramstore())
-    paramstore(new double[tapestats(TapeInfos::NUM_PARAM)]);
+  // only complete parameters are stored
+  auto params = std::make_unique<double[]>(tapestats(TapeInfos::NUM_PARAM));
 
-  double *valBuffer = new double[tapestats(TapeInfos::VAL_BUFFER_SIZE)];
+  const auto buffer =
+      std::make_unique<double[]>(tapestats(TapeInfos::VAL_BUFFER_SIZE));
+  double *valBuffer = buffer.get();
   double *lastValP1 = valBuffer + tapestats(TapeInfos::VAL_BUFFER_SIZE);
 
-  FILE *val_file = nullptr;
-  if ((val_file = fopen(val_fileName(), "rb")) == nullptr)
+  const std::unique_ptr<FILE, ADOLC::detail::FileDeleter> file(
+      fopen(val_fileName(), "rb"));
+  FILE *val_file = file.get();
+  if (val_file == nullptr)
     ADOLCError::fail(ADOLCError::ErrorType::VALUE_TAPE_FREAD_FAILED,
                      CURRENT_LOCATION, ADOLCError::FailInfo{.info1 = tapeId()});
 
@@ -509,7 +514,10 @@ void ValueTape::read_params() {
                    tapestats(TapeInfos::VAL_BUFFER_SIZE)) *
                   tapestats(TapeInfos::VAL_BUFFER_SIZE);
 
-  fseek(val_file, static_cast<long>(number * sizeof(double)), SEEK_SET);
+  if (fseek(val_file, static_cast<long>(number * sizeof(double)), SEEK_SET) !=
+      0)
+    ADOLCError::fail(ADOLCError::ErrorType::VALUE_TAPE_FREAD_FAILED,
+                     CURRENT_LOCATION, ADOLCError::FailInfo{.info1 = tapeId()});
   number =
       tapestats(TapeInfos::NUM_VALUES) % tapestats(TapeInfos::VAL_BUFFER_SIZE);
 
@@ -537,14 +545,16 @@ void ValueTape::read_params() {
   while (ip > 0) {
     size_t avail = currVal - valBuffer;
     size_t rsize = (avail < ip) ? avail : ip;
-    double *paramstore_view = paramstore();
     for (size_t i = 0; i < rsize; ++i)
-      paramstore_view[--ip] = *--currVal;
+      params[--ip] = *--currVal;
 
     if (ip > 0) {
       number = tapestats(TapeInfos::VAL_BUFFER_SIZE);
-      fseek(val_file, static_cast<long>(sizeof(double) * (nVT - number)),
-            SEEK_SET);
+      if (fseek(val_file, static_cast<long>(sizeof(double) * (nVT - number)),
+                SEEK_SET) != 0)
+        ADOLCError::fail(ADOLCError::ErrorType::VALUE_TAPE_FREAD_FAILED,
+                         CURRENT_LOCATION,
+                         ADOLCError::FailInfo{.info1 = tapeId()});
       const size_t chunks = number / chunkSize;
       for (size_t i = 0; i < chunks; ++i)
         if (fread(valBuffer + i * chunkSize, chunkSize * sizeof(double), 1,
@@ -565,8 +575,8 @@ void ValueTape::read_params() {
       currVal = lastValP1;
     }
   }
-  fclose(val_file);
-  delete[] valBuffer;
+  delete[] paramstore();
+  paramstore(params.release());
 }
 
 /****************************************************************************/
@@ -644,17 +654,17 @@ void ValueTape::read_tape_stats() {
   using ADOLCError::ErrorType::TAPING_TAPE_STILL_IN_USE;
 
   ADOLC_ID tape_ADOLC_ID{};
-  FILE *loc_file = fopen(loc_fileName(), "rb");
+  const std::unique_ptr<FILE, ADOLC::detail::FileDeleter> loc_file(
+      fopen(loc_fileName(), "rb"));
   if (loc_file == nullptr ||
-      (fread(&tape_ADOLC_ID, sizeof(ADOLC_ID), 1, loc_file) != 1) ||
+      (fread(&tape_ADOLC_ID, sizeof(ADOLC_ID), 1, loc_file.get()) != 1) ||
       (fread(tapestats().data(), TapeInfos::STAT_SIZE * sizeof(size_t), 1,
-             loc_file) != 1)) {
+             loc_file.get()) != 1)) {
     fail(INTEGER_TAPE_FOPEN_FAILED, CURRENT_LOCATION,
          FailInfo{.info1 = tapeId()});
   }
 
   compare_adolc_ids(get_adolc_id(), tape_ADOLC_ID);
-  fclose(loc_file);
   // parameters already in memory may have been changed by set_param_vec
   if (tapestats(TapeInfos::NUM_PARAM) > 0 && paramstore() == nullptr)
     read_params();
-- 
2.43.0


From 4850bf938c83c9eba7636400621749381702539f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:23 +0000
Subject: [PATCH 23/69] fix: a refused parameter vector left the tape in write
 access

After set_param_vec had refused a vector of the wrong length the tape could
neither be evaluated nor recorded again.
---
 ADOL-C/src/valuetape/valuetape.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 8945ff2..76d5d49 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -593,7 +593,7 @@ void ValueTape::set_param_vec(short tag, size_t numparam,
   /* make room for tapeInfos and read tapestats if necessary, keep value
    * stack information */
   openTape();
-  workMode(TapeInfos::WRITE_ACCESS);
+  workMode(TapeInfos::NO_MODE);
   if (tapestats(TapeInfos::NUM_PARAM) != numparam)
     fail(PARAM_COUNTS_MISMATCH, CURRENT_LOCATION,
          FailInfo{.info1 = tag,
@@ -608,7 +608,6 @@ void ValueTape::set_param_vec(short tag, size_t numparam,
     paramstore_view[i] = paramvec[i];
 
   finish_tay_file();
-  workMode(TapeInfos::NO_MODE);
 }
 
 /**
-- 
2.43.0


From 1d383348d7b6ec364df085a269343c30fae036b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:30 +0000
Subject: [PATCH 24/69] fix: hos_ov_reverse undid += and -= of a product only
 for the first direction

If the adjoint of the result is zero, the Taylor coefficients of the following
directions were left at their later values and those of the first one were
changed repeatedly.
---
 ADOL-C/src/ho_rev.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 4a0f91a..b7015c5 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -1008,6 +1008,9 @@ int hov_ti_reverse(
           HOV_INC(Aarg1, k1)
           HOV_INC(Aarg2, k1)
           HOV_INC(Ares, k1)
+          HOS_OV_INC(Targ1, k)
+          HOS_OV_INC(Targ2, k)
+          HOS_OV_INC(Tres, k)
         } else {
           comp = (ARES > 2.0) ? ARES : 2.0;
           ARES_INC = comp;
@@ -1057,6 +1060,9 @@ int hov_ti_reverse(
           HOV_INC(Aarg1, k1)
           HOV_INC(Aarg2, k1)
           HOV_INC(Ares, k1)
+          HOS_OV_INC(Targ1, k)
+          HOS_OV_INC(Targ2, k)
+          HOS_OV_INC(Tres, k)
         } else {
           comp = (ARES > 2.0) ? ARES : 2.0;
           ARES_INC = comp;
-- 
2.43.0


From 2e8511f620f0e39091d9747550686f5bba4a20b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:53 +0000
Subject: [PATCH 25/69] fix: checkpointed loops of one program shared one
 schedule

---
 ADOL-C/include/adolc/checkpointing.h |  6 ++++++
 ADOL-C/src/checkpointing.cpp         | 18 +++++++++++++-----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/ADOL-C/include/adolc/checkpointing.h b/ADOL-C/include/adolc/checkpointing.h
index 00c0631..4895641 100644
--- a/ADOL-C/include/adolc/checkpointing.h
+++ b/ADOL-C/include/adolc/checkpointing.h
@@ -17,6 +17,7 @@
 
 #include <adolc/adolcexport.h>
 #include <adolc/internal/common.h>
+#include <adolc/revolve.h>
 #include <array>
 #include <stack>
 
@@ -98,6 +99,8 @@ struct Infos {
   // unsued but required to be stored in our custom buffer type
   char *allmem{nullptr};
   std::stack<StackElement> cpStack;
+  // the schedule of this loop; revolve keeps it between its calls
+  revolve_nums revolveNumbers{};
 
   /** @brief Save the current checkpoint state on the internal stack. */
   void takeSnapshot();
@@ -117,6 +120,9 @@ struct Infos {
   /** @brief Run the forward checkpoint schedule for the current state. */
   void revolveForward(int keep);
 
+  /** @brief Ask revolve for the next action of the schedule of this loop. */
+  revolve_action nextAction();
+
   /** @brief Raise an ADOL-C error for the current revolve status code. */
   void revolveError();
 };
diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index bcddb6b..045da22 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -26,6 +26,7 @@
 #include <algorithm>
 #include <cassert>
 #include <cstring>
+#include <utility>
 #include <vector>
 
 namespace ADOLC::CP {
@@ -119,6 +120,15 @@ void detail::Infos::revolveError() {
   }
 }
 
+revolve_action detail::Infos::nextAction() {
+  // the numbers of revolve are shared by all loops
+  std::swap(get_revolve_numbers(), revolveNumbers);
+  const revolve_action action =
+      revolve(&check, &capo, &fine, checkpoints, &info);
+  std::swap(get_revolve_numbers(), revolveNumbers);
+  return action;
+}
+
 void detail::Infos::revolveForward(int keep) {
   /* init revolve */
   check = -1;
@@ -129,7 +139,7 @@ void detail::Infos::revolveForward(int keep) {
   /* execute all time steps */
   enum revolve_action whattodo;
   do {
-    whattodo = revolve(&check, &capo, &fine, checkpoints, &info);
+    whattodo = nextAction();
 
     switch (whattodo) {
     case revolve_takeshot:
@@ -350,8 +360,7 @@ int fos_reverse(size_t cpIndex, short tapeId, int m, int n, double *u,
   // checkpointing
   enum revolve_action whattodo;
   do {
-    whattodo = revolve(&cpInfos->check, &cpInfos->capo, &cpInfos->fine,
-                       cpInfos->checkpoints, &cpInfos->info);
+    whattodo = cpInfos->nextAction();
     switch (whattodo) {
     case revolve_terminate:
       break;
@@ -439,8 +448,7 @@ int fov_reverse(size_t cpIndex, short tapeId, int m, int n, int q, double **Uq,
   // checkpointing
   enum revolve_action whattodo;
   do {
-    whattodo = revolve(&cpInfos->check, &cpInfos->capo, &cpInfos->fine,
-                       cpInfos->checkpoints, &cpInfos->info);
+    whattodo = cpInfos->nextAction();
     switch (whattodo) {
     case revolve_terminate:
       break;
-- 
2.43.0


From 0bfefa2486e838a93dbe9e15e4dd7c3bd094af22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:53 +0000
Subject: [PATCH 26/69] fix: a checkpointed loop recorded with keep left
 Taylors the reverse sweeps did not consume

---
 ADOL-C/src/checkpointing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index 045da22..f816b91 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -654,7 +654,7 @@ int Context::checkpointing(short tapeId) {
   initExternalDiffFunction(edf);
   edf->cp_index = cpInfos->index;
   edf->dp_x_changes = 0;
-  edf->dp_y_priorRequired = 0;
+  edf->dp_y_priorRequired = 1;
   ValueTape &tape = findTape(cpInfos->tapeId);
   // but we do not call it
   // we use direct taping to avoid unnecessary argument copying
-- 
2.43.0


From a31fca68b35f3138d772be80132748be412a1ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:45 +0000
Subject: [PATCH 27/69] fix: reverse sweeps of a checkpointed loop relied on
 snapshots of another sweep

---
 ADOL-C/include/adolc/checkpointing.h       | 20 ++++++-
 ADOL-C/include/adolc/valuetape/valuetape.h |  8 +++
 ADOL-C/src/checkpointing.cpp               | 65 ++++++++++++++++++++--
 3 files changed, 86 insertions(+), 7 deletions(-)

diff --git a/ADOL-C/include/adolc/checkpointing.h b/ADOL-C/include/adolc/checkpointing.h
index 4895641..893f13e 100644
--- a/ADOL-C/include/adolc/checkpointing.h
+++ b/ADOL-C/include/adolc/checkpointing.h
@@ -68,7 +68,10 @@ using StackElement = std::array<double *, 2>;
  * this struct directly.
  */
 struct Infos {
-  ~Infos() { clearStack(); }
+  ~Infos() {
+    clearStack();
+    dropStart();
+  }
   // id of the outer tape, used to get checkpoint in the cp_fos_forward... and
   // reverse methods later
   short tapeId{0};
@@ -101,6 +104,11 @@ struct Infos {
   std::stack<StackElement> cpStack;
   // the schedule of this loop; revolve keeps it between its calls
   revolve_nums revolveNumbers{};
+  // state the last keeping forward sweep (or recording) started from
+  StackElement start{};
+  // true while the snapshots and the step tape are those of the forward half of
+  // the schedule starting at start
+  bool readyForReverse{false};
 
   /** @brief Save the current checkpoint state on the internal stack. */
   void takeSnapshot();
@@ -114,6 +122,16 @@ struct Infos {
   /** @brief Free all stored checkpoint snapshots. */
   void clearStack();
 
+  /** @brief Keep the current internal state as start of the reverse sweeps. */
+  void keepStart();
+
+  /** @brief Forget the start of the reverse sweeps. */
+  void dropStart();
+
+  /** @brief Bring the snapshots and the step tape to the turning point of the
+   * schedule. */
+  void prepareReverse();
+
   /** @brief Tape one time step at the current internal state. */
   void tapeStep(int keep) const;
 
diff --git a/ADOL-C/include/adolc/valuetape/valuetape.h b/ADOL-C/include/adolc/valuetape/valuetape.h
index 4191f1a..6c87079 100644
--- a/ADOL-C/include/adolc/valuetape/valuetape.h
+++ b/ADOL-C/include/adolc/valuetape/valuetape.h
@@ -70,6 +70,8 @@ class ADOLC_API ValueTape {
   Buffer<ext_diff_fct, EDFCTS_BLOCK_SIZE> ext_buffer_;
   Buffer<ext_diff_fct_v2, EDFCTS_BLOCK_SIZE> ext2_buffer_;
   Buffer<ADOLC::CP::detail::Infos, EDFCTS_BLOCK_SIZE> cp_buffer_;
+  // the checkpointed loop this tape holds a time step of
+  const ADOLC::CP::detail::Infos *cp_step_owner_{nullptr};
 
 #ifdef ADOLC_SPARSE
   ADOLC::Sparse::SparseJacInfos sJInfos_;
@@ -494,6 +496,12 @@ public:
   char inParallelRegion() const { return globalTapeVars_.inParallelRegion; }
 
   // ------------------------------- Buffer utils ---------------------------
+  const ADOLC::CP::detail::Infos *cp_step_owner() const {
+    return cp_step_owner_;
+  }
+  void cp_step_owner(const ADOLC::CP::detail::Infos *owner) {
+    cp_step_owner_ = owner;
+  }
   ADOLC::CP::detail::Infos *cp_append() { return cp_buffer_.append(); }
   ADOLC::CP::detail::Infos *cp_getElement(size_t index) {
     return cp_buffer_.getElement(index);
diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index f816b91..0f41aa3 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -75,6 +75,7 @@ void setFovRows(std::vector<double> &values, int rows, int cols,
 } // namespace
 
 void detail::Infos::tapeStep(int keep) const {
+  findTape(cpTapeId).cp_step_owner(this);
   trace_on(cpTapeId, keep);
   {
     std::vector<adouble> tapingAdoubles(dim);
@@ -129,7 +130,37 @@ revolve_action detail::Infos::nextAction() {
   return action;
 }
 
+void detail::Infos::keepStart() {
+  dropStart();
+  readyForReverse = false;
+  start[0] = new double[dim];
+  std::copy(dp_internal_for, dp_internal_for + dim, start[0]);
+  if (saveNonAdoubles != nullptr)
+    start[1] = static_cast<double *>(saveNonAdoubles());
+}
+
+void detail::Infos::dropStart() {
+  delete[] start[0];
+  delete[] start[1];
+  start = StackElement{};
+}
+
+void detail::Infos::prepareReverse() {
+  // the step tape may have been used for another loop
+  if (!readyForReverse || findTape(cpTapeId).cp_step_owner() != this) {
+    std::copy(start[0], start[0] + dim, dp_internal_for);
+    if (start[1] != nullptr)
+      restoreNonAdoubles(static_cast<void *>(start[1]));
+    revolveForward(1);
+  }
+  // the reverse sweep consumes the snapshots
+  readyForReverse = false;
+}
+
 void detail::Infos::revolveForward(int keep) {
+  readyForReverse = false;
+  clearStack();
+
   /* init revolve */
   check = -1;
   capo = 0;
@@ -167,6 +198,7 @@ void detail::Infos::revolveForward(int keep) {
           CURRENT_LOCATION);
     }
   } while (whattodo == revolve_takeshot || whattodo == revolve_advance);
+  readyForReverse = true;
 }
 
 /* register one time step function (uses buffer template) */
@@ -227,14 +259,20 @@ int zos_forward(size_t cpIndex, short tapeId, [[maybe_unused]] int m, int n,
   std::vector<double> state(x, x + n);
   InternalForwardBuffer guard(cpInfos, state.data());
 
-  cpInfos->revolveForward(keep);
+  if (keep) {
+    cpInfos->keepStart();
+    cpInfos->revolveForward(1);
+  } else
+    // perform all time steps without taping
+    for (int step = 0; step < cpInfos->steps; ++step)
+      cpInfos->function_double(n, state.data());
 
   // write back
   std::copy(state.begin(), state.end(), y);
   return 0;
 }
 
-int fos_forward(size_t cpIndex, short tapeId, int m, int n, int,
+int fos_forward(size_t cpIndex, short tapeId, int m, int n, int keep,
                 const double *x, const double *X, double *y, double *Y) {
   ValueTape &tape = findTape(tapeId);
   detail::Infos *cpInfos = checkpointingInfos(tape, cpIndex);
@@ -247,6 +285,13 @@ int fos_forward(size_t cpIndex, short tapeId, int m, int n, int,
   std::vector<double> nextState(m);
   std::vector<double> nextTangent(m);
 
+  if (keep) {
+    InternalForwardBuffer guard(cpInfos, state.data());
+    cpInfos->keepStart();
+  }
+  // the step tape does not belong to the last step any more
+  cpInfos->readyForReverse = false;
+
   int ret_c = 3;
   for (int step = 0; step < cpInfos->steps; ++step) {
     if (step == 0 || cpInfos->retaping != 0)
@@ -291,6 +336,9 @@ int fov_forward(size_t cpIndex, short tapeId, int m, int n, int p,
     for (int col = 0; col < p; ++col)
       tangent[static_cast<size_t>(row) * p + col] = Xp[row][col];
 
+  // the step tape does not belong to the last step any more
+  cpInfos->readyForReverse = false;
+
   int ret_c = 3;
   for (int step = 0; step < cpInfos->steps; ++step) {
     if (step == 0 || cpInfos->retaping != 0)
@@ -338,7 +386,7 @@ int hov_forward(size_t, short, size_t, double *, size_t, size_t, double ***,
 }
 
 int fos_reverse(size_t cpIndex, short tapeId, int m, int n, double *u,
-                double *z, double *x, double *) {
+                double *z, double *, double *) {
 
   ValueTape &tape = findTape(tapeId);
 
@@ -347,10 +395,12 @@ int fos_reverse(size_t cpIndex, short tapeId, int m, int n, double *u,
   assert(cpInfos->dim == m && "CP: Output Dimension mismatch!");
   assert(cpInfos->dim == n && "CP: Input Dimension mismatch!");
 
-  std::vector<double> state(x, x + n);
+  std::vector<double> state(n);
   std::vector<double> adjoint(u, u + m);
   InternalForwardBuffer guard(cpInfos, state.data());
 
+  cpInfos->prepareReverse();
+
   // execute second part of revolve_firstturn left from forward sweep
   ::fos_reverse(cpInfos->cpTapeId, m, n, adjoint.data(), adjoint.data());
 
@@ -420,7 +470,7 @@ int fos_reverse(size_t cpIndex, short tapeId, int m, int n, double *u,
 }
 
 int fov_reverse(size_t cpIndex, short tapeId, int m, int n, int q, double **Uq,
-                double **Zq, double *x, double *) {
+                double **Zq, double *, double *) {
 
   ValueTape &tape = findTape(tapeId);
 
@@ -429,7 +479,7 @@ int fov_reverse(size_t cpIndex, short tapeId, int m, int n, int q, double **Uq,
   assert(cpInfos->dim == m && "CP: Output Dimension mismatch!");
   assert(cpInfos->dim == n && "CP: Input Dimension mismatch!");
 
-  std::vector<double> state(x, x + n);
+  std::vector<double> state(n);
   std::vector<double> adjoint(static_cast<size_t>(q) * m);
   std::vector<double *> adjointRows(q);
   InternalForwardBuffer guard(cpInfos, state.data());
@@ -439,6 +489,8 @@ int fov_reverse(size_t cpIndex, short tapeId, int m, int n, int q, double **Uq,
               adjoint.data() + static_cast<size_t>(row) * m);
   setFovRows(adjoint, q, m, adjointRows);
 
+  cpInfos->prepareReverse();
+
   // execute second part of revolve_firstturn left from forward sweep
   ::fov_reverse(cpInfos->cpTapeId, m, n, q, adjointRows.data(),
                 adjointRows.data());
@@ -677,6 +729,7 @@ int Context::checkpointing(short tapeId) {
 
   if (tape.keepTaylors()) {
     // perform all time steps, tape the last, take checkpoints
+    cpInfos->keepStart();
     cpInfos->revolveForward(1);
   } else
     // perform all time steps without taping
-- 
2.43.0


From 24fb99422d8c67a10de0ee9af3ce8df723fc9806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:45 +0000
Subject: [PATCH 28/69] fix: a time step that throws left its tape the current
 one

---
 ADOL-C/src/checkpointing.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index 0f41aa3..214dc33 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -77,7 +77,7 @@ void setFovRows(std::vector<double> &values, int rows, int cols,
 void detail::Infos::tapeStep(int keep) const {
   findTape(cpTapeId).cp_step_owner(this);
   trace_on(cpTapeId, keep);
-  {
+  try {
     std::vector<adouble> tapingAdoubles(dim);
     for (int i = 0; i < dim; ++i)
       tapingAdoubles[i] <<= dp_internal_for[i];
@@ -86,6 +86,12 @@ void detail::Infos::tapeStep(int keep) const {
 
     for (int i = 0; i < dim; ++i)
       tapingAdoubles[i] >>= dp_internal_for[i];
+  } catch (...) {
+    // give up the recording of the step
+    findTape(cpTapeId).abort_trace();
+    setCurrentTape(currentTapeStack().top());
+    currentTapeStack().pop();
+    throw;
   }
   trace_off();
 }
-- 
2.43.0


From 924102c013d822bc5b580351c96cf7bd85edb809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:49 +0000
Subject: [PATCH 29/69] fix: higher order sweeps over a checkpointed loop
 reported success

---
 ADOL-C/src/checkpointing.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index 214dc33..1a75ead 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -377,18 +377,23 @@ int fov_forward(size_t cpIndex, short tapeId, int m, int n, int p,
   return ret_c;
 }
 
+int notImplemented(const char *mode) {
+  printf("WARNING: Checkpointing algorithm not "
+         "implemented for the %s mode!\n",
+         mode);
+  ADOLCError::fail(ADOLCError::ErrorType::HO_OP_NOT_IMPLEMENTED,
+                   CURRENT_LOCATION, ADOLCError::FailInfo{.info7 = ext_diff});
+  return -1;
+}
+
 int hos_forward(size_t, short, int, int, int, int, double *, double **,
                 double *, double **) {
-  printf("WARNING: Checkpointing algorithm not "
-         "implemented for the hos_forward mode!\n");
-  return 0;
+  return notImplemented("hos_forward");
 }
 
 int hov_forward(size_t, short, size_t, double *, size_t, size_t, double ***,
                 size_t, double *, double ***) {
-  printf("WARNING: Checkpointing algorithm not "
-         "implemented for the hov_forward mode!\n");
-  return 0;
+  return notImplemented("hov_forward");
 }
 
 int fos_reverse(size_t cpIndex, short tapeId, int m, int n, double *u,
@@ -568,16 +573,12 @@ int fov_reverse(size_t cpIndex, short tapeId, int m, int n, int q, double **Uq,
 }
 
 int hos_reverse(size_t, short, size_t, double *, size_t, size_t, double **) {
-  printf("WARNING: Checkpointing algorithm not "
-         "implemented for the hos_reverse mode!\n");
-  return 0;
+  return notImplemented("hos_reverse");
 }
 
 int hov_reverse(size_t, short, size_t, size_t, double **, size_t, size_t,
                 double ***, short **) {
-  printf("WARNING: Checkpointing algorithm not "
-         "implemented for the hov_reverse mode!\n");
-  return 0;
+  return notImplemented("hov_reverse");
 }
 
 } // namespace
-- 
2.43.0


From af0a82ba1141c79fc37dc7c04019ce07b7ad4770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:19 +0000
Subject: [PATCH 30/69] fix: recording two loops with one checkpointing context
 mixed them up

---
 ADOL-C/include/adolc/checkpointing.h |  3 +++
 ADOL-C/src/checkpointing.cpp         | 23 ++++++++++++++++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/checkpointing.h b/ADOL-C/include/adolc/checkpointing.h
index 893f13e..e8fe58e 100644
--- a/ADOL-C/include/adolc/checkpointing.h
+++ b/ADOL-C/include/adolc/checkpointing.h
@@ -122,6 +122,9 @@ struct Infos {
   /** @brief Free all stored checkpoint snapshots. */
   void clearStack();
 
+  /** @brief Append an entry with the same settings for a further loop. */
+  Infos *copySettings() const;
+
   /** @brief Keep the current internal state as start of the reverse sweeps. */
   void keepStart();
 
diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index 1a75ead..bd995e1 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -136,6 +136,23 @@ revolve_action detail::Infos::nextAction() {
   return action;
 }
 
+detail::Infos *detail::Infos::copySettings() const {
+  Infos *copy = findTape(tapeId).cp_append();
+  copy->tapeId = tapeId;
+  copy->function = function;
+  copy->function_double = function_double;
+  copy->saveNonAdoubles = saveNonAdoubles;
+  copy->restoreNonAdoubles = restoreNonAdoubles;
+  copy->steps = steps;
+  copy->checkpoints = checkpoints;
+  copy->cpTapeId = cpTapeId;
+  copy->retaping = retaping;
+  copy->dim = dim;
+  copy->adp_x = adp_x;
+  copy->adp_y = adp_y;
+  return copy;
+}
+
 void detail::Infos::keepStart() {
   dropStart();
   readyForReverse = false;
@@ -705,7 +722,11 @@ void initExternalDiffFunction(ext_diff_fct *edf) {
 
 int Context::checkpointing(short tapeId) {
   // throws if input is invalid
-  checkInput(tapeId, cpInfos);
+  checkInput(tapeId, this->cpInfos);
+
+  // a recorded loop keeps its own settings, snapshots and start, the context
+  // can be set up for a further loop
+  detail::Infos *const cpInfos = this->cpInfos->copySettings();
 
   // register extern function
   ext_diff_fct *edf = reg_ext_fct(cpInfos->tapeId, cpInfos->cpTapeId,
-- 
2.43.0


From b8ee4c15cbf9ec5bc211ef69383169332ed26abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:18 +0000
Subject: [PATCH 31/69] fix: calls of one external function shared the
 locations of their variables

---
 ADOL-C/src/checkpointing.cpp   | 4 ++--
 ADOL-C/src/externfcts.cpp      | 6 +++---
 ADOL-C/src/fo_rev.cpp          | 8 ++++++++
 ADOL-C/src/ho_rev.cpp          | 4 ++++
 ADOL-C/src/tapedoc/tapedoc.cpp | 2 --
 ADOL-C/src/uni5_for.cpp        | 4 ++++
 6 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index bd995e1..e15f007 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -743,8 +743,8 @@ int Context::checkpointing(short tapeId) {
   tape.put_loc(edf->index);
   tape.put_loc(cpInfos->dim);
   tape.put_loc(cpInfos->dim);
-  edf->firstIndLocation = cpInfos->adp_x[0].loc();
-  edf->firstDepLocation = cpInfos->adp_y[0].loc();
+  tape.put_loc(cpInfos->adp_x[0].loc());
+  tape.put_loc(cpInfos->adp_y[0].loc());
 
   std::vector<double> vals(tape.store(), tape.store() + tape.storeSize());
 
diff --git a/ADOL-C/src/externfcts.cpp b/ADOL-C/src/externfcts.cpp
index 4461b88..f90d7de 100644
--- a/ADOL-C/src/externfcts.cpp
+++ b/ADOL-C/src/externfcts.cpp
@@ -72,9 +72,9 @@ void call_ext_fct_commonPrior(ext_diff_fct *edfct, int n, adouble *xa, int m,
 
   // store the index of the first location of input and output variables to
   // later find the right position to read (write) from (to) the taylor
-  // coefficient buffers
-  edfct->firstDepLocation = ya->loc();
-  edfct->firstIndLocation = xa->loc();
+  // coefficient buffers; they belong to this call as well
+  tape.put_loc(xa->loc());
+  tape.put_loc(ya->loc());
 
   if (edfct->nestedAdolc) {
     vals = new double[tape.storeSize()];
diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index c03ea62..d0d2b07 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -2640,10 +2640,14 @@ int int_reverse_safe(
 #if !defined(_INT_REV_)
       /*--------------------------------------------------------------------------*/
     case ext_diff: { /* extern differntiated function */
+      arg1 = tape.get_locint_r(); /* first dependent location */
+      arg = tape.get_locint_r();  /* first independent location */
       m = static_cast<int>(tape.get_locint_r());
       n = static_cast<int>(tape.get_locint_r());
       tape.ext_diff_fct_index(tape.get_locint_r());
       edfct = get_ext_diff_fct(tape.tapeId(), tape.ext_diff_fct_index());
+      edfct->firstIndLocation = arg;
+      edfct->firstDepLocation = arg1;
       edfct->q = nrows;
 
       if (edfct->ADOLC_EXT_FCT_POINTER == NULL)
@@ -2719,6 +2723,8 @@ int int_reverse_safe(
       break;
     }
     case ext_diff_iArr: /* extern differntiated function */
+      arg1 = tape.get_locint_r(); /* first dependent location */
+      arg = tape.get_locint_r();  /* first independent location */
       m = static_cast<int>(tape.get_locint_r());
       n = static_cast<int>(tape.get_locint_r());
       tape.ext_diff_fct_index(tape.get_locint_r());
@@ -2728,6 +2734,8 @@ int int_reverse_safe(
         iArr[loop - 1] = tape.get_locint_r();
       tape.get_locint_r(); /* get it again */
       edfct = get_ext_diff_fct(tape.tapeId(), tape.ext_diff_fct_index());
+      edfct->firstIndLocation = arg;
+      edfct->firstDepLocation = arg1;
       edfct->q = nrows;
 
       if (edfct->ADOLC_EXT_FCT_IARR_POINTER == NULL)
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index b7015c5..2664288 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -2876,10 +2876,14 @@ int hov_ti_reverse(
              "TODO: add nestedReverseEval accumulation semantics to ho_rev.cpp "
              "before supporting nested higher-order reverse passes.");
 
+      arg1 = tape.get_locint_r(); /* first dependent location */
+      arg = tape.get_locint_r();  /* first independent location */
       m = static_cast<int>(tape.get_locint_r());
       n = static_cast<int>(tape.get_locint_r());
       tape.ext_diff_fct_index(tape.get_locint_r());
       edfct = get_ext_diff_fct(tape.tapeId(), tape.ext_diff_fct_index());
+      edfct->firstIndLocation = arg;
+      edfct->firstDepLocation = arg1;
       edfct->q = nrows;
       /* degree is not known when registering external functions,
          so do memory allocation here (at least for now) */
diff --git a/ADOL-C/src/tapedoc/tapedoc.cpp b/ADOL-C/src/tapedoc/tapedoc.cpp
index 7182829..008f392 100644
--- a/ADOL-C/src/tapedoc/tapedoc.cpp
+++ b/ADOL-C/src/tapedoc/tapedoc.cpp
@@ -1281,7 +1281,6 @@ void tape_doc(short tnum,     /* tape id */
       loc_a[2] = tape.get_locint_f();     /* m */
       loc_a[3] = tape.get_locint_f();     /* xa[0].loc */
       loc_a[3] = tape.get_locint_f();     /* ya[0].loc */
-      loc_a[3] = tape.get_locint_f();     /* dummy */
       filewrite(operation, "extern diff", 3, loc_a, 0, cst_d);
       break;
 
@@ -1295,7 +1294,6 @@ void tape_doc(short tnum,     /* tape id */
       loc_a[2] = tape.get_locint_f();     /* m */
       loc_a[3] = tape.get_locint_f();     /* xa[0].loc */
       loc_a[3] = tape.get_locint_f();     /* ya[0].loc */
-      loc_a[3] = tape.get_locint_f();     /* dummy */
       filewrite(operation, "extern diff iArr", 3, loc_a, 0, cst_d);
       break;
     case ext_diff_v2:
diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index a9ffe7c..cd28864 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -5514,6 +5514,8 @@ int hov_forward(
       n = static_cast<int>(tape.get_locint_f());
       m = static_cast<int>(tape.get_locint_f());
       edfct = get_ext_diff_fct(tape.tapeId(), tape.ext_diff_fct_index());
+      edfct->firstIndLocation = tape.get_locint_f();
+      edfct->firstDepLocation = tape.get_locint_f();
       edfct->p = p;
       if (edfct->ADOLC_EXT_FCT_POINTER == nullptr)
         ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_NULLPOINTER_DIFFFUNC,
@@ -5560,6 +5562,8 @@ int hov_forward(
       n = static_cast<int>(tape.get_locint_f());
       m = static_cast<int>(tape.get_locint_f());
       edfct = get_ext_diff_fct(tape.tapeId(), tape.ext_diff_fct_index());
+      edfct->firstIndLocation = tape.get_locint_f();
+      edfct->firstDepLocation = tape.get_locint_f();
       edfct->p = p;
       if (edfct->ADOLC_EXT_FCT_IARR_POINTER == nullptr)
         ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_NULLPOINTER_DIFFFUNC,
-- 
2.43.0


From 96fc893e516882d15962565327aebb40f2effb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:49 +0000
Subject: [PATCH 32/69] fix: reverse sweeps over a checkpointed loop lost the
 adjoints of later uses of its input

---
 ADOL-C/src/checkpointing.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index e15f007..ad9431d 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -414,7 +414,7 @@ int hov_forward(size_t, short, size_t, double *, size_t, size_t, double ***,
 }
 
 int fos_reverse(size_t cpIndex, short tapeId, int m, int n, double *u,
-                double *z, double *, double *) {
+                double *z, const double *x, const double *y) {
 
   ValueTape &tape = findTape(tapeId);
 
@@ -491,14 +491,16 @@ int fos_reverse(size_t cpIndex, short tapeId, int m, int n, double *u,
   cpInfos->release(); // release first checkpoint if written
   tape.branchSwitchWarning(old_bsw);
 
-  // save results
-  std::copy(adjoint.begin(), adjoint.end(), z);
+  // save results; unless the loop has overwritten its input, the input may
+  // have got adjoints from later operations
+  for (int i = 0; i < n; ++i)
+    z[i] = x == y ? adjoint[i] : z[i] + adjoint[i];
 
   return 0;
 }
 
 int fov_reverse(size_t cpIndex, short tapeId, int m, int n, int q, double **Uq,
-                double **Zq, double *, double *) {
+                double **Zq, const double *x, const double *y) {
 
   ValueTape &tape = findTape(tapeId);
 
@@ -583,9 +585,11 @@ int fov_reverse(size_t cpIndex, short tapeId, int m, int n, int q, double **Uq,
   cpInfos->release();
   tape.branchSwitchWarning(old_bsw);
 
-  // save results
+  // save results; unless the loop has overwritten its input, the input may
+  // have got adjoints from later operations
   for (int row = 0; row < q; ++row)
-    std::copy(adjointRows[row], adjointRows[row] + n, Zq[row]);
+    for (int i = 0; i < n; ++i)
+      Zq[row][i] = x == y ? adjointRows[row][i] : Zq[row][i] + adjointRows[row][i];
   return 0;
 }
 
-- 
2.43.0


From 1944462dd804c9409018fb45561c0753f4855eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:25 +0000
Subject: [PATCH 33/69] fix: higher order reverse sweeps over external
 functions ended the program

---
 ADOL-C/src/ho_rev.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 2664288..8fbe4e7 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -2872,9 +2872,9 @@ int hov_ti_reverse(
     {
       // TODO: higher-order reverse does not yet honor nestedReverseEval the way
       // fo_rev.cpp does for nested reverse callbacks.
-      assert(false &&
-             "TODO: add nestedReverseEval accumulation semantics to ho_rev.cpp "
-             "before supporting nested higher-order reverse passes.");
+      ADOLCError::fail(ADOLCError::ErrorType::HO_OP_NOT_IMPLEMENTED,
+                       CURRENT_LOCATION,
+                       ADOLCError::FailInfo{.info7 = operation});
 
       arg1 = tape.get_locint_r(); /* first dependent location */
       arg = tape.get_locint_r();  /* first independent location */
-- 
2.43.0


From a8801bf9faa0dcdc75679ea1ab3d726d5aab5002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:28 +0000
Subject: [PATCH 34/69] fix: fixed-point iterations of different tapes were
 mixed up

---
 ADOL-C/src/fixpoint.cpp | 124 ++++++++++++----------------------------
 1 file changed, 38 insertions(+), 86 deletions(-)

diff --git a/ADOL-C/src/fixpoint.cpp b/ADOL-C/src/fixpoint.cpp
index 003438b..11b0e36 100644
--- a/ADOL-C/src/fixpoint.cpp
+++ b/ADOL-C/src/fixpoint.cpp
@@ -28,7 +28,6 @@
 /* F(x,u,y,dim_x,dim_u) */
 /* norm(x,dim_x)        */
 struct fpi_data {
-  size_t edf_index;
   short sub_tape_num;
   double_F double_func;
   adouble_F adouble_func;
@@ -40,11 +39,9 @@ struct fpi_data {
   size_t N_max_deriv;
 };
 
-static std::vector<fpi_data> fpi_stack;
-
-static int iteration(short, int dim_x, int dim_xu, double *xu, double *x_fix) {
+static int iteration(const fpi_data &current, int dim_x, int dim_xu, double *xu,
+                     double *x_fix) {
   double err;
-  const fpi_data &current = fpi_stack.back();
 
   for (int i = 0; i < dim_x; ++i)
     x_fix[i] = xu[i];
@@ -68,60 +65,13 @@ static int iteration(short, int dim_x, int dim_xu, double *xu, double *x_fix) {
   return -1;
 }
 
-static int fp_zos_forward(short tapeId, int dim_x, int dim_xu, int, double *xu,
-                          double *x_fix) {
-
-  ValueTape &tape = findTape(tapeId);
-  double err;
-  const size_t edf_index = tape.ext_diff_fct_index();
-
-  // Find fpi_stack element with index 'edf_index'.
-  auto current =
-      std::find_if(fpi_stack.begin(), fpi_stack.end(),
-                   [&](auto &&v) { return v.edf_index == edf_index; });
-
-  if (current == fpi_stack.end())
-    ADOLCError::fail(ADOLCError::ErrorType::FP_NO_EDF, CURRENT_LOCATION);
-
-  for (int i = 0; i < dim_x; ++i)
-    x_fix[i] = xu[i];
-
-  for (size_t k = 1; k <= current->N_max; ++k) {
-    for (int i = 0; i < dim_x; ++i)
-      xu[i] = x_fix[i];
-
-    current->double_func(xu, xu + dim_x, x_fix, dim_x, dim_xu - dim_x);
-
-    for (int i = 0; i < dim_x; ++i)
-      xu[i] = x_fix[i] - xu[i];
-
-    err = current->norm_func(xu, dim_x);
-    if (err < current->epsilon)
-      // this is bad... but the return type of all functions is fixed to "int"
-      // so it is converted implicitly anyway
-      return static_cast<int>(k);
-  }
-  return -1;
-}
-
-static int fp_fos_forward(short tapeId, int dim_x, int dim_xu, int keep,
-                          double *xu, double *xu_dot, double *x_fix,
+static int fp_fos_forward(const fpi_data &current, int dim_x, int dim_xu,
+                          int keep, double *xu, double *xu_dot, double *x_fix,
                           double *x_fix_dot) {
 
   // Piggy back
   double err, err_deriv;
-  ValueTape &tape = findTape(tapeId);
-
-  const size_t edf_index = tape.ext_diff_fct_index();
-
-  // Find fpi_stack element with index 'edf_index'.
-  auto current =
-      std::find_if(fpi_stack.begin(), fpi_stack.end(),
-                   [&](auto &&v) { return v.edf_index == edf_index; });
-
-  if (current == fpi_stack.end())
-    ADOLCError::fail(ADOLCError::ErrorType::FP_NO_EDF, CURRENT_LOCATION);
-  for (size_t k = 1; (k < current->N_max_deriv) || (k < current->N_max); ++k) {
+  for (size_t k = 1; (k < current.N_max_deriv) || (k < current.N_max); ++k) {
     if (k > 1) {
       for (int i = 0; i < dim_x; ++i)
         xu[i] = x_fix[i];
@@ -132,18 +82,18 @@ static int fp_fos_forward(short tapeId, int dim_x, int dim_xu, int keep,
 
     // type signatures of "external driver" and "normal" drivers are not aligned
     // thats why we have to cast...
-    fos_forward(current->sub_tape_num, static_cast<int>(dim_x),
+    fos_forward(current.sub_tape_num, static_cast<int>(dim_x),
                 static_cast<int>(dim_xu), keep, xu, xu_dot, x_fix, x_fix_dot);
 
     for (int i = 0; i < dim_x; ++i)
       xu[i] = x_fix[i] - xu[i];
 
-    err = current->norm_func(xu, dim_x);
+    err = current.norm_func(xu, dim_x);
     for (int i = 0; i < dim_x; ++i)
       xu_dot[i] = x_fix_dot[i] - xu_dot[i];
 
-    err_deriv = current->norm_deriv_func(xu_dot, dim_x);
-    if ((err < current->epsilon) && (err_deriv < current->epsilon_deriv)) {
+    err_deriv = current.norm_deriv_func(xu_dot, dim_x);
+    if ((err < current.epsilon) && (err_deriv < current.epsilon_deriv)) {
       // this is bad... but the return type of all functions is fixed to "int"
       // so it is converted implicitly anyway
       return static_cast<int>(k);
@@ -152,33 +102,21 @@ static int fp_fos_forward(short tapeId, int dim_x, int dim_xu, int keep,
   return -1;
 }
 
-static int fp_fos_reverse(short tapeId, int dim_x, int dim_xu,
-                          double *x_fix_bar, double *xu_bar, double *,
-                          double *) {
+static int fp_fos_reverse(const fpi_data &current, int dim_x, int dim_xu,
+                          double *x_fix_bar, double *xu_bar) {
   // (d x_fix) / (d x_0) = 0 (!)
 
   double err = 0.0;
-  ValueTape &tape = findTape(tapeId);
-  const size_t edf_index = tape.ext_diff_fct_index();
-
-  // Find fpi_stack element with index 'edf_index'.
-  auto current =
-      std::find_if(fpi_stack.begin(), fpi_stack.end(),
-                   [&](auto &&v) { return v.edf_index == edf_index; });
-
-  if (current == fpi_stack.end())
-    ADOLCError::fail(ADOLCError::ErrorType::FP_NO_EDF, CURRENT_LOCATION);
-
   double *U = new double[dim_xu];
   double *xi = new double[dim_x];
 
-  for (size_t k = 1; k < current->N_max_deriv; ++k) {
+  for (size_t k = 1; k < current.N_max_deriv; ++k) {
     for (int i = 0; i < dim_x; ++i)
       xi[i] = U[i];
 
     // type signatures of "external driver" and "normal" drivers are not aligned
     // thats why we have to cast...
-    fos_reverse(current->sub_tape_num, static_cast<int>(dim_x),
+    fos_reverse(current.sub_tape_num, static_cast<int>(dim_x),
                 static_cast<int>(dim_xu), xi, U);
 
     for (int i = 0; i < dim_x; ++i)
@@ -187,8 +125,8 @@ static int fp_fos_reverse(short tapeId, int dim_x, int dim_xu,
     for (int i = 0; i < dim_x; ++i)
       xi[i] = U[i] - xi[i];
 
-    err = current->norm_deriv_func(xi, dim_x);
-    if (err < current->epsilon_deriv) {
+    err = current.norm_deriv_func(xi, dim_x);
+    if (err < current.epsilon_deriv) {
       for (int i = 0; i < dim_xu - dim_x; ++i) {
         xu_bar[dim_x + i] += U[dim_x + i];
       }
@@ -216,14 +154,8 @@ int fp_iteration(short tapeId, short sub_tape_num, double_F double_func,
                  size_t dim_u) {
 
   // declare extern differentiated function and data
-  ext_diff_fct *edf_iteration = reg_ext_fct(tapeId, sub_tape_num, &iteration);
-  edf_iteration->zos_forward = &fp_zos_forward;
-  edf_iteration->fos_forward = &fp_fos_forward;
-  edf_iteration->fos_reverse = &fp_fos_reverse;
-
-  // add new fp information
-  fpi_stack.emplace_back(fpi_data{
-      edf_iteration->index,
+  // every iteration has its own data
+  const fpi_data data{
       sub_tape_num,
       double_func,
       adouble_func,
@@ -233,7 +165,27 @@ int fp_iteration(short tapeId, short sub_tape_num, double_F double_func,
       epsilon_deriv,
       N_max,
       N_max_deriv,
-  });
+  };
+  ext_diff_fct *edf_iteration =
+      reg_ext_fct(tapeId, sub_tape_num,
+                  ADOLC_ext_fct([data](short, int m, int n, double *xu,
+                                       double *xf) {
+                    return iteration(data, m, n, xu, xf);
+                  }));
+  edf_iteration->zos_forward = [data](short, int m, int n, int, double *xu,
+                                      double *xf) {
+    return iteration(data, m, n, xu, xf);
+  };
+  edf_iteration->fos_forward = [data](short, int m, int n, int keep, double *xu,
+                                      double *xu_dot, double *xf,
+                                      double *xf_dot) {
+    return fp_fos_forward(data, m, n, keep, xu, xu_dot, xf, xf_dot);
+  };
+  edf_iteration->fos_reverse = [data](short, int m, int n, double *xf_bar,
+                                      double *xu_bar, double *, double *) {
+    return fp_fos_reverse(data, m, n, xf_bar, xu_bar);
+  };
+
   std::vector<double> u_vals(dim_u);
   std::vector<double> x_vals(dim_x);
 
-- 
2.43.0


From 50942e643fdd169dd4351dde04dcfefeabc700e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:16 +0000
Subject: [PATCH 35/69] fix: reverse sweeps over a fixed-point iteration used
 the solution of its recording and uninitialised adjoints

---
 ADOL-C/src/fixpoint.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/ADOL-C/src/fixpoint.cpp b/ADOL-C/src/fixpoint.cpp
index 11b0e36..fc499b4 100644
--- a/ADOL-C/src/fixpoint.cpp
+++ b/ADOL-C/src/fixpoint.cpp
@@ -82,8 +82,11 @@ static int fp_fos_forward(const fpi_data &current, int dim_x, int dim_xu,
 
     // type signatures of "external driver" and "normal" drivers are not aligned
     // thats why we have to cast...
-    fos_forward(current.sub_tape_num, static_cast<int>(dim_x),
-                static_cast<int>(dim_xu), keep, xu, xu_dot, x_fix, x_fix_dot);
+    const int rc = fos_forward(current.sub_tape_num, static_cast<int>(dim_x),
+                               static_cast<int>(dim_xu), keep, xu, xu_dot,
+                               x_fix, x_fix_dot);
+    if (rc < 0)
+      return rc;
 
     for (int i = 0; i < dim_x; ++i)
       xu[i] = x_fix[i] - xu[i];
@@ -103,11 +106,22 @@ static int fp_fos_forward(const fpi_data &current, int dim_x, int dim_xu,
 }
 
 static int fp_fos_reverse(const fpi_data &current, int dim_x, int dim_xu,
-                          double *x_fix_bar, double *xu_bar) {
+                          double *x_fix_bar, double *xu_bar, const double *xu,
+                          const double *x_fix) {
   // (d x_fix) / (d x_0) = 0 (!)
 
   double err = 0.0;
-  double *U = new double[dim_xu];
+  // the iteration on the adjoints needs the step at the solution of the last
+  // forward sweep
+  std::vector<double> point(x_fix, x_fix + dim_x);
+  point.insert(point.end(), xu + dim_x, xu + dim_xu);
+  std::vector<double> step(dim_x);
+  const int rc = zos_forward(current.sub_tape_num, dim_x, dim_xu, 1,
+                             point.data(), step.data());
+  if (rc < 0)
+    return rc;
+
+  double *U = new double[dim_xu]();
   double *xi = new double[dim_x];
 
   for (size_t k = 1; k < current.N_max_deriv; ++k) {
@@ -182,8 +196,8 @@ int fp_iteration(short tapeId, short sub_tape_num, double_F double_func,
     return fp_fos_forward(data, m, n, keep, xu, xu_dot, xf, xf_dot);
   };
   edf_iteration->fos_reverse = [data](short, int m, int n, double *xf_bar,
-                                      double *xu_bar, double *, double *) {
-    return fp_fos_reverse(data, m, n, xf_bar, xu_bar);
+                                      double *xu_bar, double *xu, double *xf) {
+    return fp_fos_reverse(data, m, n, xf_bar, xu_bar, xu, xf);
   };
 
   std::vector<double> u_vals(dim_u);
-- 
2.43.0


From 7c0b1acbdbc14e9955e59b19617fd543509895de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:30 +0000
Subject: [PATCH 36/69] fix: an equality comparison hid the failure of an
 external function

---
 ADOL-C/src/uni5_for.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index cd28864..b0be7b1 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -1325,7 +1325,7 @@ int hov_forward(
         operation = end_of_tape;
         continue;
       }
-      ret_c = 0;
+      MINDEC(ret_c, 0);
 #endif /* !_NTIGHT_ */
       break;
 
@@ -1363,7 +1363,7 @@ int hov_forward(
         continue;
       }
       if (dp_T0[arg] == 0)
-        ret_c = 0;
+        MINDEC(ret_c, 0);
 #endif /* !_NTIGHT_ */
       break;
 
@@ -1401,7 +1401,7 @@ int hov_forward(
         continue;
       }
       if (dp_T0[arg] == 0)
-        ret_c = 0;
+        MINDEC(ret_c, 0);
 #endif /* !_NTIGHT_ */
       break;
 
-- 
2.43.0


From 9cbb4ba1acd09bf1933b61921b85ed25c3719c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:48 +0000
Subject: [PATCH 37/69] fix: a failed allocation left the location store with a
 size it does not have

The size of the store was raised before its memory was allocated, so that
a std::bad_alloc in between left a store that is smaller than recorded and
the next recording wrote behind it. Giving back a location also could throw
from a destructor.
---
 ADOL-C/src/storemanager.cpp | 103 ++++++++++++++++++------------------
 1 file changed, 51 insertions(+), 52 deletions(-)

diff --git a/ADOL-C/src/storemanager.cpp b/ADOL-C/src/storemanager.cpp
index 8c6af45..5d30717 100644
--- a/ADOL-C/src/storemanager.cpp
+++ b/ADOL-C/src/storemanager.cpp
@@ -22,6 +22,8 @@
 #include <cstring> // For memset
 #include <iostream>
 #include <limits>
+#include <memory>
+#include <new>
 #ifdef HAVE_UNISTD_H
 #include <unistd.h>
 #endif
@@ -136,21 +138,19 @@ void StoreManagerLocint::ensure_block(size_t) {
   ADOLCError::fail(ADOLCError::ErrorType::SM_LOCINT_BLOCK, CURRENT_LOCATION);
 }
 void StoreManagerLocint::grow(size_t mingrow) {
-  if (maxsize == 0)
-    maxsize += initialSize;
-  size_t const oldMaxsize = maxsize;
-  maxsize *= 2;
-  if (maxsize < mingrow)
-    maxsize = mingrow;
+  size_t const oldMaxsize = (maxsize == 0) ? initialSize : maxsize;
+  size_t newMaxsize = oldMaxsize * 2;
+  if (newMaxsize < mingrow)
+    newMaxsize = mingrow;
 
-  if (maxsize > std::numeric_limits<size_t>::max())
+  if (newMaxsize > std::numeric_limits<size_t>::max())
     ADOLCError::fail(
         ADOLCError::ErrorType::SM_MAX_LIVES, CURRENT_LOCATION,
         ADOLCError::FailInfo{.info5 = std::numeric_limits<size_t>::max()});
 
 #ifdef ADOLC_DEBUG
   std::cerr << "StoreManagerLocint::grow(): increase size from " << oldMaxsize
-            << " to " << maxsize << " entries (currently " << size()
+            << " to " << newMaxsize << " entries (currently " << size()
             << " entries used)\n";
   assert(oldMaxsize == initialSize or size() == oldMaxsize);
 #endif
@@ -166,15 +166,20 @@ void StoreManagerLocint::grow(size_t mingrow) {
 
 #if defined(ADOLC_DEBUG)
   std::cerr << "StoreManagerLocint::grow(): allocate "
-            << maxsize * sizeof(double) << " B doubles "
-            << "and " << maxsize * sizeof(size_t) << " B locints\n";
+            << newMaxsize * sizeof(double) << " B doubles "
+            << "and " << newMaxsize * sizeof(size_t) << " B locints\n";
 #endif
-  storePtr = new double[maxsize];
-  indexFree = new size_t[maxsize];
+  // allocate everything before anything is changed: a failing allocation has
+  // to leave the old, consistent state
+  std::unique_ptr<double[]> newStore(new double[newMaxsize]);
+  std::unique_ptr<size_t[]> newIndex(new size_t[newMaxsize]);
 #if defined(ADOLC_TRACK_ACTIVITY)
   if (activityTracking)
-    actStorePtr = new char[maxsize];
+    actStorePtr = new char[newMaxsize];
 #endif
+  storePtr = newStore.release();
+  indexFree = newIndex.release();
+  maxsize = newMaxsize;
   // we use index 0 as end-of-list marker
   size_t i = 1;
   storePtr[0] = std::numeric_limits<double>::quiet_NaN();
@@ -335,7 +340,13 @@ size_t StoreManagerLocintBlock::next_loc() {
   if (--front.size == 0) {
     if (next(indexFree.cbegin()) == indexFree.cend()) {
       front.next++;
-      grow();
+      try {
+        grow();
+      } catch (...) { // nothing was handed out
+        front.next--;
+        front.size++;
+        throw;
+      }
     } else
       indexFree.pop_front();
   } else
@@ -410,19 +421,15 @@ void StoreManagerLocintBlock::grow(size_t minGrow) {
   // first figure out what eventual size we want
   size_t const oldMaxsize = maxsize;
 
-  if (maxsize == 0) {
-    maxsize = initialSize;
-  } else {
-    maxsize *= 2;
-  }
+  size_t newMaxsize = (oldMaxsize == 0) ? initialSize : oldMaxsize * 2;
 
   if (minGrow > 0) {
-    while (maxsize - oldMaxsize < minGrow) {
-      maxsize *= 2;
+    while (newMaxsize - oldMaxsize < minGrow) {
+      newMaxsize *= 2;
     }
   }
 
-  if (maxsize > std::numeric_limits<size_t>::max())
+  if (newMaxsize > std::numeric_limits<size_t>::max())
     ADOLCError::fail(
         ADOLCError::ErrorType::SM_MAX_LIVES, CURRENT_LOCATION,
         ADOLCError::FailInfo{.info5 = std::numeric_limits<size_t>::max()});
@@ -430,7 +437,7 @@ void StoreManagerLocintBlock::grow(size_t minGrow) {
 #ifdef ADOLC_LOCDEBUG
   // index 0 is not used, means one slot less
   std::cerr << "StoreManagerLocintBlock::grow(): increase size from "
-            << oldMaxsize << " to " << maxsize << " entries (currently "
+            << oldMaxsize << " to " << newMaxsize << " entries (currently "
             << size() << " entries used)\n";
 #endif
 
@@ -442,17 +449,22 @@ void StoreManagerLocintBlock::grow(size_t minGrow) {
 #endif
 #if defined(ADOLC_LOCDEBUG)
   std::cerr << "StoreManagerLocintBlock::grow(): allocate "
-            << maxsize * sizeof(double) << " B doubles\n";
-#endif
-  storePtr = new double[maxsize];
-  assert(storePtr);
-  memset(storePtr, 0, maxsize * sizeof(double));
+            << newMaxsize * sizeof(double) << " B doubles\n";
+#endif
+  // allocate everything before anything is changed: a failing allocation has
+  // to leave the old, consistent state
+  decltype(indexFree) newBlock;
+  newBlock.emplace_front(oldMaxsize, (newMaxsize - oldMaxsize));
+  std::unique_ptr<double[]> newStore(new double[newMaxsize]);
+  memset(newStore.get(), 0, newMaxsize * sizeof(double));
 #if defined(ADOLC_TRACK_ACTIVITY)
   if (activityTracking) {
-    actStorePtr = new char[maxsize];
-    memset(actStorePtr, 0, maxsize * sizeof(char));
+    actStorePtr = new char[newMaxsize];
+    memset(actStorePtr, 0, newMaxsize * sizeof(char));
   }
 #endif
+  storePtr = newStore.release();
+  maxsize = newMaxsize;
 
   if (oldStore != NULL) { // not the first time
 #if defined(ADOLC_LOCDEBUG)
@@ -485,24 +497,14 @@ void StoreManagerLocintBlock::grow(size_t minGrow) {
   for (; iter != indexFree.end(); biter++, iter++) {
     if (iter->next + iter->size == oldMaxsize) {
       iter->size += (maxsize - oldMaxsize);
-      indexFree.emplace_front(*iter);
-      indexFree.erase_after(biter);
+      indexFree.splice_after(indexFree.before_begin(), indexFree, biter);
       foundTail = true;
       break;
     }
   }
 
-  if (!foundTail) {
-    indexFree.emplace_front(
-#if defined(_MSC_VER) && _MSC_VER <= 1800
-        FreeBlock(
-#endif
-            oldMaxsize, (maxsize - oldMaxsize)
-#if defined(_MSC_VER) && _MSC_VER <= 1800
-                )
-#endif
-    );
-  }
+  if (!foundTail)
+    indexFree.splice_after(indexFree.before_begin(), newBlock);
 
   biter = indexFree.before_begin();
   iter = indexFree.begin();
@@ -533,15 +535,12 @@ void StoreManagerLocintBlock::free_loc(size_t loc) {
     if (loc + 1 == front.next)
       front.next = loc;
   } else {
-    indexFree.emplace_front(
-#if defined(_MSC_VER) && _MSC_VER <= 1800
-        FreeBlock(
-#endif
-            loc, 1
-#if defined(_MSC_VER) && _MSC_VER <= 1800
-            )
-#endif
-    );
+    try {
+      indexFree.emplace_front(loc, 1);
+    } catch (const std::bad_alloc &) {
+      // called from destructors: without memory for the block the location is
+      // not used again
+    }
   }
 
   --currentfill;
-- 
2.43.0


From 238ecd44ae7e36ea5b7cc0091f57abbdaf6e818d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:19 +0000
Subject: [PATCH 38/69] fix: a fixed-point iteration that throws left its sub
 tape in recording mode

The step tape stayed in use and the variables of the iteration stayed alive,
so that neither of the tapes could be recorded again.
---
 ADOL-C/src/fixpoint.cpp | 80 +++++++++++++++++++++++------------------
 1 file changed, 45 insertions(+), 35 deletions(-)

diff --git a/ADOL-C/src/fixpoint.cpp b/ADOL-C/src/fixpoint.cpp
index fc499b4..1b23fea 100644
--- a/ADOL-C/src/fixpoint.cpp
+++ b/ADOL-C/src/fixpoint.cpp
@@ -21,6 +21,7 @@
 #include <adolc/fixpoint.h>
 #include <adolc/valuetape/valuetape.h>
 #include <algorithm>
+#include <memory>
 #include <vector>
 
 /*--------------------------------------------------------------------------*/
@@ -39,6 +40,17 @@ struct fpi_data {
   size_t N_max_deriv;
 };
 
+// sets the current tape for the lifetime of the object
+struct CurrentTapeScope {
+  const short previous{currentTape().tapeId()};
+
+  explicit CurrentTapeScope(short tapeId) { setCurrentTape(tapeId); }
+  ~CurrentTapeScope() { setCurrentTape(previous); }
+
+  CurrentTapeScope(const CurrentTapeScope &) = delete;
+  CurrentTapeScope &operator=(const CurrentTapeScope &) = delete;
+};
+
 static int iteration(const fpi_data &current, int dim_x, int dim_xu, double *xu,
                      double *x_fix) {
   double err;
@@ -206,12 +218,10 @@ int fp_iteration(short tapeId, short sub_tape_num, double_F double_func,
   ValueTape &tape = findTape(tapeId);
   // ensure that the adoubles are contiguous
   tape.ensureContiguousLocations(dim_x + dim_u);
-  // to reset old default later
-  const short last_default_tape_id = currentTape().tapeId();
   // ensure that the "new" allocates the adoubles for the "tape"
-  setCurrentTape(tape.tapeId());
+  const CurrentTapeScope scope(tapeId);
   // put x and u together
-  adouble *xu = new adouble[dim_x + dim_u];
+  std::unique_ptr<adouble[]> xu(new adouble[dim_x + dim_u]);
 
   for (size_t i = 0; i < dim_x; ++i)
     xu[i] = x_0[i];
@@ -219,8 +229,9 @@ int fp_iteration(short tapeId, short sub_tape_num, double_F double_func,
   for (size_t i = 0; i < dim_u; ++i)
     xu[dim_x + i] = u[i];
 
-  const int k = call_ext_fct(edf_iteration, static_cast<int>(dim_x + dim_u), xu,
-                             static_cast<int>(dim_x), x_fix);
+  const int k =
+      call_ext_fct(edf_iteration, static_cast<int>(dim_x + dim_u), xu.get(),
+                   static_cast<int>(dim_x), x_fix);
 
   // read out x_fix
   for (size_t i = 0; i < dim_x; ++i)
@@ -230,10 +241,10 @@ int fp_iteration(short tapeId, short sub_tape_num, double_F double_func,
   for (size_t i = 0; i < dim_u; ++i)
     u_vals[i] = xu[dim_x + i].value();
 
-  setCurrentTape(sub_tape_num);
+  const CurrentTapeScope subScope(sub_tape_num);
   currentTape().ensureContiguousLocations(2 * (dim_u + dim_x));
-  adouble *x_fix_new = new adouble[dim_u + dim_x];
-  adouble *xu_sub_tape = new adouble[dim_u + dim_x];
+  std::unique_ptr<adouble[]> x_fix_new(new adouble[dim_u + dim_x]);
+  std::unique_ptr<adouble[]> xu_sub_tape(new adouble[dim_u + dim_x]);
 
   // read out x_fix
   for (size_t i = 0; i < dim_x; ++i)
@@ -241,33 +252,32 @@ int fp_iteration(short tapeId, short sub_tape_num, double_F double_func,
 
   // tape near solution
   trace_on(sub_tape_num, 1);
-
-  for (size_t i = 0; i < dim_x; ++i)
-    // xu[i] <<= x_fix[i].value();
-    xu_sub_tape[i] <<= x_vals[i];
-
-  for (size_t i = 0; i < dim_u; ++i)
-    // xu[dim_x + i] <<= u[i].value();
-    xu_sub_tape[dim_x + i] <<= u_vals[i];
-
-  // IMPORTANT: Dont reuse x_fix here. The location of the x_fix's adoubles
-  // could change and the old locations are already stored on the tape. This
-  // would cause errors
-  adouble_func(xu_sub_tape, xu_sub_tape + dim_x, x_fix_new, dim_x, dim_u);
-
-  double dummy_out;
-  for (size_t i = 0; i < dim_x; ++i)
-    x_fix_new[i] >>= dummy_out;
-
+  try {
+    for (size_t i = 0; i < dim_x; ++i)
+      // xu[i] <<= x_fix[i].value();
+      xu_sub_tape[i] <<= x_vals[i];
+
+    for (size_t i = 0; i < dim_u; ++i)
+      // xu[dim_x + i] <<= u[i].value();
+      xu_sub_tape[dim_x + i] <<= u_vals[i];
+
+    // IMPORTANT: Dont reuse x_fix here. The location of the x_fix's adoubles
+    // could change and the old locations are already stored on the tape. This
+    // would cause errors
+    adouble_func(xu_sub_tape.get(), xu_sub_tape.get() + dim_x, x_fix_new.get(),
+                 dim_x, dim_u);
+
+    double dummy_out;
+    for (size_t i = 0; i < dim_x; ++i)
+      x_fix_new[i] >>= dummy_out;
+  } catch (...) {
+    // give up the recording of the step
+    findTape(sub_tape_num).abort_trace();
+    setCurrentTape(currentTapeStack().top());
+    currentTapeStack().pop();
+    throw;
+  }
   trace_off();
 
-  delete[] xu_sub_tape;
-  delete[] x_fix_new;
-
-  setCurrentTape(tapeId);
-  delete[] xu;
-  // reset default tape
-  setCurrentTape(last_default_tape_id);
-
   return k;
 }
-- 
2.43.0


From aa1ae582602eeb1a9e3b5a8b0132cecaa8988f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:19 +0000
Subject: [PATCH 39/69] fix: a failed allocation at the start of a recording
 left destroyed sparse infos

initSparse destroyed the object before the new one was constructed.
---
 ADOL-C/include/adolc/valuetape/valuetape.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ADOL-C/include/adolc/valuetape/valuetape.h b/ADOL-C/include/adolc/valuetape/valuetape.h
index 6c87079..24d00b8 100644
--- a/ADOL-C/include/adolc/valuetape/valuetape.h
+++ b/ADOL-C/include/adolc/valuetape/valuetape.h
@@ -78,11 +78,9 @@ class ADOLC_API ValueTape {
   ADOLC::Sparse::SparseHessInfos sHInfos_;
 
   void initSparse() {
-    sJInfos_.~SparseJacInfos();
-    new (&sJInfos_) ADOLC::Sparse::SparseJacInfos();
-
-    sHInfos_.~SparseHessInfos();
-    new (&sHInfos_) ADOLC::Sparse::SparseHessInfos();
+    // the new infos have to exist before the old ones are given up
+    sJInfos_ = ADOLC::Sparse::SparseJacInfos();
+    sHInfos_ = ADOLC::Sparse::SparseHessInfos();
   }
 #endif
 
-- 
2.43.0


From 00c142e0813ff89d2fd980f9be0591a1dc020ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:19 +0000
Subject: [PATCH 40/69] fix: failed recordings left dangling parameters behind

The parameters of an abandoned recording were counted as parameters of the
next one, and a failing allocation left the released array in place.
---
 ADOL-C/src/valuetape/valuetape.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 76d5d49..accd8f8 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -354,10 +354,10 @@ void ValueTape::start_trace() {
 
 void ValueTape::save_params() {
   tapestats(TapeInfos::NUM_PARAM, numparam());
-  if (paramstore())
-    delete[] paramstore();
-
-  paramstore(new double[tapestats(TapeInfos::NUM_PARAM)]);
+  // a failing allocation has to leave the old parameters intact
+  double *params = new double[tapestats(TapeInfos::NUM_PARAM)];
+  delete[] paramstore();
+  paramstore(params);
 
   // Sometimes we have pStore == nullptr and stats[TapeInfos::NUM_PARAM] == 0.
   // Calling memcpy with that is undefined behavior, and sanitizers will issue a
@@ -425,6 +425,8 @@ void ValueTape::abort_trace() {
   const short id = tapeId();
   tapeInfos_ = TapeInfos();
   tapeInfos_.tapeId_ = id;
+  // its parameters are no parameters of the next recording
+  free_all_taping_params();
 }
 
 /****************************************************************************/
-- 
2.43.0


From 0619310eb76a0d8d7ebe2cf23fee139234bdcf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:26 +0000
Subject: [PATCH 41/69] fix: a failing subscript of an advector lost the
 location of its reference

---
 ADOL-C/src/advector.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ADOL-C/src/advector.cpp b/ADOL-C/src/advector.cpp
index 10975cb..9c68f7f 100644
--- a/ADOL-C/src/advector.cpp
+++ b/ADOL-C/src/advector.cpp
@@ -473,6 +473,16 @@ adubref advector::operator[](const adouble &index) {
   ValueTape &tape = currentTape();
   const size_t idx = (size_t)trunc(fabs(index.value()));
   size_t locat = tape.next_loc();
+  // gives the location back if there will be no adubref to own it
+  struct LocationGuard {
+    ValueTape &tape;
+    size_t loc;
+    bool owns;
+    ~LocationGuard() {
+      if (owns)
+        tape.free_loc(loc);
+    }
+  } guard{tape, locat, true};
   size_t n = data_.size();
   if (tape.workMode() == TapeInfos::WRITE_ACCESS) {
     tape.put_op(subscript_ref);
@@ -491,6 +501,7 @@ adubref advector::operator[](const adouble &index) {
                      ADOLCError::FailInfo{.info5 = n, .info6 = idx});
 
   tape.set_ad_value(locat, static_cast<double>(data_[idx].loc()));
+  guard.owns = false;
   return adubref(locat, data_[idx].loc());
 }
 
-- 
2.43.0


From 74b3c1d536dc789d7f0697d47225956186d58b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:26 +0000
Subject: [PATCH 42/69] fix: leaving an empty or abandoned recording read no
 store and kept its parameters

trace_off with keep of a recording without variables read the value of a
location that does not exist; an abandoned recording did not release all
of its parameters.
---
 ADOL-C/src/valuetape/valuetape.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index accd8f8..aa5d65f 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -176,6 +176,10 @@ void ValueTape::take_stock() {
 size_t ValueTape::keep_stock() {
   size_t loc2;
 
+  // no location has ever been used
+  if (globalTapeVars_.storeSize == 0)
+    return 0;
+
   /* save all the final adoubles when finishing tracing */
   loc2 = globalTapeVars_.storeSize - 1;
 
@@ -422,11 +426,12 @@ void ValueTape::stop_trace(int flag) {
 /* Leave a recording that can not be completed.                             */
 /****************************************************************************/
 void ValueTape::abort_trace() {
+  // its parameters are no parameters of the next recording
+  tapestats(TapeInfos::NUM_PARAM, numparam());
+  free_all_taping_params();
   const short id = tapeId();
   tapeInfos_ = TapeInfos();
   tapeInfos_.tapeId_ = id;
-  // its parameters are no parameters of the next recording
-  free_all_taping_params();
 }
 
 /****************************************************************************/
-- 
2.43.0


From b359b0f7c117502c1c6c34895ecce4a38d5f343c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 43/69] fix: external functions wrote through a failed
 allocation

---
 ADOL-C/src/externfcts2.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/externfcts2.cpp b/ADOL-C/src/externfcts2.cpp
index 95d4028..2eda633 100644
--- a/ADOL-C/src/externfcts2.cpp
+++ b/ADOL-C/src/externfcts2.cpp
@@ -59,9 +59,13 @@ static void update_ext_fct_memory(ext_diff_fct_v2 *edfct, size_t nin,
                        2 * nout * m_osz) *
                           sizeof(double *) +
                       (2 * nin + 2 * nout) * sizeof(double **);
+    char *const newmem = (char *)malloc(totalmem);
+    if (newmem == nullptr)
+      ADOLCError::fail(ADOLCError::ErrorType::MALLOC_FAILED, CURRENT_LOCATION,
+                       ADOLCError::FailInfo{.info5 = totalmem});
     if (edfct->allmem != NULL)
       free(edfct->allmem);
-    edfct->allmem = (char *)malloc(totalmem);
+    edfct->allmem = newmem;
     memset(edfct->allmem, 0, totalmem);
     tmp = edfct->allmem;
     tmp = populate_dpp(&edfct->x, tmp, nin, m_isz);
-- 
2.43.0


From d8c43b9dfa2f948a06c6d5f6549bc600169aaa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 44/69] fix: reverse sweeps with a weight vector wrote through
 a failed allocation

---
 ADOL-C/src/interfaces.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/ADOL-C/src/interfaces.cpp b/ADOL-C/src/interfaces.cpp
index 45873d7..19f900f 100644
--- a/ADOL-C/src/interfaces.cpp
+++ b/ADOL-C/src/interfaces.cpp
@@ -17,6 +17,7 @@
 #include <adolc/adolcerror.h>
 #include <adolc/dvlparms.h>
 #include <adolc/interfaces.h>
+#include <vector>
 
 /****************************************************************************/
 /*                                                                   MACROS */
@@ -270,13 +271,10 @@ int reverse(short tag, int m, int n, int d, int q, double *U, double ***Z,
     ADOLCError::fail(ADOLCError::ErrorType::WRONG_DIM_U, CURRENT_LOCATION);
 
   else { /* olvo 980727 ??? */
-    /* double** upp = new double*[nrows]; */
-    double **upp = (double **)malloc(q * sizeof(double *));
+    std::vector<double *> upp(q);
     for (int i = 0; i < q; i++)
       upp[i] = &U[i];
-    rc = hov_reverse(tag, m, n, d, q, upp, Z, nz);
-    /* delete[] upp; */
-    free((char *)upp);
+    rc = hov_reverse(tag, m, n, d, q, upp.data(), Z, nz);
   }
   return rc;
 }
@@ -330,12 +328,10 @@ int reverse(short tag, int m, int n, int d, int q, double *U, double **Z)
     ADOLCError::fail(ADOLCError::ErrorType::WRONG_DIM_U, CURRENT_LOCATION);
   else { /* olvo 980727 ??? */
     /* double ** upp = new double*[nrows]; */
-    double **upp = (double **)malloc(q * sizeof(double *));
+    std::vector<double *> upp(q);
     for (int i = 0; i < q; i++)
       upp[i] = &U[i];
-    rc = fov_reverse(tag, m, n, q, upp, Z);
-    /* delete[] upp; */
-    free((char *)upp);
+    rc = fov_reverse(tag, m, n, q, upp.data(), Z);
   }
 
   return rc;
-- 
2.43.0


From c1b2624035995fbc8290bf6feab7343ef9c65804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:28 +0000
Subject: [PATCH 45/69] fix: zos_forward did not report fabs at zero

---
 ADOL-C/src/uni5_for.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index b0be7b1..ae19d75 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -3891,6 +3891,11 @@ int hov_forward(
         if (coval == 0.0)
           MINDEC(ret_c, 2);
       }
+#if defined(_ZOS_) && !defined(_ABS_NORM_) && !defined(_ABS_NORM_SIG_)
+      // sweeps with derivatives look at the direction (below)
+      else if (dp_T0[arg] == 0.0)
+        MINDEC(ret_c, 1);
+#endif
 #if defined(_ABS_NORM_) || defined(_ABS_NORM_SIG_)
       tape.signature()[switchnum] = dp_T0[arg];
       swargs[switchnum] = dp_T0[arg];
-- 
2.43.0


From 66f1f60a8cc4ab212da02de4fbd0617691e40406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:07 +0000
Subject: [PATCH 46/69] fix: EDFobject_iArr could not be called while recording

The plain wrapper was registered in place of the one for integer arrays, and the
tape ids were left at 0.
---
 ADOL-C/src/externfcts.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/externfcts.cpp b/ADOL-C/src/externfcts.cpp
index f90d7de..01c978a 100644
--- a/ADOL-C/src/externfcts.cpp
+++ b/ADOL-C/src/externfcts.cpp
@@ -279,7 +279,7 @@ void EDFobject::init_edf(EDFobject *ebase, short outerTapeId, short extTapeId) {
   edf->fov_reverse = edfoo_wrapper_fov_reverse;
 }
 
-[[maybe_unused]] static int
+static int
 edfoo_iarr_wrapper_function(short tapeId, size_t iArrLength, size_t *iArr,
                             int m, int n, double *x, double *y) {
   ext_diff_fct *edf;
@@ -361,8 +361,10 @@ static int edfoo_iarr_wrapper_fov_reverse(short tapeId, size_t iArrLength,
 void EDFobject_iArr::init_edf(EDFobject_iArr *ebase) {
   ValueTape &tape = currentTape();
   edf = tape.ext_diff_append();
+  edf->tapeId = tape.tapeId();
+  edf->extTapeId = tape.tapeId();
   edf->obj = reinterpret_cast<void *>(ebase);
-  edf->function = edfoo_wrapper_function;
+  edf->function_iArr = edfoo_iarr_wrapper_function;
   edf->zos_forward_iArr = edfoo_iarr_wrapper_zos_forward;
   edf->fos_forward_iArr = edfoo_iarr_wrapper_fos_forward;
   edf->fov_forward_iArr = edfoo_iarr_wrapper_fov_forward;
-- 
2.43.0


From f3a5cdd6e9406bec9e4eab78fbfbcdcdd9ee4c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:57 +0000
Subject: [PATCH 47/69] fix: TAPE_DIR was ignored if the name of the directory
 begins with a digit

---
 ADOL-C/src/valuetape/valuetape.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index aa5d65f..1397864 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -805,10 +805,12 @@ std::array<std::string, 4> ValueTape::readConfigFile() {
           base = 10;
         }
         number = strtoul(start, &end, base);
-        if (end == start) {
+        // the name of a directory may begin with a digit
+        const bool isTapeDir = std::strncmp(pos1 + 1, "TAPE_DIR\"", 9) == 0;
+        if (end == start || isTapeDir) {
           *pos2 = 0;
           *pos4 = 0;
-          if (std::strcmp(pos1 + 1, "TAPE_DIR") == 0) {
+          if (isTapeDir) {
             struct stat st;
             int err;
             path = pos3 + 1;
-- 
2.43.0


From 3e720ba86c46a49f8d5919ab3e47d8819b42346c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:52 +0000
Subject: [PATCH 48/69] fix: unusable buffer sizes in .adolcrc crashed or hung
 the process

---
 ADOL-C/src/valuetape/valuetape.cpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 1397864..3d27e55 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -6,6 +6,10 @@
 #include <adolc/valuetape/tapeinfos.h>
 #include <adolc/valuetape/valuetape.h>
 #include <cassert>
+#include <cerrno>
+#include <cstdlib>
+#include <cstring>
+#include <limits>
 #include <memory>
 #include <string>
 #include <sys/stat.h> // used in readconfigFile
@@ -804,7 +808,13 @@ std::array<std::string, 4> ValueTape::readConfigFile() {
           start = pos3 + 1;
           base = 10;
         }
+        errno = 0;
         number = strtoul(start, &end, base);
+        // something that is negative, too large or followed by other characters
+        // is no size
+        const bool noSize =
+            errno == ERANGE || end != pos4 || std::memchr(start, '-', static_cast<size_t>(end - start)) != nullptr ||
+            number > std::numeric_limits<size_t>::max() / (4 * sizeof(double));
         // the name of a directory may begin with a digit
         const bool isTapeDir = std::strncmp(pos1 + 1, "TAPE_DIR\"", 9) == 0;
         if (end == start || isTapeDir) {
@@ -842,7 +852,20 @@ std::array<std::string, 4> ValueTape::readConfigFile() {
         } else {
           *pos2 = 0;
           *pos4 = 0;
-          if (std::strcmp(pos1 + 1, "OBUFSIZE") == 0) {
+          // a buffer must be able to hold everything that belongs to one operation
+          size_t minimum = 0;
+          if (std::strcmp(pos1 + 1, "OBUFSIZE") == 0)
+            minimum = 3;
+          else if (std::strcmp(pos1 + 1, "LBUFSIZE") == 0)
+            minimum = statSpace + maxLocsPerOp();
+          else if (std::strcmp(pos1 + 1, "VBUFSIZE") == 0)
+            minimum = 5;
+          else if (std::strcmp(pos1 + 1, "TBUFSIZE") == 0)
+            minimum = 1;
+          if (noSize || number < minimum) {
+            fprintf(DIAG_OUT,
+                    "ADOL-C warning: Unusable size in .adolcrc ignored!\n");
+          } else if (std::strcmp(pos1 + 1, "OBUFSIZE") == 0) {
             operationBufferSize(number);
             fprintf(DIAG_OUT, "Found operation buffer size: %zu\n", number);
           } else if (std::strcmp(pos1 + 1, "LBUFSIZE") == 0) {
-- 
2.43.0


From b2c22bc15d87bf1f8137019098da3ff61df3d337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:44 +0000
Subject: [PATCH 49/69] fix: large_jacobian left the arrays if the runs did not
 divide the independents evenly

---
 ADOL-C/src/drivers/drivers.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/ADOL-C/src/drivers/drivers.cpp b/ADOL-C/src/drivers/drivers.cpp
index af6178e..86f30ed 100644
--- a/ADOL-C/src/drivers/drivers.cpp
+++ b/ADOL-C/src/drivers/drivers.cpp
@@ -104,7 +104,7 @@ int jacobian(short tag, int depen, int indep, const double *argument,
 
 int large_jacobian(short tag, int depen, int indep, int runns, double *argument,
                    double *result, double **jacobian) {
-  int rc, dirs, i;
+  int rc = 3, dirs, i;
   double **I;
 
   I = myallocI2(indep);
@@ -115,13 +115,12 @@ int large_jacobian(short tag, int depen, int indep, int runns, double *argument,
   dirs = indep / runns;
   if (indep % runns)
     ++dirs;
-  for (i = 0; i < runns - 1; ++i) {
-    rc = fov_offset_forward(tag, depen, indep, dirs, i * dirs, argument, I,
-                            result, jacobian);
+  // the last of the runs has the directions that remain
+  for (i = 0; i < indep && rc >= 0; i += dirs) {
+    MINDEC(rc, fov_offset_forward(tag, depen, indep,
+                                  i + dirs > indep ? indep - i : dirs, i,
+                                  argument, I, result, jacobian));
   }
-  dirs = indep - (runns - 1) * dirs;
-  rc = fov_offset_forward(tag, depen, indep, dirs, indep - dirs, argument, I,
-                          result, jacobian);
   myfreeI2(indep, I);
   return rc;
 }
-- 
2.43.0


From c9d289c4b1717dd49990a600b65c2fd6baa96fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:44 +0000
Subject: [PATCH 50/69] fix: vec_jac with repeat reported failure although it
 delivers the result

---
 ADOL-C/src/drivers/drivers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/drivers/drivers.cpp b/ADOL-C/src/drivers/drivers.cpp
index 86f30ed..ae99b2d 100644
--- a/ADOL-C/src/drivers/drivers.cpp
+++ b/ADOL-C/src/drivers/drivers.cpp
@@ -54,7 +54,7 @@ int gradient(short tag, int n, const double *argument, double *result) {
 /* vec_jac(tag, m, n, repeat, x[n], u[m], v[n])                             */
 int vec_jac(short tag, int m, int n, int repeat, const double *argument,
             const double *lagrange, double *row) {
-  int rc = -1;
+  int rc = 3;
   double *y = NULL;
 
   if (!repeat) {
-- 
2.43.0


From a44a1a03796075d9f6bfa1b191879832ee716c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:54 +0000
Subject: [PATCH 51/69] fix: jac_solv used factorizations that were not
 computed for the current trace, parameters or argument

---
 ADOL-C/src/drivers/taylor.cpp      | 12 +++++++++++-
 ADOL-C/src/valuetape/valuetape.cpp |  4 ++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/drivers/taylor.cpp b/ADOL-C/src/drivers/taylor.cpp
index 8f95566..422278b 100644
--- a/ADOL-C/src/drivers/taylor.cpp
+++ b/ADOL-C/src/drivers/taylor.cpp
@@ -460,13 +460,21 @@ int jac_solv(unsigned short tag, int n, const double *x, double *b,
       tape.jacSolv_xold()[i] = x[i];
       newX = 1;
     }
+  // what is stored is a factorization only after it has been computed
+  // successfully for the current argument
+  if (newX == 1 || mode < 2)
+    tape.jacSolv_modeold(0);
   switch (mode) {
   case 0:
     MINDEC(rc, zos_forward(tag, n, n, 1, x, y));
+    if (rc < 0)
+      break;
     MINDEC(rc, fov_reverse(tag, n, n, n, tape.jacSolv_I(), tape.jacSolv_J()));
     break;
   case 1:
     MINDEC(rc, zos_forward(tag, n, n, 1, x, y));
+    if (rc < 0)
+      break;
     MINDEC(rc, fov_reverse(tag, n, n, n, tape.jacSolv_I(), tape.jacSolv_J()));
     if (LUFactorization(tape.jacSolv_J(), n, tape.jacSolv_ri(),
                         tape.jacSolv_ci()) < 0) {
@@ -476,8 +484,10 @@ int jac_solv(unsigned short tag, int n, const double *x, double *b,
     tape.jacSolv_modeold(1);
     break;
   case 2:
-    if ((tape.jacSolv_modeold() < 1) || (newX == 1)) {
+    if (tape.jacSolv_modeold() < 1) {
       MINDEC(rc, zos_forward(tag, n, n, 1, x, y));
+      if (rc < 0)
+        break;
       MINDEC(rc, fov_reverse(tag, n, n, n, tape.jacSolv_I(), tape.jacSolv_J()));
       if (LUFactorization(tape.jacSolv_J(), n, tape.jacSolv_ri(),
                           tape.jacSolv_ci()) < 0) {
diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 3d27e55..37c3e5f 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -77,6 +77,8 @@ int ValueTape::initNewTape() {
   initTapeInfos_keep();
   // must be after initTapeInfos_keep, to not get overwritten!
   workMode(TapeInfos::WRITE_ACCESS);
+  // a factorized Jacobian belongs to the old trace
+  jacSolv_modeold(0);
 #ifdef ADOLC_SPARSE
   initSparse();
 #endif
@@ -618,6 +620,8 @@ void ValueTape::set_param_vec(short tag, size_t numparam,
   for (size_t i = 0; i < tapestats(TapeInfos::NUM_PARAM); ++i)
     paramstore_view[i] = paramvec[i];
 
+  // a factorized Jacobian belongs to the old parameters
+  jacSolv_modeold(0);
   finish_tay_file();
 }
 
-- 
2.43.0


From 638b967dedb61d0801d9e0ec2ecda1618c75403c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:28 +0000
Subject: [PATCH 52/69] fix: inverse_tensor_eval used the dimension of the
 previous call after a change of degree or directions

---
 ADOL-C/src/drivers/taylor.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ADOL-C/src/drivers/taylor.cpp b/ADOL-C/src/drivers/taylor.cpp
index 422278b..99672c4 100644
--- a/ADOL-C/src/drivers/taylor.cpp
+++ b/ADOL-C/src/drivers/taylor.cpp
@@ -655,8 +655,7 @@ int inverse_tensor_eval(short tag, int n, int d, int p, double *x,
     dim = binomi(p + d - 1, d);
     if ((d != dold) || (p != pold)) {
       if (pold) { /* olvo 980728 */
-        dim = binomi(pold + dold - 1, dold);
-        freecoefflist(dim, coeff_list);
+        freecoefflist(binomi(pold + dold - 1, dold), coeff_list);
         free((char *)coeff_list);
       }
       coeff_list = (struct item *)malloc(sizeof(struct item) * dim);
-- 
2.43.0


From 05e7f37ab1328f379a9521bfff44051766e539fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:36 +0000
Subject: [PATCH 53/69] fix: inverse_Taylor_prop used the base point and
 factorization of the previous call or trace

---
 ADOL-C/src/drivers/taylor.cpp | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/ADOL-C/src/drivers/taylor.cpp b/ADOL-C/src/drivers/taylor.cpp
index 99672c4..3068288 100644
--- a/ADOL-C/src/drivers/taylor.cpp
+++ b/ADOL-C/src/drivers/taylor.cpp
@@ -515,7 +515,7 @@ int inverse_Taylor_prop(short tag, int n, int d, double **Y, double **X) {
   static double *w;
   static int *dd;
   static double *b;
-  static int nax, dax, bd, cgd;
+  static int nax, dax, bd;
   static short **nonzero;
   short *nz;
   double *Aij;
@@ -550,11 +550,9 @@ int inverse_Taylor_prop(short tag, int n, int d, double **Y, double **X) {
     for (i = 0; i < n; i++) {
       nonzero[i] = nz;
       nz = nz + n;
-      xold[i] = 0;
       for (j = 0; j < n; j++)
         I[i][j] = (i == j) ? 1.0 : 0.0;
     }
-    cgd = 1;
     nax = n;
     dax = d;
     dd[0] = d + 1;
@@ -563,20 +561,14 @@ int inverse_Taylor_prop(short tag, int n, int d, double **Y, double **X) {
       dd[i + 1] = (int)ceil(dd[i] * 0.5);
     bd = i + 1;
   }
-  if (cgd == 0)
-    for (i = 0; i < n; i++)
-      if (X[i][0] != xold[i])
-        cgd = 1;
-  for (i = 0; i < n; i++)
+  for (i = 0; i < n; i++) {
     b[i] = 0;
-  if (cgd == 1) {
-    cgd = 0;
-    for (i = 0; i < n; i++)
-      xold[i] = X[i][0];
-    MINDEC(rc, jac_solv(tag, n, xold, b, 1));
-    if (rc == -3)
-      return -3;
+    xold[i] = X[i][0];
   }
+  // the trace may have changed even if the argument has not
+  MINDEC(rc, jac_solv(tag, n, xold, b, 2));
+  if (rc < 0)
+    return rc;
   ii = bd;
   for (i = 0; i < n; i++) {
     for (j = 0; j < d; j++) {
-- 
2.43.0


From 8e9044079e7b8b14f3fe3d54b476517461efca97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:10 +0000
Subject: [PATCH 54/69] fix: lie_gradient and lie_covector of degree one used
 the wrong Taylor coefficients

---
 ADOL-C/src/lie/adolc_lie_c.cpp | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/ADOL-C/src/lie/adolc_lie_c.cpp b/ADOL-C/src/lie/adolc_lie_c.cpp
index 42e81ba..615f877 100644
--- a/ADOL-C/src/lie/adolc_lie_c.cpp
+++ b/ADOL-C/src/lie/adolc_lie_c.cpp
@@ -272,8 +272,6 @@ int lie_gradientcv(short Tape_F, short Tape_H, short n, short m, double *x0,
 
   double *x = myalloc1(n);
   double *y = myalloc1(m);
-  double *xp = myalloc1(n);
-  double *yp = myalloc1(m);
 
   static int depax_m, depax_n;
   static double **In;
@@ -305,12 +303,8 @@ int lie_gradientcv(short Tape_F, short Tape_H, short n, short m, double *x0,
   /* prepare for input   */
   for (i = 0; i < n; i++) {
     x[i] = X[i][0];
-    if (d == 1) {
-      xp[i] = X[i][1];
-    } else {
-      for (k = 0; k < d; k++) {
-        X[i][k] = X[i][k + 1];
-      }
+    for (k = 0; k < d; k++) {
+      X[i][k] = X[i][k + 1];
     }
   }
 
@@ -338,8 +332,6 @@ int lie_gradientcv(short Tape_F, short Tape_H, short n, short m, double *x0,
 
   myfree1(x);
   myfree1(y);
-  myfree1(xp);
-  myfree1(yp);
 
   return rc;
 }
@@ -394,8 +386,6 @@ int lie_covector(short int Tape_F, short int Tape_W, short int n, double *x0,
 
   double *x = myalloc1(n);
   double *y = myalloc1(m);
-  double *xp = myalloc1(n);
-  double *yp = myalloc1(m);
 
   int i = 0, k = 0;
 
@@ -425,22 +415,16 @@ int lie_covector(short int Tape_F, short int Tape_W, short int n, double *x0,
   /* prepare for input */
   for (i = 0; i < n; i++) {
     x[i] = X[i][0];
-    if (d == 1)
-      xp[i] = X[i][1];
-    else
-      for (k = 0; k < d; k++)
-        X[i][k] = X[i][k + 1];
+    for (k = 0; k < d; k++)
+      X[i][k] = X[i][k + 1];
   }
 
   hos_forward(Tape_W, m, n, d, d + 1, x, X, y, Y);
 
   /* postprocess output of hos_forward  */
   for (i = 0; i < m; i++) {
-    if (d == 1)
-      Y[i][1] = yp[i];
-    else
-      for (k = d; k > 0; k--)
-        Y[i][k] = Y[i][k - 1];
+    for (k = d; k > 0; k--)
+      Y[i][k] = Y[i][k - 1];
     Y[i][0] = y[i];
   }
 
@@ -454,8 +438,6 @@ int lie_covector(short int Tape_F, short int Tape_W, short int n, double *x0,
 
   myfree1(x);
   myfree1(y);
-  myfree1(xp);
-  myfree1(yp);
 
   return -1;
 }
-- 
2.43.0


From aa374f43d72ece93956b369720244adf48afab16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:27 +0000
Subject: [PATCH 55/69] fix: accodec gave wrong results if input and output
 tensor coincide

---
 ADOL-C/src/drivers/odedrivers.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ADOL-C/src/drivers/odedrivers.cpp b/ADOL-C/src/drivers/odedrivers.cpp
index 2b506ff..65aae84 100644
--- a/ADOL-C/src/drivers/odedrivers.cpp
+++ b/ADOL-C/src/drivers/odedrivers.cpp
@@ -180,6 +180,16 @@ void accodec(int n,           /* space dimension */
 
   int i, j, k, m, p, nzip, nzpj, isum;
   double *Aip, *Bpj, scale, sum;
+  double ***copyA = nullptr;
+  if (A == B) /* the partial Jacobians are needed until the end */
+  {
+    copyA = myalloc3(n, n, deg + 1);
+    for (i = 0; i < n; i++)
+      for (j = 0; j < n; j++)
+        for (k = 0; k <= deg; k++)
+          copyA[i][j][k] = A[i][j][k];
+    A = copyA;
+  }
   for (k = 0; k <= deg; k++) /* Lets calculate B_k */
   {
     scale = tau / (1.0 + k);
@@ -228,6 +238,8 @@ void accodec(int n,           /* space dimension */
         }
     }
   }
+  if (copyA)
+    myfree3(copyA);
 }
 
 END_C_DECLS
-- 
2.43.0


From 513d1054bcdcd886cb567f24273770add9e5576b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:39 +0000
Subject: [PATCH 56/69] fix: forodec_ and accodec_ freed memory they did not
 own and used wrong dimensions

---
 ADOL-C/src/drivers/odedriversf.cpp | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/ADOL-C/src/drivers/odedriversf.cpp b/ADOL-C/src/drivers/odedriversf.cpp
index da26887..04fc429 100644
--- a/ADOL-C/src/drivers/odedriversf.cpp
+++ b/ADOL-C/src/drivers/odedriversf.cpp
@@ -39,15 +39,12 @@ fint forodec_(fint *ftag,    /* tape identifier */
   short tag = static_cast<short>(*ftag);
   int n = static_cast<int>(*fn), dol = static_cast<int>(*fdol),
       deg = static_cast<int>(*fdeg);
-  int i;
   double tau = *ftau;
   double **Y = myalloc2(n, deg + 1);
-  for (i = 0; i < n; i++)
-    *Y[i] = fy[i];
+  spread2(n, deg + 1, fy, Y);
   rc = forodec(tag, n, tau, dol, deg, Y);
   pack2(n, deg + 1, Y, fy);
-  free((char *)*Y);
-  free((char *)Y);
+  myfree2(Y);
   return rc;
 }
 
@@ -63,17 +60,13 @@ fint accodec_(fint *fn,      /* space dimension */
   int rc = 1;
   int n = static_cast<int>(*fn), deg = static_cast<int>(*fdeg);
   double tau = *ftau;
-  double ***A = myalloc3(n, n, deg);
-  double ***B = myalloc3(n, n, deg);
-  spread3(n, n, deg, fa, A);
+  double ***A = myalloc3(n, n, deg + 1);
+  double ***B = myalloc3(n, n, deg + 1);
+  spread3(n, n, deg + 1, fa, A);
   accodec(n, tau, deg, A, B, 0);
-  pack3(n, n, deg, B, fb);
-  free((char *)**A);
-  free((char *)*A);
-  free((char *)A);
-  free((char *)**B);
-  free((char *)*B);
-  free((char *)B);
+  pack3(n, n, deg + 1, B, fb);
+  myfree3(A);
+  myfree3(B);
   return rc;
 }
 
-- 
2.43.0


From ede563f9f93b05771bd9c18f20cfbf32dbbfa5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:18 +0000
Subject: [PATCH 57/69] fix: hessian2 and hess_mat ran the reverse sweep
 although the forward sweep had refused the point

---
 ADOL-C/src/drivers/drivers.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/ADOL-C/src/drivers/drivers.cpp b/ADOL-C/src/drivers/drivers.cpp
index ae99b2d..32f1801 100644
--- a/ADOL-C/src/drivers/drivers.cpp
+++ b/ADOL-C/src/drivers/drivers.cpp
@@ -176,11 +176,14 @@ int hess_mat(short tag, int n, int q, const double *argument,
   Upp[0][1] = 0;
 
   rc = hov_wk_forward(tag, 1, n, 1, 2, q, argument, Xppp, &y, Yppp);
-  MINDEC(rc, hos_ov_reverse(tag, 1, n, 1, q, Upp, Zppp));
+  // there is nothing to reverse if the point is not valid for this trace
+  if (rc >= 0) {
+    MINDEC(rc, hos_ov_reverse(tag, 1, n, 1, q, Upp, Zppp));
 
-  for (i = 0; i < q; ++i)
-    for (j = 0; j < n; ++j)
-      result[j][i] = Zppp[i][j][1];
+    for (i = 0; i < q; ++i)
+      for (j = 0; j < n; ++j)
+        result[j][i] = Zppp[i][j][1];
+  }
 
   myfree2(Upp);
   myfree3(Zppp);
@@ -244,11 +247,14 @@ int hessian2(short tag, int n, double *argument, double **hess) {
   Upp[0][1] = 0;
 
   rc = hov_wk_forward(tag, 1, n, 1, 2, n, argument, Xppp, y, Yppp);
-  MINDEC(rc, hos_ov_reverse(tag, 1, n, 1, n, Upp, Zppp));
+  // there is nothing to reverse if the point is not valid for this trace
+  if (rc >= 0) {
+    MINDEC(rc, hos_ov_reverse(tag, 1, n, 1, n, Upp, Zppp));
 
-  for (i = 0; i < n; i++)
-    for (j = 0; j <= i; j++)
-      hess[i][j] = Zppp[i][j][1];
+    for (i = 0; i < n; i++)
+      for (j = 0; j <= i; j++)
+        hess[i][j] = Zppp[i][j][1];
+  }
 
   myfree2(Upp);
   myfree3(Zppp);
-- 
2.43.0


From 15dcb9f1a7113db8602d8baee2c0ae205423c7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:31 +0000
Subject: [PATCH 58/69] fix: bit pattern propagation did not provide the rows
 of dependents without dependencies

---
 ADOL-C/src/sparse/sparsedrivers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/sparse/sparsedrivers.cpp b/ADOL-C/src/sparse/sparsedrivers.cpp
index 20d775f..e41deec 100644
--- a/ADOL-C/src/sparse/sparsedrivers.cpp
+++ b/ADOL-C/src/sparse/sparsedrivers.cpp
@@ -44,7 +44,8 @@ void extract(size_t wordIdx, size_t stripIdx, size_t currentStripWordIdx,
   size_t numNonzeros = std::accumulate(data.indepWordHasNonzero_.begin(),
                                        data.indepWordHasNonzero_.end(), 0UL);
 
-  if (numNonzeros > 0) {
+  // the first strip provides the row even if it is empty
+  if (numNonzeros > 0 || stripIdx == 0) {
     uint *row = nullptr;
     if (stripIdx == 0) {
       row = new uint[numNonzeros + 1];
-- 
2.43.0


From 58e9ae96bdd5486d8dccd7cac96d93660d7f5938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:35 +0000
Subject: [PATCH 59/69] fix: generate_seed_jac did nothing depending on how the
 program was compiled

---
 ADOL-C/include/adolc/sparse/sparsedrivers.h  | 4 ++++
 ADOL-C/include/adolc/valuetape/sparseinfos.h | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/ADOL-C/include/adolc/sparse/sparsedrivers.h b/ADOL-C/include/adolc/sparse/sparsedrivers.h
index aebf718..165d23c 100644
--- a/ADOL-C/include/adolc/sparse/sparsedrivers.h
+++ b/ADOL-C/include/adolc/sparse/sparsedrivers.h
@@ -148,6 +148,10 @@ template <BitPatternPropagationDirection BPPD> struct BvpData {
  * Safe mode).
  */
 template <ControlFlowMode CFM> void checkBVPInput(const double *) {};
+// the definition is part of the library
+template <>
+ADOLC_API void checkBVPInput<ControlFlowMode::Tight>(const double *basepoint);
+
 
 /**
  * @brief Resets all entries in the compressed row storage pointer array to
diff --git a/ADOL-C/include/adolc/valuetape/sparseinfos.h b/ADOL-C/include/adolc/valuetape/sparseinfos.h
index c0b6899..6420de6 100644
--- a/ADOL-C/include/adolc/valuetape/sparseinfos.h
+++ b/ADOL-C/include/adolc/valuetape/sparseinfos.h
@@ -11,6 +11,15 @@
 namespace ADOLC::Sparse {
 template <CompressionMode CM>
 void generateSeedJac(int, int, const std::span<uint *>, double ***, int *) {};
+// the definitions are part of the library
+template <>
+ADOLC_API void
+generateSeedJac<CompressionMode::Column>(int, int, const std::span<uint *>,
+                                         double ***, int *);
+template <>
+ADOLC_API void generateSeedJac<CompressionMode::Row>(int, int,
+                                                     const std::span<uint *>,
+                                                     double ***, int *);
 /**
  * @brief Cached sparse Jacobian recovery data stored on a tape.
  *
-- 
2.43.0


From cc9b966fc547456d79bdcd3f9c6bf6637064a82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:44 +0000
Subject: [PATCH 60/69] fix: piecewise linear sweeps with given signature
 stored all switches in the first place

---
 ADOL-C/src/uni5_for.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index ae19d75..f07156b 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -3993,7 +3993,7 @@ int hov_forward(
 #if !defined(_NTIGHT_)
       dp_T0[res] = fabs(dp_T0[arg]);
 #endif /* !_NTIGHT_ */
-#if defined(_ABS_NORM_) || defined(_ABS_NORN_SIG_)
+#if defined(_ABS_NORM_) || defined(_ABS_NORM_SIG_)
       ++switchnum;
 #endif
       break;
-- 
2.43.0


From 81e69b62145c7ea2401b9d8aae54b873d3a17a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:08 +0000
Subject: [PATCH 61/69] fix: safe sparsity propagation of fmin lost
 dependencies

---
 ADOL-C/src/uni5_for.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index f07156b..792423d 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -3778,7 +3778,6 @@ int hov_forward(
       fod[opind].left = &fod[arg_index[arg1]];
       fod[opind].right = &fod[arg_index[arg2]];
       arg_index[res] = opind++;
-      arg_index[res] = opind++;
 #endif
 #endif
 #else
@@ -3820,7 +3819,7 @@ int hov_forward(
       dp_T0[res] = MIN_ADOLC(dp_T0[arg1], dp_T0[arg2]);
 #endif /* _TIGHT_ */
 #ifdef _NTIGHT_
-      TRES_INC = TARG1_INC | TARG2_INC;
+      FOR_0_LE_l_LT_p TRES_INC = TARG1_INC | TARG2_INC;
 #endif /* _NTIGHT_ */
 #else
       Tqo = nullptr;
-- 
2.43.0


From cec1cdbf5bce3d3a8d5b557ca761dcd48e40f483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:08 +0000
Subject: [PATCH 62/69] fix: conditional assignments in sparsity propagation

---
 ADOL-C/src/fo_rev.cpp   | 12 +++-----
 ADOL-C/src/uni5_for.cpp | 68 +++++++++++++++++++++++++++++++----------
 2 files changed, 56 insertions(+), 24 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index d0d2b07..9d7b66e 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1918,11 +1918,9 @@ int int_reverse_safe(
       } else if (TARG == 0.0) /* we are at the tie */
         FOR_0_LE_l_LT_p if (ARES_INC != 0) MINDEC(ret_c, 0);
 #else
+      // the old value may survive
       if (res != arg1)
-        FOR_0_LE_l_LT_p {
-          AARG1 |= *Ares;
-          ARES_INC = 0;
-        }
+        FOR_0_LE_l_LT_p AARG1_INC |= ARES_INC;
 #endif /* !_NTIGHT_ */
       break;
 
@@ -1959,11 +1957,9 @@ int int_reverse_safe(
               MINDEC(ret_c, 2);
       }
 #else
+      // the old value may survive
       if (res != arg1)
-        FOR_0_LE_l_LT_p {
-          AARG1 |= *Ares;
-          ARES_INC = 0;
-        }
+        FOR_0_LE_l_LT_p AARG1_INC |= ARES_INC;
 #endif /* !_NTIGHT_ */
       break;
 
diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 792423d..ce4e05d 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -4132,6 +4132,9 @@ int hov_forward(
       }
 
 #else
+      fod[opind].entry = maxopind + 2;
+      fod[opind].left = &fod[arg_index[arg1]];
+      fod[opind].right = &fod[arg_index[arg2]];
       arg_index[res] = opind++;
 #endif
 #endif
@@ -4144,8 +4147,6 @@ int hov_forward(
 
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] > 0)
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
       else
@@ -4239,6 +4240,9 @@ int hov_forward(
       }
 
 #else
+      fod[opind].entry = maxopind + 2;
+      fod[opind].left = &fod[arg_index[arg1]];
+      fod[opind].right = &fod[arg_index[arg2]];
       arg_index[res] = opind++;
 #endif
 #endif
@@ -4251,8 +4255,6 @@ int hov_forward(
 
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] >= 0)
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
       else
@@ -4308,14 +4310,32 @@ int hov_forward(
 #if defined(_INDO_)
 #if defined(_INDOPRO_)
 #ifdef _TIGHT_
-      if (dp_T0[arg] > 0)
+      if (dp_T0[arg] > 0) {
+        if (coval <= 0.0)
+          MINDEC(ret_c, 2);
+        dp_T0[res] = dp_T0[arg1];
         copy_index_domain(res, arg1, ind_dom);
+      } else if (dp_T0[arg] == 0)
+        MINDEC(ret_c, 0);
 #else
       merge_2_index_domains(res, arg1, ind_dom);
 #endif
 #endif
 #if defined(_NONLIND_)
-      arg_index[res] = arg_index[arg1];
+#ifdef _TIGHT_
+      if (dp_T0[arg] > 0) {
+        if (coval <= 0.0)
+          MINDEC(ret_c, 2);
+        dp_T0[res] = dp_T0[arg1];
+        arg_index[res] = arg_index[arg1];
+      } else if (dp_T0[arg] == 0)
+        MINDEC(ret_c, 0);
+#else
+      fod[opind].entry = maxopind + 2;
+      fod[opind].left = &fod[arg_index[res]];
+      fod[opind].right = &fod[arg_index[arg1]];
+      arg_index[res] = opind++;
+#endif
 #endif
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
@@ -4325,13 +4345,9 @@ int hov_forward(
 
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] > 0)
-#endif /* _TIGHT_ */
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
 
-#ifdef _TIGHT_
       if (dp_T0[arg] > 0) {
         if (coval <= 0.0)
           MINDEC(ret_c, 2);
@@ -4339,6 +4355,10 @@ int hov_forward(
       } else if (dp_T0[arg] == 0)
         MINDEC(ret_c, 0);
 #endif /* _TIGHT_ */
+#ifdef _NTIGHT_
+      // the old value may survive
+      FOR_0_LE_l_LT_pk TRES_INC |= TARG1_INC;
+#endif /* _NTIGHT_ */
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
       if (dp_T0[arg] > 0)
@@ -4369,14 +4389,30 @@ int hov_forward(
 #if defined(_INDO_)
 #if defined(_INDOPRO_)
 #ifdef _TIGHT_
-      if (dp_T0[arg] >= 0)
+      if (dp_T0[arg] >= 0) {
+        if (coval < 0.0)
+          MINDEC(ret_c, 2);
+        dp_T0[res] = dp_T0[arg1];
         copy_index_domain(res, arg1, ind_dom);
+      }
 #else
       merge_2_index_domains(res, arg1, ind_dom);
 #endif
 #endif
 #if defined(_NONLIND_)
-      arg_index[res] = arg_index[arg1];
+#ifdef _TIGHT_
+      if (dp_T0[arg] >= 0) {
+        if (coval < 0.0)
+          MINDEC(ret_c, 2);
+        dp_T0[res] = dp_T0[arg1];
+        arg_index[res] = arg_index[arg1];
+      }
+#else
+      fod[opind].entry = maxopind + 2;
+      fod[opind].left = &fod[arg_index[res]];
+      fod[opind].right = &fod[arg_index[arg1]];
+      arg_index[res] = opind++;
+#endif
 #endif
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
@@ -4386,19 +4422,19 @@ int hov_forward(
 
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] >= 0)
-#endif /* _TIGHT_ */
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
 
-#ifdef _TIGHT_
       if (dp_T0[arg] >= 0) {
         if (coval < 0.0)
           MINDEC(ret_c, 2);
         dp_T0[res] = dp_T0[arg1];
       }
 #endif /* _TIGHT_ */
+#ifdef _NTIGHT_
+      // the old value may survive
+      FOR_0_LE_l_LT_pk TRES_INC |= TARG1_INC;
+#endif /* _NTIGHT_ */
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
       if (dp_T0[arg] >= 0)
-- 
2.43.0


From 73edb3be6ad5e164c45d0ad156a758787f12ee6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:08 +0000
Subject: [PATCH 63/69] fix: reverse sweeps reported a switched branch when the
 second choice of a conditional assignment was taken as on recording

---
 ADOL-C/src/fo_rev.cpp | 16 ++++++++--------
 ADOL-C/src/ho_rev.cpp | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 9d7b66e..ddd1a6a 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1791,7 +1791,7 @@ int int_reverse_safe(
       } else {
         if (res != arg2)
           FOR_0_LE_l_LT_p {
-            if ((coval <= 0.0) && (*Ares != 0))
+            if ((coval > 0.0) && (*Ares != 0))
               MINDEC(ret_c, 2);
 #if defined(_INT_REV_)
             AARG2_INC |= *Ares;
@@ -1802,7 +1802,7 @@ int int_reverse_safe(
 #endif
           }
         else
-          FOR_0_LE_l_LT_p if ((coval <= 0.0) && (ARES_INC != 0))
+          FOR_0_LE_l_LT_p if ((coval > 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
       }
 #else
@@ -1855,7 +1855,7 @@ int int_reverse_safe(
       } else {
         if (res != arg2)
           FOR_0_LE_l_LT_p {
-            if ((coval < 0.0) && (*Ares != 0))
+            if ((coval >= 0.0) && (*Ares != 0))
               MINDEC(ret_c, 2);
 #if defined(_INT_REV_)
             AARG2_INC |= *Ares;
@@ -1866,7 +1866,7 @@ int int_reverse_safe(
 #endif
           }
         else
-          FOR_0_LE_l_LT_p if ((coval < 0.0) && (ARES_INC != 0))
+          FOR_0_LE_l_LT_p if ((coval >= 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
       }
 #else
@@ -2447,7 +2447,7 @@ int int_reverse_safe(
       } else {
         if (res != arg2)
           FOR_0_LE_l_LT_p {
-            if ((coval <= 0.0) && (*Ares != 0))
+            if ((coval > 0.0) && (*Ares != 0))
               MINDEC(ret_c, 2);
 #if defined(_INT_REV_)
             AARG2_INC |= *Ares;
@@ -2458,7 +2458,7 @@ int int_reverse_safe(
 #endif
           }
         else
-          FOR_0_LE_l_LT_p if ((coval <= 0.0) && (ARES_INC != 0))
+          FOR_0_LE_l_LT_p if ((coval > 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
       }
 #else
@@ -2505,7 +2505,7 @@ int int_reverse_safe(
       } else {
         if (res != arg2)
           FOR_0_LE_l_LT_p {
-            if ((coval < 0.0) && (*Ares != 0))
+            if ((coval >= 0.0) && (*Ares != 0))
               MINDEC(ret_c, 2);
 #if defined(_INT_REV_)
             AARG2_INC |= *Ares;
@@ -2516,7 +2516,7 @@ int int_reverse_safe(
 #endif
           }
         else
-          FOR_0_LE_l_LT_p if ((coval < 0.0) && (ARES_INC != 0))
+          FOR_0_LE_l_LT_p if ((coval >= 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
       }
 #else
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 8fbe4e7..e96fa46 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -1937,7 +1937,7 @@ int hov_ti_reverse(
                 AARG1 = 5.0;
                 AARG2_INC = 5.0;
               } else {
-                if (coval <= 0.0)
+                if (coval > 0.0)
                   MINDEC(ret_c, 2);
                 MAXDEC(AARG2, ARES);
                 AARG2_INC_O;
@@ -1959,7 +1959,7 @@ int hov_ti_reverse(
                 MINDEC(ret_c, 0);
                 AARG1 = 5.0;
                 AARG2 = 5.0;
-              } else if (coval <= 0.0)
+              } else if (coval > 0.0)
                 MINDEC(ret_c, 2);
             }
             HOV_INC(Ares, k1)
@@ -2016,7 +2016,7 @@ int hov_ti_reverse(
               HOV_INC(Ares, k1)
               HOV_INC(Aarg2, k1)
             } else {
-              if (coval < 0.0)
+              if (coval >= 0.0)
                 MINDEC(ret_c, 2);
               MAXDEC(AARG2, ARES);
               AARG2_INC_O;
@@ -2032,7 +2032,7 @@ int hov_ti_reverse(
         else
           for (int l = 0; l < p; l++) {
             if (ARES != 0.0) {
-              if (coval < 0.0)
+              if (coval >= 0.0)
                 MINDEC(ret_c, 2);
             }
             HOV_INC(Ares, k1)
@@ -2624,7 +2624,7 @@ int hov_ti_reverse(
                 AARG1 = 5.0;
                 AARG2_INC = 5.0;
               } else {
-                if (coval <= 0.0)
+                if (coval > 0.0)
                   MINDEC(ret_c, 2);
                 MAXDEC(AARG2, ARES);
                 AARG2_INC_O;
@@ -2646,7 +2646,7 @@ int hov_ti_reverse(
                 MINDEC(ret_c, 0);
                 AARG1 = 5.0;
                 AARG2 = 5.0;
-              } else if (coval <= 0.0)
+              } else if (coval > 0.0)
                 MINDEC(ret_c, 2);
             }
             HOV_INC(Ares, k1)
@@ -2707,7 +2707,7 @@ int hov_ti_reverse(
               HOV_INC(Ares, k1)
               HOV_INC(Aarg2, k1)
             } else {
-              if (coval < 0.0)
+              if (coval >= 0.0)
                 MINDEC(ret_c, 2);
               MAXDEC(AARG2, ARES);
               AARG2_INC_O;
@@ -2723,7 +2723,7 @@ int hov_ti_reverse(
         else
           for (int l = 0; l < p; l++) {
             if (ARES != 0.0) {
-              if (coval < 0.0)
+              if (coval >= 0.0)
                 MINDEC(ret_c, 2);
             }
             HOV_INC(Ares, k1)
-- 
2.43.0


From 189414dd0b04639c1d4306c97a4012aa432ddd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:14 +0000
Subject: [PATCH 64/69] fix: sparse drivers went on after sweeps that had
 refused the point

---
 ADOL-C/include/adolc/sparse/sparsedrivers.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/sparse/sparsedrivers.h b/ADOL-C/include/adolc/sparse/sparsedrivers.h
index 165d23c..7cefd58 100644
--- a/ADOL-C/include/adolc/sparse/sparsedrivers.h
+++ b/ADOL-C/include/adolc/sparse/sparsedrivers.h
@@ -424,9 +424,13 @@ int bitVectorPropagation(short tapeId, int depen, int indep,
   checkBVPInput<CFM>(basepoint);
   BvpData<BPPD> data{depen, indep};
   prepareADCalls<BPPD, CFM>(tapeId, basepoint, data);
+  if (data.rc_ < 0)
+    return data.rc_;
   for (int stripIdx = 0; stripIdx < data.numStripmineBatches_; stripIdx++) {
     prepareSeedMatrix(stripIdx, data);
     ADCalls<BPPD, CFM>(tapeId, basepoint, data);
+    if (data.rc_ < 0)
+      return data.rc_;
     extractCompressedRowStorage(stripIdx, compressedRowStorage, data);
   }
   return data.rc_;
@@ -688,6 +692,8 @@ int buildJacPatternAndSeed(short tag, int depen, int indep,
                            const double *basepoint) {
 
   ValueTape &tape = findTape(tag);
+  // an earlier seed does not belong to the new pattern
+  tape.sJInfos().seedRows_ = 0;
   tape.sJInfos().setJP(std::vector<uint *>(depen));
   std::span<uint *> JPSpan = tape.sJInfos().getJP();
   int ret_val = jac_pat<SM, CFM, BPPD>(tag, depen, indep, basepoint, JPSpan);
@@ -732,6 +738,8 @@ template <PiecewiseLinear>
 int buildJacPatternAndSeed(short tag, int depen, int indep, int numSwitches,
                            const double *basepoint) {
   auto &tape = findTape(tag);
+  // an earlier seed does not belong to the new pattern
+  tape.sJInfos().seedRows_ = 0;
   tape.sJInfos().setJP(std::vector<uint *>(depen + numSwitches));
   std::span<uint *> JPSpan{tape.sJInfos().getJP()};
 
@@ -928,6 +936,8 @@ int computeSparseJac(short tag, int depen, int indep, const double *basepoint,
     ret_val =
         fov_forward(tag, depen, indep, tape.sJInfos().seedClms_, basepoint,
                     tape.sJInfos().Seed_, tape.sJInfos().y_, tape.sJInfos().B_);
+  if (ret_val < 0)
+    return ret_val;
   recover<CM, MH>(tape, sparseJac);
   return ret_val;
 }
@@ -976,6 +986,8 @@ int computeSparseJac(short tag, int depen, int indep, int numSwitches,
                                  tape.sJInfos().seedRows_, seedResults.data(),
                                  seedSwitches.data(), results.data(),
                                  resultsSwitch.data()));
+  if (ret_val < 0)
+    return ret_val;
 
   recover<MH>(tape, sparseANF);
 
@@ -1233,6 +1245,9 @@ int buildHessPatternAndSeed(short tag, int indep, const double *basepoint,
                             int *nnz) {
   ValueTape &tape = findTape(tag);
   int ret_val = -1;
+  // an earlier seed does not belong to the new pattern
+  myfree2(tape.sHInfos().Upp_);
+  tape.sHInfos().Upp_ = nullptr;
   // Generate sparsity pattern, determine nnz, allocate memory
   tape.sHInfos().setHP(indep, std::vector<uint *>(indep));
   std::span<uint *> HPSpan = tape.sHInfos().HP_;
@@ -1270,7 +1285,6 @@ int buildHessPatternAndSeed(short tag, int indep, const double *basepoint,
   myfree3(tape.sHInfos().Xppp_);
   myfree3(tape.sHInfos().Yppp_);
   myfree3(tape.sHInfos().Zppp_);
-  myfree2(tape.sHInfos().Upp_);
 
   tape.sHInfos().Hcomp_ = myalloc2(indep, tape.sHInfos().p_);
   tape.sHInfos().Xppp_ = myalloc3(indep, tape.sHInfos().p_, 1);
@@ -1346,8 +1360,12 @@ int computeSparseHess(short tag, int indep, const double *basepoint, int *nnz,
   int ret_val =
       hov_wk_forward(tag, 1, indep, 1, 2, tape.sHInfos().p_, basepoint,
                      tape.sHInfos().Xppp_, &y, tape.sHInfos().Yppp_);
+  if (ret_val < 0)
+    return ret_val;
   MINDEC(ret_val, hos_ov_reverse(tag, 1, indep, 1, tape.sHInfos().p_,
                                  tape.sHInfos().Upp_, tape.sHInfos().Zppp_));
+  if (ret_val < 0)
+    return ret_val;
 
   for (int i = 0; i < tape.sHInfos().p_; ++i)
     for (int l = 0; l < indep; ++l)
-- 
2.43.0


From 3271cd38e5fd73ed2fa76660010251054938df6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:15 +0000
Subject: [PATCH 65/69] fix: reverse bit pattern propagation lost its values at
 divisions and powers

---
 ADOL-C/src/fo_rev.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index ddd1a6a..ce1d0c8 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1114,11 +1114,15 @@ int int_reverse_safe(
       ASSIGN_A(Aarg1, ADJOINT_BUFFER[arg1])
 
       /* olvo 980922 changed order to allow x=y/x */
-#if !defined(_NTIGHT_) && !defined(_INT_REV_)
+#if !defined(_NTIGHT_)
+#if !defined(_INT_REV_)
       double r_0 = -TRES;
+#endif
       rp_T[res] = tape.get_taylor();
+#if !defined(_INT_REV_)
       double r0 = 1.0 / TARG2;
       r_0 *= r0;
+#endif
 #endif /* !_NTIGHT_ */
 
       FOR_0_LE_l_LT_p {
@@ -1170,7 +1174,9 @@ int int_reverse_safe(
       }
 
 #if !defined(_NTIGHT_)
-      if (arg != res)
+#if !defined(_INT_REV_)
+      if (arg != res) // otherwise done above
+#endif
         rp_T[res] = tape.get_taylor();
 #endif /* !_NTIGHT_ */
     } break;
@@ -1413,7 +1419,9 @@ int int_reverse_safe(
       }
 
 #if !defined(_NTIGHT_)
-      if (res != arg)
+#if !defined(_INT_REV_)
+      if (res != arg) // otherwise done above
+#endif
         rp_T[res] = tape.get_taylor();
 #endif /* !_NTIGHT_ */
     } break;
-- 
2.43.0


From 09c938bf39f45b54ba91b3b4a155827030aed416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:14 +0000
Subject: [PATCH 66/69] fix: index domains were lost when the result takes the
 place of the second argument

---
 ADOL-C/src/uni5_for.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index ce4e05d..c97ddb6 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -6067,6 +6067,11 @@ void merge_2_index_domains(size_t res, size_t arg, uint **ind_dom) {
 void combine_2_index_domains(size_t res, size_t arg1, size_t arg2,
                              uint **ind_dom) {
 
+  // the result may take the place of one of the arguments
+  if (res == arg2) {
+    merge_2_index_domains(res, arg1, ind_dom);
+    return;
+  }
   if (res != arg1)
     copy_index_domain(res, arg1, ind_dom);
 
-- 
2.43.0


From f19992edb846a3a2eea6eeedd8ededb258359af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:30 +0000
Subject: [PATCH 67/69] fix: memory of long index lists was used after it had
 been freed

---
 ADOL-C/src/uni5_for.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index c97ddb6..10a391b 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -5999,7 +5999,7 @@ short ext_firstsign2(double sigbase, int p, double *u, double *du) {
 #if defined(_TIGHT_)
 void copy_index_domain(size_t res, size_t arg, uint **ind_dom) {
   if (ind_dom[arg][0] > ind_dom[res][1]) {
-    delete ind_dom[res];
+    delete[] ind_dom[res];
     ind_dom[res] = new uint[2 * (ind_dom[arg][0] + 1)];
     ind_dom[res][1] = 2 * ind_dom[arg][0];
   }
@@ -6201,8 +6201,9 @@ void extend_nonlinearity_domain_binary_step(size_t arg1, size_t arg2,
     if (index_nonl_dom[0] == 0) /* empty list */
     {
       if (index_nonl_dom[1] < num) {
-        delete index_nonl_dom;
+        delete[] index_nonl_dom;
         index_nonl_dom = new uint[2 * (num + 1)];
+        nonl_dom[index] = index_nonl_dom;
         index_nonl_dom[1] = 2 * num;
       }
       for (i = 2; i < num + 2; i++) /* append index domain list of "arg" */
-- 
2.43.0


From e4ba1f6efadf0818b5fa4687418ab62136c32143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:51 +0000
Subject: [PATCH 68/69] hook: number of strips of bit pattern propagation in
 simulation builds (ADOLC_SIM)

---
 ADOL-C/include/adolc/sparse/sparsedrivers.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ADOL-C/include/adolc/sparse/sparsedrivers.h b/ADOL-C/include/adolc/sparse/sparsedrivers.h
index 7cefd58..1c6ac05 100644
--- a/ADOL-C/include/adolc/sparse/sparsedrivers.h
+++ b/ADOL-C/include/adolc/sparse/sparsedrivers.h
@@ -33,7 +33,13 @@ package.
 // Reduce this value to x if your system happens to run out of memory. x < 10
 // makes no sense. x = 50 or 100 is better. x stays for (x * sizeof(size_t) * 8)
 // (block) variables at once
+#if defined(ADOLC_SIM)
+// simulation builds choose at run time, to reach several strips
+extern "C" int adolc_sim_stripmine_max;
+#define PQ_STRIPMINE_MAX adolc_sim_stripmine_max
+#else
 #define PQ_STRIPMINE_MAX 30
+#endif
 
 namespace ADOLC::Sparse {
 namespace detail {
-- 
2.43.0


From aae4db1dfa0f7a4b3db3f6a5dce5ed412adef552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:37 +0000
Subject: [PATCH 69/69] fix: first order reverse sweeps compared the value of
 floor with another argument

---
 ADOL-C/src/fo_rev.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index ce1d0c8..2c81290 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1742,7 +1742,7 @@ int int_reverse_safe(
       ASSIGN_A(Aarg, ADJOINT_BUFFER[arg])
 
 #if !defined(_NTIGHT_)
-      coval = (coval != floor(TARG1));
+      coval = (coval != floor(TARG));
 #endif /* !_NTIGHT_ */
 
       FOR_0_LE_l_LT_p {
-- 
2.43.0

