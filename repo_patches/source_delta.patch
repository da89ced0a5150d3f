From 623f2af8e4317d86bc648774b34f6c2c85922628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:00 +0000
Subject: [PATCH 01/31] fix: streams with a zero lookback no longer dereference
 a missing ring buffer

---
 ta-lib-rt/c/include/ta_defs.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/include/ta_defs.h b/ta-lib-rt/c/include/ta_defs.h
index a02309c..5f65513 100644
--- a/ta-lib-rt/c/include/ta_defs.h
+++ b/ta-lib-rt/c/include/ta_defs.h
@@ -212,8 +212,11 @@
 #define MEM_IDX(idx) VALUE_HANDLE_DEREF( (STATE.memory+idx) )
 #define MEM_IDX_NS(ns,idx) MEM_IDX(idx).ns
 #define FOR_ALL_MEM(i) for (i = 0; i < MEM_SIZE; ++i)
-#define PUSH_TO_MEM(x,y) MEM_IDX_NS(x, _cur_idx) = y
-#define POP_FROM_MEM(x) MEM_IDX_NS(x, _cur_idx)
+/* MEM_SIZE is zero (and there is no memory) when the lookback is zero: the
+ * oldest value of the window is then the value that has just arrived.
+ */
+#define PUSH_TO_MEM(x,y) do { if (MEM_SIZE > 0) MEM_IDX_NS(x, _cur_idx) = y; } while (0)
+#define POP_FROM_MEM(x) ((MEM_SIZE > 0) ? MEM_IDX_NS(x, _cur_idx) : (x))
 #define NEED_MORE_DATA STATE.mem_size > STATE.mem_index - 1
 #define LAST_NEED_MORE_DATA STATE.mem_size == STATE.mem_index
 #define FIRST_LAUNCH (STATE.mem_index == 1)
-- 
2.43.0


From 1bbfe7d34d2fef8a5c6db889aea567206811ba8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:49 +0000
Subject: [PATCH 02/31] fix: SUM stream returned the input instead of the
 window's sum

---
 ta-lib-rt/c/src/ta_func/ta_SUM.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_SUM.c b/ta-lib-rt/c/src/ta_func/ta_SUM.c
index f8c4179..d31b31e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SUM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SUM.c
@@ -357,10 +357,10 @@
       return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
    } else {             
-       _state->tempSum -= POP_FROM_MEM(inReal);
        _state->tempSum += inReal;
+       VALUE_HANDLE_DEREF(outReal) = _state->tempSum;
+       _state->tempSum -= POP_FROM_MEM(inReal);
        PUSH_TO_MEM(inReal,inReal);
-       VALUE_HANDLE_DEREF(outReal) = inReal;
        return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    }
 
-- 
2.43.0


From a633840f6f0af974a3dd82f76628133c69643023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:50 +0000
Subject: [PATCH 03/31] fix: AVGDEV stream averaged over a window one bar short

---
 ta-lib-rt/c/src/ta_func/ta_AVGDEV.c | 423 ++++++++++++++--------------
 1 file changed, 212 insertions(+), 211 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c b/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
index 47682c2..296e609 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
@@ -1,50 +1,50 @@
-/* TA-LIB Copyright (c) 1999-2008, Mario Fortier
- * All rights reserved.
- *
- * Redistribution and use in source and binary forms, with or
- * without modification, are permitted provided that the following
- * conditions are met:
- *
- * - Redistributions of source code must retain the above copyright
- *   notice, this list of conditions and the following disclaimer.
- *
- * - Redistributions in binary form must reproduce the above copyright
- *   notice, this list of conditions and the following disclaimer in
- *   the documentation and/or other materials provided with the
- *   distribution.
- *
- * - Neither name of author nor the names of its contributors
- *   may be used to endorse or promote products derived from this
- *   software without specific prior written permission.
- *
- * THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS
- * ``AS IS'' AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
- * LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS
- * FOR A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE
- * REGENTS OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT,
- * INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES
- * (INCLUDING, BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS
- * OR SERVICES; LOSS OF USE, DATA, OR PROFITS; OR BUSINESS
- * INTERRUPTION) HOWEVER CAUSED AND ON ANY THEORY OF LIABILITY,
- * WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT (INCLUDING NEGLIGENCE
- * OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE,
- * EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
- */
-
-/* List of contributors:
- *
- *  Initial  Name/description
- *  -------------------------------------------------------------------
- *  AB       Anatoliy Belsky
- *
- * Change history:
- *
- *  MMDDYY BY     Description
- *  -------------------------------------------------------------------
- *  090812 AB     Initial Version
- */
-
-/**** START GENCODE SECTION 1 - DO NOT DELETE THIS LINE ****/
+/* TA-LIB Copyright (c) 1999-2008, Mario Fortier
+ * All rights reserved.
+ *
+ * Redistribution and use in source and binary forms, with or
+ * without modification, are permitted provided that the following
+ * conditions are met:
+ *
+ * - Redistributions of source code must retain the above copyright
+ *   notice, this list of conditions and the following disclaimer.
+ *
+ * - Redistributions in binary form must reproduce the above copyright
+ *   notice, this list of conditions and the following disclaimer in
+ *   the documentation and/or other materials provided with the
+ *   distribution.
+ *
+ * - Neither name of author nor the names of its contributors
+ *   may be used to endorse or promote products derived from this
+ *   software without specific prior written permission.
+ *
+ * THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS
+ * ``AS IS'' AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
+ * LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS
+ * FOR A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE
+ * REGENTS OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT,
+ * INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES
+ * (INCLUDING, BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS
+ * OR SERVICES; LOSS OF USE, DATA, OR PROFITS; OR BUSINESS
+ * INTERRUPTION) HOWEVER CAUSED AND ON ANY THEORY OF LIABILITY,
+ * WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT (INCLUDING NEGLIGENCE
+ * OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE,
+ * EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
+ */
+
+/* List of contributors:
+ *
+ *  Initial  Name/description
+ *  -------------------------------------------------------------------
+ *  AB       Anatoliy Belsky
+ *
+ * Change history:
+ *
+ *  MMDDYY BY     Description
+ *  -------------------------------------------------------------------
+ *  090812 AB     Initial Version
+ */
+
+/**** START GENCODE SECTION 1 - DO NOT DELETE THIS LINE ****/
 /* All code within this section is automatically
  * generated by gen_code. Any modification will be lost
  * next time gen_code is run.
@@ -85,11 +85,11 @@
 /* Generated */ TA_LIB_API int TA_AVGDEV_Lookback( int           optInTimePeriod )  /* From 2 to 100000 */
 /* Generated */ 
 /* Generated */ #endif
-/**** END GENCODE SECTION 1 - DO NOT DELETE THIS LINE ****/
-{
-   /* insert local variable here */
-
-/**** START GENCODE SECTION 2 - DO NOT DELETE THIS LINE ****/
+/**** END GENCODE SECTION 1 - DO NOT DELETE THIS LINE ****/
+{
+   /* insert local variable here */
+
+/**** START GENCODE SECTION 2 - DO NOT DELETE THIS LINE ****/
 /* Generated */ #ifndef TA_FUNC_NO_RANGE_CHECK
 /* Generated */    /* min/max are checked for optInTimePeriod. */
 /* Generated */    if( (int)optInTimePeriod == TA_INTEGER_DEFAULT )
@@ -98,14 +98,14 @@
 /* Generated */       return -1;
 /* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
-/**** END GENCODE SECTION 2 - DO NOT DELETE THIS LINE ****/
-
-   /* insert lookback code here. */
-
-   return optInTimePeriod-1;
-}
-
-/**** START GENCODE SECTION 3 - DO NOT DELETE THIS LINE ****/
+/**** END GENCODE SECTION 2 - DO NOT DELETE THIS LINE ****/
+
+   /* insert lookback code here. */
+
+   return optInTimePeriod-1;
+}
+
+/**** START GENCODE SECTION 3 - DO NOT DELETE THIS LINE ****/
 /*
  * TA_AVGDEV - Average Deviation
  * 
@@ -153,12 +153,12 @@
 /* Generated */                                             int          *outNBElement,
 /* Generated */                                             double        outReal[] )
 /* Generated */ #endif
-/**** END GENCODE SECTION 3 - DO NOT DELETE THIS LINE ****/
-{
-   /* insert local variable here */
-	int today, outIdx, lookback;
-
-/**** START GENCODE SECTION 4 - DO NOT DELETE THIS LINE ****/
+/**** END GENCODE SECTION 3 - DO NOT DELETE THIS LINE ****/
+{
+   /* insert local variable here */
+	int today, outIdx, lookback;
+
+/**** START GENCODE SECTION 4 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
 /* Generated */ #ifndef TA_FUNC_NO_RANGE_CHECK
 /* Generated */ 
@@ -184,52 +184,52 @@
 /* Generated */    #endif /* !defined(_JAVA) */
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
 /* Generated */ 
-/**** END GENCODE SECTION 4 - DO NOT DELETE THIS LINE ****/
-
-	lookback = optInTimePeriod - 1;
-   
-	if (startIdx < lookback) {
-		startIdx = lookback;
-	}
-	today = startIdx;
-
-	/* Make sure there is still something to evaluate. */
-	if( today > endIdx ) {
-	    VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
-		VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
-		return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-	}
-
-	/* Process the initial DM and TR */
-	VALUE_HANDLE_DEREF(outBegIdx) = today;
-
-	outIdx = 0;
-
-	while (today <= endIdx) {
-	   	double todaySum, todayDev;
-		int i;
-
-		todaySum = 0.0;
-		for (i = 0; i < optInTimePeriod; i++) {
-			todaySum += inReal[today-i];
-		}
-
-		todayDev = 0.0;
-		for (i = 0; i < optInTimePeriod; i++) {
-			todayDev += std_fabs(inReal[today-i] - todaySum/optInTimePeriod);
-		}
-		outReal[outIdx] = todayDev/optInTimePeriod;
-
-		outIdx++;
-		today++;
-	}
-
-	VALUE_HANDLE_DEREF(outNBElement) = outIdx;
-
-	return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-}
-
-/**** START GENCODE SECTION 5 - DO NOT DELETE THIS LINE ****/
+/**** END GENCODE SECTION 4 - DO NOT DELETE THIS LINE ****/
+
+	lookback = optInTimePeriod - 1;
+   
+	if (startIdx < lookback) {
+		startIdx = lookback;
+	}
+	today = startIdx;
+
+	/* Make sure there is still something to evaluate. */
+	if( today > endIdx ) {
+	    VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+		VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+		return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+	}
+
+	/* Process the initial DM and TR */
+	VALUE_HANDLE_DEREF(outBegIdx) = today;
+
+	outIdx = 0;
+
+	while (today <= endIdx) {
+	   	double todaySum, todayDev;
+		int i;
+
+		todaySum = 0.0;
+		for (i = 0; i < optInTimePeriod; i++) {
+			todaySum += inReal[today-i];
+		}
+
+		todayDev = 0.0;
+		for (i = 0; i < optInTimePeriod; i++) {
+			todayDev += std_fabs(inReal[today-i] - todaySum/optInTimePeriod);
+		}
+		outReal[outIdx] = todayDev/optInTimePeriod;
+
+		outIdx++;
+		today++;
+	}
+
+	VALUE_HANDLE_DEREF(outNBElement) = outIdx;
+
+	return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+}
+
+/**** START GENCODE SECTION 5 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
 /* Generated */ #if defined( _MANAGED )
 /* Generated */ Core::RetCode Core::AvgDevStateInit( struct TA_AvgDev_State** _state,
@@ -244,12 +244,12 @@
 /* Generated */                                                     int           optInTimePeriod )  /* From 2 to 100000 */
 /* Generated */ 
 /* Generated */ #endif
-/**** END GENCODE SECTION 5 - DO NOT DELETE THIS LINE ****/
-
-{
-   /* insert local variable here */
-
-/**** START GENCODE SECTION 6 - DO NOT DELETE THIS LINE ****/
+/**** END GENCODE SECTION 5 - DO NOT DELETE THIS LINE ****/
+
+{
+   /* insert local variable here */
+
+/**** START GENCODE SECTION 6 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
 /* Generated */ #ifndef TA_FUNC_NO_RANGE_CHECK
 /* Generated */ 
@@ -273,15 +273,15 @@
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
 /* Generated */ 
-/**** END GENCODE SECTION 6 - DO NOT DELETE THIS LINE ****/
-
-   /* insert state init code here. */
-
-
-   return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-}
-
-/**** START GENCODE SECTION 7 - DO NOT DELETE THIS LINE ****/
+/**** END GENCODE SECTION 6 - DO NOT DELETE THIS LINE ****/
+
+   /* insert state init code here. */
+
+
+   return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+}
+
+/**** START GENCODE SECTION 7 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
 /* Generated */ #if defined( _MANAGED )
 /* Generated */ Core::RetCode Core::AvgDevState( struct TA_AvgDev_State* _state,
@@ -296,13 +296,13 @@
 /* Generated */                                                 const double inReal,
 /* Generated */                                                 double        *outReal )
 /* Generated */ #endif
-/**** END GENCODE SECTION 7 - DO NOT DELETE THIS LINE ****/
-{
-   /* insert local variable here */
-   #define TA_AVGDEV_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
-   size_t i;
-   double temp;
-/**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
+/**** END GENCODE SECTION 7 - DO NOT DELETE THIS LINE ****/
+{
+   /* insert local variable here */
+   #define TA_AVGDEV_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
+   size_t i;
+   double temp;
+/**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
 /* Generated */ #ifndef TA_FUNC_NO_RANGE_CHECK
 /* Generated */ 
@@ -325,37 +325,38 @@
 /* Generated */    #endif /* !defined(_JAVA) */
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
 /* Generated */ 
-/**** END GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
-
-   /* insert state based TA func code here. */
-
-   if (FIRST_LAUNCH)
-     STATE.sum = 0;
-
-   if (NEED_MORE_DATA)
-   {
-      STATE.sum += inReal;
-      PUSH_TO_MEM(inReal,inReal);
-      return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
-   }
-
-
-   STATE.sum -= POP_FROM_MEM(inReal);
-   STATE.sum += inReal;
-   PUSH_TO_MEM(inReal, inReal);
-
-   temp = 0.0;
-
-   FOR_ALL_MEM(i) {
-       temp += std_fabs(MEM_IDX_NS(inReal,i) - STATE.sum / STATE.optInTimePeriod);
-   }
-
-   VALUE_HANDLE_DEREF(outReal) = temp / STATE.optInTimePeriod;
-
-   return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-}
-
-/**** START GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
+/**** END GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
+
+   /* insert state based TA func code here. */
+
+   if (FIRST_LAUNCH)
+     STATE.sum = 0;
+
+   if (NEED_MORE_DATA)
+   {
+      STATE.sum += inReal;
+      PUSH_TO_MEM(inReal,inReal);
+      return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+   }
+
+
+   STATE.sum += inReal;
+
+   temp = std_fabs(inReal - STATE.sum / STATE.optInTimePeriod);
+
+   FOR_ALL_MEM(i) {
+       temp += std_fabs(MEM_IDX_NS(inReal,i) - STATE.sum / STATE.optInTimePeriod);
+   }
+
+   VALUE_HANDLE_DEREF(outReal) = temp / STATE.optInTimePeriod;
+
+   STATE.sum -= POP_FROM_MEM(inReal);
+   PUSH_TO_MEM(inReal, inReal);
+
+   return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+}
+
+/**** START GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
 /* Generated */ #if defined( _MANAGED )
 /* Generated */ Core::RetCode Core::AvgDevBatchState( struct TA_AvgDev_State* _state,
@@ -448,11 +449,11 @@
 /* Generated */ TA_LIB_API TA_RetCode TA_AVGDEV_StateFree( struct TA_AVGDEV_State** _state )
 /* Generated */ 
 /* Generated */ #endif
-/**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
-{
-   /* insert local variable here */
-
-/**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
+/**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
+{
+   /* insert local variable here */
+
+/**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
 /* Generated */ #ifndef TA_FUNC_NO_RANGE_CHECK
 /* Generated */ 
@@ -464,13 +465,13 @@
 /* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
 /* Generated */ 
-/**** END GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
-
-   /* insert state free code here. */   
-   return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-}
-
-/**** START GENCODE SECTION 11 - DO NOT DELETE THIS LINE ****/
+/**** END GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
+
+   /* insert state free code here. */   
+   return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+}
+
+/**** START GENCODE SECTION 11 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
 /* Generated */ #if defined( _MANAGED )
 /* Generated */ Core::RetCode Core::AvgDevStateSave( struct TA_AvgDev_State* _state,
@@ -485,8 +486,8 @@
 /* Generated */                                                     FILE* _file )
 /* Generated */ 
 /* Generated */ #endif
-/**** END GENCODE SECTION 11 - DO NOT DELETE THIS LINE ****/
-
+/**** END GENCODE SECTION 11 - DO NOT DELETE THIS LINE ****/
+
 {
    /* insert local variable here */
 
@@ -616,8 +617,8 @@
 /* Generated */                         int          *outNBElement,
 /* Generated */                         double        outReal[] )
 /* Generated */ #endif
-/* Generated */ {
-/* Generated */ 	int today, outIdx, lookback;
+/* Generated */ {
+/* Generated */ 	int today, outIdx, lookback;
 /* Generated */  #ifndef TA_FUNC_NO_RANGE_CHECK
 /* Generated */     if( startIdx < 0 )
 /* Generated */        return ENUM_VALUE(RetCode,TA_OUT_OF_RANGE_START_INDEX,OutOfRangeStartIndex);
@@ -635,36 +636,36 @@
 /* Generated */        return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */     #endif 
 /* Generated */  #endif 
-/* Generated */ 	lookback = optInTimePeriod - 1;
-/* Generated */ 	if (startIdx < lookback) {
-/* Generated */ 		startIdx = lookback;
-/* Generated */ 	}
-/* Generated */ 	today = startIdx;
-/* Generated */ 	if( today > endIdx ) {
-/* Generated */ 	    VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
-/* Generated */ 		VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
-/* Generated */ 		return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-/* Generated */ 	}
-/* Generated */ 	VALUE_HANDLE_DEREF(outBegIdx) = today;
-/* Generated */ 	outIdx = 0;
-/* Generated */ 	while (today <= endIdx) {
-/* Generated */ 	   	double todaySum, todayDev;
-/* Generated */ 		int i;
-/* Generated */ 		todaySum = 0.0;
-/* Generated */ 		for (i = 0; i < optInTimePeriod; i++) {
-/* Generated */ 			todaySum += inReal[today-i];
-/* Generated */ 		}
-/* Generated */ 		todayDev = 0.0;
-/* Generated */ 		for (i = 0; i < optInTimePeriod; i++) {
-/* Generated */ 			todayDev += std_fabs(inReal[today-i] - todaySum/optInTimePeriod);
-/* Generated */ 		}
-/* Generated */ 		outReal[outIdx] = todayDev/optInTimePeriod;
-/* Generated */ 		outIdx++;
-/* Generated */ 		today++;
-/* Generated */ 	}
-/* Generated */ 	VALUE_HANDLE_DEREF(outNBElement) = outIdx;
-/* Generated */ 	return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-/* Generated */ }
+/* Generated */ 	lookback = optInTimePeriod - 1;
+/* Generated */ 	if (startIdx < lookback) {
+/* Generated */ 		startIdx = lookback;
+/* Generated */ 	}
+/* Generated */ 	today = startIdx;
+/* Generated */ 	if( today > endIdx ) {
+/* Generated */ 	    VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */ 		VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */ 		return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+/* Generated */ 	}
+/* Generated */ 	VALUE_HANDLE_DEREF(outBegIdx) = today;
+/* Generated */ 	outIdx = 0;
+/* Generated */ 	while (today <= endIdx) {
+/* Generated */ 	   	double todaySum, todayDev;
+/* Generated */ 		int i;
+/* Generated */ 		todaySum = 0.0;
+/* Generated */ 		for (i = 0; i < optInTimePeriod; i++) {
+/* Generated */ 			todaySum += inReal[today-i];
+/* Generated */ 		}
+/* Generated */ 		todayDev = 0.0;
+/* Generated */ 		for (i = 0; i < optInTimePeriod; i++) {
+/* Generated */ 			todayDev += std_fabs(inReal[today-i] - todaySum/optInTimePeriod);
+/* Generated */ 		}
+/* Generated */ 		outReal[outIdx] = todayDev/optInTimePeriod;
+/* Generated */ 		outIdx++;
+/* Generated */ 		today++;
+/* Generated */ 	}
+/* Generated */ 	VALUE_HANDLE_DEREF(outNBElement) = outIdx;
+/* Generated */ 	return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+/* Generated */ }
 /* Generated */ 
 /* Generated */ #if defined( _MANAGED )
 /* Generated */ }}} // Close namespace TicTacTec.TA.Lib
-- 
2.43.0


From 645000291062022f959829a9678e0c0586cfd703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:50 +0000
Subject: [PATCH 04/31] fix: linear regression and TSF streams weighted the
 bars off by one and skipped their set-up

---
 ta-lib-rt/c/src/ta_func/ta_LINEARREG.c           | 10 +++++-----
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c     | 12 ++++++------
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c | 12 ++++++------
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c     | 12 ++++++------
 ta-lib-rt/c/src/ta_func/ta_TSF.c                 | 12 ++++++------
 5 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
index 82a880c..bdcb673 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
@@ -368,14 +368,14 @@
 
    if (NEED_MORE_DATA)
    {
-       STATE.SumY += inReal;
-       STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
+       STATE.SumXY += STATE.SumY; /* one bar older: every weight grows by one */
+       STATE.SumY += inReal;       /* the newest bar has the weight 0 */
       PUSH_TO_MEM(inReal,inReal);
       return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
    }
 
-   STATE.SumY += inReal;
-   STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
+   STATE.SumXY += STATE.SumY; /* one bar older: every weight grows by one */
+   STATE.SumY += inReal;       /* the newest bar has the weight 0 */
 
    m = ( STATE.optInTimePeriod * STATE.SumXY - STATE.SumX * STATE.SumY) / STATE.Divisor;
    b = ( STATE.SumY - m * STATE.SumX ) / (double)STATE.optInTimePeriod;
@@ -383,7 +383,7 @@
 
    tempReal = POP_FROM_MEM(inReal);
    STATE.SumY -= tempReal;
-   STATE.SumXY  -= tempReal*STATE.optInTimePeriod;
+   STATE.SumXY  -= tempReal*(STATE.optInTimePeriod-1);
    PUSH_TO_MEM(inReal,inReal);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
index f0e189b..00efd5c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
@@ -327,7 +327,7 @@
 /**** END GENCODE SECTION 7 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
-#define TA_LINEARREG_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
+#define TA_LINEARREG_ANGLE_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 double m, tempReal;
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
@@ -369,21 +369,21 @@ double m, tempReal;
 
         if (NEED_MORE_DATA)
         {
-            STATE.SumY += inReal;
-            STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
+            STATE.SumXY += STATE.SumY; /* one bar older: every weight grows by one */
+            STATE.SumY += inReal;       /* the newest bar has the weight 0 */
            PUSH_TO_MEM(inReal,inReal);
            return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
         }
 
-        STATE.SumY += inReal;
-        STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
+        STATE.SumXY += STATE.SumY; /* one bar older: every weight grows by one */
+        STATE.SumY += inReal;       /* the newest bar has the weight 0 */
 
         m = ( STATE.optInTimePeriod * STATE.SumXY - STATE.SumX * STATE.SumY) / STATE.Divisor;
         VALUE_HANDLE_DEREF(outReal) = std_atan(m) * ( 180.0 / PI );
 
         tempReal = POP_FROM_MEM(inReal);
         STATE.SumY -= tempReal;
-        STATE.SumXY  -= tempReal*STATE.optInTimePeriod;
+        STATE.SumXY  -= tempReal*(STATE.optInTimePeriod-1);
         PUSH_TO_MEM(inReal,inReal);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
index 7e88184..1583c06 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
@@ -325,7 +325,7 @@
 /**** END GENCODE SECTION 7 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
-#define TA_LINEARREG_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
+#define TA_LINEARREG_INTERCEPT_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 double m, tempReal;
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
@@ -367,14 +367,14 @@ double m, tempReal;
 
         if (NEED_MORE_DATA)
         {
-            STATE.SumY += inReal;
-            STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
+            STATE.SumXY += STATE.SumY; /* one bar older: every weight grows by one */
+            STATE.SumY += inReal;       /* the newest bar has the weight 0 */
            PUSH_TO_MEM(inReal,inReal);
            return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
         }
 
-        STATE.SumY += inReal;
-        STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
+        STATE.SumXY += STATE.SumY; /* one bar older: every weight grows by one */
+        STATE.SumY += inReal;       /* the newest bar has the weight 0 */
 
         m = ( STATE.optInTimePeriod * STATE.SumXY - STATE.SumX * STATE.SumY) / STATE.Divisor;
 
@@ -382,7 +382,7 @@ double m, tempReal;
 
         tempReal = POP_FROM_MEM(inReal);
         STATE.SumY -= tempReal;
-        STATE.SumXY  -= tempReal*STATE.optInTimePeriod;
+        STATE.SumXY  -= tempReal*(STATE.optInTimePeriod-1);
         PUSH_TO_MEM(inReal,inReal);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
index 3b3e44e..0d0edc2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
@@ -323,7 +323,7 @@
 /**** END GENCODE SECTION 7 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
-#define TA_LINEARREG_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
+#define TA_LINEARREG_SLOPE_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 double tempReal;
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
@@ -365,20 +365,20 @@ double tempReal;
 
         if (NEED_MORE_DATA)
         {
-            STATE.SumY += inReal;
-            STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
+            STATE.SumXY += STATE.SumY; /* one bar older: every weight grows by one */
+            STATE.SumY += inReal;       /* the newest bar has the weight 0 */
            PUSH_TO_MEM(inReal,inReal);
            return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
         }
 
-        STATE.SumY += inReal;
-        STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
+        STATE.SumXY += STATE.SumY; /* one bar older: every weight grows by one */
+        STATE.SumY += inReal;       /* the newest bar has the weight 0 */
 
         VALUE_HANDLE_DEREF(outReal) = ( STATE.optInTimePeriod * STATE.SumXY - STATE.SumX * STATE.SumY) / STATE.Divisor;
 
         tempReal = POP_FROM_MEM(inReal);
         STATE.SumY -= tempReal;
-        STATE.SumXY  -= tempReal*STATE.optInTimePeriod;
+        STATE.SumXY  -= tempReal*(STATE.optInTimePeriod-1);
         PUSH_TO_MEM(inReal,inReal);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TSF.c b/ta-lib-rt/c/src/ta_func/ta_TSF.c
index f6e7847..6e799c2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TSF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TSF.c
@@ -326,7 +326,7 @@
 /**** END GENCODE SECTION 7 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
-#define TA_LINEARREG_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
+#define TA_TSF_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 double m, b, tempReal;
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
@@ -368,14 +368,14 @@ double m, b, tempReal;
 
         if (NEED_MORE_DATA)
         {
-            STATE.SumY += inReal;
-            STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
+            STATE.SumXY += STATE.SumY; /* one bar older: every weight grows by one */
+            STATE.SumY += inReal;       /* the newest bar has the weight 0 */
            PUSH_TO_MEM(inReal,inReal);
            return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
         }
 
-        STATE.SumY += inReal;
-        STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
+        STATE.SumXY += STATE.SumY; /* one bar older: every weight grows by one */
+        STATE.SumY += inReal;       /* the newest bar has the weight 0 */
 
         m = ( STATE.optInTimePeriod * STATE.SumXY - STATE.SumX * STATE.SumY) / STATE.Divisor;
         b = ( STATE.SumY - m * STATE.SumX ) / (double)STATE.optInTimePeriod;
@@ -383,7 +383,7 @@ double m, b, tempReal;
 
         tempReal = POP_FROM_MEM(inReal);
         STATE.SumY -= tempReal;
-        STATE.SumXY  -= tempReal*STATE.optInTimePeriod;
+        STATE.SumXY  -= tempReal*(STATE.optInTimePeriod-1);
         PUSH_TO_MEM(inReal,inReal);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-- 
2.43.0


From 07d235af727a5caf38f9d780ff3e2dde6c825c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:31 +0000
Subject: [PATCH 05/31] fix: candlestick streams (counterattack, stars, stalled
 pattern) dropped the wrong bar from their averages

---
 ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c  | 2 +-
 ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c    | 2 +-
 ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c    | 2 +-
 ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c b/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
index 2c8a049..aceca9c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
@@ -413,7 +413,7 @@ unsigned int i1;
         {
          STATE.EqualPeriodTotal -= TA_CANDLERANGE_STATE( Equal, -STATE.periodEqual-1 );
          STATE.BodyLongPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong-1 );
-         STATE.BodyLongPeriodTotal0 -= TA_CANDLERANGE_STATE_CUR( BodyLong );
+         STATE.BodyLongPeriodTotal0 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong );
         }
 
         PUSH_TO_MEM(inOpen,inOpen);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
index 51ec7e2..63fe981 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
@@ -458,7 +458,7 @@ int i1,i2;
         {
          STATE.BodyLongPeriodTotal -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong );
          STATE.BodyShortPeriodTotal -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort );
-         STATE.BodyShortPeriodTotal2 -= TA_CANDLERANGE_STATE( BodyShort, GET_LOCAL_IDX(-STATE.periodBodyShort+1) );
+         STATE.BodyShortPeriodTotal2 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort+1 );
         }
 
         PUSH_TO_MEM(inOpen,inOpen);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
index 36c9278..8e8b669 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
@@ -448,7 +448,7 @@ int i1,i2;
         {
          STATE.BodyLongPeriodTotal -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong );
          STATE.BodyShortPeriodTotal -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort );
-         STATE.BodyShortPeriodTotal2 -= TA_CANDLERANGE_STATE( BodyShort, GET_LOCAL_IDX(-STATE.periodBodyShort+1) );
+         STATE.BodyShortPeriodTotal2 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort+1 );
         }
 
         PUSH_TO_MEM(inOpen,inOpen);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c b/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
index 3b5a4ce..deec975 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
@@ -486,7 +486,7 @@ int i1, i2, i3;
           STATE.BodyLongPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong-1 );
           STATE.BodyLongPeriodTotal2 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong-2 );
           STATE.BodyShortPeriodTotal -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort );
-          STATE.ShadowVeryShortPeriodTotal -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort );
+          STATE.ShadowVeryShortPeriodTotal -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort-1 );
           STATE.NearPeriodTotal1 -= TA_CANDLERANGE_STATE( Near, -STATE.periodNear-1 );
           STATE.NearPeriodTotal2 -= TA_CANDLERANGE_STATE( Near, -STATE.periodNear-2 );
         }
-- 
2.43.0


From b3073e572c58067b76e94a4e4d188cccfd889db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:15 +0000
Subject: [PATCH 06/31] fix: candlestick streams summed the wrong bars into
 their averages

---
 ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c           | 5 +++--
 ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c      | 2 +-
 ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c          | 4 ++--
 ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c    | 6 +++---
 ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c        | 2 +-
 ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c         | 6 ++++--
 ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c       | 2 +-
 ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c          | 4 ++--
 ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c  | 4 ++--
 ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c          | 4 ++--
 ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c | 4 ++--
 ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c     | 2 +-
 ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c          | 2 +-
 ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c     | 2 +-
 ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c  | 4 ++--
 15 files changed, 28 insertions(+), 25 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
index 1e51a1d..5826ee7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
@@ -361,7 +361,7 @@
             STATE.BodyLongPeriodTotal = 0.;
       }
 
-   if (STATE.mem_index > MEM_SIZE-2)
+   if (!(NEED_MORE_DATA))
    {
        i1 = GET_LOCAL_IDX(-1);
        i2 = GET_LOCAL_IDX(-2);
@@ -380,7 +380,8 @@
            VALUE_HANDLE_DEREF(outInteger) = 0;
 
        STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyLong, i2 ) - TA_CANDLERANGE_STATE( BodyLong, -MEM_SIZE );
-   } else  STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyLong );
+   } else if (STATE.mem_index <= MEM_SIZE-2)
+       STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyLong );
 
 
    PUSH_TO_MEM(inOpen,inOpen);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
index ec59f27..f4ef00f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
@@ -411,7 +411,7 @@ unsigned int i1,i2,i3;
         }
 
 
-        if (STATE.mem_index-1 >= 2)
+        if (STATE.mem_index-1 >= 3)
         {
           STATE.ShadowVeryShortPeriodTotal2 += TA_CANDLERANGE_STATE_IDX(  ShadowVeryShort, i2 );
           STATE.ShadowVeryShortPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  ShadowVeryShort, i1 );
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c b/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
index 24383d6..2119e2a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
@@ -396,12 +396,12 @@ unsigned int i1,i2;
                 }
 
 
-                if (STATE.mem_index-1 >= 2)
+                if ((int)STATE.mem_index-1 >= (int)MEM_SIZE - STATE.periodBodyLong + 2)
                 {
                   STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX( BodyLong, i2 );
                 }
 
-                if (STATE.mem_index-1 >= 1)
+                if ((int)STATE.mem_index-1 >= (int)MEM_SIZE - STATE.periodBodyShort + 1)
                 {
                   STATE.BodyShortPeriodTotal += TA_CANDLERANGE_STATE_IDX( BodyShort, i1 );
                 }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c b/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
index c419bf3..c23d4ac 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
@@ -434,11 +434,11 @@
                   STATE.BodyShortPeriodTotal = 0.;
 
                   STATE.periodBodyLong = TA_CANDLEAVGPERIOD(BodyLong) + 2;
-                  STATE.periodBodyDoji = TA_CANDLEAVGPERIOD(BodyDoji) - 1;
+                  STATE.periodBodyDoji = TA_CANDLEAVGPERIOD(BodyDoji) + 1;
                   STATE.periodBodyShort = TA_CANDLEAVGPERIOD(BodyShort);
 
-                  STATE.gapBodyLong = MEM_SIZE - STATE.periodBodyLong;
-                  STATE.gapBodyDoji = MEM_SIZE - STATE.periodBodyDoji;
+                  STATE.gapBodyLong = MEM_SIZE - STATE.periodBodyLong + 2;
+                  STATE.gapBodyDoji = MEM_SIZE - STATE.periodBodyDoji + 1;
                   STATE.gapBodyShort = MEM_SIZE - STATE.periodBodyShort;
             }
 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c b/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
index fd4f6a1..0ba2e89 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
@@ -420,7 +420,7 @@ unsigned int i1,i2,i3,i4;
 
         if (!(NEED_MORE_DATA))
         {
-         STATE.BodyLongPeriodTotal -= TA_CANDLERANGE_STATE_CUR( BodyLong );
+         STATE.BodyLongPeriodTotal -= TA_CANDLERANGE_STATE_IDX( BodyLong, _cur_idx );
         }
 
         PUSH_TO_MEM(inOpen,inOpen);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
index 97e8c4a..95f2f5b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
@@ -371,8 +371,10 @@
                 }
 
 
-                STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyShort );
-                STATE.ShadowPeriodTotal += TA_CANDLERANGE_STATE_CUR( ShadowVeryLong );
+                if ((int)STATE.mem_index-1 >= (int)MEM_SIZE - TA_CANDLEAVGPERIOD(BodyShort))
+                   STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyShort );
+                if ((int)STATE.mem_index-1 >= (int)MEM_SIZE - TA_CANDLEAVGPERIOD(ShadowVeryLong))
+                   STATE.ShadowPeriodTotal += TA_CANDLERANGE_STATE_CUR( ShadowVeryLong );
 
 
 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
index 0a2d90a..48bc4be 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
@@ -464,7 +464,7 @@ int i1,i2,i3;
                     STATE.NearPeriodTotal += TA_CANDLERANGE_STATE_IDX( Near, i2 );
 
                 if ((int)STATE.mem_index-1 >= (int)MEM_SIZE-3)
-                    STATE.NearPeriodTotal -= TA_CANDLERANGE_STATE( Near, -STATE.periodNear-2 );
+                    STATE.NearPeriodTotal -= TA_CANDLERANGE_STATE( Near, -STATE.periodNear+1 );
 
 
                 PUSH_TO_MEM(inOpen,inOpen);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c b/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
index a097ddb..081f35d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
@@ -439,9 +439,9 @@ int i1;
         if (!(NEED_MORE_DATA))
         {
          STATE.ShadowVeryShortPeriodTotal0 -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort );
-         STATE.BodyPeriodTotal0 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBody );
+         STATE.BodyPeriodTotal0 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBody );
          STATE.ShadowVeryShortPeriodTotal1 -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort - 1);
-         STATE.BodyPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBody - 1 );
+         STATE.BodyPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBody - 1 );
         }
 
         PUSH_TO_MEM(inOpen,inOpen);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c b/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
index caa3097..7cabf7c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
@@ -446,9 +446,9 @@ int i1;
         if (!(NEED_MORE_DATA))
         {
          STATE.ShadowVeryShortPeriodTotal0 -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort );
-         STATE.BodyPeriodTotal0 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBody );
+         STATE.BodyPeriodTotal0 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBody );
          STATE.ShadowVeryShortPeriodTotal1 -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort - 1);
-         STATE.BodyPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBody - 1 );
+         STATE.BodyPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBody - 1 );
         }
 
         PUSH_TO_MEM(inOpen,inOpen);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c b/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
index 42dcada..299aeb2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
@@ -478,14 +478,14 @@ int i1, i2, i3, i4;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.periodBodyShort)
+        if ((int)STATE.mem_index-1 >= STATE.gapBodyShort)
         {
             STATE.BodyPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i1 );
             STATE.BodyPeriodTotal2 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i2 );
             STATE.BodyPeriodTotal3 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i3 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.periodBodyLong)
+        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
         {
             STATE.BodyPeriodTotal4 += TA_CANDLERANGE_STATE_IDX(  BodyLong, i4 );
         }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c b/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
index ca64ff9..0fc45d1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
@@ -443,14 +443,14 @@ int i1, i2, i3, i4;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.periodBodyShort)
+        if ((int)STATE.mem_index-1 >= STATE.gapBodyShort)
         {
             STATE.BodyPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i1 );
             STATE.BodyPeriodTotal2 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i2 );
             STATE.BodyPeriodTotal3 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i3 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.periodBodyLong)
+        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
         {
             STATE.BodyPeriodTotal4 += TA_CANDLERANGE_STATE_IDX(  BodyLong, i4 );
             STATE.BodyPeriodTotal0 += TA_CANDLERANGE_STATE_CUR(  BodyLong );
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
index c1974d0..45a251f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
@@ -407,7 +407,7 @@ int i1;
 
         if ((int)STATE.mem_index-1 >= STATE.gapBody)
         {
-          STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR(  BodyLong );
+          STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR(  BodyShort );
         }
 
         if ((int)STATE.mem_index-1 >= STATE.gapShadowLong)
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
index 1ecf297..515fc8d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
@@ -368,7 +368,7 @@ int i1, i2;
            {
                  STATE.BodyPeriodTotal = 0.;
                  STATE.periodBody = TA_CANDLEAVGPERIOD(BodyDoji) + 2;
-                 STATE.gapBody = MEM_SIZE - STATE.periodBody;
+                 STATE.gapBody = MEM_SIZE - STATE.periodBody + 2;
            }
 
         i1 = GET_LOCAL_IDX(-1);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c b/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
index d45dfb5..b488077 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
@@ -372,7 +372,7 @@ int i1,i2;
 
                  STATE.BodyLongPeriodTotal = 0.;
                  STATE.periodBodyLong = TA_CANDLEAVGPERIOD(BodyLong) + 2;
-                 STATE.gapBodyLong = MEM_SIZE - STATE.periodBodyLong;
+                 STATE.gapBodyLong = MEM_SIZE - STATE.periodBodyLong + 2;
            }
 
         i1 = GET_LOCAL_IDX(-1);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
index fa80293..7479b43 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
@@ -371,11 +371,11 @@ int i1,i2;
                    {
                          STATE.BodyShortPeriodTotal = 0.;
                          STATE.periodBodyShort = TA_CANDLEAVGPERIOD(BodyShort) + 1;
-                         STATE.gapBodyShort = MEM_SIZE - STATE.periodBodyShort;
+                         STATE.gapBodyShort = MEM_SIZE - STATE.periodBodyShort + 1;
 
                          STATE.BodyLongPeriodTotal = 0.;
                          STATE.periodBodyLong = TA_CANDLEAVGPERIOD(BodyLong) + 2;
-                         STATE.gapBodyLong = MEM_SIZE - STATE.periodBodyLong;
+                         STATE.gapBodyLong = MEM_SIZE - STATE.periodBodyLong + 2;
                    }
 
                 i1 = GET_LOCAL_IDX(-1);
-- 
2.43.0


From b2f424013c0d4cca74119ed633626d4d7282040b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 07/31] fix: MININDEX/MAXINDEX/MINMAXINDEX streams broke ties
 differently from the batch functions

---
 ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c    |  50 +++++------
 ta-lib-rt/c/src/ta_func/ta_MININDEX.c    |  60 ++++++-------
 ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c | 104 +++++++++++------------
 3 files changed, 100 insertions(+), 114 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c b/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c
index 8224f8d..7c39692 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c
@@ -358,23 +358,22 @@
 /**** END GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 
    /* insert state based TA func code here. */
-if (FIRST_LAUNCH || STATE.max <= inReal) {
-    STATE.max = inReal;
-    STATE.maxIdx = STATE.mem_index;
-}
 
-if (NEED_MORE_DATA) {
-    PUSH_TO_MEM(inReal,inReal);
-    return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
-} else {
-    if (STATE.maxIdx < STATE.mem_index - MEM_SIZE) { // find new max
+    if (NEED_MORE_DATA) {
+        PUSH_TO_MEM(inReal,inReal);
+        return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+    }
 
-        STATE.maxIdx = STATE.mem_index;
-        STATE.max = inReal;
+    if (STATE.maxIdx < STATE.mem_index - MEM_SIZE) {
+        /* Scan the whole window, oldest bar first: on a tie the
+         * oldest bar wins, as in the batch function.
+         */
+        STATE.maxIdx = STATE.mem_index - MEM_SIZE;
+        STATE.max = MEM_IDX_NS(inReal, _cur_idx);
 
-        for (i = _cur_idx; i < MEM_SIZE; i++) {
+        for (i = _cur_idx + 1; i < MEM_SIZE; i++) {
             val = MEM_IDX_NS(inReal, i);
-            if (STATE.max < val) {
+            if (val > STATE.max) {
                 STATE.maxIdx = STATE.mem_index - _cur_idx - (MEM_SIZE - i);
                 STATE.max = val;
             }
@@ -382,28 +381,25 @@ if (NEED_MORE_DATA) {
 
         for (i = 0; i < _cur_idx; i++) {
             val = MEM_IDX_NS(inReal, i);
-            if (STATE.max < val) {
+            if (val > STATE.max) {
                 STATE.maxIdx = STATE.mem_index - (_cur_idx - i);
                 STATE.max = val;
             }
         }
 
-        // FOR_ALL_MEM(i) {
-        //     val = MEM_IDX_NS(inReal, i);
-        //     if (STATE.max < val) {
-        //         STATE.maxIdx = i < _cur_idx ? STATE.mem_index - (_cur_idx - i)
-        //                                     : STATE.mem_index - _cur_idx - (MEM_SIZE - i);
-        //         STATE.max = val;
-        //     }
-        // }
-
+        if (inReal > STATE.max) {
+            STATE.maxIdx = STATE.mem_index;
+            STATE.max = inReal;
+        }
+    } else if (inReal >= STATE.max) {
+        STATE.maxIdx = STATE.mem_index;
+        STATE.max = inReal;
     }
-}
 
-PUSH_TO_MEM(inReal,inReal);
-VALUE_HANDLE_DEREF(outInteger) = STATE.maxIdx-1;
+    PUSH_TO_MEM(inReal,inReal);
+    VALUE_HANDLE_DEREF(outInteger) = STATE.maxIdx-1;
 
- return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 }
 
 /**** START GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
diff --git a/ta-lib-rt/c/src/ta_func/ta_MININDEX.c b/ta-lib-rt/c/src/ta_func/ta_MININDEX.c
index 171ed0a..9efcef5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MININDEX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MININDEX.c
@@ -359,53 +359,47 @@
 
    /* insert state based TA func code here. */
 
-    if (FIRST_LAUNCH || STATE.min >= inReal) {
-        STATE.min = inReal;
-        STATE.minIdx = STATE.mem_index;
-    }
-
     if (NEED_MORE_DATA) {
         PUSH_TO_MEM(inReal,inReal);
         return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
-    } else {
-        if (STATE.minIdx < STATE.mem_index - MEM_SIZE) { // find new min
-
-            STATE.minIdx = STATE.mem_index;
-            STATE.min = inReal;
+    }
 
-            for (i = _cur_idx; i < MEM_SIZE; i++) {
-                val = MEM_IDX_NS(inReal, i);
-                if (STATE.min > val) {
-                    STATE.minIdx = STATE.mem_index - _cur_idx - (MEM_SIZE - i);
-                    STATE.min = val;
-                }
+    if (STATE.minIdx < STATE.mem_index - MEM_SIZE) {
+        /* Scan the whole window, oldest bar first: on a tie the
+         * oldest bar wins, as in the batch function.
+         */
+        STATE.minIdx = STATE.mem_index - MEM_SIZE;
+        STATE.min = MEM_IDX_NS(inReal, _cur_idx);
+
+        for (i = _cur_idx + 1; i < MEM_SIZE; i++) {
+            val = MEM_IDX_NS(inReal, i);
+            if (val < STATE.min) {
+                STATE.minIdx = STATE.mem_index - _cur_idx - (MEM_SIZE - i);
+                STATE.min = val;
             }
+        }
 
-            for (i = 0; i < _cur_idx; i++) {
-                val = MEM_IDX_NS(inReal, i);
-                if (STATE.min > val) {
-                    STATE.minIdx = STATE.mem_index - (_cur_idx - i);
-                    STATE.min = val;
-                }
+        for (i = 0; i < _cur_idx; i++) {
+            val = MEM_IDX_NS(inReal, i);
+            if (val < STATE.min) {
+                STATE.minIdx = STATE.mem_index - (_cur_idx - i);
+                STATE.min = val;
             }
-
-            // FOR_ALL_MEM(i) {
-            //     val = MEM_IDX_NS(inReal, i);
-            //     if (STATE.min > val) {
-            //         STATE.minIdx = i < _cur_idx ? STATE.mem_index - (_cur_idx - i)
-            //                                     : STATE.mem_index - _cur_idx - (MEM_SIZE - i);
-            //         STATE.min = val;
-            //     }
-            // }
-
         }
 
+        if (inReal < STATE.min) {
+            STATE.minIdx = STATE.mem_index;
+            STATE.min = inReal;
+        }
+    } else if (inReal <= STATE.min) {
+        STATE.minIdx = STATE.mem_index;
+        STATE.min = inReal;
     }
 
     PUSH_TO_MEM(inReal,inReal);
     VALUE_HANDLE_DEREF(outInteger) = STATE.minIdx-1;
 
- return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 }
 
 /**** START GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
diff --git a/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c b/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c
index 8a19912..677ef6d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c
@@ -366,7 +366,6 @@
    /* insert local variable here */
     TA_Real val;
     int i, j;
-    int find_min, find_max;
 #define TA_MINMAXINDEX_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
@@ -397,44 +396,54 @@
 /**** END GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 
    /* insert state based TA func code here. */
-if (FIRST_LAUNCH) {
-    STATE.max = STATE.min = inReal;
-    STATE.maxIdx = STATE.minIdx = STATE.mem_index;
-} else if (STATE.min >= inReal) {
-    STATE.min = inReal;
-    STATE.minIdx = STATE.mem_index;
-} else if (STATE.max <= inReal) {
-    STATE.max = inReal;
-    STATE.maxIdx = STATE.mem_index;
-}
 
-if (NEED_MORE_DATA) {
-    PUSH_TO_MEM(inReal,inReal);
-    return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
-} else {
+    if (NEED_MORE_DATA) {
+        PUSH_TO_MEM(inReal,inReal);
+        return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+    }
+
+    if (STATE.minIdx < STATE.mem_index - MEM_SIZE) {
+        /* Scan the whole window, oldest bar first: on a tie the
+         * oldest bar wins, as in the batch function.
+         */
+        STATE.minIdx = STATE.mem_index - MEM_SIZE;
+        STATE.min = MEM_IDX_NS(inReal, _cur_idx);
 
-    find_min = STATE.minIdx < STATE.mem_index - MEM_SIZE;
-    find_max = STATE.maxIdx < STATE.mem_index - MEM_SIZE;
+        for (i = _cur_idx + 1; i < MEM_SIZE; i++) {
+            val = MEM_IDX_NS(inReal, i);
+            if (val < STATE.min) {
+                STATE.minIdx = STATE.mem_index - _cur_idx - (MEM_SIZE - i);
+                STATE.min = val;
+            }
+        }
 
-    if (find_min || find_max) {
+        for (i = 0; i < _cur_idx; i++) {
+            val = MEM_IDX_NS(inReal, i);
+            if (val < STATE.min) {
+                STATE.minIdx = STATE.mem_index - (_cur_idx - i);
+                STATE.min = val;
+            }
+        }
 
-        if (find_min) {
+        if (inReal < STATE.min) {
             STATE.minIdx = STATE.mem_index;
             STATE.min = inReal;
         }
-        if (find_max) {
-            STATE.maxIdx = STATE.mem_index;
-            STATE.max = inReal;
-        }
+    } else if (inReal <= STATE.min) {
+        STATE.minIdx = STATE.mem_index;
+        STATE.min = inReal;
+    }
 
+    if (STATE.maxIdx < STATE.mem_index - MEM_SIZE) {
+        /* Scan the whole window, oldest bar first: on a tie the
+         * oldest bar wins, as in the batch function.
+         */
+        STATE.maxIdx = STATE.mem_index - MEM_SIZE;
+        STATE.max = MEM_IDX_NS(inReal, _cur_idx);
 
-        for (i = _cur_idx; i < MEM_SIZE; i++) {
+        for (i = _cur_idx + 1; i < MEM_SIZE; i++) {
             val = MEM_IDX_NS(inReal, i);
-            if (find_min && STATE.min > val) {
-                STATE.minIdx = STATE.mem_index - _cur_idx - (MEM_SIZE - i);
-                STATE.min = val;
-            }
-            if (find_max && STATE.max < val) {
+            if (val > STATE.max) {
                 STATE.maxIdx = STATE.mem_index - _cur_idx - (MEM_SIZE - i);
                 STATE.max = val;
             }
@@ -442,39 +451,26 @@ if (NEED_MORE_DATA) {
 
         for (i = 0; i < _cur_idx; i++) {
             val = MEM_IDX_NS(inReal, i);
-            if (find_min && STATE.min > val) {
-                STATE.minIdx = STATE.mem_index - (_cur_idx - i);
-                STATE.min = val;
-            }
-            if (find_max && STATE.max < val) {
+            if (val > STATE.max) {
                 STATE.maxIdx = STATE.mem_index - (_cur_idx - i);
                 STATE.max = val;
             }
         }
 
-        // FOR_ALL_MEM(i) {
-        //     val = MEM_IDX_NS(inReal, i);
-        //     if (find_min && STATE.min > val) {
-        //         STATE.minIdx = i < _cur_idx ? STATE.mem_index - (_cur_idx - i)
-        //                                     : STATE.mem_index - _cur_idx - (MEM_SIZE - i);
-        //         STATE.min = val;
-        //     }
-        //     if (find_max && STATE.max < val) {
-        //         STATE.maxIdx = i < _cur_idx ? STATE.mem_index - (_cur_idx - i)
-        //                                     : STATE.mem_index - _cur_idx - (MEM_SIZE - i);
-        //         STATE.max = val;
-        //     }
-        // }
-
+        if (inReal > STATE.max) {
+            STATE.maxIdx = STATE.mem_index;
+            STATE.max = inReal;
+        }
+    } else if (inReal >= STATE.max) {
+        STATE.maxIdx = STATE.mem_index;
+        STATE.max = inReal;
     }
 
-}
-
-PUSH_TO_MEM(inReal,inReal);
-VALUE_HANDLE_DEREF(outMinIdx) = STATE.minIdx-1;
-VALUE_HANDLE_DEREF(outMaxIdx) = STATE.maxIdx-1;
+    PUSH_TO_MEM(inReal,inReal);
+    VALUE_HANDLE_DEREF(outMinIdx) = STATE.minIdx-1;
+    VALUE_HANDLE_DEREF(outMaxIdx) = STATE.maxIdx-1;
 
-return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 }
 
 /**** START GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
-- 
2.43.0


From 5114b54d1ec0e8ce9c8161e3cd0f068d895b1270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 08/31] fix: TRIMA stream with a period of 3 or less

---
 ta-lib-rt/c/src/ta_func/ta_TRIMA.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
index b08c9d5..a62a74c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
@@ -582,6 +582,12 @@ double tempReal;
 /**** END GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 
    /* insert state based TA func code here. */
+   if (STATE.optInTimePeriod == 1)
+    {
+       VALUE_HANDLE_DEREF(outReal) = inReal;
+       return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+    }
+
    if (FIRST_LAUNCH)
     {
     STATE.numerator = 0;
@@ -643,8 +649,14 @@ double tempReal;
    STATE.numerator    -= STATE.numeratorSub;
    STATE.numeratorSub -= POP_FROM_MEM(inReal);
 
-   middle = STATE.middleIdx++ % STATE.mem_size;
-   tempReal = MEM_IDX_NS(inReal, middle);
+   if( STATE.optInTimePeriod > 3 )
+   {
+       middle = STATE.middleIdx++ % STATE.mem_size;
+       tempReal = MEM_IDX_NS(inReal, middle);
+   } else {
+       /* The middle of such a short window is the current bar. */
+       tempReal = inReal;
+   }
    STATE.numeratorSub += tempReal;
 
    /* Step (2) */
-- 
2.43.0


From bbd5d4cf5d532e06d0da5013da0b795d8e72fbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 09/31] fix: ULTOSC stream with a period of 1 or with a
 defaulted period

---
 ta-lib-rt/c/src/ta_func/ta_ULTOSC.c | 34 ++++++++++++++++-------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
index e7a3bbf..876c4ce 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
@@ -429,15 +429,6 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
        x = x ^ y; \
     }
 
-   //sort optIns
-    if (optInTimePeriod1 < optInTimePeriod2) {
-        if (optInTimePeriod3 < optInTimePeriod1) swap(optInTimePeriod1, optInTimePeriod3);
-    } else {
-        if (optInTimePeriod2 < optInTimePeriod3) {swap(optInTimePeriod1, optInTimePeriod2); }
-        else swap(optInTimePeriod1, optInTimePeriod3);
-    }
-    if(optInTimePeriod3 < optInTimePeriod2) swap(optInTimePeriod2, optInTimePeriod3);
-
 /**** START GENCODE SECTION 6 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
 /* Generated */ #ifndef TA_FUNC_NO_RANGE_CHECK
@@ -479,6 +470,19 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
 /**** END GENCODE SECTION 6 - DO NOT DELETE THIS LINE ****/
 
    /* insert state init code here. */
+   //sort optIns
+    if (optInTimePeriod1 < optInTimePeriod2) {
+        if (optInTimePeriod3 < optInTimePeriod1) swap(optInTimePeriod1, optInTimePeriod3);
+    } else {
+        if (optInTimePeriod2 < optInTimePeriod3) {swap(optInTimePeriod1, optInTimePeriod2); }
+        else swap(optInTimePeriod1, optInTimePeriod3);
+    }
+    if(optInTimePeriod3 < optInTimePeriod2) swap(optInTimePeriod2, optInTimePeriod3);
+
+    STATE_P.optInTimePeriod1 = optInTimePeriod1;
+    STATE_P.optInTimePeriod2 = optInTimePeriod2;
+    STATE_P.optInTimePeriod3 = optInTimePeriod3;
+
  CREATE_CIRCBUF_STRUCT(ULTOSC, periodA, double, optInTimePeriod3+1);
  CREATE_CIRCBUF_STRUCT(ULTOSC, periodB, double, optInTimePeriod3+1);
 #undef swap
@@ -582,6 +586,12 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
         STATE.b1Total += trueRange;
     }
 
+    CIRCBUF_STRUCT_CURRENT_EL(ULTOSC, periodA) = closeMinusTrueLow;
+    CIRCBUF_STRUCT_CURRENT_EL(ULTOSC, periodB) = trueRange;
+
+    CIRCBUF_STRUCT_NEXT( ULTOSC, periodA);
+    CIRCBUF_STRUCT_NEXT( ULTOSC, periodB);
+
     if (!(NEED_MORE_DATA))
     {
         tempDouble = 0.0;
@@ -603,12 +613,6 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
         STATE.a1Total -= CIRCBUF_STRUCT_EL(ULTOSC, periodA, idx);
         STATE.b1Total -= CIRCBUF_STRUCT_EL(ULTOSC, periodB, idx);
 }
-    CIRCBUF_STRUCT_CURRENT_EL(ULTOSC, periodA) = closeMinusTrueLow;
-    CIRCBUF_STRUCT_CURRENT_EL(ULTOSC, periodB) = trueRange;
-
-    CIRCBUF_STRUCT_NEXT( ULTOSC, periodA);
-    CIRCBUF_STRUCT_NEXT( ULTOSC, periodB);
-
     STATE.prevClose = inClose;
 
     if (NEED_MORE_DATA)
-- 
2.43.0


From d447942d0950e10982b1eae235a6ec95e39f9fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:04 +0000
Subject: [PATCH 10/31] fix: StateFree of composite streams crashed on a NULL
 handle

---
 ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c     | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_ADXR.c         | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_APO.c          | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_ATR.c          | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_BBANDS.c       | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_CCI.c          | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_DEMA.c         | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c  | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c   | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c    | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_HT_SINE.c      | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_MA.c           | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_MACD.c         | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_MACDEXT.c      | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_MAMA.c         | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_MAVP.c         | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_MFI.c          | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_NATR.c         | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_SAR.c          | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_SAREXT.c       | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_STDDEV.c       | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_STOCH.c        | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_STOCHF.c       | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c     | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_TEMA.c         | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_TRIX.c         | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_ULTOSC.c       | 5 +++++
 29 files changed, 145 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c b/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
index 001be92..d3cca0b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
@@ -603,6 +603,11 @@ double tempReal,tempReal1,tempReal2;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    TA_RetCode retCode;
    retCode = FUNCTION_CALL_STATE_FREE(SMA)( (struct TA_SMA_State**) &STATE_P.stateSMA1 );
    if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_ADXR.c b/ta-lib-rt/c/src/ta_func/ta_ADXR.c
index fbeae8d..ff8560c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ADXR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ADXR.c
@@ -509,6 +509,11 @@ double tempReal;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
 ENUM_DECLARATION(RetCode) retCode;
 retCode = FUNCTION_CALL_STATE_FREE(ADX)((struct TA_ADX_State**)&STATE_P.ADXState);
 if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_APO.c b/ta-lib-rt/c/src/ta_func/ta_APO.c
index 4ffec00..ccc97f8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_APO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_APO.c
@@ -705,6 +705,11 @@ int res1, res2;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
      int res = FUNCTION_CALL_STATE_FREE(MA)((struct TA_MA_State**)&STATE_P.fastMAState);
      if (res != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return res;
 
diff --git a/ta-lib-rt/c/src/ta_func/ta_ATR.c b/ta-lib-rt/c/src/ta_func/ta_ATR.c
index d94e087..79bde23 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ATR.c
@@ -581,6 +581,11 @@ double tempReal, tempATR;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
 
         TA_RetCode retCode;
 
diff --git a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
index 5f30d63..9a0d212 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
@@ -727,6 +727,11 @@
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(MA)( (struct TA_MA_State**) &STATE_P.stateMA );
         if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_CCI.c b/ta-lib-rt/c/src/ta_func/ta_CCI.c
index d42dc6a..3d06d40 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CCI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CCI.c
@@ -554,6 +554,11 @@ double lastValue, sum, theAverage;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
   FREE_CIRCBUF_STRUCT(CCI, circBuf);
 /**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_DEMA.c b/ta-lib-rt/c/src/ta_func/ta_DEMA.c
index 7e01523..7829dd4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_DEMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_DEMA.c
@@ -558,6 +558,11 @@
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
 
 
         int res = FUNCTION_CALL_STATE_FREE(EMA)((struct TA_EMA_State**)&STATE_P.state_EMA);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c b/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
index a3788a5..d8fd1fa 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
@@ -695,6 +695,11 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPERIOD)
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
 
         FREE_HILBERT_VARIABLES_STRUCT(detrender);
         FREE_HILBERT_VARIABLES_STRUCT(Q1);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c b/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
index 4da4838..57a3fec 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
@@ -835,6 +835,11 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPHASE)
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
     FREE_HILBERT_VARIABLES_STRUCT(jI);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c b/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
index f382ef1..be36a19 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
@@ -736,6 +736,11 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_PHASOR)
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
 
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c b/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
index cf611cf..4318a47 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
@@ -862,6 +862,11 @@ else {
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
     FREE_HILBERT_VARIABLES_STRUCT(jI);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
index db9fc2c..aeab3d7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
@@ -796,6 +796,11 @@ else {
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
     FREE_HILBERT_VARIABLES_STRUCT(jI);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
index 2e8959c..06feb99 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
@@ -965,6 +965,11 @@ double sine, leadSine;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
     FREE_HILBERT_VARIABLES_STRUCT(jI);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MA.c b/ta-lib-rt/c/src/ta_func/ta_MA.c
index 7e04646..68badbd 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MA.c
@@ -660,6 +660,11 @@ return retValue;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
 ENUM_DECLARATION(RetCode) retValue;
 
 if( STATE_P.optInTimePeriod != 1 )
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACD.c b/ta-lib-rt/c/src/ta_func/ta_MACD.c
index c386b82..4814ee4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACD.c
@@ -943,6 +943,11 @@ k2 = (double)0.15; /* Fix 12 */
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
     ENUM_DECLARATION(RetCode) retCode;
     retCode = FUNCTION_CALL_STATE_FREE(EMA)((struct TA_EMA_State**)&STATE_P.slowEMAState);
     if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
index 5fcb6dc..15016dd 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
@@ -810,6 +810,11 @@ int tempInteger, tempInteger2;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
         ENUM_DECLARATION(RetCode) retCode;
         retCode = FUNCTION_CALL_STATE_FREE(MA)((struct TA_MA_State**)&STATE_P.slowMAState);
         if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAMA.c b/ta-lib-rt/c/src/ta_func/ta_MAMA.c
index 21652e4..7551ae5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAMA.c
@@ -885,6 +885,11 @@ DEFINE_HILBERT_VARIABLES_STRUCT(MAMA)
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
     FREE_HILBERT_VARIABLES_STRUCT(jI);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAVP.c b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
index 34b2bca..e6c4a45 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAVP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
@@ -568,6 +568,11 @@
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    FUNCTION_CALL_STATE_FREE(MA) ((struct TA_MA_State**)&STATE_P.MAState);
 
 /**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
diff --git a/ta-lib-rt/c/src/ta_func/ta_MFI.c b/ta-lib-rt/c/src/ta_func/ta_MFI.c
index d23d1c1..cc19bc1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MFI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MFI.c
@@ -658,6 +658,11 @@ DEFINE_CIRCBUF_STRUCT(MFI, MoneyFlow)
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    FREE_CIRCBUF_STRUCT(MFI, mflow);
 /**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index db40d8e..7a09130 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -604,6 +604,11 @@ double tempReal, tempATR;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
         if( STATE_P.optInTimePeriod <= 1 )
         {
            /* No smoothing needed. Just do a TRANGE. */
diff --git a/ta-lib-rt/c/src/ta_func/ta_SAR.c b/ta-lib-rt/c/src/ta_func/ta_SAR.c
index 21cd96a..f54fef9 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SAR.c
@@ -890,6 +890,11 @@ double ep_temp;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
 TA_RetCode retCode;
 retCode = FUNCTION_CALL_STATE_FREE(MINUS_DM)( (struct TA_MINUS_DM_State**) &STATE_P.stateMINUS_DM );
 if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
index a5856a2..6a8d7b3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
@@ -1179,6 +1179,11 @@ if( optInAccelerationShort > optInAccelerationMaxShort )
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
  if (STATE_P.optInStartValue == 0)
   {
     TA_RetCode retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_STDDEV.c b/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
index 8345d65..c29bd18 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
@@ -583,6 +583,11 @@ void TA_PREFIX(INT_stddev_using_precalc_ma)( const INPUT_TYPE *inReal,
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    FUNCTION_CALL_STATE_FREE(VAR)((struct TA_VAR_State**)&STATE_P.var_state);
 /**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCH.c b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
index 2613887..d564d91 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
@@ -901,6 +901,11 @@
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(MA)( (struct TA_MA_State**) &STATE_P.stateMA1 );
         if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
index 9754424..3c5e275 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
@@ -841,6 +841,11 @@ TA_RetCode retCode;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(MA)( (struct TA_MA_State**) &STATE_P.stateMA1 );
         if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
index 15f6384..20938d8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
@@ -615,6 +615,11 @@ TA_RetCode retCode;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(RSI)( (struct TA_RSI_State**) &STATE_P.stateRSI );
         if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_TEMA.c b/ta-lib-rt/c/src/ta_func/ta_TEMA.c
index 4aaf978..6a3569c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TEMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TEMA.c
@@ -568,6 +568,11 @@
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
 
         int res = FUNCTION_CALL_STATE_FREE(EMA)((struct TA_EMA_State**)&STATE_P.state_EMA);
         if (res == ENUM_VALUE(RetCode,TA_SUCCESS,Success))
diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIX.c b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
index 4e48687..52bf2ef 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
@@ -528,6 +528,11 @@
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(EMA)( (struct TA_EMA_State**) &STATE_P.stateEMA1 );
         if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
index 876c4ce..43798dc 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
@@ -726,6 +726,11 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    FREE_CIRCBUF_STRUCT(ULTOSC, periodA);
    FREE_CIRCBUF_STRUCT(ULTOSC, periodB);
 /**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
-- 
2.43.0


From 14b22004eb64b1e8b65cfd0ead34a34bf8b3b30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:33 +0000
Subject: [PATCH 11/31] fix: T3 stream with a period of 1 or with an unstable
 period

---
 ta-lib-rt/c/src/ta_func/ta_T3.c | 38 +++++++++++++--------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_T3.c b/ta-lib-rt/c/src/ta_func/ta_T3.c
index 7a200c9..dca26a1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_T3.c
+++ b/ta-lib-rt/c/src/ta_func/ta_T3.c
@@ -480,6 +480,11 @@
     STATE.c4 = 1.0 + 3.0 * STATE.optInVFactor - STATE.c1 + 3.0 * t;
    }
 
+   if (STATE.optInTimePeriod == 1 && FIRST_LAUNCH)
+   {
+       /* Nothing to average: the first bar seeds every stage. */
+       STATE.e1 = STATE.e2 = STATE.e3 = STATE.e4 = STATE.e5 = STATE.e6 = inReal;
+   } else
    if ((int)_cur_idx < STATE.optInTimePeriod)
    {
        STATE.tempReal += inReal;
@@ -554,32 +559,19 @@
                                STATE.tempReal = STATE.e6;
                            } else
                                return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+                       } else
+                       {
+                           STATE.e1  = (STATE.k*inReal)+(STATE.one_minus_k*STATE.e1);
+                           STATE.e2  = (STATE.k*STATE.e1)+(STATE.one_minus_k*STATE.e2);
+                           STATE.e3  = (STATE.k*STATE.e2)+(STATE.one_minus_k*STATE.e3);
+                           STATE.e4  = (STATE.k*STATE.e3)+(STATE.one_minus_k*STATE.e4);
+                           STATE.e5  = (STATE.k*STATE.e4)+(STATE.one_minus_k*STATE.e5);
+                           STATE.e6  = (STATE.k*STATE.e5)+(STATE.one_minus_k*STATE.e6);
                        }
 
+   /* Skip the unstable period */
    if (NEED_MORE_DATA)
-   {
-
-   STATE.e1  = (STATE.k*inReal)+(STATE.one_minus_k*STATE.e1);
-   STATE.e2  = (STATE.k*STATE.e1)+(STATE.one_minus_k*STATE.e2);
-   STATE.e3  = (STATE.k*STATE.e2)+(STATE.one_minus_k*STATE.e3);
-   STATE.e4  = (STATE.k*STATE.e3)+(STATE.one_minus_k*STATE.e4);
-   STATE.e5  = (STATE.k*STATE.e4)+(STATE.one_minus_k*STATE.e5);
-   STATE.e6  = (STATE.k*STATE.e5)+(STATE.one_minus_k*STATE.e6);
-   return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
-   } else
-       if (STATE.firstOutput == 0)
-       {
-           STATE.firstOutput = 1;
-           VALUE_HANDLE_DEREF(outReal) = STATE.c1*STATE.e6+STATE.c2*STATE.e5+STATE.c3*STATE.e4+STATE.c4*STATE.e3;
-           return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-       }
-
-   STATE.e1  = (STATE.k*inReal)+(STATE.one_minus_k*STATE.e1);
-   STATE.e2  = (STATE.k*STATE.e1)+(STATE.one_minus_k*STATE.e2);
-   STATE.e3  = (STATE.k*STATE.e2)+(STATE.one_minus_k*STATE.e3);
-   STATE.e4  = (STATE.k*STATE.e3)+(STATE.one_minus_k*STATE.e4);
-   STATE.e5  = (STATE.k*STATE.e4)+(STATE.one_minus_k*STATE.e5);
-   STATE.e6  = (STATE.k*STATE.e5)+(STATE.one_minus_k*STATE.e6);
+      return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
    VALUE_HANDLE_DEREF(outReal) = STATE.c1*STATE.e6+STATE.c2*STATE.e5+STATE.c3*STATE.e4+STATE.c4*STATE.e3;
 
-- 
2.43.0


From 0bfecbdd8e1a3f25cdcb4721f3a4bfe4306f436b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:33 +0000
Subject: [PATCH 12/31] fix: SAREXT stream with a start value produced an
 output before its lookback

---
 ta-lib-rt/c/src/ta_func/ta_SAREXT.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
index 6a8d7b3..72f0587 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
@@ -896,7 +896,11 @@ if( optInAccelerationShort > optInAccelerationMaxShort )
              if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
              STATE.isLong = (ep_temp > 0)?0:1;
              } else
+             {
+                 if (NEED_MORE_DATA)
+                    return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
                  STATE.isLong = (STATE.optInStartValue > 0)?1:0;
+             }
 
              SAR_ROUNDING(STATE.newHigh);
              SAR_ROUNDING(STATE.newLow);
-- 
2.43.0


From 2ed9c9501fd8fd99b0800ce6daf1d2a49f738987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:34 +0000
Subject: [PATCH 13/31] fix: ATR/NATR streams with a period of 1 (unstable
 period, NULL state)

ATR part: the no-smoothing path returned before the state was checked
and ignored the unstable period.
---
 ta-lib-rt/c/src/ta_func/ta_ATR.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_ATR.c b/ta-lib-rt/c/src/ta_func/ta_ATR.c
index 79bde23..de25527 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ATR.c
@@ -407,11 +407,6 @@ TA_RetCode retCode;
    /* insert local variable here */
 
 
-             if( STATE.optInTimePeriod <= 1 )
-             {
-                /* No smoothing needed. Just do a TRANGE. */
-                return FUNCTION_CALL_STATE(TRANGE)( (struct TA_TRANGE_State*) STATE.StateTRANGE, inHigh, inLow, inClose, outReal );
-             }
 
              TA_RetCode retCode;
 #define TA_ATR_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
@@ -447,6 +442,20 @@ double tempReal, tempATR;
 
    /* insert state based TA func code here. */
 
+   if( STATE.optInTimePeriod <= 1 )
+   {
+      /* No smoothing needed. Just do a TRANGE. */
+      retCode = FUNCTION_CALL_STATE(TRANGE)( (struct TA_TRANGE_State*) STATE.StateTRANGE, inHigh, inLow, inClose, &tempReal );
+      if( retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
+
+      if (NEED_MORE_DATA)
+         return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+
+      VALUE_HANDLE_DEREF(outReal) = tempReal;
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+   }
+
+
    if (FIRST_LAUNCH)
     {
      STATE.firstATR = 1;
-- 
2.43.0


From 97c59b5362a12a256b43d7cb63953a5abdd15a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:51 +0000
Subject: [PATCH 14/31] fix: TRIX on a sub-range was shifted by one EMA
 lookback

---
 ta-lib-rt/c/src/ta_func/ta_TRIX.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIX.c b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
index 52bf2ef..a6c5387 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
@@ -234,7 +234,7 @@
 
    /* Calculate the first EMA */   
    k = PER_TO_K(optInTimePeriod);  
-   retCode = FUNCTION_CALL(INT_EMA)( (startIdx-totalLookback), endIdx, inReal,
+   retCode = FUNCTION_CALL(INT_EMA)( (startIdx-totalLookback+emaLookback), endIdx, inReal,
                                      optInTimePeriod, k,
                                      VALUE_HANDLE_OUT(begIdx), VALUE_HANDLE_OUT(nbElement),
 								     tempBuffer );
@@ -775,7 +775,7 @@ TA_RetCode retCode;
 /* Generated */       }
 /* Generated */    #endif
 /* Generated */    k = PER_TO_K(optInTimePeriod);  
-/* Generated */    retCode = FUNCTION_CALL(INT_EMA)( (startIdx-totalLookback), endIdx, inReal,
+/* Generated */    retCode = FUNCTION_CALL(INT_EMA)( (startIdx-totalLookback+emaLookback), endIdx, inReal,
 /* Generated */                                      optInTimePeriod, k,
 /* Generated */                                      VALUE_HANDLE_OUT(begIdx), VALUE_HANDLE_OUT(nbElement),
 /* Generated */ 								     tempBuffer );
-- 
2.43.0


From 830322ffb050eef05655be0e8bdbb00b857c560e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:51 +0000
Subject: [PATCH 15/31] fix: MAVP with min period above max period read past
 its local results; in-place calls corrupted the input

---
 ta-lib-rt/c/src/ta_func/ta_MAVP.c | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_MAVP.c b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
index e6c4a45..7d72b74 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAVP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
@@ -186,7 +186,7 @@
    /* insert local variable here */
    int i, j, lookbackTotal, outputSize, tempInt, curPeriod;
    ARRAY_INT_REF(localPeriodArray);
-   ARRAY_REF(localOutputArray);
+   ARRAY_REF(localOutputArray); ARRAY_REF(localResultArray);
    VALUE_HANDLE_INT(localBegIdx);
    VALUE_HANDLE_INT(localNbElement);
    ENUM_DECLARATION(RetCode) retCode;
@@ -269,7 +269,7 @@
    outputSize = endIdx - tempInt + 1;
 
    /* Allocate intermediate local buffer. */
-   ARRAY_ALLOC(localOutputArray,outputSize);
+   ARRAY_ALLOC(localOutputArray,outputSize); ARRAY_ALLOC(localResultArray,outputSize);
    ARRAY_INT_ALLOC(localPeriodArray,outputSize);
 
    /* Copy caller array of period into local buffer.
@@ -280,7 +280,7 @@
       tempInt = (int)(inPeriods[startIdx+i]);
 	  if( tempInt < optInMinPeriod )
 		  tempInt = optInMinPeriod;
-	  else if( tempInt > optInMaxPeriod )
+	  if( tempInt > optInMaxPeriod )
           tempInt = optInMaxPeriod;
       localPeriodArray[i] = tempInt;
    }
@@ -310,26 +310,28 @@
 
            if( retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success) )
 		   {
-              ARRAY_FREE(localOutputArray);
+              ARRAY_FREE(localOutputArray); ARRAY_FREE(localResultArray);
 			  ARRAY_INT_FREE(localPeriodArray);
               VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
               VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
               return retCode;
 	       }
 		   
-		   outReal[i] = localOutputArray[i];
+		   localResultArray[i] = localOutputArray[i];
 		   for( j=i+1; j < outputSize; j++ )
 		   {
 			   if( localPeriodArray[j] == curPeriod )
 			   {
 				   localPeriodArray[j] = 0; /* Flag to avoid recalculation */
-				   outReal[j] = localOutputArray[j];
+				   localResultArray[j] = localOutputArray[j];
 			   }
 		   }		   
 	   }
    }
 
-   ARRAY_FREE(localOutputArray);
+   /* The result is copied at the end only: outReal may be inReal. */
+   ARRAY_MEMMOVE( outReal, 0, localResultArray, 0, outputSize );
+   ARRAY_FREE(localOutputArray); ARRAY_FREE(localResultArray);
    ARRAY_INT_FREE(localPeriodArray);
 
    /* Done. Inform the caller of the success. */
@@ -759,7 +761,7 @@ TA_RetCode retCode;
 /* Generated */ {
 /* Generated */    int i, j, lookbackTotal, outputSize, tempInt, curPeriod;
 /* Generated */    ARRAY_INT_REF(localPeriodArray);
-/* Generated */    ARRAY_REF(localOutputArray);
+/* Generated */    ARRAY_REF(localOutputArray); ARRAY_REF(localResultArray);
 /* Generated */    VALUE_HANDLE_INT(localBegIdx);
 /* Generated */    VALUE_HANDLE_INT(localNbElement);
 /* Generated */    ENUM_DECLARATION(RetCode) retCode;
@@ -811,14 +813,14 @@ TA_RetCode retCode;
 /* Generated */       return ENUM_VALUE(RetCode,TA_SUCCESS,Success);      
 /* Generated */    }   
 /* Generated */    outputSize = endIdx - tempInt + 1;
-/* Generated */    ARRAY_ALLOC(localOutputArray,outputSize);
+/* Generated */    ARRAY_ALLOC(localOutputArray,outputSize); ARRAY_ALLOC(localResultArray,outputSize);
 /* Generated */    ARRAY_INT_ALLOC(localPeriodArray,outputSize);
 /* Generated */    for( i=0; i < outputSize; i++ )
 /* Generated */    {
 /* Generated */       tempInt = (int)(inPeriods[startIdx+i]);
 /* Generated */ 	  if( tempInt < optInMinPeriod )
 /* Generated */ 		  tempInt = optInMinPeriod;
-/* Generated */ 	  else if( tempInt > optInMaxPeriod )
+/* Generated */ 	  if( tempInt > optInMaxPeriod )
 /* Generated */           tempInt = optInMaxPeriod;
 /* Generated */       localPeriodArray[i] = tempInt;
 /* Generated */    }
@@ -832,24 +834,25 @@ TA_RetCode retCode;
 /* Generated */ 									    VALUE_HANDLE_OUT(localBegIdx),VALUE_HANDLE_OUT(localNbElement),localOutputArray );
 /* Generated */            if( retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success) )
 /* Generated */ 		   {
-/* Generated */               ARRAY_FREE(localOutputArray);
+/* Generated */               ARRAY_FREE(localOutputArray); ARRAY_FREE(localResultArray);
 /* Generated */ 			  ARRAY_INT_FREE(localPeriodArray);
 /* Generated */               VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
 /* Generated */               VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
 /* Generated */               return retCode;
 /* Generated */ 	       }
-/* Generated */ 		   outReal[i] = localOutputArray[i];
+/* Generated */ 		   localResultArray[i] = localOutputArray[i];
 /* Generated */ 		   for( j=i+1; j < outputSize; j++ )
 /* Generated */ 		   {
 /* Generated */ 			   if( localPeriodArray[j] == curPeriod )
 /* Generated */ 			   {
 /* Generated */ 				   localPeriodArray[j] = 0; 
-/* Generated */ 				   outReal[j] = localOutputArray[j];
+/* Generated */ 				   localResultArray[j] = localOutputArray[j];
 /* Generated */ 			   }
 /* Generated */ 		   }		   
 /* Generated */ 	   }
 /* Generated */    }
-/* Generated */    ARRAY_FREE(localOutputArray);
+/* Generated */    ARRAY_MEMMOVE( outReal, 0, localResultArray, 0, outputSize );
+/* Generated */    ARRAY_FREE(localOutputArray); ARRAY_FREE(localResultArray);
 /* Generated */    ARRAY_INT_FREE(localPeriodArray);
 /* Generated */    VALUE_HANDLE_DEREF(outBegIdx) = startIdx;
 /* Generated */    VALUE_HANDLE_DEREF(outNBElement) = outputSize;
-- 
2.43.0


From cd3226234011e00b4856400762ad002b89cda734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:51 +0000
Subject: [PATCH 16/31] fix: STOCH/STOCHF lost the K line when the D output
 aliases an input

---
 ta-lib-rt/c/src/ta_func/ta_STOCH.c  | 12 ------------
 ta-lib-rt/c/src/ta_func/ta_STOCHF.c | 12 ------------
 2 files changed, 24 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCH.c b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
index d564d91..0c95f23 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
@@ -411,12 +411,6 @@
       {
          tempBuffer = outSlowK;
       }
-      else if( (outSlowD == inHigh) ||
-               (outSlowD == inLow)  ||
-               (outSlowD == inClose) )
-      {
-         tempBuffer = outSlowD;
-      }
       else
       {
          #if !defined( _MANAGED ) && !defined(_JAVA)
@@ -1216,12 +1210,6 @@ TA_RetCode retCode;
 /* Generated */       {
 /* Generated */          tempBuffer = outSlowK;
 /* Generated */       }
-/* Generated */       else if( (outSlowD == inHigh) ||
-/* Generated */                (outSlowD == inLow)  ||
-/* Generated */                (outSlowD == inClose) )
-/* Generated */       {
-/* Generated */          tempBuffer = outSlowD;
-/* Generated */       }
 /* Generated */       else
 /* Generated */       {
 /* Generated */          #if !defined( _MANAGED ) && !defined(_JAVA)
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
index 3c5e275..595c15f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
@@ -367,12 +367,6 @@
       {
          tempBuffer = outFastK;
       }
-      else if( (outFastD == inHigh) ||
-               (outFastD == inLow)  ||
-               (outFastD == inClose) )
-      {
-         tempBuffer = outFastD;
-      }
       else
       {
          #if !defined( _MANAGED ) && !defined( _JAVA )
@@ -1125,12 +1119,6 @@ TA_RetCode retCode;
 /* Generated */       {
 /* Generated */          tempBuffer = outFastK;
 /* Generated */       }
-/* Generated */       else if( (outFastD == inHigh) ||
-/* Generated */                (outFastD == inLow)  ||
-/* Generated */                (outFastD == inClose) )
-/* Generated */       {
-/* Generated */          tempBuffer = outFastD;
-/* Generated */       }
 /* Generated */       else
 /* Generated */       {
 /* Generated */          #if !defined( _MANAGED ) && !defined( _JAVA )
-- 
2.43.0


From 95ca97e616c9a37c763c482401199a2e5d3a6b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:51 +0000
Subject: [PATCH 17/31] fix: NATR normalised a sub-range by the wrong closes
 and misplaced zero-close outputs; NATR(1) stream

---
 ta-lib-rt/c/src/ta_func/ta_NATR.c | 37 +++++++++++++++++--------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index 7a09130..a4b6d29 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -314,7 +314,7 @@
     * provided outReal.
     */
    outIdx = 1;
-   tempValue = inClose[today];
+   tempValue = inClose[startIdx-lookbackTotal+today];
    if( !TA_IS_ZERO(tempValue) )
       outReal[0] = (prevATR/tempValue)*100.0;
    else
@@ -328,11 +328,11 @@
       prevATR *= optInTimePeriod - 1;
       prevATR += tempBuffer[today++];
       prevATR /= optInTimePeriod;
-      tempValue = inClose[today];
+      tempValue = inClose[startIdx-lookbackTotal+today];
       if( !TA_IS_ZERO(tempValue) )
          outReal[outIdx] = (prevATR/tempValue)*100.0;
       else
-         outReal[0] = 0.0;
+         outReal[outIdx] = 0.0;
       outIdx++;
    }
 
@@ -430,11 +430,6 @@ TA_RetCode retCode;
 /**** END GENCODE SECTION 7 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
-        if( STATE.optInTimePeriod <= 1 )
-        {
-           /* No smoothing needed. Just do a TRANGE. */
-           return FUNCTION_CALL_STATE(TRANGE)( (struct TA_TRANGE_State*) STATE.StateTRANGE, inHigh, inLow, inClose, outReal );
-        }
 
         TA_RetCode retCode;
 #define TA_NATR_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
@@ -468,6 +463,20 @@ double tempReal, tempATR;
 /**** END GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 
    /* insert state based TA func code here. */
+
+   if( STATE.optInTimePeriod <= 1 )
+   {
+      /* No smoothing needed. Just do a TRANGE. */
+      retCode = FUNCTION_CALL_STATE(TRANGE)( (struct TA_TRANGE_State*) STATE.StateTRANGE, inHigh, inLow, inClose, &tempReal );
+      if( retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
+
+      if (NEED_MORE_DATA)
+         return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+
+      VALUE_HANDLE_DEREF(outReal) = tempReal;
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+   }
+
         if (FIRST_LAUNCH)
          {
           STATE.firstATR = 1;
@@ -609,12 +618,6 @@ double tempReal, tempATR;
    if (STATE == NULL)
       return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 
-        if( STATE_P.optInTimePeriod <= 1 )
-        {
-           /* No smoothing needed. Just do a TRANGE. */
-           return FUNCTION_CALL_STATE_FREE(TRANGE)( (struct TA_TRANGE_State**) &STATE_P.StateTRANGE);
-        }
-
         TA_RetCode retCode;
 
         retCode = FUNCTION_CALL_STATE_FREE(TRANGE)( (struct TA_TRANGE_State**) &STATE_P.StateTRANGE );
@@ -881,7 +884,7 @@ TA_RetCode retCode;
 /* Generated */       outIdx--;
 /* Generated */    }
 /* Generated */    outIdx = 1;
-/* Generated */    tempValue = inClose[today];
+/* Generated */    tempValue = inClose[startIdx-lookbackTotal+today];
 /* Generated */    if( !TA_IS_ZERO(tempValue) )
 /* Generated */       outReal[0] = (prevATR/tempValue)*100.0;
 /* Generated */    else
@@ -892,11 +895,11 @@ TA_RetCode retCode;
 /* Generated */       prevATR *= optInTimePeriod - 1;
 /* Generated */       prevATR += tempBuffer[today++];
 /* Generated */       prevATR /= optInTimePeriod;
-/* Generated */       tempValue = inClose[today];
+/* Generated */       tempValue = inClose[startIdx-lookbackTotal+today];
 /* Generated */       if( !TA_IS_ZERO(tempValue) )
 /* Generated */          outReal[outIdx] = (prevATR/tempValue)*100.0;
 /* Generated */       else
-/* Generated */          outReal[0] = 0.0;
+/* Generated */          outReal[outIdx] = 0.0;
 /* Generated */       outIdx++;
 /* Generated */    }
 /* Generated */    VALUE_HANDLE_DEREF(outBegIdx)    = startIdx;
-- 
2.43.0


From 3f5c2eb8cdc0de2b69821751a48daac658e8c597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 18/31] fix: BBANDS with an MA whose lookback differs from the
 standard deviation's

---
 ta-lib-rt/c/src/ta_func/ta_BBANDS.c | 30 ++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
index 9a0d212..8af5368 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
@@ -132,8 +132,11 @@
    UNUSED_VARIABLE(optInNbDevUp);
    UNUSED_VARIABLE(optInNbDevDn);
 
-   /* The lookback is driven by the middle band moving average. */
-   return LOOKBACK_CALL(MA)( optInTimePeriod, optInMAType );                          
+   /* The lookback is driven by the middle band moving average, unless
+    * the standard deviation needs more (MAMA has a fixed lookback).
+    */
+   return max( LOOKBACK_CALL(MA)( optInTimePeriod, optInMAType ),
+               LOOKBACK_CALL(STDDEV)( optInTimePeriod, 1.0 ) );
 }
 
 /**** START GENCODE SECTION 3 - DO NOT DELETE THIS LINE ****/
@@ -311,6 +314,18 @@
    #endif
 
 
+   /* Move up the start index if there is not enough initial data. */
+   if( startIdx < LOOKBACK_CALL(BBANDS)( optInTimePeriod, optInNbDevUp, optInNbDevDn, optInMAType ) )
+      startIdx = LOOKBACK_CALL(BBANDS)( optInTimePeriod, optInNbDevUp, optInNbDevDn, optInMAType );
+
+   /* Make sure there is still something to evaluate. */
+   if( startIdx > endIdx )
+   {
+      VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+      VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+   }
+
    /* Calculate the middle band, which is a moving average.
     * The other two bands will simply add/substract the
     * standard deviation from this middle band.
@@ -572,8 +587,9 @@
    retCode = FUNCTION_CALL_STATE(MA)( (struct TA_MA_State*) STATE.stateMA, inReal, &tempReal2 );
    if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success) && retCode != ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData)) return retCode;
    retCode = FUNCTION_CALL_STATE(STDDEV)( (struct TA_STDDEV_State*) STATE.stateSTDDEV, inReal, &tempReal );
-   if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
+   if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success) && retCode != ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData)) return retCode;
 
+   if (NEED_MORE_DATA) return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
    VALUE_HANDLE_DEREF(outRealMiddleBand) = tempReal2;
 
@@ -1006,6 +1022,14 @@ TA_RetCode retCode;
 /* Generated */       if( (tempBuffer1 == inReal) || (tempBuffer2 == inReal) )
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    #endif
+/* Generated */    if( startIdx < LOOKBACK_CALL(BBANDS)( optInTimePeriod, optInNbDevUp, optInNbDevDn, optInMAType ) )
+/* Generated */       startIdx = LOOKBACK_CALL(BBANDS)( optInTimePeriod, optInNbDevUp, optInNbDevDn, optInMAType );
+/* Generated */    if( startIdx > endIdx )
+/* Generated */    {
+/* Generated */       VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */       VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */       return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+/* Generated */    }
 /* Generated */    retCode = FUNCTION_CALL(MA)( startIdx, endIdx, inReal,
 /* Generated */                                 optInTimePeriod, optInMAType,
 /* Generated */                                 outBegIdx, outNBElement, tempBuffer1 );
-- 
2.43.0


From b77d2027d5b2cebf827d7777ee039d5bb82cb2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 19/31] fix: APO/PPO streams rejected the last MA type and
 mis-handled a defaulted slow period

---
 ta-lib-rt/c/src/ta_func/ta_APO.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_APO.c b/ta-lib-rt/c/src/ta_func/ta_APO.c
index ccc97f8..2edbb73 100644
--- a/ta-lib-rt/c/src/ta_func/ta_APO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_APO.c
@@ -491,14 +491,6 @@ TA_RetCode TA_PREFIX(INT_PO)( int    startIdx,
 
 int tempInteger;
 TA_RetCode retCode;
-if( optInSlowPeriod < optInFastPeriod )
-{
-    /* swap */
-    tempInteger     = optInSlowPeriod;
-    optInSlowPeriod = optInFastPeriod;
-    optInFastPeriod = tempInteger;
-}
-
 
  #ifndef TA_FUNC_NO_RANGE_CHECK
 
@@ -519,10 +511,18 @@ if( optInSlowPeriod < optInFastPeriod )
     #if !defined(_MANAGED) && !defined(_JAVA)
     if( (int)optInMAType == TA_INTEGER_DEFAULT )
        optInMAType = (TA_MAType)0;
-    else if( ((int)optInMAType < 0) || ((int)optInMAType > 8) )
+    else if( ((int)optInMAType < 0) || ((int)optInMAType > 9) )
        return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
     #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
+    if( optInSlowPeriod < optInFastPeriod )
+    {
+        /* swap */
+        tempInteger     = optInSlowPeriod;
+        optInSlowPeriod = optInFastPeriod;
+        optInFastPeriod = tempInteger;
+    }
+
     STATE = TA_Calloc(1, sizeof(struct TA_APO_State));
     STATE_P.mem_index = 0;
     STATE_P.optInFastPeriod = optInFastPeriod;
-- 
2.43.0


From 95d5a8cbba105009be5a313dca368ca3de5cb661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 20/31] fix: MACDEXT stream when the fast MA has the largest
 lookback

---
 ta-lib-rt/c/src/ta_func/ta_MACDEXT.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
index 15016dd..cd33d5c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
@@ -655,11 +655,17 @@ int tempInteger, tempInteger2;
            tempInteger2 = LOOKBACK_CALL(MA)( STATE.optInFastPeriod, STATE.optInFastMAType );
            if (tempInteger2 < 0) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
-           STATE.fastMADelay = abs( tempInteger - tempInteger2 );
+           STATE.fastMADelay = tempInteger - tempInteger2;
          }
 
+        /* The MA with the smallest lookback is delayed to start
+         * with the other one.
+         */
+
         /* Calculate the slow MA.  */
-        retCode1 = FUNCTION_CALL_STATE(MA)( STATE.slowMAState, inReal, &slowMA );
+        retCode1 = ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+        if (-STATE.fastMADelay < (int) STATE.mem_index)
+           retCode1 = FUNCTION_CALL_STATE(MA)( STATE.slowMAState, inReal, &slowMA );
 
         if( retCode1 != ENUM_VALUE(RetCode,TA_SUCCESS,Success) &&
             retCode1 != ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData))
@@ -667,14 +673,13 @@ int tempInteger, tempInteger2;
 
 
         /* Calculate the fast MA. */
+        retCode2 = ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
         if (STATE.fastMADelay < (int) STATE.mem_index)
-        {
-        retCode2 = FUNCTION_CALL_STATE(MA)( STATE.fastMAState, inReal, &fastMA );
+           retCode2 = FUNCTION_CALL_STATE(MA)( STATE.fastMAState, inReal, &fastMA );
 
         if( retCode2 != ENUM_VALUE(RetCode,TA_SUCCESS,Success) &&
             retCode2 != ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData))
            return retCode2;
-        } else return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
 
         if (retCode1 | retCode2)
-- 
2.43.0


From 451e0a4a7a5c5e913d96a12efb13a23b291b0bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 21/31] fix: MACDFIX stream was not saved nor loaded

---
 ta-lib-rt/c/src/ta_func/ta_MACDFIX.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c b/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
index 9f6ac53..6159c4f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
@@ -496,6 +496,9 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 /**** END GENCODE SECTION 11 - DO NOT DELETE THIS LINE ****/
 
 {
+   return FUNCTION_CALL_STATE_SAVE(MACD)( (struct TA_MACD_State*) _state, _file );
+
+#ifdef SUPPRESS_CODE_BLOCK_BELOW
    /* insert local variable here */
 
 /**** START GENCODE SECTION 12 - DO NOT DELETE THIS LINE ****/
@@ -525,6 +528,7 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 
    /* insert state save code here. */   
    return 0;
+#endif
 }
 
 /**** START GENCODE SECTION 13 - DO NOT DELETE THIS LINE ****/
@@ -544,6 +548,9 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 /* Generated */ #endif
 /**** END GENCODE SECTION 13 - DO NOT DELETE THIS LINE ****/
 {
+   return FUNCTION_CALL_STATE_LOAD(MACD)( (struct TA_MACD_State**) _state, _file );
+
+#ifdef SUPPRESS_CODE_BLOCK_BELOW
    /* insert local variable here */
 
 /**** START GENCODE SECTION 14 - DO NOT DELETE THIS LINE ****/
@@ -575,6 +582,7 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 
    /* insert state load code here. */   
    return 0;
+#endif
 }
 
 /**** START GENCODE SECTION 15 - DO NOT DELETE THIS LINE ****/
-- 
2.43.0


From 6c5687d268143119ab96b3dad973ba41f3b9ec3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:55 +0000
Subject: [PATCH 22/31] fix: EMA stream with an unstable period, Metastock seed
 with zero lookback, defaulted period

---
 ta-lib-rt/c/src/ta_func/ta_EMA.c | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_EMA.c b/ta-lib-rt/c/src/ta_func/ta_EMA.c
index 1e9b0da..b0c02f3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_EMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_EMA.c
@@ -375,6 +375,8 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
 
 {
    /* insert local variable here */
+   if( (int)optInTimePeriod == TA_INTEGER_DEFAULT )
+      optInTimePeriod = 30;
    return TA_INT_EMA_StateInit(_state, optInTimePeriod, PER_TO_K( optInTimePeriod ));
 
 #ifdef SUPPRESS_CODE_BLOCK_BELOW
@@ -508,27 +510,18 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
                 {
                   STATE.prevMA = STATE.tempSum / STATE.optInTimePeriod;
 
-                  if (!(NEED_MORE_DATA))
-                  {
-                      VALUE_HANDLE_DEREF(outReal) = STATE.prevMA;
-                      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-                  }
-
-                } else
-                  return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
-          }
+                }
+          } else
+              STATE.prevMA = ((inReal- STATE.prevMA) * STATE.optInK_1 ) + STATE.prevMA;
          }
           else {
            if (FIRST_LAUNCH)
-            {
               STATE.prevMA = inReal;
-              return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
-            }
+           else
+              STATE.prevMA = ((inReal- STATE.prevMA) * STATE.optInK_1 ) + STATE.prevMA;
       }
 
 
-    STATE.prevMA = ((inReal- STATE.prevMA) * STATE.optInK_1 ) + STATE.prevMA;
-
 //    if (LAST_NEED_MORE_DATA)
 //    {
 //        VALUE_HANDLE_DEREF(outReal) = STATE.prevMA;
-- 
2.43.0


From c41c519cd6326dc1e5e79d73d9dc9d432c139af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:50 +0000
Subject: [PATCH 23/31] fix: WLMA stream with an unstable period, Metastock
 seed with zero lookback, defaulted period

---
 ta-lib-rt/c/src/ta_func/ta_WLMA.c | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_WLMA.c b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
index 3eed354..5930512 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WLMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
@@ -372,6 +372,8 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
 
 {
    /* insert local variable here */
+   if( (int)optInTimePeriod == TA_INTEGER_DEFAULT )
+      optInTimePeriod = 30;
    return TA_INT_WLMA_StateInit(_state, optInTimePeriod, PER_TO_WILDERS_K( optInTimePeriod ));
 
 #ifdef SUPPRESS_CODE_BLOCK_BELOW
@@ -505,27 +507,18 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
                 {
                   STATE.prevMA = STATE.tempSum / STATE.optInTimePeriod;
 
-                  if (!(NEED_MORE_DATA))
-                  {
-                      VALUE_HANDLE_DEREF(outReal) = STATE.prevMA;
-                      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-                  }
-
-                } else
-                  return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
-          }
+                }
+          } else
+              STATE.prevMA = ((inReal- STATE.prevMA) * STATE.optInK_1 ) + STATE.prevMA;
          }
           else {
            if (FIRST_LAUNCH)
-            {
               STATE.prevMA = inReal;
-              return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
-            }
+           else
+              STATE.prevMA = ((inReal- STATE.prevMA) * STATE.optInK_1 ) + STATE.prevMA;
       }
 
 
-    STATE.prevMA = ((inReal- STATE.prevMA) * STATE.optInK_1 ) + STATE.prevMA;
-
 //    if (LAST_NEED_MORE_DATA)
 //    {
 //        VALUE_HANDLE_DEREF(outReal) = STATE.prevMA;
-- 
2.43.0


From c77bd79596f60e1e89ba63057b6fc4135e15d647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:50 +0000
Subject: [PATCH 24/31] fix: KAMA stream with an unstable period read the wrong
 trailing value

---
 ta-lib-rt/c/src/ta_func/ta_KAMA.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_KAMA.c b/ta-lib-rt/c/src/ta_func/ta_KAMA.c
index 315b8ab..9179fbd 100644
--- a/ta-lib-rt/c/src/ta_func/ta_KAMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_KAMA.c
@@ -434,6 +434,7 @@
 
         double tempReal;
         double periodROC;
+        double oldestReal;
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
 /* Generated */ #ifndef TA_FUNC_NO_RANGE_CHECK
@@ -483,13 +484,18 @@
         }
 
 
+     /* The memory spans the lookback, which is longer than the period when
+      * there is an unstable period.
+      */
+     oldestReal = MEM_IDX_NS(inReal,(STATE.mem_index-1-STATE.optInTimePeriod)%MEM_SIZE);
+
      if (((int)STATE.mem_index-1) > STATE.optInTimePeriod)
      {
-         STATE.sumROC1 -= std_fabs(STATE.trailingValue-POP_FROM_MEM(inReal));
+         STATE.sumROC1 -= std_fabs(STATE.trailingValue-oldestReal);
          STATE.sumROC1 += std_fabs(inReal-STATE.yestReal);
      }
 
-    STATE.trailingValue = POP_FROM_MEM(inReal);
+    STATE.trailingValue = oldestReal;
     periodROC = inReal - STATE.trailingValue;
 
 
-- 
2.43.0


From 73ffa7fe7e92e2dfdd8f9769285c09e7e9bd32f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:27 +0000
Subject: [PATCH 25/31] fix: linear regressions, WMA and TRIMA overflowed an
 int with large periods

---
 ta-lib-rt/c/src/ta_func/ta_LINEARREG.c           | 12 ++++++------
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c     | 12 ++++++------
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c | 12 ++++++------
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c     | 12 ++++++------
 ta-lib-rt/c/src/ta_func/ta_TRIMA.c               | 16 +++++++---------
 ta-lib-rt/c/src/ta_func/ta_TSF.c                 | 12 ++++++------
 ta-lib-rt/c/src/ta_func/ta_WMA.c                 | 12 +++++++-----
 7 files changed, 44 insertions(+), 44 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
index bdcb673..ac0238f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
@@ -231,8 +231,8 @@
    outIdx = 0; /* Index into the output. */
    today = startIdx;
 
-   SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+   SumX = optInTimePeriod * ( optInTimePeriod - 1.0 ) * 0.5;
+   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1.0 ) * ( 2.0 * optInTimePeriod - 1.0 ) / 6;
    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 
    while( today <= endIdx )
@@ -357,8 +357,8 @@
 
    if (FIRST_LAUNCH)
         { // init const values
-            STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
-            STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
+            STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1.0 ) * 0.5;
+            STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1.0 ) * ( 2.0 * STATE.optInTimePeriod - 1.0 ) / 6;
             STATE.Divisor = STATE.SumX * STATE.SumX - STATE.optInTimePeriod * STATE.SumXSqr;
           // init sums
             STATE.SumXY = 0;
@@ -701,8 +701,8 @@
 /* Generated */    }
 /* Generated */    outIdx = 0; 
 /* Generated */    today = startIdx;
-/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1.0 ) * 0.5;
+/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1.0 ) * ( 2.0 * optInTimePeriod - 1.0 ) / 6;
 /* Generated */    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
index 00efd5c..ae1c8a5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
@@ -233,8 +233,8 @@
    outIdx = 0; /* Index into the output. */
    today = startIdx;
 
-   SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+   SumX = optInTimePeriod * ( optInTimePeriod - 1.0 ) * 0.5;
+   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1.0 ) * ( 2.0 * optInTimePeriod - 1.0 ) / 6;
    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 
    while( today <= endIdx )
@@ -358,8 +358,8 @@ double m, tempReal;
 
         if (FIRST_LAUNCH)
              { // init const values
-                 STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
-                 STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
+                 STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1.0 ) * 0.5;
+                 STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1.0 ) * ( 2.0 * STATE.optInTimePeriod - 1.0 ) / 6;
                  STATE.Divisor = STATE.SumX * STATE.SumX - STATE.optInTimePeriod * STATE.SumXSqr;
                // init sums
                  STATE.SumXY = 0;
@@ -701,8 +701,8 @@ double m, tempReal;
 /* Generated */    }
 /* Generated */    outIdx = 0; 
 /* Generated */    today = startIdx;
-/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1.0 ) * 0.5;
+/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1.0 ) * ( 2.0 * optInTimePeriod - 1.0 ) / 6;
 /* Generated */    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
index 1583c06..be0b223 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
@@ -231,8 +231,8 @@
    outIdx = 0; /* Index into the output. */
    today = startIdx;
 
-   SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+   SumX = optInTimePeriod * ( optInTimePeriod - 1.0 ) * 0.5;
+   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1.0 ) * ( 2.0 * optInTimePeriod - 1.0 ) / 6;
    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 
    while( today <= endIdx )
@@ -356,8 +356,8 @@ double m, tempReal;
 
         if (FIRST_LAUNCH)
              { // init const values
-                 STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
-                 STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
+                 STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1.0 ) * 0.5;
+                 STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1.0 ) * ( 2.0 * STATE.optInTimePeriod - 1.0 ) / 6;
                  STATE.Divisor = STATE.SumX * STATE.SumX - STATE.optInTimePeriod * STATE.SumXSqr;
                // init sums
                  STATE.SumXY = 0;
@@ -700,8 +700,8 @@ double m, tempReal;
 /* Generated */    }
 /* Generated */    outIdx = 0; 
 /* Generated */    today = startIdx;
-/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1.0 ) * 0.5;
+/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1.0 ) * ( 2.0 * optInTimePeriod - 1.0 ) / 6;
 /* Generated */    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
index 0d0edc2..5c5fdd9 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
@@ -230,8 +230,8 @@
    outIdx = 0; /* Index into the output. */
    today = startIdx;
 
-   SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+   SumX = optInTimePeriod * ( optInTimePeriod - 1.0 ) * 0.5;
+   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1.0 ) * ( 2.0 * optInTimePeriod - 1.0 ) / 6;
    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 
    while( today <= endIdx )
@@ -354,8 +354,8 @@ double tempReal;
 
         if (FIRST_LAUNCH)
              { // init const values
-                 STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
-                 STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
+                 STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1.0 ) * 0.5;
+                 STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1.0 ) * ( 2.0 * STATE.optInTimePeriod - 1.0 ) / 6;
                  STATE.Divisor = STATE.SumX * STATE.SumX - STATE.optInTimePeriod * STATE.SumXSqr;
                // init sums
                  STATE.SumXY = 0;
@@ -695,8 +695,8 @@ double tempReal;
 /* Generated */    }
 /* Generated */    outIdx = 0; 
 /* Generated */    today = startIdx;
-/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1.0 ) * 0.5;
+/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1.0 ) * ( 2.0 * optInTimePeriod - 1.0 ) / 6;
 /* Generated */    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
index a62a74c..ae0552b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
@@ -335,11 +335,9 @@
        *                = 3 * 4 = 12
        */
 
-      /* Note: entirely done with int and becomes double only 
-       *       on assignement to the factor variable.
-       */
+      /* Note: done with double, an int could overflow. */
       i = (optInTimePeriod>>1);
-      factor = (i+1)*(i+1); 
+      factor = (i+1.0)*(i+1.0); 
       factor = 1.0/factor;
 
       /* Initialize all the variable before
@@ -412,7 +410,7 @@
        *  - Adjustment of numeratorAdd is different. See Step (2).
        */
       i = (optInTimePeriod>>1);
-      factor = i*(i+1); 
+      factor = i*(i+1.0); 
       factor = 1.0/factor;
 
       /* Initialize all the variable before
@@ -598,12 +596,12 @@ double tempReal;
             if( (STATE.optInTimePeriod % 2) == 1 )
             {
                 i = (STATE.optInTimePeriod>>1);
-                STATE.factor = (i+1)*(i+1);
+                STATE.factor = (i+1.0)*(i+1.0);
                 STATE.factor = 1.0/STATE.factor;
                 STATE.middleIdx   = i;
             } else {
                 i = (STATE.optInTimePeriod>>1);
-                STATE.factor = i*(i+1);
+                STATE.factor = i*(i+1.0);
                 STATE.factor = 1.0/STATE.factor;
 
                 STATE.middleIdx   = i - 1;
@@ -990,7 +988,7 @@ double tempReal;
 /* Generated */    if( (optInTimePeriod % 2) == 1 )
 /* Generated */    {
 /* Generated */       i = (optInTimePeriod>>1);
-/* Generated */       factor = (i+1)*(i+1); 
+/* Generated */       factor = (i+1.0)*(i+1.0); 
 /* Generated */       factor = 1.0/factor;
 /* Generated */       trailingIdx = startIdx-lookbackTotal;
 /* Generated */       middleIdx   = trailingIdx + i;
@@ -1033,7 +1031,7 @@ double tempReal;
 /* Generated */    else
 /* Generated */    {
 /* Generated */       i = (optInTimePeriod>>1);
-/* Generated */       factor = i*(i+1); 
+/* Generated */       factor = i*(i+1.0); 
 /* Generated */       factor = 1.0/factor;
 /* Generated */       trailingIdx = startIdx-lookbackTotal;
 /* Generated */       middleIdx   = trailingIdx + i - 1;
diff --git a/ta-lib-rt/c/src/ta_func/ta_TSF.c b/ta-lib-rt/c/src/ta_func/ta_TSF.c
index 6e799c2..69f018c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TSF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TSF.c
@@ -231,8 +231,8 @@
    outIdx = 0; /* Index into the output. */
    today = startIdx;
 
-   SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+   SumX = optInTimePeriod * ( optInTimePeriod - 1.0 ) * 0.5;
+   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1.0 ) * ( 2.0 * optInTimePeriod - 1.0 ) / 6;
    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 
    while( today <= endIdx )
@@ -357,8 +357,8 @@ double m, b, tempReal;
 
         if (FIRST_LAUNCH)
              { // init const values
-                 STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
-                 STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
+                 STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1.0 ) * 0.5;
+                 STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1.0 ) * ( 2.0 * STATE.optInTimePeriod - 1.0 ) / 6;
                  STATE.Divisor = STATE.SumX * STATE.SumX - STATE.optInTimePeriod * STATE.SumXSqr;
                // init sums
                  STATE.SumXY = 0;
@@ -701,8 +701,8 @@ double m, b, tempReal;
 /* Generated */    }
 /* Generated */    outIdx = 0; 
 /* Generated */    today = startIdx;
-/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1.0 ) * 0.5;
+/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1.0 ) * ( 2.0 * optInTimePeriod - 1.0 ) / 6;
 /* Generated */    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
diff --git a/ta-lib-rt/c/src/ta_func/ta_WMA.c b/ta-lib-rt/c/src/ta_func/ta_WMA.c
index 108ca8b..eddab9d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WMA.c
@@ -158,7 +158,8 @@
 /**** END GENCODE SECTION 3 - DO NOT DELETE THIS LINE ****/
 {
    /* Insert local variables here. */
-   int inIdx, outIdx, i, trailingIdx, divider;
+   int inIdx, outIdx, i, trailingIdx;
+   double divider;
    double periodSum, periodSub, tempReal, trailingValue;
    int lookbackTotal;
 
@@ -234,7 +235,7 @@
     * By induction: 1+2+3+4+'n' = n(n+1)/2
     * '>>1' is usually faster than '/2' for unsigned.
     */
-   divider = (optInTimePeriod*(optInTimePeriod+1))>>1;
+   divider = (optInTimePeriod*(optInTimePeriod+1.0))/2;
 
    /* The algo used here use a very basic property of
     * multiplication/addition: (x*2) = x+x
@@ -414,7 +415,7 @@
     {
             STATE.periodSum = 0.;
             STATE.periodSub = 0.;
-            STATE.divider =  (STATE.optInTimePeriod*(STATE.optInTimePeriod+1))>>1; //const
+            STATE.divider =  (STATE.optInTimePeriod*(STATE.optInTimePeriod+1.0))/2; //const
     }
 
  if (NEED_MORE_DATA)
@@ -711,7 +712,8 @@
 /* Generated */                      double        outReal[] )
 /* Generated */ #endif
 /* Generated */ {
-/* Generated */    int inIdx, outIdx, i, trailingIdx, divider;
+/* Generated */    int inIdx, outIdx, i, trailingIdx;
+/* Generated */    double divider;
 /* Generated */    double periodSum, periodSub, tempReal, trailingValue;
 /* Generated */    int lookbackTotal;
 /* Generated */    #if defined( USE_SINGLE_PRECISION_INPUT )
@@ -754,7 +756,7 @@
 /* Generated */       #endif
 /* Generated */       return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    }
-/* Generated */    divider = (optInTimePeriod*(optInTimePeriod+1))>>1;
+/* Generated */    divider = (optInTimePeriod*(optInTimePeriod+1.0))/2;
 /* Generated */    outIdx      = 0;
 /* Generated */    trailingIdx = startIdx - lookbackTotal;
 /* Generated */    periodSum = periodSub = (double)0.0;
-- 
2.43.0


From 694023a381c42a3626c78b10ef58858904527cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:37 +0000
Subject: [PATCH 26/31] fix: BBANDS stream with a moving average that needs
 fewer bars than the standard deviation

---
 ta-lib-rt/c/src/ta_func/ta_BBANDS.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
index 8af5368..3f8901d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
@@ -584,7 +584,10 @@
 /**** END GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 
    /* insert state based TA func code here. */
-   retCode = FUNCTION_CALL_STATE(MA)( (struct TA_MA_State*) STATE.stateMA, inReal, &tempReal2 );
+   /* The MA is delayed to be ready along with the standard deviation. */
+   retCode = ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+   if (STATE.mem_index + LOOKBACK_CALL(MA)( STATE.optInTimePeriod, STATE.optInMAType ) > MEM_SIZE)
+      retCode = FUNCTION_CALL_STATE(MA)( (struct TA_MA_State*) STATE.stateMA, inReal, &tempReal2 );
    if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success) && retCode != ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData)) return retCode;
    retCode = FUNCTION_CALL_STATE(STDDEV)( (struct TA_STDDEV_State*) STATE.stateSTDDEV, inReal, &tempReal );
    if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success) && retCode != ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData)) return retCode;
-- 
2.43.0


From b8047e08b9da1aae264807d3fcead12534b2f72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 27/31] fix: setting a price input with a missing component
 leaves the parameter holder unchanged

---
 ta-lib-rt/c/src/ta_abstract/ta_abstract.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_abstract/ta_abstract.c b/ta-lib-rt/c/src/ta_abstract/ta_abstract.c
index 67fffa9..b6129f4 100644
--- a/ta-lib-rt/c/src/ta_abstract/ta_abstract.c
+++ b/ta-lib-rt/c/src/ta_abstract/ta_abstract.c
@@ -948,15 +948,27 @@ TA_RetCode TA_SetInputParamPricePtr( TA_ParamHolder     *param,
       return TA_INVALID_PARAM_HOLDER_TYPE;
    }
 
+   /* refuse a missing component before anything is changed. */
+   #define CHECK_PARAM_INFO(lowerParam,upperParam) \
+   { \
+      if( (paramInfo->flags & TA_IN_PRICE_##upperParam) && (lowerParam == NULL) ) \
+         return TA_BAD_PARAM; \
+   }
+
+   CHECK_PARAM_INFO(open, OPEN );
+   CHECK_PARAM_INFO(high, HIGH );
+   CHECK_PARAM_INFO(low, LOW );
+   CHECK_PARAM_INFO(close, CLOSE );
+   CHECK_PARAM_INFO(volume, VOLUME );
+   CHECK_PARAM_INFO(openInterest, OPENINTEREST );
+
+   #undef CHECK_PARAM_INFO
+
    /* keep a copy of the provided parameter. */
    #define SET_PARAM_INFO(lowerParam,upperParam) \
    { \
       if( paramInfo->flags & TA_IN_PRICE_##upperParam ) \
       { \
-         if( lowerParam == NULL ) \
-         { \
-            return TA_BAD_PARAM; \
-         } \
          paramHolderPriv->in[paramIndex].data.inPrice.lowerParam = lowerParam; \
       } \
    }
-- 
2.43.0


From 81163eefc164f97e8fc4c25ae3038df743099ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:04 +0000
Subject: [PATCH 28/31] fix: loading a ring buffer from a truncated file used
 uninitialised sizes

---
 ta-lib-rt/c/src/ta_common/ta_memory.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_common/ta_memory.h b/ta-lib-rt/c/src/ta_common/ta_memory.h
index ef55221..160bdf4 100644
--- a/ta-lib-rt/c/src/ta_common/ta_memory.h
+++ b/ta-lib-rt/c/src/ta_common/ta_memory.h
@@ -410,9 +410,9 @@
     int io_circbuf_res; \
     struct TA_##taFunc##_STATE_CIRCBUF* str_circbuf = STATE.var; \
     io_circbuf_res = fwrite(&str_circbuf->idx,sizeof(str_circbuf->idx),1,_file); \
-    if (io_circbuf_res < 0) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
+    if (io_circbuf_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
     io_circbuf_res = fwrite(&str_circbuf->size,sizeof(str_circbuf->size),1,_file); \
-    if (io_circbuf_res < 0) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
+    if (io_circbuf_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
     if (str_circbuf->size > 0) { \
     io_circbuf_res = fwrite(str_circbuf->circbuf,sizeof(type),str_circbuf->size,_file); \
     if (io_circbuf_res < str_circbuf->size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); }\
@@ -422,9 +422,9 @@
     int io_circbuf_res; int circbuf_idx; int circbuf_size;\
     if (STATE_P.var != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam); \
     io_circbuf_res = fread(&circbuf_idx,sizeof(circbuf_idx),1,_file); \
-    if (io_circbuf_res < 0) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
+    if (io_circbuf_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
     io_circbuf_res = fread(&circbuf_size,sizeof(circbuf_size),1,_file); \
-    if (io_circbuf_res < 0) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
+    if (io_circbuf_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
     CREATE_CIRCBUF_STRUCT(taFunc, var, type, circbuf_size) \
     struct TA_##taFunc##_STATE_CIRCBUF* str_circbuf = STATE_P.var;  \
     str_circbuf->idx = circbuf_idx; \
-- 
2.43.0


From d07a8bc975dd94ceaf1a2ead02957268ffe36fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:34 +0000
Subject: [PATCH 29/31] fix: suggested range of integer parameters in the XML
 description

SuggestedStart, SuggestedEnd and SuggestedIncrement were all printed as the
maximum. ta_func_api.xml is printed anew.
---
 .../c/src/tools/gen_code/print_funcs_xml.c    |    6 +-
 ta-lib-rt/ta_func_api.xml                     | 2400 ++++++++---------
 2 files changed, 1203 insertions(+), 1203 deletions(-)

diff --git a/ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c b/ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c
index e4db2f3..43c67c9 100644
--- a/ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c
+++ b/ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c
@@ -186,9 +186,9 @@ void print_opt_input_arg(FILE *file, int indent, const TA_OptInputParameterInfo
         fprintf(file, "%.*s<Range>\n", indent+1, t);
         fprintf(file, "%.*s<Minimum>%d</Minimum>\n", indent+2, t, integerRange->min);
         fprintf(file, "%.*s<Maximum>%d</Maximum>\n", indent+2, t, integerRange->max);
-        fprintf(file, "%.*s<SuggestedStart>%d</SuggestedStart>\n", indent+2, t, integerRange->max);
-        fprintf(file, "%.*s<SuggestedEnd>%d</SuggestedEnd>\n", indent+2, t, integerRange->max);
-        fprintf(file, "%.*s<SuggestedIncrement>%d</SuggestedIncrement>\n", indent+2, t, integerRange->max);
+        fprintf(file, "%.*s<SuggestedStart>%d</SuggestedStart>\n", indent+2, t, integerRange->suggested_start);
+        fprintf(file, "%.*s<SuggestedEnd>%d</SuggestedEnd>\n", indent+2, t, integerRange->suggested_end);
+        fprintf(file, "%.*s<SuggestedIncrement>%d</SuggestedIncrement>\n", indent+2, t, integerRange->suggested_increment);
         fprintf(file, "%.*s</Range>\n", indent+1, t);
         fprintf(file, "%.*s<DefaultValue>%d</DefaultValue>\n", indent+1, t, (int)optInputInfo->defaultValue);
     }
diff --git a/ta-lib-rt/ta_func_api.xml b/ta-lib-rt/ta_func_api.xml
index eeec395..86f1c4b 100644
--- a/ta-lib-rt/ta_func_api.xml
+++ b/ta-lib-rt/ta_func_api.xml
@@ -62,9 +62,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>20</DefaultValue>
 					</OptionalInputArgument>
@@ -104,9 +104,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>20</DefaultValue>
 					</OptionalInputArgument>
@@ -161,9 +161,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>20</DefaultValue>
 					</OptionalInputArgument>
@@ -314,9 +314,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>20</DefaultValue>
 					</OptionalInputArgument>
@@ -344,9 +344,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>20</DefaultValue>
 					</OptionalInputArgument>
@@ -1079,9 +1079,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -1092,9 +1092,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -1138,9 +1138,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -1151,9 +1151,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -1194,9 +1194,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -1207,9 +1207,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -1340,9 +1340,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -1353,9 +1353,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -1383,9 +1383,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -1396,9 +1396,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -1490,9 +1490,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -1532,9 +1532,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -1575,9 +1575,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -1700,9 +1700,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -1730,9 +1730,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -1796,9 +1796,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -1838,9 +1838,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -1881,9 +1881,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2006,9 +2006,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2036,9 +2036,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2099,9 +2099,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -2112,9 +2112,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -2152,9 +2152,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -2165,9 +2165,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -2214,9 +2214,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -2227,9 +2227,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -2342,9 +2342,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -2355,9 +2355,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -2391,9 +2391,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -2404,9 +2404,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -2485,9 +2485,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2523,9 +2523,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2573,9 +2573,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2704,9 +2704,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2734,9 +2734,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2809,9 +2809,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2847,9 +2847,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2890,9 +2890,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -3007,9 +3007,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -3037,9 +3037,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -3499,9 +3499,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -3541,9 +3541,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -3584,9 +3584,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -3709,9 +3709,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -3739,9 +3739,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -4040,9 +4040,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -4074,9 +4074,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -4117,9 +4117,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -4226,9 +4226,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -4256,9 +4256,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -4318,9 +4318,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -4386,9 +4386,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -4477,9 +4477,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -4648,9 +4648,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -4712,9 +4712,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -4837,9 +4837,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -4875,9 +4875,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -4918,9 +4918,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -5035,9 +5035,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -5065,9 +5065,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -5372,9 +5372,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -5414,9 +5414,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -5457,9 +5457,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -5582,9 +5582,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -5612,9 +5612,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -22797,9 +22797,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -22831,9 +22831,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -22874,9 +22874,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -22983,9 +22983,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -23013,9 +23013,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -23088,9 +23088,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23126,9 +23126,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23169,9 +23169,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23286,9 +23286,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23316,9 +23316,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23762,9 +23762,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23796,9 +23796,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23839,9 +23839,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23948,9 +23948,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23978,9 +23978,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -24276,9 +24276,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -24318,9 +24318,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -24361,9 +24361,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -24486,9 +24486,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -24516,9 +24516,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -24587,9 +24587,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -24621,9 +24621,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -24664,9 +24664,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -24773,9 +24773,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -24803,9 +24803,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -27054,9 +27054,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27092,9 +27092,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27135,9 +27135,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27252,9 +27252,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27282,9 +27282,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27353,9 +27353,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -27387,9 +27387,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -27430,9 +27430,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -27539,9 +27539,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -27569,9 +27569,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -27643,9 +27643,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27677,9 +27677,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27720,9 +27720,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27829,9 +27829,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27859,9 +27859,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27930,9 +27930,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27964,9 +27964,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28007,9 +28007,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28116,9 +28116,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28146,9 +28146,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28220,9 +28220,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28254,9 +28254,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28297,9 +28297,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28406,9 +28406,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28436,9 +28436,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28507,9 +28507,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28541,9 +28541,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28584,9 +28584,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28693,9 +28693,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28723,9 +28723,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -29165,9 +29165,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -29205,9 +29205,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -29254,9 +29254,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -29369,9 +29369,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -29405,9 +29405,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -29478,9 +29478,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -29491,9 +29491,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -29504,9 +29504,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -29538,9 +29538,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -29551,9 +29551,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -29564,9 +29564,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -29621,9 +29621,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -29634,9 +29634,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -29647,9 +29647,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -29784,9 +29784,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -29797,9 +29797,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -29810,9 +29810,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -29840,9 +29840,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -29853,9 +29853,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -29866,9 +29866,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -29933,9 +29933,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -29952,9 +29952,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -29971,9 +29971,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30011,9 +30011,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -30030,9 +30030,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -30049,9 +30049,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30112,9 +30112,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -30131,9 +30131,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -30150,9 +30150,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30293,9 +30293,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -30312,9 +30312,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -30331,9 +30331,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30367,9 +30367,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -30386,9 +30386,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -30405,9 +30405,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30462,9 +30462,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30496,9 +30496,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30553,9 +30553,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30690,9 +30690,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30720,9 +30720,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -31241,9 +31241,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>2</DefaultValue>
 					</OptionalInputArgument>
@@ -31254,9 +31254,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31298,9 +31298,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>2</DefaultValue>
 					</OptionalInputArgument>
@@ -31311,9 +31311,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31360,9 +31360,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>2</DefaultValue>
 					</OptionalInputArgument>
@@ -31373,9 +31373,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31496,9 +31496,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>2</DefaultValue>
 					</OptionalInputArgument>
@@ -31509,9 +31509,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31545,9 +31545,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>2</DefaultValue>
 					</OptionalInputArgument>
@@ -31558,9 +31558,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31626,9 +31626,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31660,9 +31660,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31703,9 +31703,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31812,9 +31812,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31842,9 +31842,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31901,9 +31901,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31935,9 +31935,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31978,9 +31978,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -32087,9 +32087,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -32117,9 +32117,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -32410,9 +32410,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32456,9 +32456,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32499,9 +32499,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32632,9 +32632,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32662,9 +32662,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32716,9 +32716,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32750,9 +32750,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32793,9 +32793,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32902,9 +32902,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32932,9 +32932,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32990,9 +32990,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -33028,9 +33028,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -33071,9 +33071,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -33188,9 +33188,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -33218,9 +33218,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -33280,9 +33280,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33314,9 +33314,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33357,9 +33357,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33466,9 +33466,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33496,9 +33496,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33555,9 +33555,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33589,9 +33589,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33632,9 +33632,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33741,9 +33741,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33771,9 +33771,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33841,9 +33841,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33875,9 +33875,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33925,9 +33925,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -34048,9 +34048,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -34078,9 +34078,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -34145,9 +34145,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -34179,9 +34179,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -34229,9 +34229,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -34352,9 +34352,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -34382,9 +34382,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -34464,9 +34464,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -34506,9 +34506,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -34549,9 +34549,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -34674,9 +34674,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -34704,9 +34704,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -34774,9 +34774,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -34812,9 +34812,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -34855,9 +34855,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -34972,9 +34972,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -35002,9 +35002,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -35053,9 +35053,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -35087,9 +35087,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -35130,9 +35130,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -35239,9 +35239,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -35269,9 +35269,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -35555,9 +35555,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -35597,9 +35597,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -35640,9 +35640,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -35765,9 +35765,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -35795,9 +35795,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36305,9 +36305,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36347,9 +36347,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36390,9 +36390,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36515,9 +36515,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36545,9 +36545,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36615,9 +36615,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36653,9 +36653,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36696,9 +36696,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36813,9 +36813,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36843,9 +36843,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36894,9 +36894,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -36907,9 +36907,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -36947,9 +36947,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -36960,9 +36960,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -37009,9 +37009,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -37022,9 +37022,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -37137,9 +37137,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -37150,9 +37150,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -37186,9 +37186,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -37199,9 +37199,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -37680,9 +37680,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -37714,9 +37714,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -37757,9 +37757,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -37866,9 +37866,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -37896,9 +37896,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -37947,9 +37947,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -37981,9 +37981,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38024,9 +38024,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38133,9 +38133,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38163,9 +38163,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38214,9 +38214,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38248,9 +38248,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38291,9 +38291,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38400,9 +38400,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38430,9 +38430,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38481,9 +38481,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38515,9 +38515,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38558,9 +38558,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38667,9 +38667,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38697,9 +38697,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38767,9 +38767,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -38801,9 +38801,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -38844,9 +38844,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -38953,9 +38953,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -38983,9 +38983,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -40643,9 +40643,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -40677,9 +40677,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -40720,9 +40720,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -40829,9 +40829,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -40859,9 +40859,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -41106,9 +41106,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41154,9 +41154,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41211,9 +41211,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41334,9 +41334,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41378,9 +41378,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41475,9 +41475,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41488,9 +41488,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41507,9 +41507,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41555,9 +41555,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41568,9 +41568,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41587,9 +41587,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41643,9 +41643,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41656,9 +41656,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41675,9 +41675,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41820,9 +41820,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41833,9 +41833,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41852,9 +41852,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41888,9 +41888,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41901,9 +41901,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41920,9 +41920,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42005,9 +42005,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42018,9 +42018,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42066,9 +42066,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42079,9 +42079,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42135,9 +42135,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42148,9 +42148,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42293,9 +42293,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42306,9 +42306,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42342,9 +42342,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42355,9 +42355,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42423,9 +42423,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -42436,9 +42436,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42449,9 +42449,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42489,9 +42489,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -42502,9 +42502,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42515,9 +42515,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42571,9 +42571,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -42584,9 +42584,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42597,9 +42597,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42726,9 +42726,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -42739,9 +42739,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42752,9 +42752,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42788,9 +42788,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -42801,9 +42801,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42814,9 +42814,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -43083,9 +43083,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -43117,9 +43117,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -43160,9 +43160,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -43269,9 +43269,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -43299,9 +43299,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -43410,9 +43410,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -43458,9 +43458,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -43515,9 +43515,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -43638,9 +43638,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -43682,9 +43682,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -44146,9 +44146,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44180,9 +44180,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44223,9 +44223,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44332,9 +44332,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44362,9 +44362,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44660,9 +44660,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44694,9 +44694,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44737,9 +44737,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44846,9 +44846,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44876,9 +44876,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44943,9 +44943,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44977,9 +44977,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -45020,9 +45020,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -45129,9 +45129,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -45159,9 +45159,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -45233,9 +45233,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -45267,9 +45267,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -45310,9 +45310,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -45419,9 +45419,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -45449,9 +45449,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -45779,9 +45779,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>7</DefaultValue>
 					</OptionalInputArgument>
@@ -45792,9 +45792,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -45805,9 +45805,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>28</DefaultValue>
 					</OptionalInputArgument>
@@ -45847,9 +45847,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>7</DefaultValue>
 					</OptionalInputArgument>
@@ -45860,9 +45860,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -45873,9 +45873,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>28</DefaultValue>
 					</OptionalInputArgument>
@@ -45916,9 +45916,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>7</DefaultValue>
 					</OptionalInputArgument>
@@ -45929,9 +45929,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -45942,9 +45942,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>28</DefaultValue>
 					</OptionalInputArgument>
@@ -46067,9 +46067,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>7</DefaultValue>
 					</OptionalInputArgument>
@@ -46080,9 +46080,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -46093,9 +46093,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>28</DefaultValue>
 					</OptionalInputArgument>
@@ -46123,9 +46123,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>7</DefaultValue>
 					</OptionalInputArgument>
@@ -46136,9 +46136,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -46149,9 +46149,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>28</DefaultValue>
 					</OptionalInputArgument>
@@ -46208,9 +46208,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -46256,9 +46256,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -46313,9 +46313,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -46436,9 +46436,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -46480,9 +46480,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -46796,9 +46796,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -46838,9 +46838,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -46881,9 +46881,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -47006,9 +47006,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -47036,9 +47036,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -47107,9 +47107,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47141,9 +47141,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47184,9 +47184,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47293,9 +47293,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47323,9 +47323,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47389,9 +47389,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47423,9 +47423,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47466,9 +47466,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47575,9 +47575,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47605,9 +47605,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
-- 
2.43.0


From 223cb60efeb56f55cf9cd776ccd06f93ae31860f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:34 +0000
Subject: [PATCH 30/31] fix: StateLoad and StateSave take no optional
 parameters

The XML description announced the optional parameters of the function as
arguments of its StateLoad and StateSave, which take the stream and the file
only. ta_func_api.xml is printed anew.
---
 .../c/src/tools/gen_code/print_funcs_xml.c    |    2 -
 ta-lib-rt/ta_func_api.xml                     | 4502 +++--------------
 2 files changed, 653 insertions(+), 3851 deletions(-)

diff --git a/ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c b/ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c
index 43c67c9..4dd2f88 100644
--- a/ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c
+++ b/ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c
@@ -479,8 +479,6 @@ void print_state_save_or_load_function(FILE *file, int indent, const struct TA_F
 
     fprintf(file, "%.*s</SpecialInputArguments>\n", indent+1, t);
 
-    print_arguments_input_optional(file, indent+1, funcInfo);
-
     fprintf(file, "%.*s</Function>\n", indent, t);
 }
 
diff --git a/ta-lib-rt/ta_func_api.xml b/ta-lib-rt/ta_func_api.xml
index 86f1c4b..3db0b11 100644
--- a/ta-lib-rt/ta_func_api.xml
+++ b/ta-lib-rt/ta_func_api.xml
@@ -306,21 +306,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>20</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_ACCBANDS_StateSave</Name>
@@ -336,21 +321,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>20</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -1332,34 +1302,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Period</Name>
-						<ShortDescription>Number of period for the fast MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Period</Name>
-						<ShortDescription>Number of period for the slow MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_ADOSC_StateSave</Name>
@@ -1375,34 +1317,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Period</Name>
-						<ShortDescription>Number of period for the fast MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Period</Name>
-						<ShortDescription>Number of period for the slow MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -1692,21 +1606,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_ADX_StateSave</Name>
@@ -1722,21 +1621,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -1998,21 +1882,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_ADXR_StateSave</Name>
@@ -2028,21 +1897,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -2334,40 +2188,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Period</Name>
-						<ShortDescription>Number of period for the fast MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>12</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Period</Name>
-						<ShortDescription>Number of period for the slow MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>26</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>MA Type</Name>
-						<ShortDescription>Type of Moving Average</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_APO_StateSave</Name>
@@ -2383,40 +2203,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Period</Name>
-						<ShortDescription>Number of period for the fast MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>12</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Period</Name>
-						<ShortDescription>Number of period for the slow MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>26</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>MA Type</Name>
-						<ShortDescription>Type of Moving Average</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -2696,21 +2482,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_AROON_StateSave</Name>
@@ -2726,21 +2497,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -2999,21 +2755,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_AROONOSC_StateSave</Name>
@@ -3029,21 +2770,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -3701,21 +3427,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_ATR_StateSave</Name>
@@ -3731,21 +3442,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -4218,21 +3914,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_AVGDEV_StateSave</Name>
@@ -4248,21 +3929,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -4640,55 +4306,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Deviations up</Name>
-						<ShortDescription>Deviation multiplier for upper band</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>-3.000000e+37</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>-2.000000e+0</SuggestedStart>
-							<SuggestedEnd>2.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>2.000000e-1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Deviations down</Name>
-						<ShortDescription>Deviation multiplier for lower band</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>-3.000000e+37</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>-2.000000e+0</SuggestedStart>
-							<SuggestedEnd>2.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>2.000000e-1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>MA Type</Name>
-						<ShortDescription>Type of Moving Average</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_BBANDS_StateSave</Name>
@@ -4704,55 +4321,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Deviations up</Name>
-						<ShortDescription>Deviation multiplier for upper band</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>-3.000000e+37</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>-2.000000e+0</SuggestedStart>
-							<SuggestedEnd>2.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>2.000000e-1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Deviations down</Name>
-						<ShortDescription>Deviation multiplier for lower band</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>-3.000000e+37</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>-2.000000e+0</SuggestedStart>
-							<SuggestedEnd>2.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>2.000000e-1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>MA Type</Name>
-						<ShortDescription>Type of Moving Average</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -5027,21 +4595,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_BETA_StateSave</Name>
@@ -5057,21 +4610,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -5574,21 +5112,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_CCI_StateSave</Name>
@@ -5604,21 +5127,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -7796,22 +7304,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_CDLABANDONEDBABY_StateSave</Name>
@@ -7827,22 +7319,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -9761,22 +9237,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_CDLDARKCLOUDCOVER_StateSave</Name>
@@ -9792,22 +9252,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -11144,22 +10588,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_CDLEVENINGDOJISTAR_StateSave</Name>
@@ -11175,22 +10603,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -11495,22 +10907,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_CDLEVENINGSTAR_StateSave</Name>
@@ -11526,22 +10922,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -17234,22 +16614,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_CDLMATHOLD_StateSave</Name>
@@ -17265,22 +16629,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -17593,22 +16941,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_CDLMORNINGDOJISTAR_StateSave</Name>
@@ -17624,22 +16956,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -17944,22 +17260,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_CDLMORNINGSTAR_StateSave</Name>
@@ -17975,22 +17275,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -22975,21 +22259,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_CMO_StateSave</Name>
@@ -23005,21 +22274,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -23278,21 +22532,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_CORREL_StateSave</Name>
@@ -23308,21 +22547,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -23940,21 +23164,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_DEMA_StateSave</Name>
@@ -23970,21 +23179,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -24478,21 +23672,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_DX_StateSave</Name>
@@ -24508,21 +23687,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -24765,21 +23929,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_EMA_StateSave</Name>
@@ -24795,21 +23944,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -27244,35 +26378,153 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
+			</Function>
+			<Function>
+				<Name>TA_IMI_StateSave</Name>
+				<Type>StateSave</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+					<SpecialInputArgument>
+						<Type>Pointer to File</Type>
+						<Name>file</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
+		</Functions>
+	</FinancialFunctionGroup>
+
+
+	<!-- KAMA -->
+	<FinancialFunctionGroup>
+		<Abbreviation>KAMA</Abbreviation>
+		<CamelCaseName>Kama</CamelCaseName>
+		<ShortDescription>Kaufman Adaptive Moving Average</ShortDescription>
+		<GroupId>Overlap Studies</GroupId>
+		<Flags>
+			<Flag>Overlap</Flag>
+			<Flag>Unstable Period</Flag>
+		</Flags>
+		<StateMemory>
+			<StateMemoryField>
+				<Type>Double</Type>
+				<Name>inReal</Name>
+			</StateMemoryField>
+		</StateMemory>
+		<State>
+			<StateField>
+				<Type>Integer</Type>
+				<Name>mem_size</Name>
+			</StateField>
+			<StateField>
+				<Type>Integer</Type>
+				<Name>mem_index</Name>
+			</StateField>
+			<StateField>
+				<Type>Pointer</Type>
+				<Name>memory</Name>
+			</StateField>
+			<StateField>
+				<Type>Double</Type>
+				<Name>sumROC1</Name>
+			</StateField>
+			<StateField>
+				<Type>Double</Type>
+				<Name>yestReal</Name>
+			</StateField>
+			<StateField>
+				<Type>Double</Type>
+				<Name>prevKAMA</Name>
+			</StateField>
+			<StateField>
+				<Type>Double</Type>
+				<Name>trailingValue</Name>
+			</StateField>
+		</State>
+		<Functions>
+			<Function>
+				<Name>TA_KAMA_Lookback</Name>
+				<Type>Lookback</Type>
+				<ReturnValue>Integer</ReturnValue>
 				<OptionalInputArguments>
 					<OptionalInputArgument>
 						<Name>Time Period</Name>
 						<ShortDescription>Number of period</ShortDescription>
 						<Type>Integer</Type>
 						<Range>
-							<Minimum>2</Minimum>
+							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
+							<SuggestedStart>1</SuggestedStart>
 							<SuggestedEnd>200</SuggestedEnd>
 							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
-						<DefaultValue>14</DefaultValue>
+						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
 				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_IMI_StateSave</Name>
-				<Type>StateSave</Type>
+				<Name>TA_KAMA</Name>
+				<Type>Regular</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<RequiredInputArguments>
+					<RequiredInputArgument>
+						<Type>Integer</Type>
+						<Name>startIdx</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Integer</Type>
+						<Name>endIdx</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Double Array</Type>
+						<Name>inReal</Name>
+					</RequiredInputArgument>
+				</RequiredInputArguments>
+				<OptionalInputArguments>
+					<OptionalInputArgument>
+						<Name>Time Period</Name>
+						<ShortDescription>Number of period</ShortDescription>
+						<Type>Integer</Type>
+						<Range>
+							<Minimum>1</Minimum>
+							<Maximum>100000</Maximum>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
+						</Range>
+						<DefaultValue>30</DefaultValue>
+					</OptionalInputArgument>
+				</OptionalInputArguments>
+				<OutputArguments>
+					<OutputArgument>
+						<Type>Pointer to Integer</Type>
+						<Name>outBegIdx</Name>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Pointer to Integer</Type>
+						<Name>outNBElement</Name>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Double Array</Type>
+						<Name>outReal</Name>
+						<Flags>
+							<Flag>Line</Flag>
+						</Flags>
+					</OutputArgument>
+				</OutputArguments>
+			</Function>
+			<Function>
+				<Name>TA_KAMA_StateInit</Name>
+				<Type>StateInit</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
 					<SpecialInputArgument>
-						<Type>Pointer</Type>
+						<Type>Pointer to Pointer</Type>
 						<Name>state</Name>
 					</SpecialInputArgument>
-					<SpecialInputArgument>
-						<Type>Pointer to File</Type>
-						<Name>file</Name>
-					</SpecialInputArgument>
 				</SpecialInputArguments>
 				<OptionalInputArguments>
 					<OptionalInputArgument>
@@ -27280,29 +26532,137 @@
 						<ShortDescription>Number of period</ShortDescription>
 						<Type>Integer</Type>
 						<Range>
-							<Minimum>2</Minimum>
+							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
+							<SuggestedStart>1</SuggestedStart>
 							<SuggestedEnd>200</SuggestedEnd>
 							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
-						<DefaultValue>14</DefaultValue>
+						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
 				</OptionalInputArguments>
 			</Function>
+			<Function>
+				<Name>TA_KAMA_State</Name>
+				<Type>State</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+				<RequiredInputArguments>
+					<RequiredInputArgument>
+						<Type>Double</Type>
+						<Name>inReal</Name>
+					</RequiredInputArgument>
+				</RequiredInputArguments>
+				<OutputArguments>
+					<OutputArgument>
+						<Type>Double</Type>
+						<Name>outReal</Name>
+						<Flags>
+							<Flag>Line</Flag>
+						</Flags>
+					</OutputArgument>
+				</OutputArguments>
+			</Function>
+			<Function>
+				<Name>TA_KAMA_BatchState</Name>
+				<Type>BatchState</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+				<RequiredInputArguments>
+					<RequiredInputArgument>
+						<Type>Integer</Type>
+						<Name>startIdx</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Integer</Type>
+						<Name>endIdx</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Double Array</Type>
+						<Name>inReal</Name>
+					</RequiredInputArgument>
+				</RequiredInputArguments>
+				<OutputArguments>
+					<OutputArgument>
+						<Type>Pointer to Integer</Type>
+						<Name>outBegIdx</Name>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Pointer to Integer</Type>
+						<Name>outNBElement</Name>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Double Array</Type>
+						<Name>outReal</Name>
+						<Flags>
+							<Flag>Line</Flag>
+						</Flags>
+					</OutputArgument>
+				</OutputArguments>
+			</Function>
+			<Function>
+				<Name>TA_KAMA_StateFree</Name>
+				<Type>StateFree</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer to Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
+			<Function>
+				<Name>TA_KAMA_StateLoad</Name>
+				<Type>StateLoad</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer to Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+					<SpecialInputArgument>
+						<Type>Pointer to File</Type>
+						<Name>file</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
+			<Function>
+				<Name>TA_KAMA_StateSave</Name>
+				<Type>StateSave</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+					<SpecialInputArgument>
+						<Type>Pointer to File</Type>
+						<Name>file</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
 
 
-	<!-- KAMA -->
+	<!-- LINEARREG -->
 	<FinancialFunctionGroup>
-		<Abbreviation>KAMA</Abbreviation>
-		<CamelCaseName>Kama</CamelCaseName>
-		<ShortDescription>Kaufman Adaptive Moving Average</ShortDescription>
-		<GroupId>Overlap Studies</GroupId>
+		<Abbreviation>LINEARREG</Abbreviation>
+		<CamelCaseName>LinearReg</CamelCaseName>
+		<ShortDescription>Linear Regression</ShortDescription>
+		<GroupId>Statistic Functions</GroupId>
 		<Flags>
 			<Flag>Overlap</Flag>
-			<Flag>Unstable Period</Flag>
 		</Flags>
 		<StateMemory>
 			<StateMemoryField>
@@ -27325,24 +26685,28 @@
 			</StateField>
 			<StateField>
 				<Type>Double</Type>
-				<Name>sumROC1</Name>
+				<Name>SumX</Name>
 			</StateField>
 			<StateField>
 				<Type>Double</Type>
-				<Name>yestReal</Name>
+				<Name>SumXY</Name>
 			</StateField>
 			<StateField>
 				<Type>Double</Type>
-				<Name>prevKAMA</Name>
+				<Name>SumY</Name>
 			</StateField>
 			<StateField>
 				<Type>Double</Type>
-				<Name>trailingValue</Name>
+				<Name>SumXSqr</Name>
+			</StateField>
+			<StateField>
+				<Type>Double</Type>
+				<Name>Divisor</Name>
 			</StateField>
 		</State>
 		<Functions>
 			<Function>
-				<Name>TA_KAMA_Lookback</Name>
+				<Name>TA_LINEARREG_Lookback</Name>
 				<Type>Lookback</Type>
 				<ReturnValue>Integer</ReturnValue>
 				<OptionalInputArguments>
@@ -27351,18 +26715,18 @@
 						<ShortDescription>Number of period</ShortDescription>
 						<Type>Integer</Type>
 						<Range>
-							<Minimum>1</Minimum>
+							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
+							<SuggestedStart>4</SuggestedStart>
 							<SuggestedEnd>200</SuggestedEnd>
 							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
-						<DefaultValue>30</DefaultValue>
+						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
 				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_KAMA</Name>
+				<Name>TA_LINEARREG</Name>
 				<Type>Regular</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<RequiredInputArguments>
@@ -27385,13 +26749,13 @@
 						<ShortDescription>Number of period</ShortDescription>
 						<Type>Integer</Type>
 						<Range>
-							<Minimum>1</Minimum>
+							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
+							<SuggestedStart>4</SuggestedStart>
 							<SuggestedEnd>200</SuggestedEnd>
 							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
-						<DefaultValue>30</DefaultValue>
+						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
 				</OptionalInputArguments>
 				<OutputArguments>
@@ -27413,7 +26777,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_KAMA_StateInit</Name>
+				<Name>TA_LINEARREG_StateInit</Name>
 				<Type>StateInit</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -27428,18 +26792,18 @@
 						<ShortDescription>Number of period</ShortDescription>
 						<Type>Integer</Type>
 						<Range>
-							<Minimum>1</Minimum>
+							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
+							<SuggestedStart>4</SuggestedStart>
 							<SuggestedEnd>200</SuggestedEnd>
 							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
-						<DefaultValue>30</DefaultValue>
+						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
 				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_KAMA_State</Name>
+				<Name>TA_LINEARREG_State</Name>
 				<Type>State</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -27465,7 +26829,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_KAMA_BatchState</Name>
+				<Name>TA_LINEARREG_BatchState</Name>
 				<Type>BatchState</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -27507,7 +26871,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_KAMA_StateFree</Name>
+				<Name>TA_LINEARREG_StateFree</Name>
 				<Type>StateFree</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -27518,7 +26882,7 @@
 				</SpecialInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_KAMA_StateLoad</Name>
+				<Name>TA_LINEARREG_StateLoad</Name>
 				<Type>StateLoad</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -27531,24 +26895,9 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_KAMA_StateSave</Name>
+				<Name>TA_LINEARREG_StateSave</Name>
 				<Type>StateSave</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -27561,35 +26910,17 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
 
 
-	<!-- LINEARREG -->
+	<!-- LINEARREG_ANGLE -->
 	<FinancialFunctionGroup>
-		<Abbreviation>LINEARREG</Abbreviation>
-		<CamelCaseName>LinearReg</CamelCaseName>
-		<ShortDescription>Linear Regression</ShortDescription>
+		<Abbreviation>LINEARREG_ANGLE</Abbreviation>
+		<CamelCaseName>LinearRegAngle</CamelCaseName>
+		<ShortDescription>Linear Regression Angle</ShortDescription>
 		<GroupId>Statistic Functions</GroupId>
-		<Flags>
-			<Flag>Overlap</Flag>
-		</Flags>
 		<StateMemory>
 			<StateMemoryField>
 				<Type>Double</Type>
@@ -27632,7 +26963,7 @@
 		</State>
 		<Functions>
 			<Function>
-				<Name>TA_LINEARREG_Lookback</Name>
+				<Name>TA_LINEARREG_ANGLE_Lookback</Name>
 				<Type>Lookback</Type>
 				<ReturnValue>Integer</ReturnValue>
 				<OptionalInputArguments>
@@ -27652,7 +26983,7 @@
 				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG</Name>
+				<Name>TA_LINEARREG_ANGLE</Name>
 				<Type>Regular</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<RequiredInputArguments>
@@ -27703,7 +27034,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_StateInit</Name>
+				<Name>TA_LINEARREG_ANGLE_StateInit</Name>
 				<Type>StateInit</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -27729,7 +27060,7 @@
 				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_State</Name>
+				<Name>TA_LINEARREG_ANGLE_State</Name>
 				<Type>State</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -27755,7 +27086,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_BatchState</Name>
+				<Name>TA_LINEARREG_ANGLE_BatchState</Name>
 				<Type>BatchState</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -27797,7 +27128,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_StateFree</Name>
+				<Name>TA_LINEARREG_ANGLE_StateFree</Name>
 				<Type>StateFree</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -27808,7 +27139,7 @@
 				</SpecialInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_StateLoad</Name>
+				<Name>TA_LINEARREG_ANGLE_StateLoad</Name>
 				<Type>StateLoad</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -27821,24 +27152,9 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_StateSave</Name>
+				<Name>TA_LINEARREG_ANGLE_StateSave</Name>
 				<Type>StateSave</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -27851,32 +27167,20 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
 
 
-	<!-- LINEARREG_ANGLE -->
+	<!-- LINEARREG_INTERCEPT -->
 	<FinancialFunctionGroup>
-		<Abbreviation>LINEARREG_ANGLE</Abbreviation>
-		<CamelCaseName>LinearRegAngle</CamelCaseName>
-		<ShortDescription>Linear Regression Angle</ShortDescription>
+		<Abbreviation>LINEARREG_INTERCEPT</Abbreviation>
+		<CamelCaseName>LinearRegIntercept</CamelCaseName>
+		<ShortDescription>Linear Regression Intercept</ShortDescription>
 		<GroupId>Statistic Functions</GroupId>
+		<Flags>
+			<Flag>Overlap</Flag>
+		</Flags>
 		<StateMemory>
 			<StateMemoryField>
 				<Type>Double</Type>
@@ -27919,7 +27223,7 @@
 		</State>
 		<Functions>
 			<Function>
-				<Name>TA_LINEARREG_ANGLE_Lookback</Name>
+				<Name>TA_LINEARREG_INTERCEPT_Lookback</Name>
 				<Type>Lookback</Type>
 				<ReturnValue>Integer</ReturnValue>
 				<OptionalInputArguments>
@@ -27939,7 +27243,7 @@
 				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_ANGLE</Name>
+				<Name>TA_LINEARREG_INTERCEPT</Name>
 				<Type>Regular</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<RequiredInputArguments>
@@ -27990,7 +27294,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_ANGLE_StateInit</Name>
+				<Name>TA_LINEARREG_INTERCEPT_StateInit</Name>
 				<Type>StateInit</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -28016,7 +27320,7 @@
 				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_ANGLE_State</Name>
+				<Name>TA_LINEARREG_INTERCEPT_State</Name>
 				<Type>State</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -28042,7 +27346,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_ANGLE_BatchState</Name>
+				<Name>TA_LINEARREG_INTERCEPT_BatchState</Name>
 				<Type>BatchState</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -28084,7 +27388,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_ANGLE_StateFree</Name>
+				<Name>TA_LINEARREG_INTERCEPT_StateFree</Name>
 				<Type>StateFree</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -28095,7 +27399,7 @@
 				</SpecialInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_ANGLE_StateLoad</Name>
+				<Name>TA_LINEARREG_INTERCEPT_StateLoad</Name>
 				<Type>StateLoad</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -28108,24 +27412,9 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_ANGLE_StateSave</Name>
+				<Name>TA_LINEARREG_INTERCEPT_StateSave</Name>
 				<Type>StateSave</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -28138,35 +27427,17 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
 
 
-	<!-- LINEARREG_INTERCEPT -->
+	<!-- LINEARREG_SLOPE -->
 	<FinancialFunctionGroup>
-		<Abbreviation>LINEARREG_INTERCEPT</Abbreviation>
-		<CamelCaseName>LinearRegIntercept</CamelCaseName>
-		<ShortDescription>Linear Regression Intercept</ShortDescription>
+		<Abbreviation>LINEARREG_SLOPE</Abbreviation>
+		<CamelCaseName>LinearRegSlope</CamelCaseName>
+		<ShortDescription>Linear Regression Slope</ShortDescription>
 		<GroupId>Statistic Functions</GroupId>
-		<Flags>
-			<Flag>Overlap</Flag>
-		</Flags>
 		<StateMemory>
 			<StateMemoryField>
 				<Type>Double</Type>
@@ -28209,7 +27480,7 @@
 		</State>
 		<Functions>
 			<Function>
-				<Name>TA_LINEARREG_INTERCEPT_Lookback</Name>
+				<Name>TA_LINEARREG_SLOPE_Lookback</Name>
 				<Type>Lookback</Type>
 				<ReturnValue>Integer</ReturnValue>
 				<OptionalInputArguments>
@@ -28229,7 +27500,7 @@
 				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_INTERCEPT</Name>
+				<Name>TA_LINEARREG_SLOPE</Name>
 				<Type>Regular</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<RequiredInputArguments>
@@ -28280,7 +27551,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_INTERCEPT_StateInit</Name>
+				<Name>TA_LINEARREG_SLOPE_StateInit</Name>
 				<Type>StateInit</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -28306,7 +27577,7 @@
 				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_INTERCEPT_State</Name>
+				<Name>TA_LINEARREG_SLOPE_State</Name>
 				<Type>State</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -28332,7 +27603,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_INTERCEPT_BatchState</Name>
+				<Name>TA_LINEARREG_SLOPE_BatchState</Name>
 				<Type>BatchState</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -28374,7 +27645,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_INTERCEPT_StateFree</Name>
+				<Name>TA_LINEARREG_SLOPE_StateFree</Name>
 				<Type>StateFree</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -28385,7 +27656,7 @@
 				</SpecialInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_INTERCEPT_StateLoad</Name>
+				<Name>TA_LINEARREG_SLOPE_StateLoad</Name>
 				<Type>StateLoad</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -28398,24 +27669,9 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_INTERCEPT_StateSave</Name>
+				<Name>TA_LINEARREG_SLOPE_StateSave</Name>
 				<Type>StateSave</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -28428,32 +27684,17 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
 
 
-	<!-- LINEARREG_SLOPE -->
+	<!-- LN -->
 	<FinancialFunctionGroup>
-		<Abbreviation>LINEARREG_SLOPE</Abbreviation>
-		<CamelCaseName>LinearRegSlope</CamelCaseName>
-		<ShortDescription>Linear Regression Slope</ShortDescription>
-		<GroupId>Statistic Functions</GroupId>
+		<Abbreviation>LN</Abbreviation>
+		<CamelCaseName>Ln</CamelCaseName>
+		<ShortDescription>Vector Log Natural</ShortDescription>
+		<GroupId>Math Transform</GroupId>
 		<StateMemory>
 			<StateMemoryField>
 				<Type>Double</Type>
@@ -28473,50 +27714,15 @@
 				<Type>Pointer</Type>
 				<Name>memory</Name>
 			</StateField>
-			<StateField>
-				<Type>Double</Type>
-				<Name>SumX</Name>
-			</StateField>
-			<StateField>
-				<Type>Double</Type>
-				<Name>SumXY</Name>
-			</StateField>
-			<StateField>
-				<Type>Double</Type>
-				<Name>SumY</Name>
-			</StateField>
-			<StateField>
-				<Type>Double</Type>
-				<Name>SumXSqr</Name>
-			</StateField>
-			<StateField>
-				<Type>Double</Type>
-				<Name>Divisor</Name>
-			</StateField>
 		</State>
 		<Functions>
 			<Function>
-				<Name>TA_LINEARREG_SLOPE_Lookback</Name>
+				<Name>TA_LN_Lookback</Name>
 				<Type>Lookback</Type>
 				<ReturnValue>Integer</ReturnValue>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_SLOPE</Name>
+				<Name>TA_LN</Name>
 				<Type>Regular</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<RequiredInputArguments>
@@ -28533,21 +27739,6 @@
 						<Name>inReal</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 				<OutputArguments>
 					<OutputArgument>
 						<Type>Pointer to Integer</Type>
@@ -28567,7 +27758,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_SLOPE_StateInit</Name>
+				<Name>TA_LN_StateInit</Name>
 				<Type>StateInit</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -28576,246 +27767,9 @@
 						<Name>state</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_SLOPE_State</Name>
-				<Type>State</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<RequiredInputArguments>
-					<RequiredInputArgument>
-						<Type>Double</Type>
-						<Name>inReal</Name>
-					</RequiredInputArgument>
-				</RequiredInputArguments>
-				<OutputArguments>
-					<OutputArgument>
-						<Type>Double</Type>
-						<Name>outReal</Name>
-						<Flags>
-							<Flag>Line</Flag>
-						</Flags>
-					</OutputArgument>
-				</OutputArguments>
-			</Function>
-			<Function>
-				<Name>TA_LINEARREG_SLOPE_BatchState</Name>
-				<Type>BatchState</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<RequiredInputArguments>
-					<RequiredInputArgument>
-						<Type>Integer</Type>
-						<Name>startIdx</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Integer</Type>
-						<Name>endIdx</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Double Array</Type>
-						<Name>inReal</Name>
-					</RequiredInputArgument>
-				</RequiredInputArguments>
-				<OutputArguments>
-					<OutputArgument>
-						<Type>Pointer to Integer</Type>
-						<Name>outBegIdx</Name>
-					</OutputArgument>
-					<OutputArgument>
-						<Type>Pointer to Integer</Type>
-						<Name>outNBElement</Name>
-					</OutputArgument>
-					<OutputArgument>
-						<Type>Double Array</Type>
-						<Name>outReal</Name>
-						<Flags>
-							<Flag>Line</Flag>
-						</Flags>
-					</OutputArgument>
-				</OutputArguments>
-			</Function>
-			<Function>
-				<Name>TA_LINEARREG_SLOPE_StateFree</Name>
-				<Type>StateFree</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer to Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-			</Function>
-			<Function>
-				<Name>TA_LINEARREG_SLOPE_StateLoad</Name>
-				<Type>StateLoad</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer to Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-					<SpecialInputArgument>
-						<Type>Pointer to File</Type>
-						<Name>file</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
-			</Function>
-			<Function>
-				<Name>TA_LINEARREG_SLOPE_StateSave</Name>
-				<Type>StateSave</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-					<SpecialInputArgument>
-						<Type>Pointer to File</Type>
-						<Name>file</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
-			</Function>
-		</Functions>
-	</FinancialFunctionGroup>
-
-
-	<!-- LN -->
-	<FinancialFunctionGroup>
-		<Abbreviation>LN</Abbreviation>
-		<CamelCaseName>Ln</CamelCaseName>
-		<ShortDescription>Vector Log Natural</ShortDescription>
-		<GroupId>Math Transform</GroupId>
-		<StateMemory>
-			<StateMemoryField>
-				<Type>Double</Type>
-				<Name>inReal</Name>
-			</StateMemoryField>
-		</StateMemory>
-		<State>
-			<StateField>
-				<Type>Integer</Type>
-				<Name>mem_size</Name>
-			</StateField>
-			<StateField>
-				<Type>Integer</Type>
-				<Name>mem_index</Name>
-			</StateField>
-			<StateField>
-				<Type>Pointer</Type>
-				<Name>memory</Name>
-			</StateField>
-		</State>
-		<Functions>
-			<Function>
-				<Name>TA_LN_Lookback</Name>
-				<Type>Lookback</Type>
-				<ReturnValue>Integer</ReturnValue>
-			</Function>
-			<Function>
-				<Name>TA_LN</Name>
-				<Type>Regular</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<RequiredInputArguments>
-					<RequiredInputArgument>
-						<Type>Integer</Type>
-						<Name>startIdx</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Integer</Type>
-						<Name>endIdx</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Double Array</Type>
-						<Name>inReal</Name>
-					</RequiredInputArgument>
-				</RequiredInputArguments>
-				<OutputArguments>
-					<OutputArgument>
-						<Type>Pointer to Integer</Type>
-						<Name>outBegIdx</Name>
-					</OutputArgument>
-					<OutputArgument>
-						<Type>Pointer to Integer</Type>
-						<Name>outNBElement</Name>
-					</OutputArgument>
-					<OutputArgument>
-						<Type>Double Array</Type>
-						<Name>outReal</Name>
-						<Flags>
-							<Flag>Line</Flag>
-						</Flags>
-					</OutputArgument>
-				</OutputArguments>
-			</Function>
-			<Function>
-				<Name>TA_LN_StateInit</Name>
-				<Type>StateInit</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer to Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-			</Function>
-			<Function>
-				<Name>TA_LN_State</Name>
+				<Name>TA_LN_State</Name>
 				<Type>State</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -29361,27 +28315,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>MA Type</Name>
-						<ShortDescription>Type of Moving Average</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MA_StateSave</Name>
@@ -29397,27 +28330,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>MA Type</Name>
-						<ShortDescription>Type of Moving Average</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -29776,47 +28688,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Period</Name>
-						<ShortDescription>Number of period for the fast MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>12</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Period</Name>
-						<ShortDescription>Number of period for the slow MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>26</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Signal Period</Name>
-						<ShortDescription>Smoothing for the signal line (nb of period)</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>9</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MACD_StateSave</Name>
@@ -29832,47 +28703,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Period</Name>
-						<ShortDescription>Number of period for the fast MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>12</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Period</Name>
-						<ShortDescription>Number of period for the slow MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>26</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Signal Period</Name>
-						<ShortDescription>Smoothing for the signal line (nb of period)</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>9</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -30285,65 +29115,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Period</Name>
-						<ShortDescription>Number of period for the fast MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>12</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast MA</Name>
-						<ShortDescription>Type of Moving Average for fast MA</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Period</Name>
-						<ShortDescription>Number of period for the slow MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>26</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow MA</Name>
-						<ShortDescription>Type of Moving Average for slow MA</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Signal Period</Name>
-						<ShortDescription>Smoothing for the signal line (nb of period)</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>9</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Signal MA</Name>
-						<ShortDescription>Type of Moving Average for signal line</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MACDEXT_StateSave</Name>
@@ -30359,65 +29130,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Period</Name>
-						<ShortDescription>Number of period for the fast MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>12</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast MA</Name>
-						<ShortDescription>Type of Moving Average for fast MA</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Period</Name>
-						<ShortDescription>Number of period for the slow MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>26</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow MA</Name>
-						<ShortDescription>Type of Moving Average for slow MA</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Signal Period</Name>
-						<ShortDescription>Smoothing for the signal line (nb of period)</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>9</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Signal MA</Name>
-						<ShortDescription>Type of Moving Average for signal line</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -30682,21 +29394,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Signal Period</Name>
-						<ShortDescription>Smoothing for the signal line (nb of period)</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>9</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MACDFIX_StateSave</Name>
@@ -30712,21 +29409,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Signal Period</Name>
-						<ShortDescription>Smoothing for the signal line (nb of period)</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>9</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -31111,36 +29793,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Limit</Name>
-						<ShortDescription>Upper limit use in the adaptive algorithm</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>1.000000e-2</Minimum>
-							<Maximum>9.900000e-1</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>2.100000e-1</SuggestedStart>
-							<SuggestedEnd>8.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Limit</Name>
-						<ShortDescription>Lower limit use in the adaptive algorithm</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>1.000000e-2</Minimum>
-							<Maximum>9.900000e-1</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>6.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MAMA_StateSave</Name>
@@ -31156,36 +29808,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Limit</Name>
-						<ShortDescription>Upper limit use in the adaptive algorithm</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>1.000000e-2</Minimum>
-							<Maximum>9.900000e-1</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>2.100000e-1</SuggestedStart>
-							<SuggestedEnd>8.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Limit</Name>
-						<ShortDescription>Lower limit use in the adaptive algorithm</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>1.000000e-2</Minimum>
-							<Maximum>9.900000e-1</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>6.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -31488,40 +30110,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Minimum Period</Name>
-						<ShortDescription>Value less than minimum will be changed to Minimum period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Maximum Period</Name>
-						<ShortDescription>Value higher than maximum will be changed to Maximum period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>MA Type</Name>
-						<ShortDescription>Type of Moving Average</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MAVP_StateSave</Name>
@@ -31537,40 +30125,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Minimum Period</Name>
-						<ShortDescription>Value less than minimum will be changed to Minimum period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Maximum Period</Name>
-						<ShortDescription>Value higher than maximum will be changed to Maximum period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>MA Type</Name>
-						<ShortDescription>Type of Moving Average</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -31771,283 +30325,8 @@
 						<Name>outNBElement</Name>
 					</OutputArgument>
 					<OutputArgument>
-						<Type>Double Array</Type>
-						<Name>outReal</Name>
-						<Flags>
-							<Flag>Line</Flag>
-						</Flags>
-					</OutputArgument>
-				</OutputArguments>
-			</Function>
-			<Function>
-				<Name>TA_MAX_StateFree</Name>
-				<Type>StateFree</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer to Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-			</Function>
-			<Function>
-				<Name>TA_MAX_StateLoad</Name>
-				<Type>StateLoad</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer to Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-					<SpecialInputArgument>
-						<Type>Pointer to File</Type>
-						<Name>file</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
-			</Function>
-			<Function>
-				<Name>TA_MAX_StateSave</Name>
-				<Type>StateSave</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-					<SpecialInputArgument>
-						<Type>Pointer to File</Type>
-						<Name>file</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
-			</Function>
-		</Functions>
-	</FinancialFunctionGroup>
-
-
-	<!-- MAXINDEX -->
-	<FinancialFunctionGroup>
-		<Abbreviation>MAXINDEX</Abbreviation>
-		<CamelCaseName>MaxIndex</CamelCaseName>
-		<ShortDescription>Index of highest value over a specified period</ShortDescription>
-		<GroupId>Math Operators</GroupId>
-		<StateMemory>
-			<StateMemoryField>
-				<Type>Double</Type>
-				<Name>inReal</Name>
-			</StateMemoryField>
-		</StateMemory>
-		<State>
-			<StateField>
-				<Type>Integer</Type>
-				<Name>mem_size</Name>
-			</StateField>
-			<StateField>
-				<Type>Integer</Type>
-				<Name>mem_index</Name>
-			</StateField>
-			<StateField>
-				<Type>Pointer</Type>
-				<Name>memory</Name>
-			</StateField>
-			<StateField>
-				<Type>Double</Type>
-				<Name>max</Name>
-			</StateField>
-			<StateField>
-				<Type>Integer</Type>
-				<Name>maxIdx</Name>
-			</StateField>
-		</State>
-		<Functions>
-			<Function>
-				<Name>TA_MAXINDEX_Lookback</Name>
-				<Type>Lookback</Type>
-				<ReturnValue>Integer</ReturnValue>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
-			</Function>
-			<Function>
-				<Name>TA_MAXINDEX</Name>
-				<Type>Regular</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<RequiredInputArguments>
-					<RequiredInputArgument>
-						<Type>Integer</Type>
-						<Name>startIdx</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Integer</Type>
-						<Name>endIdx</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Double Array</Type>
-						<Name>inReal</Name>
-					</RequiredInputArgument>
-				</RequiredInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
-				<OutputArguments>
-					<OutputArgument>
-						<Type>Pointer to Integer</Type>
-						<Name>outBegIdx</Name>
-					</OutputArgument>
-					<OutputArgument>
-						<Type>Pointer to Integer</Type>
-						<Name>outNBElement</Name>
-					</OutputArgument>
-					<OutputArgument>
-						<Type>Integer Array</Type>
-						<Name>outInteger</Name>
-						<Flags>
-							<Flag>Line</Flag>
-						</Flags>
-					</OutputArgument>
-				</OutputArguments>
-			</Function>
-			<Function>
-				<Name>TA_MAXINDEX_StateInit</Name>
-				<Type>StateInit</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer to Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
-			</Function>
-			<Function>
-				<Name>TA_MAXINDEX_State</Name>
-				<Type>State</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<RequiredInputArguments>
-					<RequiredInputArgument>
-						<Type>Double</Type>
-						<Name>inReal</Name>
-					</RequiredInputArgument>
-				</RequiredInputArguments>
-				<OutputArguments>
-					<OutputArgument>
-						<Type>Integer</Type>
-						<Name>outInteger</Name>
-						<Flags>
-							<Flag>Line</Flag>
-						</Flags>
-					</OutputArgument>
-				</OutputArguments>
-			</Function>
-			<Function>
-				<Name>TA_MAXINDEX_BatchState</Name>
-				<Type>BatchState</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<RequiredInputArguments>
-					<RequiredInputArgument>
-						<Type>Integer</Type>
-						<Name>startIdx</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Integer</Type>
-						<Name>endIdx</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Double Array</Type>
-						<Name>inReal</Name>
-					</RequiredInputArgument>
-				</RequiredInputArguments>
-				<OutputArguments>
-					<OutputArgument>
-						<Type>Pointer to Integer</Type>
-						<Name>outBegIdx</Name>
-					</OutputArgument>
-					<OutputArgument>
-						<Type>Pointer to Integer</Type>
-						<Name>outNBElement</Name>
-					</OutputArgument>
-					<OutputArgument>
-						<Type>Integer Array</Type>
-						<Name>outInteger</Name>
+						<Type>Double Array</Type>
+						<Name>outReal</Name>
 						<Flags>
 							<Flag>Line</Flag>
 						</Flags>
@@ -32055,7 +30334,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_MAXINDEX_StateFree</Name>
+				<Name>TA_MAX_StateFree</Name>
 				<Type>StateFree</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -32066,7 +30345,7 @@
 				</SpecialInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_MAXINDEX_StateLoad</Name>
+				<Name>TA_MAX_StateLoad</Name>
 				<Type>StateLoad</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -32079,6 +30358,65 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
+			</Function>
+			<Function>
+				<Name>TA_MAX_StateSave</Name>
+				<Type>StateSave</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+					<SpecialInputArgument>
+						<Type>Pointer to File</Type>
+						<Name>file</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
+		</Functions>
+	</FinancialFunctionGroup>
+
+
+	<!-- MAXINDEX -->
+	<FinancialFunctionGroup>
+		<Abbreviation>MAXINDEX</Abbreviation>
+		<CamelCaseName>MaxIndex</CamelCaseName>
+		<ShortDescription>Index of highest value over a specified period</ShortDescription>
+		<GroupId>Math Operators</GroupId>
+		<StateMemory>
+			<StateMemoryField>
+				<Type>Double</Type>
+				<Name>inReal</Name>
+			</StateMemoryField>
+		</StateMemory>
+		<State>
+			<StateField>
+				<Type>Integer</Type>
+				<Name>mem_size</Name>
+			</StateField>
+			<StateField>
+				<Type>Integer</Type>
+				<Name>mem_index</Name>
+			</StateField>
+			<StateField>
+				<Type>Pointer</Type>
+				<Name>memory</Name>
+			</StateField>
+			<StateField>
+				<Type>Double</Type>
+				<Name>max</Name>
+			</StateField>
+			<StateField>
+				<Type>Integer</Type>
+				<Name>maxIdx</Name>
+			</StateField>
+		</State>
+		<Functions>
+			<Function>
+				<Name>TA_MAXINDEX_Lookback</Name>
+				<Type>Lookback</Type>
+				<ReturnValue>Integer</ReturnValue>
 				<OptionalInputArguments>
 					<OptionalInputArgument>
 						<Name>Time Period</Name>
@@ -32096,18 +30434,65 @@
 				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_MAXINDEX_StateSave</Name>
-				<Type>StateSave</Type>
+				<Name>TA_MAXINDEX</Name>
+				<Type>Regular</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<RequiredInputArguments>
+					<RequiredInputArgument>
+						<Type>Integer</Type>
+						<Name>startIdx</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Integer</Type>
+						<Name>endIdx</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Double Array</Type>
+						<Name>inReal</Name>
+					</RequiredInputArgument>
+				</RequiredInputArguments>
+				<OptionalInputArguments>
+					<OptionalInputArgument>
+						<Name>Time Period</Name>
+						<ShortDescription>Number of period</ShortDescription>
+						<Type>Integer</Type>
+						<Range>
+							<Minimum>2</Minimum>
+							<Maximum>100000</Maximum>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
+						</Range>
+						<DefaultValue>30</DefaultValue>
+					</OptionalInputArgument>
+				</OptionalInputArguments>
+				<OutputArguments>
+					<OutputArgument>
+						<Type>Pointer to Integer</Type>
+						<Name>outBegIdx</Name>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Pointer to Integer</Type>
+						<Name>outNBElement</Name>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Integer Array</Type>
+						<Name>outInteger</Name>
+						<Flags>
+							<Flag>Line</Flag>
+						</Flags>
+					</OutputArgument>
+				</OutputArguments>
+			</Function>
+			<Function>
+				<Name>TA_MAXINDEX_StateInit</Name>
+				<Type>StateInit</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
 					<SpecialInputArgument>
-						<Type>Pointer</Type>
+						<Type>Pointer to Pointer</Type>
 						<Name>state</Name>
 					</SpecialInputArgument>
-					<SpecialInputArgument>
-						<Type>Pointer to File</Type>
-						<Name>file</Name>
-					</SpecialInputArgument>
 				</SpecialInputArguments>
 				<OptionalInputArguments>
 					<OptionalInputArgument>
@@ -32125,6 +30510,115 @@
 					</OptionalInputArgument>
 				</OptionalInputArguments>
 			</Function>
+			<Function>
+				<Name>TA_MAXINDEX_State</Name>
+				<Type>State</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+				<RequiredInputArguments>
+					<RequiredInputArgument>
+						<Type>Double</Type>
+						<Name>inReal</Name>
+					</RequiredInputArgument>
+				</RequiredInputArguments>
+				<OutputArguments>
+					<OutputArgument>
+						<Type>Integer</Type>
+						<Name>outInteger</Name>
+						<Flags>
+							<Flag>Line</Flag>
+						</Flags>
+					</OutputArgument>
+				</OutputArguments>
+			</Function>
+			<Function>
+				<Name>TA_MAXINDEX_BatchState</Name>
+				<Type>BatchState</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+				<RequiredInputArguments>
+					<RequiredInputArgument>
+						<Type>Integer</Type>
+						<Name>startIdx</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Integer</Type>
+						<Name>endIdx</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Double Array</Type>
+						<Name>inReal</Name>
+					</RequiredInputArgument>
+				</RequiredInputArguments>
+				<OutputArguments>
+					<OutputArgument>
+						<Type>Pointer to Integer</Type>
+						<Name>outBegIdx</Name>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Pointer to Integer</Type>
+						<Name>outNBElement</Name>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Integer Array</Type>
+						<Name>outInteger</Name>
+						<Flags>
+							<Flag>Line</Flag>
+						</Flags>
+					</OutputArgument>
+				</OutputArguments>
+			</Function>
+			<Function>
+				<Name>TA_MAXINDEX_StateFree</Name>
+				<Type>StateFree</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer to Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
+			<Function>
+				<Name>TA_MAXINDEX_StateLoad</Name>
+				<Type>StateLoad</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer to Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+					<SpecialInputArgument>
+						<Type>Pointer to File</Type>
+						<Name>file</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
+			<Function>
+				<Name>TA_MAXINDEX_StateSave</Name>
+				<Type>StateSave</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+					<SpecialInputArgument>
+						<Type>Pointer to File</Type>
+						<Name>file</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
 
@@ -32624,21 +31118,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MFI_StateSave</Name>
@@ -32654,21 +31133,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -32894,21 +31358,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MIDPOINT_StateSave</Name>
@@ -32924,21 +31373,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -33180,21 +31614,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MIDPRICE_StateSave</Name>
@@ -33210,21 +31629,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -33458,21 +31862,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MIN_StateSave</Name>
@@ -33488,21 +31877,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -33733,21 +32107,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MININDEX_StateSave</Name>
@@ -33763,21 +32122,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -34040,21 +32384,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MINMAX_StateSave</Name>
@@ -34070,21 +32399,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -34344,21 +32658,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MINMAXINDEX_StateSave</Name>
@@ -34374,21 +32673,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -34666,21 +32950,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MINUS_DI_StateSave</Name>
@@ -34696,21 +32965,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -34964,21 +33218,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MINUS_DM_StateSave</Name>
@@ -34994,21 +33233,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -35231,21 +33455,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MOM_StateSave</Name>
@@ -35261,21 +33470,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -35757,21 +33951,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_NATR_StateSave</Name>
@@ -35787,21 +33966,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -36507,21 +34671,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_PLUS_DI_StateSave</Name>
@@ -36537,21 +34686,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -36805,21 +34939,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_PLUS_DM_StateSave</Name>
@@ -36835,21 +34954,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -37036,183 +35140,115 @@
 					</OptionalInputArgument>
 				</OptionalInputArguments>
 			</Function>
-			<Function>
-				<Name>TA_PPO_State</Name>
-				<Type>State</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<RequiredInputArguments>
-					<RequiredInputArgument>
-						<Type>Double</Type>
-						<Name>inReal</Name>
-					</RequiredInputArgument>
-				</RequiredInputArguments>
-				<OutputArguments>
-					<OutputArgument>
-						<Type>Double</Type>
-						<Name>outReal</Name>
-						<Flags>
-							<Flag>Line</Flag>
-						</Flags>
-					</OutputArgument>
-				</OutputArguments>
-			</Function>
-			<Function>
-				<Name>TA_PPO_BatchState</Name>
-				<Type>BatchState</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<RequiredInputArguments>
-					<RequiredInputArgument>
-						<Type>Integer</Type>
-						<Name>startIdx</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Integer</Type>
-						<Name>endIdx</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Double Array</Type>
-						<Name>inReal</Name>
-					</RequiredInputArgument>
-				</RequiredInputArguments>
-				<OutputArguments>
-					<OutputArgument>
-						<Type>Pointer to Integer</Type>
-						<Name>outBegIdx</Name>
-					</OutputArgument>
-					<OutputArgument>
-						<Type>Pointer to Integer</Type>
-						<Name>outNBElement</Name>
-					</OutputArgument>
-					<OutputArgument>
-						<Type>Double Array</Type>
-						<Name>outReal</Name>
-						<Flags>
-							<Flag>Line</Flag>
-						</Flags>
-					</OutputArgument>
-				</OutputArguments>
-			</Function>
-			<Function>
-				<Name>TA_PPO_StateFree</Name>
-				<Type>StateFree</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer to Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-			</Function>
-			<Function>
-				<Name>TA_PPO_StateLoad</Name>
-				<Type>StateLoad</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer to Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-					<SpecialInputArgument>
-						<Type>Pointer to File</Type>
-						<Name>file</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Period</Name>
-						<ShortDescription>Number of period for the fast MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>12</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Period</Name>
-						<ShortDescription>Number of period for the slow MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>26</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>MA Type</Name>
-						<ShortDescription>Type of Moving Average</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
-			</Function>
-			<Function>
-				<Name>TA_PPO_StateSave</Name>
-				<Type>StateSave</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-					<SpecialInputArgument>
-						<Type>Pointer to File</Type>
-						<Name>file</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Period</Name>
-						<ShortDescription>Number of period for the fast MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>12</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Period</Name>
-						<ShortDescription>Number of period for the slow MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>26</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>MA Type</Name>
-						<ShortDescription>Type of Moving Average</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
-			</Function>
+			<Function>
+				<Name>TA_PPO_State</Name>
+				<Type>State</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+				<RequiredInputArguments>
+					<RequiredInputArgument>
+						<Type>Double</Type>
+						<Name>inReal</Name>
+					</RequiredInputArgument>
+				</RequiredInputArguments>
+				<OutputArguments>
+					<OutputArgument>
+						<Type>Double</Type>
+						<Name>outReal</Name>
+						<Flags>
+							<Flag>Line</Flag>
+						</Flags>
+					</OutputArgument>
+				</OutputArguments>
+			</Function>
+			<Function>
+				<Name>TA_PPO_BatchState</Name>
+				<Type>BatchState</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+				<RequiredInputArguments>
+					<RequiredInputArgument>
+						<Type>Integer</Type>
+						<Name>startIdx</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Integer</Type>
+						<Name>endIdx</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Double Array</Type>
+						<Name>inReal</Name>
+					</RequiredInputArgument>
+				</RequiredInputArguments>
+				<OutputArguments>
+					<OutputArgument>
+						<Type>Pointer to Integer</Type>
+						<Name>outBegIdx</Name>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Pointer to Integer</Type>
+						<Name>outNBElement</Name>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Double Array</Type>
+						<Name>outReal</Name>
+						<Flags>
+							<Flag>Line</Flag>
+						</Flags>
+					</OutputArgument>
+				</OutputArguments>
+			</Function>
+			<Function>
+				<Name>TA_PPO_StateFree</Name>
+				<Type>StateFree</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer to Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
+			<Function>
+				<Name>TA_PPO_StateLoad</Name>
+				<Type>StateLoad</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer to Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+					<SpecialInputArgument>
+						<Type>Pointer to File</Type>
+						<Name>file</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
+			<Function>
+				<Name>TA_PPO_StateSave</Name>
+				<Type>StateSave</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+					<SpecialInputArgument>
+						<Type>Pointer to File</Type>
+						<Name>file</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
 
@@ -37858,21 +35894,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_ROC_StateSave</Name>
@@ -37888,21 +35909,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -38125,21 +36131,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_ROCP_StateSave</Name>
@@ -38155,21 +36146,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -38392,21 +36368,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_ROCR_StateSave</Name>
@@ -38422,21 +36383,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -38659,21 +36605,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_ROCR100_StateSave</Name>
@@ -38689,21 +36620,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -38945,21 +36861,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_RSI_StateSave</Name>
@@ -38975,21 +36876,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -39312,36 +37198,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Acceleration Factor</Name>
-						<ShortDescription>Acceleration Factor used up to the Maximum value</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>2.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Maximum</Name>
-						<ShortDescription>Acceleration Factor Maximum value</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>2.000000e-1</SuggestedStart>
-							<SuggestedEnd>4.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_SAR_StateSave</Name>
@@ -39357,36 +37213,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Acceleration Factor</Name>
-						<ShortDescription>Acceleration Factor used up to the Maximum value</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>2.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Maximum</Name>
-						<ShortDescription>Acceleration Factor Maximum value</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>2.000000e-1</SuggestedStart>
-							<SuggestedEnd>4.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -39965,120 +37791,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Start Value</Name>
-						<ShortDescription>Start value and direction. 0 for Auto, &gt;0 for Long, &lt;0 for Short</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>-3.000000e+37</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>0.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Offset on Reverse</Name>
-						<ShortDescription>Percent offset added/removed to initial stop on short/long reversal</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>1.500000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>0.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Init Long</Name>
-						<ShortDescription>Acceleration Factor initial value for the Long direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>1.900000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Long</Name>
-						<ShortDescription>Acceleration Factor for the Long direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>2.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Max Long</Name>
-						<ShortDescription>Acceleration Factor maximum value for the Long direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>2.000000e-1</SuggestedStart>
-							<SuggestedEnd>4.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Init Short</Name>
-						<ShortDescription>Acceleration Factor initial value for the Short direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>1.900000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Short</Name>
-						<ShortDescription>Acceleration Factor for the Short direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>2.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Max Short</Name>
-						<ShortDescription>Acceleration Factor maximum value for the Short direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>2.000000e-1</SuggestedStart>
-							<SuggestedEnd>4.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_SAREXT_StateSave</Name>
@@ -40094,120 +37806,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Start Value</Name>
-						<ShortDescription>Start value and direction. 0 for Auto, &gt;0 for Long, &lt;0 for Short</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>-3.000000e+37</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>0.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Offset on Reverse</Name>
-						<ShortDescription>Percent offset added/removed to initial stop on short/long reversal</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>1.500000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>0.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Init Long</Name>
-						<ShortDescription>Acceleration Factor initial value for the Long direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>1.900000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Long</Name>
-						<ShortDescription>Acceleration Factor for the Long direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>2.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Max Long</Name>
-						<ShortDescription>Acceleration Factor maximum value for the Long direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>2.000000e-1</SuggestedStart>
-							<SuggestedEnd>4.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Init Short</Name>
-						<ShortDescription>Acceleration Factor initial value for the Short direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>1.900000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Short</Name>
-						<ShortDescription>Acceleration Factor for the Short direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>2.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Max Short</Name>
-						<ShortDescription>Acceleration Factor maximum value for the Short direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>2.000000e-1</SuggestedStart>
-							<SuggestedEnd>4.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -40821,21 +38419,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_SMA_StateSave</Name>
@@ -40851,21 +38434,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -41326,35 +38894,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Deviations</Name>
-						<ShortDescription>Nb of deviations</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>-3.000000e+37</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>-2.000000e+0</SuggestedStart>
-							<SuggestedEnd>2.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>2.000000e-1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>1.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_STDDEV_StateSave</Name>
@@ -41370,35 +38909,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Deviations</Name>
-						<ShortDescription>Nb of deviations</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>-3.000000e+37</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>-2.000000e+0</SuggestedStart>
-							<SuggestedEnd>2.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>2.000000e-1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>1.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -41812,59 +39322,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast-K Period</Name>
-						<ShortDescription>Time period for building the Fast-K line</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow-K Period</Name>
-						<ShortDescription>Smoothing for making the Slow-K line. Usually set to 3</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow-K MA</Name>
-						<ShortDescription>Type of Moving Average for Slow-K</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow-D Period</Name>
-						<ShortDescription>Smoothing for making the Slow-D line</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow-D MA</Name>
-						<ShortDescription>Type of Moving Average for Slow-D</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_STOCH_StateSave</Name>
@@ -41880,59 +39337,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast-K Period</Name>
-						<ShortDescription>Time period for building the Fast-K line</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow-K Period</Name>
-						<ShortDescription>Smoothing for making the Slow-K line. Usually set to 3</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow-K MA</Name>
-						<ShortDescription>Type of Moving Average for Slow-K</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow-D Period</Name>
-						<ShortDescription>Smoothing for making the Slow-D line</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow-D MA</Name>
-						<ShortDescription>Type of Moving Average for Slow-D</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -42285,40 +39689,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast-K Period</Name>
-						<ShortDescription>Time period for building the Fast-K line</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast-D Period</Name>
-						<ShortDescription>Smoothing for making the Fast-D line. Usually set to 3</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast-D MA</Name>
-						<ShortDescription>Type of Moving Average for Fast-D</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_STOCHF_StateSave</Name>
@@ -42334,40 +39704,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast-K Period</Name>
-						<ShortDescription>Time period for building the Fast-K line</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast-D Period</Name>
-						<ShortDescription>Smoothing for making the Fast-D line. Usually set to 3</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast-D MA</Name>
-						<ShortDescription>Type of Moving Average for Fast-D</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -42718,53 +40054,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast-K Period</Name>
-						<ShortDescription>Time period for building the Fast-K line</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast-D Period</Name>
-						<ShortDescription>Smoothing for making the Fast-D line. Usually set to 3</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast-D MA</Name>
-						<ShortDescription>Type of Moving Average for Fast-D</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_STOCHRSI_StateSave</Name>
@@ -42780,53 +40069,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast-K Period</Name>
-						<ShortDescription>Time period for building the Fast-K line</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast-D Period</Name>
-						<ShortDescription>Smoothing for making the Fast-D line. Usually set to 3</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast-D MA</Name>
-						<ShortDescription>Type of Moving Average for Fast-D</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -43261,21 +40503,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_SUM_StateSave</Name>
@@ -43291,21 +40518,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -43630,35 +40842,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Volume Factor</Name>
-						<ShortDescription>Volume Factor</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>1.000000e+0</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>1.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>5.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>7.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_T3_StateSave</Name>
@@ -43674,35 +40857,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Volume Factor</Name>
-						<ShortDescription>Volume Factor</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>1.000000e+0</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>1.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>5.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>7.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -44324,21 +41478,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_TEMA_StateSave</Name>
@@ -44354,21 +41493,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -44838,21 +41962,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_TRIMA_StateSave</Name>
@@ -44868,21 +41977,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -45121,21 +42215,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_TRIX_StateSave</Name>
@@ -45151,21 +42230,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -45411,21 +42475,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_TSF_StateSave</Name>
@@ -45441,21 +42490,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -46059,47 +43093,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>First Period</Name>
-						<ShortDescription>Number of bars for 1st period.</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>7</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Second Period</Name>
-						<ShortDescription>Number of bars fro 2nd period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Third Period</Name>
-						<ShortDescription>Number of bars for 3rd period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>28</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_ULTOSC_StateSave</Name>
@@ -46115,47 +43108,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>First Period</Name>
-						<ShortDescription>Number of bars for 1st period.</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>7</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Second Period</Name>
-						<ShortDescription>Number of bars fro 2nd period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Third Period</Name>
-						<ShortDescription>Number of bars for 3rd period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>28</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -46428,35 +43380,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Deviations</Name>
-						<ShortDescription>Nb of deviations</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>-3.000000e+37</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>-2.000000e+0</SuggestedStart>
-							<SuggestedEnd>2.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>2.000000e-1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>1.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_VAR_StateSave</Name>
@@ -46472,35 +43395,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Deviations</Name>
-						<ShortDescription>Nb of deviations</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>-3.000000e+37</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>-2.000000e+0</SuggestedStart>
-							<SuggestedEnd>2.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>2.000000e-1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>1.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -46998,21 +43892,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_WILLR_StateSave</Name>
@@ -47028,21 +43907,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -47285,21 +44149,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_WLMA_StateSave</Name>
@@ -47315,21 +44164,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -47567,21 +44401,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_WMA_StateSave</Name>
@@ -47597,21 +44416,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
-- 
2.43.0


From dd1e3ece5d4597bc0e2f22f3fbc2c2543b786b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:34 +0000
Subject: [PATCH 31/31] fix: terminate the text returned by
 TA_FunctionDescriptionXML()

The generated array held the bytes of ta_func_api.xml without a terminator,
but is returned as a string.
---
 ta-lib-rt/c/src/tools/gen_code/gen_code.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ta-lib-rt/c/src/tools/gen_code/gen_code.c b/ta-lib-rt/c/src/tools/gen_code/gen_code.c
index 9def3fd..db6c166 100644
--- a/ta-lib-rt/c/src/tools/gen_code/gen_code.c
+++ b/ta-lib-rt/c/src/tools/gen_code/gen_code.c
@@ -4785,7 +4785,9 @@ void convertFileToCArray( FILE *in, FILE *out )
        position++;
        c = getc(in);
    }
- 
+
+    /* The array is returned as a string. */
+    fprintf( out, position == 0 ? "0x00" : ",0x00" );
 }
 
 void printJavaFunctionAnnotation(const TA_FuncInfo *funcInfo)
-- 
2.43.0

