From 36bc1604e26af4dd1293e8fffb5ed83af20af8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 01/66] fix: keep an error's severity when the calling function
 is added to its code

---
 heclib/heclib_c/src/Internal/zerrorEncodeHigh.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zerrorEncodeHigh.c b/heclib/heclib_c/src/Internal/zerrorEncodeHigh.c
index 83b95f9..4e717e1 100644
--- a/heclib/heclib_c/src/Internal/zerrorEncodeHigh.c
+++ b/heclib/heclib_c/src/Internal/zerrorEncodeHigh.c
@@ -32,8 +32,19 @@
 
 int zerrorEncodeHigh(int errorCodeIn, int highFunction)
 {
-	errorCodeIn +=  highFunction * 1000000;
-	return errorCodeIn;
+	int severity;
+	int lowPart;
+
+	//  Error codes are negative, with the severity in the highest digits.
+	//  A status without a severity is not an encoded error; leave it as it is.
+	severity = zerrorSeverity(errorCodeIn);
+	if ((errorCodeIn >= 0) || (severity == 0)) {
+		return errorCodeIn;
+	}
+
+	//  Set the high function, keeping the severity, low function, error and status
+	lowPart = (-errorCodeIn) % 1000000;
+	return -((severity * 100000000) + (highFunction * 1000000) + lowPart);
 }
 
 
-- 
2.43.0


From 410533893584c3a9300e5cfe54e568112aef3e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 02/66] fix: release the file lock after storing a regular time
 series pattern

---
 heclib/heclib_c/src/Internal/ztsStoreReg7.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/ztsStoreReg7.c b/heclib/heclib_c/src/Internal/ztsStoreReg7.c
index eec3687..69ce012 100644
--- a/heclib/heclib_c/src/Internal/ztsStoreReg7.c
+++ b/heclib/heclib_c/src/Internal/ztsStoreReg7.c
@@ -234,7 +234,7 @@ int ztsStoreReg7(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 								tss->numberValues, tss->numberValues,
 								dataType);
 		//status = ztsStorePattern(ifltab, tss);
-		zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_ON, LOCKING_FLUSH_OFF);
+		zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		return status;
 	}
 
-- 
2.43.0


From 8a628cc1eaec3bb66eb846bff3d7c47d22031ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 03/66] fix: release the file lock after storing an irregular
 pattern and when memory runs out

---
 heclib/heclib_c/src/Internal/ztsStoreIrreg7.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c b/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c
index 9bc34c4..1e3c656 100644
--- a/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c
+++ b/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c
@@ -317,7 +317,7 @@ int ztsStoreIrreg7(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 								tss->numberValues, tss->numberValues,
 								dataType);
 		//status = ztsStorePattern(ifltab, tss);
-		zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_ON, LOCKING_FLUSH_OFF);
+		zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		return status;
 	}
 
@@ -423,6 +423,7 @@ int ztsStoreIrreg7(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 		else if (numberToStore > 0) {
 			itimes = (int *)calloc((size_t)numberToStore, (size_t)4);
 			if (!itimes) {
+				zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
 				return zerrorProcessing(ifltab, DSS_FUNCTION_ztsStoreIrreg_ID,
 					zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, numberToStore, 0,
 					zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for itimes");
-- 
2.43.0


From 252871cea13111024cc258f4071ba561542aba3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 04/66] fix: release the file lock when writing a record fails
 part way

---
 heclib/heclib_c/src/Internal/zwriteInternal.c | 31 +++++++++++++++----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zwriteInternal.c b/heclib/heclib_c/src/Internal/zwriteInternal.c
index 04f48e3..19d31d4 100644
--- a/heclib/heclib_c/src/Internal/zwriteInternal.c
+++ b/heclib/heclib_c/src/Internal/zwriteInternal.c
@@ -370,7 +370,10 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 		}		
 		status = zputBuff(ifltab, info[zdssInfoKeys.kinfoInternalHeadAddress], ztransfer->internalHeader,
 			ztransfer->internalHeaderNumber, 1, bufferAction, bufferControl, buffer);
-		if (status != STATUS_OKAY) return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		if (status != STATUS_OKAY) {
+			zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		}
 	}
 
 	if ((ztransfer->header2Number > 0) && ztransfer->header2) {
@@ -379,7 +382,10 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 		}
 		status = zputBuff(ifltab, info[zdssInfoKeys.kinfoHeader2Address], ztransfer->header2,
 			ztransfer->header2Number, 1, bufferAction, bufferControl, buffer);
-		if (status != STATUS_OKAY) return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		if (status != STATUS_OKAY) {
+			zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		}
 	}
 
 	if ((ztransfer->userHeaderNumber > 0) && ztransfer->userHeader) {
@@ -388,7 +394,10 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 		}
 		status = zputBuff(ifltab, info[zdssInfoKeys.kinfoUserHeadAddress], ztransfer->userHeader,
 			ztransfer->userHeaderNumber, 1, bufferAction, bufferControl, buffer);
-		if (status != STATUS_OKAY) return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		if (status != STATUS_OKAY) {
+			zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		}
 	}
 
 	//  Write data values
@@ -408,7 +417,10 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 			status = zputBuff(ifltab, info[zdssInfoKeys.kinfoValues1Address], ztransfer->values1,
 				ztransfer->values1Number, 1, bufferAction, bufferControl, buffer);
 		}
-		if (status != STATUS_OKAY) return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		if (status != STATUS_OKAY) {
+			zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		}
 	}
 
 	if ((ztransfer->values2Number > 0) && ztransfer->values2) {
@@ -427,7 +439,10 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 			status = zputBuff(ifltab, info[zdssInfoKeys.kinfoValues2Address], ztransfer->values2,
 				ztransfer->values2Number, 1, bufferAction, bufferControl, buffer);
 		}
-		if (status != STATUS_OKAY) return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		if (status != STATUS_OKAY) {
+			zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		}
 	}
 
 	if ((ztransfer->values3Number > 0) && ztransfer->values3) {
@@ -446,7 +461,10 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 			status = zputBuff(ifltab, info[zdssInfoKeys.kinfoValues3Address], ztransfer->values3,
 				ztransfer->values3Number, 1, bufferAction, bufferControl, buffer);
 		}
-		if (status != STATUS_OKAY) return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		if (status != STATUS_OKAY) {
+			zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+		}
 	}
 
 	//  If more space is allocated than written, don't bother writing this area
@@ -463,6 +481,7 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 		}
 	}
 	if (zisError(status)) {
+		zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
 	}
 
-- 
2.43.0


From 7b0378edf63a1d1e2ee717e8e8331b506819b910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 05/66] fix: release the file lock when saving the catalog sort
 order fails

---
 heclib/heclib_c/src/Internal/zsetCatalogSortAddresses.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zsetCatalogSortAddresses.c b/heclib/heclib_c/src/Internal/zsetCatalogSortAddresses.c
index c2c48ec..750893f 100644
--- a/heclib/heclib_c/src/Internal/zsetCatalogSortAddresses.c
+++ b/heclib/heclib_c/src/Internal/zsetCatalogSortAddresses.c
@@ -148,6 +148,7 @@ int zsetCatalogSortAddresses(long long* ifltab, long long* sortAddresses, int so
 		//  But, fileHeader[zdssFileKeys.kcatSortNumber] will == sortAddressesLen
 		status = zput(ifltab, (fileHeader[zdssFileKeys.kcatSortAddress] + 1), (int *)sortAddresses, sortAddressesLen, 2);
 		if (zisError(status)) {
+			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zcatalog_ID);
 		}
 	}
@@ -168,10 +169,12 @@ int zsetCatalogSortAddresses(long long* ifltab, long long* sortAddresses, int so
 		lWord = DSS_START_CAT_SORT_FLAG;
 		status = zput(ifltab, fileHeader[zdssFileKeys.kcatSortAddress], (int *)&lWord, 2, 1);
 		if (zisError(status)) {
+			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zcatalog_ID);
 		}
 		status = zput(ifltab, (fileHeader[zdssFileKeys.kcatSortAddress] + 1), (int *)sortAddresses, (int)fileHeader[zdssFileKeys.kcatSortSize], 2);
 		if (zisError(status)) {
+			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zcatalog_ID);
 		}
 		address = fileHeader[zdssFileKeys.kcatSortAddress] + fileHeader[zdssFileKeys.kcatSortSize] + 1;
@@ -181,6 +184,7 @@ int zsetCatalogSortAddresses(long long* ifltab, long long* sortAddresses, int so
 			status = zwriteEOF(ifltab);
 		}
 		if (zisError(status)) {
+			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zcatalog_ID);
 		}
 	}
-- 
2.43.0


From 9d5f29ccc5157df039f94fa43c7133dee3922d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 06/66] fix: release the file lock when clearing the reclaim
 table fails

---
 heclib/heclib_c/src/Internal/zreclaimSet.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/heclib/heclib_c/src/Internal/zreclaimSet.c b/heclib/heclib_c/src/Internal/zreclaimSet.c
index 645ee04..3f49624 100644
--- a/heclib/heclib_c/src/Internal/zreclaimSet.c
+++ b/heclib/heclib_c/src/Internal/zreclaimSet.c
@@ -70,6 +70,7 @@ int zreclaimSet(long long *ifltab, int reclaimLevel)
 			size = (int)fileHeader[zdssFileKeys.kreclaimSize];
 			status = zput(ifltab, fileHeader[zdssFileKeys.kreclaimTableAddress], &zero, -size, 2);
 			if (zisError(status)) {
+				zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
 				return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
 			}
 		}
-- 
2.43.0


From b33dab999280b0272fc9c94637fcf3987e105d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 07/66] fix: release the file lock when zrename or zpdStore
 runs out of memory

---
 heclib/heclib_c/src/Public/zpdStore.c | 1 +
 heclib/heclib_c/src/Public/zrename.c  | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zpdStore.c b/heclib/heclib_c/src/Public/zpdStore.c
index 4eddf2a..74ff3c7 100644
--- a/heclib/heclib_c/src/Public/zpdStore.c
+++ b/heclib/heclib_c/src/Public/zpdStore.c
@@ -1135,6 +1135,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 				zstructFree(ztransfer);
 				ztransfer = zstructTransferNew(pds->pathname, 1);
 				if (!ztransfer) {
+					zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
 					FREE_TEMPS_AND_RESTORE
 					return zerrorProcessing(ifltab, DSS_FUNCTION_zpdStore_ID,
 											zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index 97396aa..c123c1f 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -221,6 +221,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		len = (int)strlen(newPathname) + 12;
 		newPath = calloc(len, 1);
 		if (!newPath) {
+			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
 			return zerrorProcessing(ifltab, DSS_FUNCTION_zrename_ID,
 				zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
 				zdssErrorSeverity.MEMORY_ERROR,
@@ -257,6 +258,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	infoAddress = ifltab[zdssKeys.kaddInfoLastPath];
 	infoOld = (long long*)calloc((size_t)numberInfoOld, LONG_SIZE);
 	if (!infoOld) {
+		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
 		free(newPath);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_zrename_ID,
 								zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, numberInfoOld, 0,
-- 
2.43.0


From 28e7faedceb03729a6444c23dcd9074e541c548c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:40 +0000
Subject: [PATCH 08/66] fix: release the file lock when validating a squeezed
 file fails

---
 heclib/heclib_c/src/Public/zsqueeze7.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zsqueeze7.c b/heclib/heclib_c/src/Public/zsqueeze7.c
index 0b76668..cbeb9cd 100644
--- a/heclib/heclib_c/src/Public/zsqueeze7.c
+++ b/heclib/heclib_c/src/Public/zsqueeze7.c
@@ -469,6 +469,7 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 			for (i = 1; i < NUMBER_METHOD_NAMES; ++i) {
 				zsetMessageLevel(zmessaging.methodLevel[i], originalMessageLevels[i]);
 			}
+			zlockActive(ifltab, LOCKING_LEVEL_SUPER, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zsqueeze_ID);
 		}
 
@@ -481,6 +482,7 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 			for (i = 1; i < NUMBER_METHOD_NAMES; ++i) {
 				zsetMessageLevel(zmessaging.methodLevel[i], originalMessageLevels[i]);
 			}
+			zlockActive(ifltab, LOCKING_LEVEL_SUPER, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
 			return zerrorProcessing(ifltab, DSS_FUNCTION_zsqueeze_ID, zdssErrorCodes.CANNOT_SQUEEZE,
 									status, 0, zdssErrorSeverity.WARNING_NO_FILE_ACCESS, "",
 									"Incomplete update, file failed check.");
-- 
2.43.0


From a9f791c500c8a26585642bafb0b9539906998b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 09/66] fix: refuse to edit paired data or header settings on a
 read-only handle

---
 heclib/heclib_c/src/Public/zpdStore.c |  6 ++++++
 heclib/heclib_c/src/Public/zsetFile.c | 10 ++++++++++
 2 files changed, 16 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zpdStore.c b/heclib/heclib_c/src/Public/zpdStore.c
index 74ff3c7..740ff60 100644
--- a/heclib/heclib_c/src/Public/zpdStore.c
+++ b/heclib/heclib_c/src/Public/zpdStore.c
@@ -893,6 +893,12 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 	else {  // if (!boolStoreEntire) {
 		//  Write a portion over an existing data set.
 		//  Ignore ordinates, labels, etc.
+		if (ifltab[zdssKeys.kopenStatus] != OPEN_STAT_WRITE) {
+			FREE_TEMPS_AND_RESTORE
+			return zerrorProcessing(ifltab, DSS_FUNCTION_zpdStore_ID,
+									zdssErrorCodes.WRITE_ON_READ_ONLY, 0, 0,
+									zdssErrorSeverity.WARNING_NO_WRITE_ACCESS, pds->pathname, "");
+		}
 
 		//  First determine what we have on disk
 		ztransfer = zstructTransferNew(pds->pathname, 0);
diff --git a/heclib/heclib_c/src/Public/zsetFile.c b/heclib/heclib_c/src/Public/zsetFile.c
index b66a209..48aa63f 100644
--- a/heclib/heclib_c/src/Public/zsetFile.c
+++ b/heclib/heclib_c/src/Public/zsetFile.c
@@ -102,6 +102,11 @@ int zsetFile(long long *ifltab, const char* parameter, const char* charVal, int
 		//  This will cause all records written to file to become inaccessible
 		//  and will tremendously slow down all I/O
 		//  Everything should still work, just really slow
+		if (ifltab[zdssKeys.kopenStatus] != OPEN_STAT_WRITE) {
+			return zerrorProcessing(ifltab, DSS_FUNCTION_zsetFile_ID,
+				zdssErrorCodes.WRITE_ON_READ_ONLY, 0, 0,
+				zdssErrorSeverity.WARNING_NO_WRITE_ACCESS, "", parameter);
+		}
 		status = zlockActive(ifltab, 0, LOCKING_LOCK_ON, LOCKING_FLUSH_ON);
 		if (zisError(status)) return status;
 		zpermRead(ifltab);
@@ -160,6 +165,11 @@ int zsetFile(long long *ifltab, const char* parameter, const char* charVal, int
 		}
 	}
 	else if (!strncmp(cparm, "maxp", 4)) {
+		if (ifltab[zdssKeys.kopenStatus] != OPEN_STAT_WRITE) {
+			return zerrorProcessing(ifltab, DSS_FUNCTION_zsetFile_ID,
+				zdssErrorCodes.WRITE_ON_READ_ONLY, 0, 0,
+				zdssErrorSeverity.WARNING_NO_WRITE_ACCESS, "", parameter);
+		}
 		status = zlockActive(ifltab, 0, LOCKING_LOCK_ON, LOCKING_FLUSH_ON);
 		if (zisError(status)) return status;
 		zpermRead(ifltab);
-- 
2.43.0


From c8293d99e2b3c3b8077865a4591b9653303ac0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 10/66] fix: refuse to squeeze a file through a read-only
 handle

---
 heclib/heclib_c/src/Public/zsqueeze7.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zsqueeze7.c b/heclib/heclib_c/src/Public/zsqueeze7.c
index cbeb9cd..612cd6b 100644
--- a/heclib/heclib_c/src/Public/zsqueeze7.c
+++ b/heclib/heclib_c/src/Public/zsqueeze7.c
@@ -110,6 +110,12 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 		return status;
 	}
 
+	if (ifltab[zdssKeys.kopenStatus] != OPEN_STAT_WRITE) {
+		return zerrorProcessing(ifltab, DSS_FUNCTION_zsqueeze_ID,
+			zdssErrorCodes.WRITE_ON_READ_ONLY, 0, 0,
+			zdssErrorSeverity.WARNING_NO_WRITE_ACCESS, "", "");
+	}
+
 	charLong((void *)ifltab[zdssKeys.kfullFilename], fullFilename, 0, sizeof(fullFilename), 0, 1);
 	charLong((void *)ifltab[zdssKeys.kfilename], filename, 0, sizeof(filename), 0, 1);
 	ihandle = (int)ifltab[zdssKeys.khandle];
-- 
2.43.0


From e1e528317c644091312bc2a44573306c8f1a0a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 11/66] fix: notice when squeezing cannot rename or delete a
 file

---
 heclib/heclib_c/src/Public/zsqueeze7.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zsqueeze7.c b/heclib/heclib_c/src/Public/zsqueeze7.c
index 612cd6b..ef7471f 100644
--- a/heclib/heclib_c/src/Public/zsqueeze7.c
+++ b/heclib/heclib_c/src/Public/zsqueeze7.c
@@ -260,7 +260,7 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 		//  Rename the current file to the temp name, just to be sure we can do this step
 		//  (This is a common failure point, mainly due to permission or similar)
 		status = rename(fullFilename, tempName);
-		if (zisError(status)) {
+		if (status != 0) {
 			for (i = 1; i < NUMBER_METHOD_NAMES; ++i) {
 				zsetMessageLevel(zmessaging.methodLevel[i], originalMessageLevels[i]);
 			}
@@ -273,7 +273,7 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 
 	   //  Almost always able to rename back
 	   status = rename(tempName, fullFilename);
-	   if (zisError(status)) {
+	   if (status != 0) {
 		   for (i = 1; i < NUMBER_METHOD_NAMES; ++i) {
 			   zsetMessageLevel(zmessaging.methodLevel[i], originalMessageLevels[i]);
 		   }
@@ -534,7 +534,7 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 #else
 		status = unlink(fullFilename);
 #endif
-	    if (zisError(status)) {
+	    if (status != 0) {
 			for (i = 1; i < NUMBER_METHOD_NAMES; ++i) {
 				zsetMessageLevel(zmessaging.methodLevel[i], originalMessageLevels[i]);
 			}
@@ -546,7 +546,7 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 
 	   //  Rename temp to old file
 	   status = rename(tempName, fullFilename);
-	   if (zisError(status)) {
+	   if (status != 0) {
 		   for (i = 1; i < NUMBER_METHOD_NAMES; ++i) {
 			   zsetMessageLevel(zmessaging.methodLevel[i], originalMessageLevels[i]);
 		   }
-- 
2.43.0


From 9afd9c00ba5d5791e54eabf2b067957459bfc250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 12/66] fix: error messages get arguments of the type their
 text asks for, key messages in the order of their codes

---
 .../heclib_c/src/Internal/zerrorProcessing.c  | 19 ++++++++++---------
 heclib/heclib_c/src/headers/zerrorCodes.h     |  2 +-
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zerrorProcessing.c b/heclib/heclib_c/src/Internal/zerrorProcessing.c
index ec6ba35..b0bdc0e 100644
--- a/heclib/heclib_c/src/Internal/zerrorProcessing.c
+++ b/heclib/heclib_c/src/Internal/zerrorProcessing.c
@@ -168,7 +168,7 @@ int zerrorProcessing(long long *ifltab, int functionID, int errorNumber, int sta
 		zerrorSave(ifltab, zdssErrorCodes.INVALID_ADDRESS);
 	}
 	else if (errorNumber == zdssErrorCodes.INVALID_NUMBER_TO_READ) {
-		_snprintf_s(errorMessage, MAX_LEN_ERROR_MESS, _TRUNCATE, cmess, status);
+		_snprintf_s(errorMessage, MAX_LEN_ERROR_MESS, _TRUNCATE, cmess, (long long)status);
 		if (message) zmessConcat1(errorMessage, MAX_LEN_ERROR_MESS, message);
 	}
 	else if (errorNumber == zdssErrorCodes.READ_ERROR) {
@@ -184,7 +184,7 @@ int zerrorProcessing(long long *ifltab, int functionID, int errorNumber, int sta
 		if (message) zmessConcat1(errorMessage, MAX_LEN_ERROR_MESS, message);
 	}
 	else if (errorNumber == zdssErrorCodes.ARRAY_TOO_SMALL) {
-		_snprintf_s(errorMessage, MAX_LEN_ERROR_MESS, _TRUNCATE, cmess, status, iaddress);
+		_snprintf_s(errorMessage, MAX_LEN_ERROR_MESS, _TRUNCATE, cmess, status, (int)iaddress);
 		if (message) zmessConcat1(errorMessage, MAX_LEN_ERROR_MESS, message);
 	}
 	else if (errorNumber == zdssErrorCodes.CANNOT_ALLOCATE_MEMORY) {
@@ -199,7 +199,7 @@ int zerrorProcessing(long long *ifltab, int functionID, int errorNumber, int sta
 		if (message) zmessConcat1(errorMessage, MAX_LEN_ERROR_MESS, message);
 	}
 	else if (errorNumber == zdssErrorCodes.INVALID_FILE_HEADER) {
-		_snprintf_s(errorMessage, MAX_LEN_ERROR_MESS, _TRUNCATE, cmess, fileHeader[zdssFileKeys.kendFileHeader], DSS_END_HEADER_FLAG);
+		_snprintf_s(errorMessage, MAX_LEN_ERROR_MESS, _TRUNCATE, cmess, fileHeader[zdssFileKeys.kendFileHeader], (long long)DSS_END_HEADER_FLAG);
 		if (message) zmessConcat1(errorMessage, MAX_LEN_ERROR_MESS, message);
 	}
 	else if (errorNumber == zdssErrorCodes.INVALID_HEADER_PARAMETER) {
@@ -233,15 +233,15 @@ int zerrorProcessing(long long *ifltab, int functionID, int errorNumber, int sta
 		zmessConcat1(errorMessage, MAX_LEN_ERROR_MESS, cmess);
 		cmess = zerrorMessage(buff, MAX_LEN_ERROR_MESS, severity, zdssErrorCodes.KEY_VALUE, functionID);
 		if (ifltab[zdssKeys.kintegrityKey1] != zdssVals.integrityKey) {
-			_snprintf_s(buff2, MAX_LEN_ERROR_MESS, _TRUNCATE, cmess, 1, ifltab[zdssKeys.kintegrityKey1], zdssVals.integrityKey);
+			_snprintf_s(buff2, MAX_LEN_ERROR_MESS, _TRUNCATE, cmess, 1, ifltab[zdssKeys.kintegrityKey1], (long long)zdssVals.integrityKey);
 			zmessConcat1(errorMessage, MAX_LEN_ERROR_MESS, buff2);
 		}
 		if (ifltab[zdssKeys.kintegrityKey2] != zdssVals.integrityKey) {
-			_snprintf_s(buff2, MAX_LEN_ERROR_MESS, _TRUNCATE, cmess, 2, ifltab[zdssKeys.kintegrityKey2], zdssVals.integrityKey);
+			_snprintf_s(buff2, MAX_LEN_ERROR_MESS, _TRUNCATE, cmess, 2, ifltab[zdssKeys.kintegrityKey2], (long long)zdssVals.integrityKey);
 			zmessConcat1(errorMessage, MAX_LEN_ERROR_MESS, buff2);
 		}
 		if (ifltab[zdssKeys.kintegrityKey3] != zdssVals.integrityKey) {
-			_snprintf_s(buff2, MAX_LEN_ERROR_MESS, _TRUNCATE, cmess, 2, ifltab[zdssKeys.kintegrityKey3], zdssVals.integrityKey);
+			_snprintf_s(buff2, MAX_LEN_ERROR_MESS, _TRUNCATE, cmess, 3, ifltab[zdssKeys.kintegrityKey3], (long long)zdssVals.integrityKey);
 			zmessConcat1(errorMessage, MAX_LEN_ERROR_MESS, buff2);
 		}
 		if (message) zmessConcat1(errorMessage, MAX_LEN_ERROR_MESS, message);
@@ -252,13 +252,13 @@ int zerrorProcessing(long long *ifltab, int functionID, int errorNumber, int sta
 		_snprintf_s(errorMessage, MAX_LEN_ERROR_MESS, _TRUNCATE, cmess, status, iaddress, message);
 	}
 	else if (errorNumber == zdssErrorCodes.DIFFERENT_PROFILE_NUMBER) {
-		_snprintf_s(errorMessage, MAX_LEN_ERROR_MESS, _TRUNCATE, cmess, status, iaddress, message);
+		_snprintf_s(errorMessage, MAX_LEN_ERROR_MESS, _TRUNCATE, cmess, status, (int)iaddress, message);
 	}
 	else if (errorNumber == zdssErrorCodes.WRONG_RECORD_TYPE) {
 		_snprintf_s(errorMessage, MAX_LEN_ERROR_MESS, _TRUNCATE, cmess, status, iaddress, message);
 	}
 	else if (errorNumber == zdssErrorCodes.ARRAY_SPACE_EXHAUSTED) {
-		_snprintf_s(errorMessage, MAX_LEN_ERROR_MESS, _TRUNCATE, cmess, status, iaddress, message);
+		_snprintf_s(errorMessage, MAX_LEN_ERROR_MESS, _TRUNCATE, cmess, status, (int)iaddress, message);
 	}
 	else if (errorNumber == zdssErrorCodes.INVALID_PARAMETER) {
 		_snprintf_s(errorMessage, MAX_LEN_ERROR_MESS, _TRUNCATE, cmess, message);
@@ -280,7 +280,8 @@ int zerrorProcessing(long long *ifltab, int functionID, int errorNumber, int sta
 		_snprintf_s(errorMessage, MAX_LEN_ERROR_MESS, _TRUNCATE, cmess, message, status);
 	}
 	else if (errorNumber == zdssErrorCodes.INVALID_BIN_STATUS) {
-		_snprintf_s(errorMessage, MAX_LEN_ERROR_MESS, _TRUNCATE, cmess, message, status);
+		_snprintf_s(errorMessage, MAX_LEN_ERROR_MESS, _TRUNCATE, cmess, status);
+		if (message) zmessConcat1(errorMessage, MAX_LEN_ERROR_MESS, message);
 	}
 	else {
 		//  Just an error message
diff --git a/heclib/heclib_c/src/headers/zerrorCodes.h b/heclib/heclib_c/src/headers/zerrorCodes.h
index 960a60c..cae97e6 100644
--- a/heclib/heclib_c/src/headers/zerrorCodes.h
+++ b/heclib/heclib_c/src/headers/zerrorCodes.h
@@ -48,8 +48,8 @@ static const char *errorMess[NUMBER_ERROR_MESSAGES] = {
 	/* EMPTY_FILE */					"The DSS file has no records or data in it; it is an empty file",
 	/* IFLTAB_CORRUPT */				"The primary table in memory has become corrupt (probably due to a program memory error)",
 	/* KEY_CORRUPT */					"The primary table keys in memory no longer match,\nindicating that the table has become corrupt (probably due to a program memory error)",
-	/* KEY3_LOCATION */					"The location pointer for key 3 is outside bounds (> 500).  It is ==>%d<==",
 	/* KEY_VALUE */						"The value of key %d is ==>%lld<==,  It should be ==>%lld<==",
+	/* KEY3_LOCATION */					"The location pointer for key 3 is outside bounds (> 500).  It is ==>%d<==",
 	/* CANNOT_LOCK_FILE */				"Unable to lock file",
 	/* CANNOT_LOCK_EXCLUSIVE */			"Unable to lock file for Exclusive access",
 	/* CANNOT_LOCK_MULTI_USER */		"Unable to lock file for multiple user access\nUnable to obtain a lock after %d attempts.",
-- 
2.43.0


From 02875b8eef16973ae762f9057f3ec63129137e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:23 +0000
Subject: [PATCH 13/66] fix: a negative system status no longer changes the
 error number inside an error code

---
 heclib/heclib_c/src/Internal/zerrorEncode.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zerrorEncode.c b/heclib/heclib_c/src/Internal/zerrorEncode.c
index 0a3b165..ef0a67e 100644
--- a/heclib/heclib_c/src/Internal/zerrorEncode.c
+++ b/heclib/heclib_c/src/Internal/zerrorEncode.c
@@ -50,7 +50,8 @@ int zerrorEncode(int severity, int highFunction, int lowFunction, int dssError,
 {
 	int errorCode;
 
-	if ((systemError > 99) || (systemError < -9)) {
+	//  Two digits; a negative number would change the other parts of the code
+	if ((systemError > 99) || (systemError < 0)) {
 		systemError = 0;
 	}
 	errorCode  =  systemError;
-- 
2.43.0


From 51b7e5bd71e35e0a5eaab075a3491c4439e77ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:26 +0000
Subject: [PATCH 14/66] fix: report a file header that cannot be read or
 written when locking or unlocking a file

---
 heclib/heclib_c/src/Internal/zlockActive.c | 37 ++++++++++++++++++----
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zlockActive.c b/heclib/heclib_c/src/Internal/zlockActive.c
index d183c3a..5d0b401 100644
--- a/heclib/heclib_c/src/Internal/zlockActive.c
+++ b/heclib/heclib_c/src/Internal/zlockActive.c
@@ -140,6 +140,7 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 	int j;
 	int count;
 	int status;
+	int statusHeader = STATUS_OKAY;
 	int numberAttempts;
 #ifdef _MSC_VER
 	DWORD sleepTime;
@@ -377,7 +378,15 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 					//  Read the file header
 					//	On Multiple users systems, be sure this is a
 					//  physical read (not just a buffer in memory)!!
-					zpermRead(ifltab);
+					statusHeader = zpermRead(ifltab);
+					if (zisError(statusHeader)) {
+						//  Without a current header we cannot work with the file
+						zlockDss(ifltab, handle, 0, fileHeader[zdssFileKeys.klockAddressWord],
+							(ifltab[zdssKeys.kmultiUserAccess] == EXCLUSIVE_ACCESS) ? 16 : 8);
+						ifltab[zdssKeys.klocked] = 0;
+						ifltab[zdssKeys.klockLevel] = 0;
+						return zerrorUpdate(ifltab, statusHeader, DSS_FUNCTION_zlocking_ID);
+					}
 				}
 			}
 			//  Save PID on first write
@@ -396,8 +405,11 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 			if (ifltab[zdssKeys.kmultiUserAccess] == RELEASE_ACCESS) {
 				//  Release exclusive access
 				if (flush && ifltab[zdssKeys.kwritingNow]) {
-					zpermWrite(ifltab);
-					zflushToDisk(ifltab, 1);
+					statusHeader = zpermWrite(ifltab);
+					if (zflushToDisk(ifltab, 1) && !zisError(statusHeader)) {
+						statusHeader = zerrorProcessing(ifltab, DSS_FUNCTION_zlocking_ID, zdssErrorCodes.WRITE_ERROR,
+							0, 0, zdssErrorSeverity.WRITE_ERROR, "", "Flush to disk");
+					}
 					ifltab[zdssKeys.kwritingNow] = 0;
 				}
 				//  Now unlock the file
@@ -411,7 +423,7 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 			//  If we are in an exclusive write lock mode, don't unlock file
 			if (ifltab[zdssKeys.klocked] == 1)  {
 				if (flush && ifltab[zdssKeys.kwritingNow]) {
-					zpermWrite(ifltab);
+					statusHeader = zpermWrite(ifltab);
 					ifltab[zdssKeys.kwritingNow] = 0;
 				}
 				if (ifltab[zdssKeys.kmultiUserAccess] != EXCLUSIVE_ACCESS) {
@@ -419,7 +431,10 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 					if (ifltab[zdssKeys.klocked] && (ifltab[zdssKeys.kmultiUserAccess] == MULTI_USER_ACCESS)) {
 						//  Flush the file if in multi-user access mode...
 						if (flush) {
-							zflushToDisk(ifltab, 1);
+							if (zflushToDisk(ifltab, 1) && !zisError(statusHeader)) {
+								statusHeader = zerrorProcessing(ifltab, DSS_FUNCTION_zlocking_ID, zdssErrorCodes.WRITE_ERROR,
+									0, 0, zdssErrorSeverity.WRITE_ERROR, "", "Flush to disk");
+							}
 						}
 
 						//  Now unlock the file
@@ -449,13 +464,17 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 				//  Read the file header (Always!)
 				//  Don't need to force (not multi-user)
 				if (flush) {
-					zpermRead(ifltab);
+					statusHeader = zpermRead(ifltab);
+					if (zisError(statusHeader)) {
+						ifltab[zdssKeys.klocked] = 0;
+						return zerrorUpdate(ifltab, statusHeader, DSS_FUNCTION_zlocking_ID);
+					}
 				}
 			}
 		}
 		else {
 			if (flush && ifltab[zdssKeys.kwritingNow]) {
-				zpermWrite(ifltab);
+				statusHeader = zpermWrite(ifltab);
 				ifltab[zdssKeys.kwritingNow] = 0;
 			}
 			ifltab[zdssKeys.klocked] = 0;
@@ -478,6 +497,10 @@ int zlockingOld(long long *ifltab, int level, int lock, int flush);
 			zmessageDebug(ifltab, DSS_FUNCTION_zlocking_ID, "File is Unlocked.", "");
 		}
 	}
+	if (zisError(statusHeader)) {
+		//  The file is unlocked, but the header or data did not reach the disk
+		return zerrorUpdate(ifltab, statusHeader, DSS_FUNCTION_zlocking_ID);
+	}
 	return status;
 }
 
-- 
2.43.0


From f4481d11a9d1401832e6019007a1fd67e961b952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:30 +0000
Subject: [PATCH 15/66] fix: pass on a failed bin, header, alias or fill write
 instead of reporting success

---
 heclib/heclib_c/src/Internal/zbinUpdate.c     |  5 ++++-
 .../heclib_c/src/Internal/zdeleteInternal.c   | 21 ++++++++++++++-----
 heclib/heclib_c/src/Internal/zpermCreate.c    | 10 +++++++--
 heclib/heclib_c/src/Internal/ztsStoreIrreg7.c | 11 ++++++++--
 heclib/heclib_c/src/Internal/ztsStoreReg7.c   |  5 ++++-
 heclib/heclib_c/src/Internal/zwriteInternal.c | 18 ++++++++++------
 heclib/heclib_c/src/Public/zrename.c          | 11 +++++++---
 7 files changed, 61 insertions(+), 20 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zbinUpdate.c b/heclib/heclib_c/src/Internal/zbinUpdate.c
index d3af688..b82f965 100644
--- a/heclib/heclib_c/src/Internal/zbinUpdate.c
+++ b/heclib/heclib_c/src/Internal/zbinUpdate.c
@@ -239,7 +239,10 @@ int zbinUpdate(long long *ifltab, const char* pathname, long long infoAddress,
 							ifltab[zdssKeys.kbinAddCurrent], icount);
 						zmessageDebug(ifltab, DSS_FUNCTION_zbinUpdate_ID, "Bin full for address: ", messageString);
 					}
-					zbinNew(ifltab);
+					status = zbinNew(ifltab);
+					if (zisError(status)) {
+						return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinUpdate_ID);
+					}
 					fileHeader[zdssFileKeys.kbinsOverflow]++;
 					icount = 0;
 				}
diff --git a/heclib/heclib_c/src/Internal/zdeleteInternal.c b/heclib/heclib_c/src/Internal/zdeleteInternal.c
index 9d08a8b..73b85d7 100644
--- a/heclib/heclib_c/src/Internal/zdeleteInternal.c
+++ b/heclib/heclib_c/src/Internal/zdeleteInternal.c
@@ -71,6 +71,7 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 	int reclaimFlag;
 	int readAction;
 	int status;
+	int istat;
 
 
 	fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
@@ -146,9 +147,13 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 		if (info[zdssInfoKeys.kinfoAliasesBinAddress]) {
 			path = (char *)calloc(MAX_PATHNAME_SIZE, 1);
 			status = zaliasGetPrimary(ifltab, pathname, path, MAX_PATHNAME_SIZE);
-			status = zaliasRemoveAll(ifltab, pathname);
-			ifltab[zdssKeys.kaddInfoLastPath] = 0;
-			status = zreadInfo(ifltab, path, readAction);
+			if (!zisError(status)) {
+				status = zaliasRemoveAll(ifltab, pathname);
+			}
+			if (!zisError(status)) {
+				ifltab[zdssKeys.kaddInfoLastPath] = 0;
+				status = zreadInfo(ifltab, path, readAction);
+			}
 			free(path);
 			path = 0;
 			if (zisError(status)) {
@@ -262,7 +267,10 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 
 	//  Reset reclaim level, if we need to
 	if (boolUndelete && (reclaimFlag > -1)) {
-		zreclaimSet(ifltab, reclaimFlag);
+		istat = zreclaimSet(ifltab, reclaimFlag);
+		if (zisError(istat) && !zisError(status)) {
+			status = istat;
+		}
 	}
 
 	//  Make sure that we don't keep the path in memory
@@ -275,7 +283,10 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 	ifltab[zdssKeys.kwritingNow] = 1;
 
 	//  Unlock
-	zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	istat = zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	if (zisError(istat) && !zisError(status)) {
+		status = istat;
+	}
 	if (zmessageLevel(ifltab, MESS_METHOD_UTILITY_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
 		zmessageDebug(ifltab, functionID, "Exit.  Pathname: ",pathname);
 		zmessageDebugInt(ifltab, functionID, "Handle: ", zhandle(ifltab));
diff --git a/heclib/heclib_c/src/Internal/zpermCreate.c b/heclib/heclib_c/src/Internal/zpermCreate.c
index d09b1df..37bfa6d 100644
--- a/heclib/heclib_c/src/Internal/zpermCreate.c
+++ b/heclib/heclib_c/src/Internal/zpermCreate.c
@@ -271,6 +271,11 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 	//  Note, we have one extra unused spot (for compatibility)
 	fileHeader[zdssFileKeys.klockAddressWord] = zgetFileSpace(ifltab, 3, 0, &atEOF);
 	status = zput(ifltab, fileHeader[zdssFileKeys.klockAddressWord], zero, -3, 2);
+	if (zisError(status)) {
+		free((long long*)ifltab[zdssKeys.kfileHeader]);
+		free((long long*)ifltab[zdssKeys.kpathBin]);
+		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
+	}
 	ifltab[zdssKeys.klockExclusiveWord] = fileHeader[zdssFileKeys.klockAddressWord] + 1;
 
 	//  Space for the write lock area
@@ -366,10 +371,11 @@ int zpermCreate (long long *ifltab, int maxExpectedPathnames, int hashSize, int
 
 	//  Force flush to disk
 	status = zflushToDisk(ifltab, 1);
-	if (zisError(status)) {
+	if (status != STATUS_OKAY) {
 		free((long long*)ifltab[zdssKeys.kfileHeader]);
 		free((long long*)ifltab[zdssKeys.kpathBin]);
-		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpermCreate_ID);
+		return zerrorProcessing(ifltab, DSS_FUNCTION_zpermCreate_ID, zdssErrorCodes.WRITE_ERROR,
+			status, 0, zdssErrorSeverity.WRITE_ERROR, "", "Flush to disk");
 	}
 
 	//  reset lock flag
diff --git a/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c b/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c
index 1e3c656..7684140 100644
--- a/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c
+++ b/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c
@@ -418,7 +418,11 @@ int ztsStoreIrreg7(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
     // If there are no values to store, and the block is not read, then delete the block
 		if (numberToStore == 0 && boolReadBlock == 0 && storageFlag == 1) {
 			// we need to delete this block/record
-			zdelete(ifltab,path);
+			status = zdelete(ifltab,path);
+			if (zisError(status)) {
+				zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+				return zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsStoreIrreg_ID);
+			}
 		}
 		else if (numberToStore > 0) {
 			itimes = (int *)calloc((size_t)numberToStore, (size_t)4);
@@ -560,7 +564,10 @@ int ztsStoreIrreg7(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 	}
 	//-----------------------------------------------------
 
-	zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	status = zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	if (zisError(status)) {
+		return zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsStoreIrreg_ID);
+	}
 
 	if (zmessageLevel(ifltab, MESS_METHOD_TS_WRITE_ID, MESS_LEVEL_USER_DIAG)) {
 		zmessageDebug(ifltab, DSS_FUNCTION_ztsStoreIrreg_ID, "Exit, Pathname: ", tss->pathname);
diff --git a/heclib/heclib_c/src/Internal/ztsStoreReg7.c b/heclib/heclib_c/src/Internal/ztsStoreReg7.c
index 69ce012..7d44207 100644
--- a/heclib/heclib_c/src/Internal/ztsStoreReg7.c
+++ b/heclib/heclib_c/src/Internal/ztsStoreReg7.c
@@ -358,7 +358,10 @@ int ztsStoreReg7(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 	}
 	//-----------------------------------------------------
 
-	zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	status = zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	if (zisError(status)) {
+		return zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsStoreReg_ID);
+	}
 
 
 	if (zmessageLevel(ifltab, MESS_METHOD_TS_WRITE_ID, MESS_LEVEL_USER_DIAG)) {
diff --git a/heclib/heclib_c/src/Internal/zwriteInternal.c b/heclib/heclib_c/src/Internal/zwriteInternal.c
index 19d31d4..5b36a06 100644
--- a/heclib/heclib_c/src/Internal/zwriteInternal.c
+++ b/heclib/heclib_c/src/Internal/zwriteInternal.c
@@ -410,8 +410,10 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 				//  Cannot use buffer in fill mode
 				status = zflushBuffers(ifltab, bufferControl, buffer);
 			}
-			status = zput(ifltab, info[zdssInfoKeys.kinfoValues1Address], ztransfer->values1,
-						  -ztransfer->values1Number, 1);
+			if (!zisError(status)) {
+				status = zput(ifltab, info[zdssInfoKeys.kinfoValues1Address], ztransfer->values1,
+					-ztransfer->values1Number, 1);
+			}
 		}
 		else {
 			status = zputBuff(ifltab, info[zdssInfoKeys.kinfoValues1Address], ztransfer->values1,
@@ -432,8 +434,10 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 				//  Cannot use buffer in fill mode
 				status = zflushBuffers(ifltab, bufferControl, buffer);
 			}
-			status = zput(ifltab, info[zdssInfoKeys.kinfoValues2Address], ztransfer->values2,
-				-ztransfer->values2Number, 1);
+			if (!zisError(status)) {
+				status = zput(ifltab, info[zdssInfoKeys.kinfoValues2Address], ztransfer->values2,
+					-ztransfer->values2Number, 1);
+			}
 		}
 		else {
 			status = zputBuff(ifltab, info[zdssInfoKeys.kinfoValues2Address], ztransfer->values2,
@@ -454,8 +458,10 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 				//  Cannot use buffer in fill mode
 				status = zflushBuffers(ifltab, bufferControl, buffer);
 			}
-			status = zput(ifltab, info[zdssInfoKeys.kinfoValues3Address], ztransfer->values3,
-				-ztransfer->values3Number, 1);
+			if (!zisError(status)) {
+				status = zput(ifltab, info[zdssInfoKeys.kinfoValues3Address], ztransfer->values3,
+					-ztransfer->values3Number, 1);
+			}
 		}
 		else {
 			status = zputBuff(ifltab, info[zdssInfoKeys.kinfoValues3Address], ztransfer->values3,
diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index c123c1f..bb5a882 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -71,7 +71,6 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	int wroteAtEOF;
 	int numberChars;
 	int pathnameSize;
-	int istat = 0;
 	int status;
 	int i;
 	int atEOF;
@@ -351,7 +350,13 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 
 	//  Update the pathname bin area
 	i8toi4(info[zdssInfoKeys.kinfoTypeVersion], &dataType, &temp);
-	istat = zbinUpdate(ifltab, newPath, ifltab[zdssKeys.kaddInfoLastPath], 1, dataType);
+	status = zbinUpdate(ifltab, newPath, ifltab[zdssKeys.kaddInfoLastPath], 1, dataType);
+	if (zisError(status)) {
+		if (infoOld) free(infoOld);
+		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+		free(newPath);
+		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
+	}
 
 	//  Now write the information area to disk
 	ifltab[zdssKeys.kinfoAddress] = ifltab[zdssKeys.kaddInfoLastPath];
@@ -401,7 +406,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	}
 
 	if (infoOld) free(infoOld);
-	zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	status = zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 
 	if (zmessageLevel(ifltab, MESS_METHOD_UTILITY_ID, MESS_LEVEL_USER_DIAG)) {
 		zmessageDebugInt(ifltab, DSS_FUNCTION_zrename_ID, "Exit, status: ", status);
-- 
2.43.0


From b1a7d0e9f4bebd58d6b4bf7adaa504d230c7522e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:13 +0000
Subject: [PATCH 16/66] fix: stop a squeeze when copying or flushing the
 squeezed file fails

---
 heclib/heclib_c/src/Internal/copyFile.c | 15 +++++-------
 heclib/heclib_c/src/Public/zsqueeze7.c  | 32 +++++++++++++++++++------
 2 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/copyFile.c b/heclib/heclib_c/src/Internal/copyFile.c
index 308d84d..96b3d99 100644
--- a/heclib/heclib_c/src/Internal/copyFile.c
+++ b/heclib/heclib_c/src/Internal/copyFile.c
@@ -45,7 +45,6 @@ int copyFile(long long *ifltab, int handleTo)
 	int numberReads;
 	int numberInts;
 	int i;
-	int j;
 	long long iaddress;
 	static int isize = 32768;
 	long long space[32768];
@@ -60,20 +59,18 @@ int copyFile(long long *ifltab, int handleTo)
 	zresetProgress(zhandle(ifltab), (long long)numberReads);
 
 	for (i=0; i<numberReads; i++) {
+		if ((i+1) == numberReads) {
+			//  The last piece ends with the end of file flag, which is at the file size address
+			numberInts = (int)(fileHeader[zdssFileKeys.kfileSize] + 1 - iaddress) * 2;
+		}
 		istat = zreadDisk (ihandle, 0, iaddress, space, numberInts);
 		if (istat) {
+			return istat;
 		}
 		if (handleTo > 0) {
-			if ((i+1) == numberReads) {
-				for (j=0; j<isize; j++) {
-					if (space[j] == DSS_END_FILE_FLAG) {
-						numberInts = (j + 1) * 2;
-						break;
-					}
-				}
-			}
 			istat = zwriteDisk (handleTo, 0, iaddress, space, numberInts);
 			if (istat) {
+				return istat;
 			}
 		}
 		iaddress += isize;
diff --git a/heclib/heclib_c/src/Public/zsqueeze7.c b/heclib/heclib_c/src/Public/zsqueeze7.c
index ef7471f..dd95350 100644
--- a/heclib/heclib_c/src/Public/zsqueeze7.c
+++ b/heclib/heclib_c/src/Public/zsqueeze7.c
@@ -325,7 +325,7 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 		zmessageDebugInt(ifltab, DSS_FUNCTION_zsqueeze_ID, "Afer copying to temp file, status: ", status);
 		zmessageDebugInt(ifltab, DSS_FUNCTION_zsqueeze_ID, "Interrupt: ", zprogress.interrupt);
 	}
-	if (zprogress.interrupt != 0) {
+	if ((zprogress.interrupt != 0) && !zisError(status)) {
 		zclose(ifltabTemp);
 #ifdef _MSC_VER
 		_unlink(tempName);
@@ -349,7 +349,22 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 #endif
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zsqueeze_ID);
 	}
-	zflushToDisk (ifltabTemp, 1);
+	status = zflushToDisk (ifltabTemp, 1);
+	if (status != 0) {
+		for (i = 1; i < NUMBER_METHOD_NAMES; ++i) {
+			zsetMessageLevel(zmessaging.methodLevel[i], originalMessageLevels[i]);
+		}
+		zclose(ifltabTemp);
+#ifdef _MSC_VER
+		_unlink(tempName);
+		_set_errno(0);
+#else
+		unlink(tempName);
+#endif
+		return zerrorProcessing(ifltab, DSS_FUNCTION_zsqueeze_ID, zdssErrorCodes.CANNOT_SQUEEZE,
+							status, 0, zdssErrorSeverity.WRITE_ERROR, "",
+							"Flushing temporary file");
+	}
 
 	//  Validate that the new file is complete and correct
 	if (zmessageLevel(ifltab, MESS_METHOD_UTILITY_ID, MESS_LEVEL_USER_DIAG)) {
@@ -446,6 +461,10 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 			zmessageDebug(ifltab, DSS_FUNCTION_zsqueeze_ID, "Moving squeezed file back to origial file ", fullFilename);
 		}
 		status = copyFile(ifltabTemp, ihandle);
+		if (status == 0) {
+			//  Flush the (new) original file
+			status = flushFile(ihandle);
+		}
 		if (zmessageLevel(ifltab, MESS_METHOD_UTILITY_ID, MESS_LEVEL_USER_DIAG)) {
 			zmessageDebugInt(ifltab, DSS_FUNCTION_zsqueeze_ID, "Move complete, status: ", status);
 		}
@@ -459,18 +478,17 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 								"File copied failed, file is in temp directory.");
 		}
 
-		//  Flush the (new) original file
-		status = flushFile(ihandle);
-
 		//  Restore access mode
 		ifltab[zdssKeys.kmultiUserAccess] = access;
 		zlockPassive(ifltab, LOCKING_LOCK_ON, LOCKING_ACCESS_READ);
 		zlockActive(ifltab, LOCKING_LEVEL_SUPER, LOCKING_LOCK_ON, LOCKING_FLUSH_OFF);
 		zpidUpdate(ifltab);
-		zflushToDisk (ifltab, 0) ;
+		status = zflushToDisk (ifltab, 0) ;
 
 		//  Check that the copied file is good
-		status = zpermRead(ifltab);
+		if (status == 0) {
+			status = zpermRead(ifltab);
+		}
 		if (status != 0) {
 			for (i = 1; i < NUMBER_METHOD_NAMES; ++i) {
 				zsetMessageLevel(zmessaging.methodLevel[i], originalMessageLevels[i]);
-- 
2.43.0


From 74b1fc5b16ae0c88126e58bfb8c12ac54f604e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:13 +0000
Subject: [PATCH 17/66] fix: pass on read failures found while working out the
 time window of a time series

---
 heclib/heclib_c/src/Internal/ztsProcessTimes.c         |  5 +++++
 heclib/heclib_c/src/Public/ztsRetrievePattern.c        | 10 +++++-----
 .../heclib_c/src/SemiPublic/ztsGetFirstLastPathnames.c |  3 +++
 heclib/heclib_c/src/SemiPublic/ztsStorePattern.c       | 10 +++++-----
 4 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsProcessTimes.c b/heclib/heclib_c/src/Internal/ztsProcessTimes.c
index 6a72823..87e417f 100644
--- a/heclib/heclib_c/src/Internal/ztsProcessTimes.c
+++ b/heclib/heclib_c/src/Internal/ztsProcessTimes.c
@@ -236,6 +236,7 @@ int ztsProcessTimes(long long *ifltab, zStructTimeSeries *tss, int boolStore)
 	if (!boolStore &&  ( tss->boolRetrieveAllTimes || needPeriodOrRecord) ) {
 		status = ztsGetDateRange(ifltab, path, 1, &tss->startJulianDate, &tss->endJulianDate);
 		if (zisError(status)) {
+			free(path);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsProcessTimes_ID);
 		}
 		if (status == STATUS_RECORD_FOUND) {
@@ -303,6 +304,10 @@ int ztsProcessTimes(long long *ifltab, zStructTimeSeries *tss, int boolStore)
 			//  If no time window, get it from the file (slow)
 			if (!timeWindowDefined) {
 				status = ztsGetDateRange(ifltab, path, 1, &tss->timeWindow->startJulian, &tss->timeWindow->endJulian);
+				if (zisError(status)) {
+					free(path);
+					return zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsProcessTimes_ID);
+				}
 				if (status == STATUS_OKAY) {
 					if (tss->timeIntervalSeconds > 0) {
 						tss->timeWindow->startTimeSeconds = tss->timeWindow->intervalSeconds;
diff --git a/heclib/heclib_c/src/Public/ztsRetrievePattern.c b/heclib/heclib_c/src/Public/ztsRetrievePattern.c
index 1f0a9bc..a8e411c 100644
--- a/heclib/heclib_c/src/Public/ztsRetrievePattern.c
+++ b/heclib/heclib_c/src/Public/ztsRetrievePattern.c
@@ -244,11 +244,11 @@ int ztsRetrievePattern(long long *ifltab, zStructTimeSeries *tss, int retrieveDo
 	}
 
 	//  Determine if regular interval or irregular interval
-	if (tss->timeWindow == 0) {
-		ztsProcessTimes(ifltab, tss, 0);
-	}
-	else if (tss->timeWindow->intervalSeconds == 0) {
-		ztsProcessTimes(ifltab, tss, 0);
+	if ((tss->timeWindow == 0) || (tss->timeWindow->intervalSeconds == 0)) {
+		status = ztsProcessTimes(ifltab, tss, 0);
+		if (zisError(status)) {
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsRetrieve_ID);
+		}
 	}
 	if ((tss->timeWindow == 0) || ((tss->timeWindow->intervalSeconds == 0) && (tss->timeWindow->blockSize == 0))) {
 		// error out
diff --git a/heclib/heclib_c/src/SemiPublic/ztsGetFirstLastPathnames.c b/heclib/heclib_c/src/SemiPublic/ztsGetFirstLastPathnames.c
index 6010bf9..5247c68 100644
--- a/heclib/heclib_c/src/SemiPublic/ztsGetFirstLastPathnames.c
+++ b/heclib/heclib_c/src/SemiPublic/ztsGetFirstLastPathnames.c
@@ -154,6 +154,9 @@ int ztsGetFirstLastPathnames(long long *ifltab, const char *pathnameSeed,
 			if (timeWindow != 0) free(timeWindow);
 			zstructFree(tsPaths);
 			tsPaths = 0;
+			if (zisError(number)) {
+				return zerrorUpdate(ifltab, number, DSS_FUNCTION_other_ID);
+			}
 			return STATUS_RECORD_NOT_FOUND;
 		}
 		zpathnameGetPart(tsPaths->pathnameList[0], 4, dPart, sizeof(dPart));
diff --git a/heclib/heclib_c/src/SemiPublic/ztsStorePattern.c b/heclib/heclib_c/src/SemiPublic/ztsStorePattern.c
index 70b1b56..fdfa632 100644
--- a/heclib/heclib_c/src/SemiPublic/ztsStorePattern.c
+++ b/heclib/heclib_c/src/SemiPublic/ztsStorePattern.c
@@ -96,11 +96,11 @@ int ztsStorePattern(long long *ifltab, zStructTimeSeries *tss)
 	}
 
 	//  Determine if regular interval or irregular interval
-	if (tss->timeWindow == 0) {
-		ztsProcessTimes(ifltab, tss, 0);
-	}
-	else if (tss->timeWindow->intervalSeconds == 0) {
-		ztsProcessTimes(ifltab, tss, 0);
+	if ((tss->timeWindow == 0) || (tss->timeWindow->intervalSeconds == 0)) {
+		status = ztsProcessTimes(ifltab, tss, 0);
+		if (zisError(status)) {
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsStore_ID);
+		}
 	}
 	if ((tss->timeWindow == 0) || ((tss->timeWindow->intervalSeconds == 0) && (tss->timeWindow->blockSize == 0))) {
 		// error out
-- 
2.43.0


From 60adab5f067340ca1a03795714f917f9d895f63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:13 +0000
Subject: [PATCH 18/66] fix: pass on failures to store location, paired data
 pieces and copied records

---
 .../src/Internal/zcopyRecordInternal.c        | 34 +++++++++++++++----
 .../src/Internal/zgetCatalogSortAddresses.c   |  3 ++
 heclib/heclib_c/src/Internal/zreadInfoBlock.c |  4 +--
 heclib/heclib_c/src/Public/zlocationStore.c   |  4 +++
 heclib/heclib_c/src/Public/zpdStore.c         | 19 ++++++++---
 5 files changed, 52 insertions(+), 12 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zcopyRecordInternal.c b/heclib/heclib_c/src/Internal/zcopyRecordInternal.c
index 4685e94..3b27086 100644
--- a/heclib/heclib_c/src/Internal/zcopyRecordInternal.c
+++ b/heclib/heclib_c/src/Internal/zcopyRecordInternal.c
@@ -306,19 +306,30 @@ int zcopyRecordInternal(long long *ifltabFrom, long long *ifltabTo, const char *
 		if (locationStruct) {
 			status = zlocationRetrieve(ifltabFrom, locationStruct);
 			if (status == STATUS_RECORD_FOUND) {
-				zlocationStore(ifltabTo, locationStruct, 0);
+				status = zlocationStore(ifltabTo, locationStruct, 0);
 			}
 			zstructFree(locationStruct);
+			if (zisError(status)) {
+				zlockActive(ifltabTo, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+				return zerrorUpdate(ifltabTo, status, DSS_FUNCTION_zcopyRecord_ID);
+			}
 		}
 
 		//  Make sure the perm section gets written if we are copying the file
 		//  (If we are in super lock, the mid lock will not write the perm section)
 		if (ifltabTo[zdssKeys.klockLevel] > LOCKING_LEVEL_MID) {
 			if (ifltabTo[zdssKeys.kwritingNow] != 0) {
-				zpermWrite(ifltabTo);
+				status = zpermWrite(ifltabTo);
+				if (zisError(status)) {
+					zlockActive(ifltabTo, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+					return zerrorUpdate(ifltabTo, status, DSS_FUNCTION_zcopyRecord_ID);
+				}
 			}
 		}
-		zlockActive(ifltabTo, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		status = zlockActive(ifltabTo, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		if (zisError(status)) {
+			return zerrorUpdate(ifltabTo, status, DSS_FUNCTION_zcopyRecord_ID);
+		}
 	}
 	else {
 		status = zput(ifltabFrom, ifltabFrom[zdssKeys.kaddInfoLastPath], (int *)infoTo, numberInfo, 2);
@@ -335,19 +346,30 @@ int zcopyRecordInternal(long long *ifltabFrom, long long *ifltabTo, const char *
 		if (locationStruct) {
 			status = zlocationRetrieve(ifltabFrom, locationStruct);
 			if (status == STATUS_RECORD_FOUND) {
-				zlocationStore(ifltabFrom, locationStruct, 0);
+				status = zlocationStore(ifltabFrom, locationStruct, 0);
 			}
 			zstructFree(locationStruct);
+			if (zisError(status)) {
+				zlockActive(ifltabFrom, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+				return zerrorUpdate(ifltabFrom, status, DSS_FUNCTION_zcopyRecord_ID);
+			}
 		}
 
 		//  Make sure the perm section gets written if we are copying the file
 		//  (If we are in super lock, the mid lock will not write the perm section)
 		if (ifltabFrom[zdssKeys.klockLevel] > LOCKING_LEVEL_MID) {
 			if (ifltabFrom[zdssKeys.kwritingNow] != 0) {
-				zpermWrite(ifltabFrom);
+				status = zpermWrite(ifltabFrom);
+				if (zisError(status)) {
+					zlockActive(ifltabFrom, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+					return zerrorUpdate(ifltabFrom, status, DSS_FUNCTION_zcopyRecord_ID);
+				}
 			}
 		}
-		zlockActive(ifltabFrom, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		status = zlockActive(ifltabFrom, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		if (zisError(status)) {
+			return zerrorUpdate(ifltabFrom, status, DSS_FUNCTION_zcopyRecord_ID);
+		}
 	}
 
 	if (zmessageLevel(ifltabFrom, MESS_METHOD_COPY_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
diff --git a/heclib/heclib_c/src/Internal/zgetCatalogSortAddresses.c b/heclib/heclib_c/src/Internal/zgetCatalogSortAddresses.c
index 88db11a..3a9d4f2 100644
--- a/heclib/heclib_c/src/Internal/zgetCatalogSortAddresses.c
+++ b/heclib/heclib_c/src/Internal/zgetCatalogSortAddresses.c
@@ -49,6 +49,9 @@ int zgetCatalogSortAddresses(long long* ifltab, long long* sortAddresses, int so
 
 	istat = zget(ifltab, (fileHeader[zdssFileKeys.kcatSortAddress] + 1), (int *)sortAddresses,
 		(int)fileHeader[zdssFileKeys.kcatSortNumber], 2);
+	if (zisError(istat)) {
+		return istat;
+	}
 
 	return 0;
 
diff --git a/heclib/heclib_c/src/Internal/zreadInfoBlock.c b/heclib/heclib_c/src/Internal/zreadInfoBlock.c
index 3c1e4f7..3999c47 100644
--- a/heclib/heclib_c/src/Internal/zreadInfoBlock.c
+++ b/heclib/heclib_c/src/Internal/zreadInfoBlock.c
@@ -131,8 +131,8 @@ int zreadInfoBlock (long long *ifltab, const char *pathname, int statusWanted,
 		if (*numberInfo > maxInfo)
 			*numberInfo = maxInfo;
 		istat = zget(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (int *)info, *numberInfo, 2);
-		if (zisError(status)) {
-			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zreadInfo_ID);
+		if (zisError(istat)) {
+			return zerrorUpdate(ifltab, istat, DSS_FUNCTION_zreadInfo_ID);
 		}
 	}
 	else {
diff --git a/heclib/heclib_c/src/Public/zlocationStore.c b/heclib/heclib_c/src/Public/zlocationStore.c
index 29cb88a..c4e4f7a 100644
--- a/heclib/heclib_c/src/Public/zlocationStore.c
+++ b/heclib/heclib_c/src/Public/zlocationStore.c
@@ -174,6 +174,10 @@ int zlocationStore(long long *ifltab, zStructLocation *locationStruct, int stora
 	if (storageFlag == 0) {
 		//  Don't update if the data set already exists
 		status = zcheck(ifltab, locationPathname);
+		if (zisError(status)) {
+			free(locationPathname);
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zlocationStore_ID);
+		}
 		if (status == STATUS_RECORD_FOUND) {
 				if (zmessageLevel(ifltab, MESS_METHOD_WRITE_ID, MESS_LEVEL_USER_DIAG)) {
 					zmessageDebug(ifltab, DSS_FUNCTION_zlocationStore_ID, "Record already exists and storage flag set to not overwrite", "");
diff --git a/heclib/heclib_c/src/Public/zpdStore.c b/heclib/heclib_c/src/Public/zpdStore.c
index 740ff60..7893411 100644
--- a/heclib/heclib_c/src/Public/zpdStore.c
+++ b/heclib/heclib_c/src/Public/zpdStore.c
@@ -863,16 +863,22 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 				zswitchInts(ztransfer->values2, ztransfer->values2Number);
 			}
 		}
+		status = STATUS_OKAY;
 		if (boolStoreEntire)
 		{
 			int diskType = zdataType(ifltab,pds->pathname );
-			if (diskType > 0 && diskType != dataType) // exists and not the same dataType
+			if (zisError(diskType)) {
+				status = diskType;
+			}
+			else if (diskType > 0 && diskType != dataType) // exists and not the same dataType
 			{
-				zdelete(ifltab, pds->pathname);
+				status = zdelete(ifltab, pds->pathname);
 			}
 		}
 
-		status = zwrite(ifltab, ztransfer);
+		if (!zisError(status)) {
+			status = zwrite(ifltab, ztransfer);
+		}
 
 		if (internalHeader2) {
 			free(internalHeader2);
@@ -1064,6 +1070,11 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 				}
 			}
 			status = zputBuff(ifltab, address, ztransfer->values2, (numberRows + offset), sizeValues, BUFF_WRITE, bufferControl, buffer);
+			if (zisError(status)) {
+				zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+				FREE_TEMPS_AND_RESTORE
+				return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
+			}
 
 		}
 
@@ -1191,7 +1202,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 
 
 	if ((pds->locationStruct) && (status == STATUS_OKAY)) {
-		zlocationStore(ifltab, pds->locationStruct, allowOverwriteLocationVerticalDatum);
+		status = zlocationStore(ifltab, pds->locationStruct, allowOverwriteLocationVerticalDatum);
 	}
 
 	if (zmessageLevel(ifltab, MESS_METHOD_WRITE_ID, MESS_LEVEL_USER_DIAG)) {
-- 
2.43.0


From 8eca41c3454fcdf1b849a7a063cac043a557c131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:00 +0000
Subject: [PATCH 19/66] fix: declare the functions used when reading the
 catalog sort order

The wrong implicit declaration truncated nothing here but does not compile
with newer compilers.
---
 heclib/heclib_c/src/Internal/zgetCatalogSortAddresses.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/heclib/heclib_c/src/Internal/zgetCatalogSortAddresses.c b/heclib/heclib_c/src/Internal/zgetCatalogSortAddresses.c
index 3a9d4f2..91ac748 100644
--- a/heclib/heclib_c/src/Internal/zgetCatalogSortAddresses.c
+++ b/heclib/heclib_c/src/Internal/zgetCatalogSortAddresses.c
@@ -1,5 +1,6 @@
 #include "zdssKeys.h"
 #include "hecdssInternal.h"
+#include "heclib7.h"
 
 
 //  Gets the addresses of pathnames in the sorted catalog and places in array sortOrder
-- 
2.43.0


From c582d2effe6fe7aa0ea140d2641825505f3e6e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:46 +0000
Subject: [PATCH 20/66] fix: pass on failures found when giving the file lock
 back, when closing and when changing file settings

Giving the lock back writes the file header; its failure was dropped by the
alias, reclaim, pattern, paired data and copy functions, by zclose and by
zsetFile. ztsStore dropped a failure to store the location.
---
 heclib/heclib_c/src/Internal/zcloseInternal.c | 18 +++++++++---
 heclib/heclib_c/src/Internal/zreclaimSet.c    |  2 +-
 heclib/heclib_c/src/Internal/ztsStoreIrreg7.c |  6 +++-
 heclib/heclib_c/src/Internal/ztsStoreReg7.c   |  6 +++-
 heclib/heclib_c/src/Public/zaliasAdd.c        |  6 +++-
 heclib/heclib_c/src/Public/zaliasGetPrimary.c |  1 -
 heclib/heclib_c/src/Public/zaliasRemove.c     |  6 +++-
 heclib/heclib_c/src/Public/zaliasRemoveAll.c  |  6 +++-
 heclib/heclib_c/src/Public/zcopyFile.c        |  5 +++-
 heclib/heclib_c/src/Public/zpdStore.c         |  6 +++-
 heclib/heclib_c/src/Public/zsetFile.c         | 29 ++++++++++++-------
 heclib/heclib_c/src/Public/ztsStore.c         |  2 +-
 12 files changed, 69 insertions(+), 24 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zcloseInternal.c b/heclib/heclib_c/src/Internal/zcloseInternal.c
index 8b75873..fd917c8 100644
--- a/heclib/heclib_c/src/Internal/zcloseInternal.c
+++ b/heclib/heclib_c/src/Internal/zcloseInternal.c
@@ -51,6 +51,7 @@
 int zcloseInternal(long long *ifltab, int boolReopen)
 {
 	int status;
+	int istat;
 	int i;
 	int ihandle;
 	long long zero;
@@ -84,6 +85,8 @@ int zcloseInternal(long long *ifltab, int boolReopen)
 		}
 	}
 
+	istat = STATUS_OKAY;
+
 	//  Force all locks to be released
 	if (ifltab[zdssKeys.kmultiUserAccess] == EXCLUSIVE_ACCESS) {
 		ifltab[zdssKeys.kmultiUserAccess] = RELEASE_ACCESS;
@@ -91,13 +94,15 @@ int zcloseInternal(long long *ifltab, int boolReopen)
 
 	// If the file has been written to, set the file PID to zero
 	if (ifltab[zdssKeys.kpidMyAddress] > 20) {
-		zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_ON, LOCKING_FLUSH_ON);
+		istat = zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_ON, LOCKING_FLUSH_ON);
 		zero = 0;
-		zput(ifltab, ifltab[zdssKeys.kpidMyAddress], (int *)&zero, 1, 2);
-		zlockActive(ifltab, LOCKING_LEVEL_SUPER, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		status = zput(ifltab, ifltab[zdssKeys.kpidMyAddress], (int *)&zero, 1, 2);
+		if (!zisError(istat)) istat = status;
+		status = zlockActive(ifltab, LOCKING_LEVEL_SUPER, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		if (!zisError(istat)) istat = status;
 	}
 	else if (ifltab[zdssKeys.klocked] > 0) {
-		zlockActive(ifltab, LOCKING_LEVEL_SUPER, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		istat = zlockActive(ifltab, LOCKING_LEVEL_SUPER, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 	}
 
 	if (ifltab[zdssKeys.kfileWritten] > 0) {
@@ -128,6 +133,11 @@ int zcloseInternal(long long *ifltab, int boolReopen)
 		ifltab[i] = 0;
 	}
 
+	//  The file is closed, but what was written last may not be on disk
+	if (zisError(istat)) {
+		status = istat;
+	}
+
 	 return status;
 }
 
diff --git a/heclib/heclib_c/src/Internal/zreclaimSet.c b/heclib/heclib_c/src/Internal/zreclaimSet.c
index 3f49624..8df55ee 100644
--- a/heclib/heclib_c/src/Internal/zreclaimSet.c
+++ b/heclib/heclib_c/src/Internal/zreclaimSet.c
@@ -82,7 +82,7 @@ int zreclaimSet(long long *ifltab, int reclaimLevel)
 	}
 
 	//  Unlock
-	zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	status = zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 	if (zisError(status)) {
 		//return zerrorUpdate(ifltab, status, functionID);
 	}
diff --git a/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c b/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c
index 7684140..f063c77 100644
--- a/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c
+++ b/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c
@@ -60,6 +60,7 @@
 int ztsStoreIrreg7(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 {
 	int status;
+	int istat;
 	int *values;
 	int valueSize = 0;
 	int *profileDepths;
@@ -317,7 +318,10 @@ int ztsStoreIrreg7(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 								tss->numberValues, tss->numberValues,
 								dataType);
 		//status = ztsStorePattern(ifltab, tss);
-		zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		istat = zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		if (zisError(istat) && !zisError(status)) {
+			status = istat;
+		}
 		return status;
 	}
 
diff --git a/heclib/heclib_c/src/Internal/ztsStoreReg7.c b/heclib/heclib_c/src/Internal/ztsStoreReg7.c
index 7d44207..cb3f8ea 100644
--- a/heclib/heclib_c/src/Internal/ztsStoreReg7.c
+++ b/heclib/heclib_c/src/Internal/ztsStoreReg7.c
@@ -58,6 +58,7 @@
 int ztsStoreReg7(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 {
 	int status;
+	int istat;
 	int *values;
 	int valueSize = 0;
 	int *profileDepths;
@@ -234,7 +235,10 @@ int ztsStoreReg7(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 								tss->numberValues, tss->numberValues,
 								dataType);
 		//status = ztsStorePattern(ifltab, tss);
-		zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		istat = zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		if (zisError(istat) && !zisError(status)) {
+			status = istat;
+		}
 		return status;
 	}
 
diff --git a/heclib/heclib_c/src/Public/zaliasAdd.c b/heclib/heclib_c/src/Public/zaliasAdd.c
index 2fc540c..acb7e07 100644
--- a/heclib/heclib_c/src/Public/zaliasAdd.c
+++ b/heclib/heclib_c/src/Public/zaliasAdd.c
@@ -70,6 +70,7 @@ int zaliasAdd(long long *ifltab, const char* primayPathname, const char* aliasPa
 	int dataType;
 	int temp;
 	int status;
+	int istat;
 
 
 	info = 0;
@@ -220,7 +221,10 @@ int zaliasAdd(long long *ifltab, const char* primayPathname, const char* aliasPa
 		zmessage2(ifltab, "                       Alias Pathname: ",aliasPathname);
 	}
 
-	zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	istat = zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	if (zisError(istat) && !zisError(status)) {
+		status = istat;
+	}
 	return status;
 }
 
diff --git a/heclib/heclib_c/src/Public/zaliasGetPrimary.c b/heclib/heclib_c/src/Public/zaliasGetPrimary.c
index f296833..7196dd0 100644
--- a/heclib/heclib_c/src/Public/zaliasGetPrimary.c
+++ b/heclib/heclib_c/src/Public/zaliasGetPrimary.c
@@ -67,7 +67,6 @@ int zaliasGetPrimary(long long *ifltab, const char* aliasPathname, char* primayP
 	}
 
 	//   Check that the record exists, and get the address of the info block (in zcheck)
-	status = zcheck(ifltab, aliasPathname);
 	ifltab[zdssKeys.kaddInfoLastPath] = 0;
 	status = zcheck(ifltab, aliasPathname);
 	if (zisError(status)) {
diff --git a/heclib/heclib_c/src/Public/zaliasRemove.c b/heclib/heclib_c/src/Public/zaliasRemove.c
index e34f052..b16e7f1 100644
--- a/heclib/heclib_c/src/Public/zaliasRemove.c
+++ b/heclib/heclib_c/src/Public/zaliasRemove.c
@@ -57,6 +57,7 @@ int zaliasRemove(long long *ifltab, const char* aliasPathname)
 	long long longStatus;
 	long long lnumber;
 	int status;
+	int istat;
 	int numberChars;
 	int pathnameSize;
 	long long binAlias[4];
@@ -275,7 +276,10 @@ int zaliasRemove(long long *ifltab, const char* aliasPathname)
 	fileHeader[zdssFileKeys.kdead] += zdssBinKeys.kbinSize + numberLongsInBytes((int)strlen(aliasPathname));
 
 	status = zpermWrite(ifltab);
-	zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	istat = zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	if (!zisError(status)) {
+		status = istat;
+	}
 	if (zisError(status)) {
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasRemove_ID);
 	}
diff --git a/heclib/heclib_c/src/Public/zaliasRemoveAll.c b/heclib/heclib_c/src/Public/zaliasRemoveAll.c
index 9f20fde..dc7e120 100644
--- a/heclib/heclib_c/src/Public/zaliasRemoveAll.c
+++ b/heclib/heclib_c/src/Public/zaliasRemoveAll.c
@@ -58,6 +58,7 @@ int zaliasRemoveAll(long long *ifltab, const char* pathname)
 	long long zero;
 	long long longStatus;
 	int status;
+	int istat;
 	int numberAliases;
 	long long address;
 	long long lnumber;
@@ -181,7 +182,10 @@ int zaliasRemoveAll(long long *ifltab, const char* pathname)
 	fileHeader[zdssFileKeys.kcatSortStatus] = 3;
 
 	status = zpermWrite(ifltab);
-	zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	istat = zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	if (!zisError(status)) {
+		status = istat;
+	}
 	if (zisError(status)) {
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasRemove_ID);
 	}
diff --git a/heclib/heclib_c/src/Public/zcopyFile.c b/heclib/heclib_c/src/Public/zcopyFile.c
index 79f5f9e..8dcaf4b 100644
--- a/heclib/heclib_c/src/Public/zcopyFile.c
+++ b/heclib/heclib_c/src/Public/zcopyFile.c
@@ -210,7 +210,10 @@ int zcopyFile(long long *ifltabFrom, long long *ifltabTo, int statusWanted)
 	//  Be sure to write to disk.
 	if (zgetVersion(ifltabTo) == 7) {
 		ifltabTo[zdssKeys.kwritingNow] = 1;
-		zlockActive(ifltabTo, LOCKING_LEVEL_SUPER, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		status = zlockActive(ifltabTo, LOCKING_LEVEL_SUPER, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		if (zisError(status)) {
+			return zerrorUpdate(ifltabTo, status, DSS_FUNCTION_zcopyFile_ID);
+		}
 	}
 
 	if (count > 0) {
diff --git a/heclib/heclib_c/src/Public/zpdStore.c b/heclib/heclib_c/src/Public/zpdStore.c
index 7893411..8fcf737 100644
--- a/heclib/heclib_c/src/Public/zpdStore.c
+++ b/heclib/heclib_c/src/Public/zpdStore.c
@@ -213,6 +213,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 	int numberRows;
 	int number;
 	int status;
+	int istat;
 	int dataType;
 	int boolStoreDoubles;
 	int startOrdinate;
@@ -1191,7 +1192,10 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 				clabels = 0;
 			}
 		}
-		zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		istat = zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		if (zisError(istat) && !zisError(status)) {
+			status = istat;
+		}
 			if (zisError(status)) {
 			FREE_TEMPS_AND_RESTORE
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
diff --git a/heclib/heclib_c/src/Public/zsetFile.c b/heclib/heclib_c/src/Public/zsetFile.c
index 48aa63f..05f280f 100644
--- a/heclib/heclib_c/src/Public/zsetFile.c
+++ b/heclib/heclib_c/src/Public/zsetFile.c
@@ -21,6 +21,7 @@ int zsetFile(long long *ifltab, const char* parameter, const char* charVal, int
 	int len;
 	int i;
 	int status;
+	int istat;
 	char messageString[90];
 	long long *fileHeader;
 
@@ -109,12 +110,14 @@ int zsetFile(long long *ifltab, const char* parameter, const char* charVal, int
 		}
 		status = zlockActive(ifltab, 0, LOCKING_LOCK_ON, LOCKING_FLUSH_ON);
 		if (zisError(status)) return status;
-		zpermRead(ifltab);
-		if (fileHeader[zdssFileKeys.knumberRecords] == 0) {
+		status = zpermRead(ifltab);
+		if (!zisError(status) && (fileHeader[zdssFileKeys.knumberRecords] == 0)) {
 			fileHeader[zdssFileKeys.kdetune] = integerVal;
-			zpermWrite(ifltab);
+			status = zpermWrite(ifltab);
 		}
-		zlockActive(ifltab, 0, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		istat = zlockActive(ifltab, 0, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		if (zisError(status)) return status;
+		if (zisError(istat)) return istat;
 		if (fileHeader[zdssFileKeys.knumberRecords] != 0) {  //  WARNING
 			return zerrorProcessing(ifltab, DSS_FUNCTION_zsetFile_ID,
 				zdssErrorCodes.NON_EMPTY_FILE, (int)fileHeader[zdssFileKeys.knumberRecords], 0,
@@ -138,7 +141,8 @@ int zsetFile(long long *ifltab, const char* parameter, const char* charVal, int
 				// Yes - set the mode now
 				if (ifltab[zdssKeys.klocked]) {
 					//  Is it locked?  We'll need to unlock before changing modes
-					zlockActive(ifltab, 3, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+					status = zlockActive(ifltab, 3, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+					if (zisError(status)) return status;
 				}
 				ifltab[zdssKeys.kmultiUserAccess] = integerVal;
 				zpidUpdate(ifltab);
@@ -148,7 +152,8 @@ int zsetFile(long long *ifltab, const char* parameter, const char* charVal, int
 					 if (zisError(status)) return status;
 				}
 				if (ifltab[zdssKeys.kmultiUserAccess] == MULTI_USER_ACCESS) {
-					zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+					status = zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+					if (zisError(status)) return status;
 					if (zmessageLevel(ifltab, MESS_METHOD_LOCKING_ID, MESS_LEVEL_TERSE))  {
 						_snprintf_s(messageString, sizeof(messageString), _TRUNCATE, ENTER_MULTI_USER_MESS, zhandle(ifltab));
 						zmessage(ifltab, messageString);
@@ -172,10 +177,14 @@ int zsetFile(long long *ifltab, const char* parameter, const char* charVal, int
 		}
 		status = zlockActive(ifltab, 0, LOCKING_LOCK_ON, LOCKING_FLUSH_ON);
 		if (zisError(status)) return status;
-		zpermRead(ifltab);
-		fileHeader[zdssFileKeys.kmaxExpectedPathnames] = integerVal;
-		zpermWrite(ifltab);
-		zlockActive(ifltab, 0, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		status = zpermRead(ifltab);
+		if (!zisError(status)) {
+			fileHeader[zdssFileKeys.kmaxExpectedPathnames] = integerVal;
+			status = zpermWrite(ifltab);
+		}
+		istat = zlockActive(ifltab, 0, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		if (zisError(status)) return status;
+		if (zisError(istat)) return istat;
 	}
 	else if (!strncmp(cparm, "recl", 4)) {
 		//  Reclaim space level
diff --git a/heclib/heclib_c/src/Public/ztsStore.c b/heclib/heclib_c/src/Public/ztsStore.c
index 1caa321..c6bcf7f 100644
--- a/heclib/heclib_c/src/Public/ztsStore.c
+++ b/heclib/heclib_c/src/Public/ztsStore.c
@@ -713,7 +713,7 @@ int ztsStore(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 			}
 			tss->locationStruct->pathnameInternal = mallocAndCopy(tss->pathname);
 			tss->locationStruct->allocated[zSTRUCT_locationPathInternal] = 1;
-			zlocationStore(ifltab, tss->locationStruct, allowOverwriteLocationVerticalDatum);
+			status = zlocationStore(ifltab, tss->locationStruct, allowOverwriteLocationVerticalDatum);
 		}
 	}
 
-- 
2.43.0


From deb78beebd82189bd0ec8e14d9f10a380f5e9abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:27 +0000
Subject: [PATCH 21/66] fix: pass on read and write failures in catalogs, date
 ranges, block stores and squeezing

The end of line written after each catalog entry, the record queries made
before a block is stored, the query for a date range and the lock and flush at
the end of a squeeze dropped their status.
---
 heclib/hecdss/hecdss.c                             |  6 ++++--
 heclib/heclib_c/src/DssInterface/v6and7/zsqueeze.c |  6 +++++-
 heclib/heclib_c/src/Internal/zcatInternalSort.c    | 12 ++++++++++++
 heclib/heclib_c/src/Internal/zcatalogInternal.c    |  4 +++-
 heclib/heclib_c/src/Internal/ztsRegStoreBlock.c    |  5 ++++-
 heclib/heclib_c/src/Internal/ztsStoreIrreg7.c      |  5 ++++-
 heclib/heclib_c/src/Public/zsqueeze7.c             |  9 +++++++--
 heclib/heclib_c/src/Public/ztsGetDateRange.c       |  9 +++++++++
 8 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index ea4c44d..eea4b19 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -263,8 +263,10 @@ HECDSS_API int hec_dss_tsGetSizes(dss_file* dss, const char* pathname,
     tss->endJulianDate = dateToJulian(endDate);
     tss->endTimeSeconds = timeStringToSeconds(endTime);
 
-    ztsProcessTimes(dss->ifltab, tss, 0);
-    int status = ztsGetSizes(dss->ifltab, tss, recordSize);
+    int status = ztsProcessTimes(dss->ifltab, tss, 0);
+    if (!zisError(status)) {
+      status = ztsGetSizes(dss->ifltab, tss, recordSize);
+    }
     if (status == 0) {
       *numberValues = recordSize->logicalNumberValues;
       *qualityElementSize = recordSize->tsQualityElementSize;
diff --git a/heclib/heclib_c/src/DssInterface/v6and7/zsqueeze.c b/heclib/heclib_c/src/DssInterface/v6and7/zsqueeze.c
index 2cd6913..d137586 100644
--- a/heclib/heclib_c/src/DssInterface/v6and7/zsqueeze.c
+++ b/heclib/heclib_c/src/DssInterface/v6and7/zsqueeze.c
@@ -50,6 +50,7 @@ int zsqueeze(const char *dssFilename)
 {
 	char tempDssFilename[MAX_FILENAME_LENGTH] = {0};
 	long long ifltab[600] = {0};
+	int istat;
 
 
 #ifdef _MSC_VER
@@ -89,7 +90,10 @@ int zsqueeze(const char *dssFilename)
 		return status;
 	}
 	status = zsqueeze7(ifltab, 0, 1);
-	zclose(ifltab);
+	istat = zclose(ifltab);
+	if (zisError(istat) && !zisError(status)) {
+		status = istat;
+	}
    return status;
 
 }
diff --git a/heclib/heclib_c/src/Internal/zcatInternalSort.c b/heclib/heclib_c/src/Internal/zcatInternalSort.c
index 986483d..8165a27 100644
--- a/heclib/heclib_c/src/Internal/zcatInternalSort.c
+++ b/heclib/heclib_c/src/Internal/zcatInternalSort.c
@@ -177,6 +177,12 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 									return status;
 								}
 								status = writeBytes(catalogHandle, "\n", (size_t)1);
+								if (status < 0) {
+									perror("Attempting to write pathname ");
+									if (nonSortedStruct) zstructFree(nonSortedStruct);
+									nonSortedStruct = 0;
+									return status;
+								}
 							}
 							icount++;
 							break;
@@ -403,6 +409,12 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 					return status;
 				}
 				status = writeBytes(catalogHandle, "\n", (size_t)1);
+				if (status < 0) {
+					perror("Attempting to write pathname ");
+					if (nonSortedStruct) zstructFree(nonSortedStruct);
+					nonSortedStruct = 0;
+					return status;
+				}
 			}
 			if (sortedStruct) {
 				sortedStruct->pathnameList[i] = mallocAndCopy(nonSortedStruct->pathnameList[sequence]);
diff --git a/heclib/heclib_c/src/Internal/zcatalogInternal.c b/heclib/heclib_c/src/Internal/zcatalogInternal.c
index 6203871..320faba 100644
--- a/heclib/heclib_c/src/Internal/zcatalogInternal.c
+++ b/heclib/heclib_c/src/Internal/zcatalogInternal.c
@@ -408,7 +408,9 @@ int zcatalogInternal (long long *ifltab, const char *pathWithWild, zStructCatalo
 							if (status < 0) {
 								perror("Attempting to write pathname ");
 							}
-							status = writeBytes(catalogHandle, "\n", (size_t)1);
+							else {
+								status = writeBytes(catalogHandle, "\n", (size_t)1);
+							}
 						}
 						if (zmessageLevel(ifltab, MESS_METHOD_CATALOG_ID, MESS_LEVEL_INTERNAL_DIAG_2)) {
 							zmessageDebug(ifltab, DSS_FUNCTION_zcatalog_ID, "Pathname: ", pathname);
diff --git a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
index 57a197d..742e49c 100644
--- a/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegStoreBlock.c
@@ -841,7 +841,10 @@ int ztsRegStoreBlock(long long *ifltab, zStructTimeSeries *tss, const char *path
 		int recordType = rb->recordType;
 		zstructFree(rb);
 
-		if ( status == STATUS_RECORD_FOUND && recordType == DATA_TYPE_RTD
+		if (zisError(status)) {
+			status = zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsRegStoreBlock_ID);
+		}
+		else if ( status == STATUS_RECORD_FOUND && recordType == DATA_TYPE_RTD
 			&& dataType == DATA_TYPE_RTS
 			&& tss->floatValues
 			&& tss->doubleValues == NULL) {
diff --git a/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c b/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c
index f063c77..5fdc2e0 100644
--- a/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c
+++ b/heclib/heclib_c/src/Internal/ztsStoreIrreg7.c
@@ -498,7 +498,10 @@ int ztsStoreIrreg7(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 			int recordType = rb->recordType;
 			zstructFree(rb);
 
-			if (status == STATUS_RECORD_FOUND && recordType == DATA_TYPE_ITD
+			if (zisError(status)) {
+				status = zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsStoreIrreg_ID);
+			}
+			else if (status == STATUS_RECORD_FOUND && recordType == DATA_TYPE_ITD
 				&& dataType == DATA_TYPE_ITS
 				&& tss->floatValues
 				&& tss->doubleValues == NULL) {
diff --git a/heclib/heclib_c/src/Public/zsqueeze7.c b/heclib/heclib_c/src/Public/zsqueeze7.c
index dd95350..3c420e9 100644
--- a/heclib/heclib_c/src/Public/zsqueeze7.c
+++ b/heclib/heclib_c/src/Public/zsqueeze7.c
@@ -481,9 +481,14 @@ int zsqueeze7(long long *ifltab, int boolOnlyIfNeeded, int boolInPlace)
 		//  Restore access mode
 		ifltab[zdssKeys.kmultiUserAccess] = access;
 		zlockPassive(ifltab, LOCKING_LOCK_ON, LOCKING_ACCESS_READ);
-		zlockActive(ifltab, LOCKING_LEVEL_SUPER, LOCKING_LOCK_ON, LOCKING_FLUSH_OFF);
+		status = zlockActive(ifltab, LOCKING_LEVEL_SUPER, LOCKING_LOCK_ON, LOCKING_FLUSH_OFF);
 		zpidUpdate(ifltab);
-		status = zflushToDisk (ifltab, 0) ;
+		if (status == 0) {
+			if (zflushToDisk (ifltab, 0) != 0) {
+				status = zerrorProcessing(ifltab, DSS_FUNCTION_zsqueeze_ID, zdssErrorCodes.WRITE_ERROR,
+									0, 0, zdssErrorSeverity.WRITE_ERROR, "", "Cannot flush file to disk");
+			}
+		}
 
 		//  Check that the copied file is good
 		if (status == 0) {
diff --git a/heclib/heclib_c/src/Public/ztsGetDateRange.c b/heclib/heclib_c/src/Public/ztsGetDateRange.c
index 9467006..42e83af 100644
--- a/heclib/heclib_c/src/Public/ztsGetDateRange.c
+++ b/heclib/heclib_c/src/Public/ztsGetDateRange.c
@@ -93,6 +93,9 @@ int ztsGetDateRange(long long *ifltab, const char *pathname, int boolFullSet,
 		status =  ztsGetFirstLastRecordTimes(ifltab, pathFirst,
 								firstValidJulian, &seconds,
 								&dummy, &seconds, 0);
+		if (zisError(status)) {
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsRetrieve_ID);
+		}
 		if (status != STATUS_RECORD_FOUND) {
 			len = zpathnameGetPart(pathFirst, 4, dPart, sizeof(dPart));
 			//  Get the Julian date
@@ -104,6 +107,9 @@ int ztsGetDateRange(long long *ifltab, const char *pathname, int boolFullSet,
 		status =  ztsGetFirstLastRecordTimes(ifltab, pathLast,
 								&dummy, &seconds,
 								lastValidJulian, &seconds, 0);
+		if (zisError(status)) {
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsRetrieve_ID);
+		}
 		if (status != STATUS_RECORD_FOUND) {
 			len = zpathnameGetPart(pathLast, 4, dPart, sizeof(dPart));
 			//  Get the Julian date
@@ -128,6 +134,9 @@ int ztsGetDateRange(long long *ifltab, const char *pathname, int boolFullSet,
 		status =  ztsGetFirstLastRecordTimes(ifltab, pathname,
 								firstValidJulian, &seconds,
 								lastValidJulian, &seconds, 0);
+		if (zisError(status)) {
+			return zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsRetrieve_ID);
+		}
 		if (status != STATUS_RECORD_FOUND) {
 			len = zpathnameGetPart(pathname, 4, dPart, sizeof(dPart));
 			//  Get the Julian date
-- 
2.43.0


From 9f6849e9e8b9873a4a77df14073b686f72603703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:48 +0000
Subject: [PATCH 22/66] fix: keep an overwritten record inside its space when
 its headers change size

---
 heclib/heclib_c/src/Internal/zwriteExisting.c | 31 ++++++++++---------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zwriteExisting.c b/heclib/heclib_c/src/Internal/zwriteExisting.c
index b51104d..cf69b03 100644
--- a/heclib/heclib_c/src/Internal/zwriteExisting.c
+++ b/heclib/heclib_c/src/Internal/zwriteExisting.c
@@ -251,17 +251,17 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 	if ((info[zdssInfoKeys.kinfoValues3Number] == 0) && (ztransfer->values3Number > 0))				fileHeader[zdssFileKeys.knumberDataArea3]++;
 	numberInfo = zdssVals.infoSize + numberLongsInBytes((int)ifltab[zdssKeys.klenLastPath]);
 
-	//  Compute original and new record sizes.
-	originalSize =
-		(int)info[zdssInfoKeys.kinfoInternalHeadNumber] +
-		(int)info[zdssInfoKeys.kinfoHeader2Number] +
-		(int)info[zdssInfoKeys.kinfoUserHeadNumber] +
-		(int)info[zdssInfoKeys.kinfoAllocatedSize];
-	newSize =
-		ztransfer->internalHeaderNumber +
-		ztransfer->header2Number +
-		ztransfer->userHeaderNumber +
-		ztransfer->totalAllocatedSize;
+	//  Compute original and new record sizes (in ints, each area starts on a long boundary).
+	originalSize = 2 * (
+		numberLongsInInts((int)info[zdssInfoKeys.kinfoInternalHeadNumber]) +
+		numberLongsInInts((int)info[zdssInfoKeys.kinfoHeader2Number]) +
+		numberLongsInInts((int)info[zdssInfoKeys.kinfoUserHeadNumber]) +
+		numberLongsInInts((int)info[zdssInfoKeys.kinfoAllocatedSize]));
+	newSize = 2 * (
+		numberLongsInInts(ztransfer->internalHeaderNumber) +
+		numberLongsInInts(ztransfer->header2Number) +
+		numberLongsInInts(ztransfer->userHeaderNumber) +
+		numberLongsInInts(ztransfer->totalAllocatedSize));
 
 
 	if (newSize > originalSize) {
@@ -286,13 +286,14 @@ int zwriteExisting(long long *ifltab, zStructTransfer* ztransfer,
 
 		//  Check that the old info and data areas are contiguous.  If so, we can reclaim their space
 		//  A rename op may have moved the info block
-		if ((ifltab[zdssKeys.kaddInfoLastPath] + (long long)(originalSize + numberInfo)) ==
-			(info[zdssInfoKeys.kinfoValues1Address] + info[zdssInfoKeys.kinfoAllocatedSize])) {
-			zreleaseFileSpace(ifltab, ifltab[zdssKeys.kaddInfoLastPath], (originalSize + numberInfo));
+		longSize = numberInfo + numberLongsInInts(originalSize);
+		if ((ifltab[zdssKeys.kaddInfoLastPath] + (long long)longSize) ==
+			(info[zdssInfoKeys.kinfoValues1Address] + numberLongsInInts((int)info[zdssInfoKeys.kinfoAllocatedSize]))) {
+			zreleaseFileSpace(ifltab, ifltab[zdssKeys.kaddInfoLastPath], longSize);
 		}
 		else {
 			//  this would have been done in release space
-			fileHeader[zdssFileKeys.kdead] += (long long)(originalSize) + numberInfo;
+			fileHeader[zdssFileKeys.kdead] += (long long)longSize;
 		}
 
 		//  Update the version and expansionNumber values
-- 
2.43.0


From 2b0f1f8ada8cfec295f6a763e236eadf1a70088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:12 +0000
Subject: [PATCH 23/66] fix: undeleting a record counts only the areas it has

---
 heclib/heclib_c/src/Internal/zdeleteInternal.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zdeleteInternal.c b/heclib/heclib_c/src/Internal/zdeleteInternal.c
index 73b85d7..76b7b31 100644
--- a/heclib/heclib_c/src/Internal/zdeleteInternal.c
+++ b/heclib/heclib_c/src/Internal/zdeleteInternal.c
@@ -201,12 +201,12 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 			if (fileHeader[zdssFileKeys.kcatSortStatus] > 0) {
 				fileHeader[zdssFileKeys.kcatSortStatus] = 3;
 			}
-			fileHeader[zdssFileKeys.knumberInternalHeader]++;
-			fileHeader[zdssFileKeys.knumberHeader2]++;
-			fileHeader[zdssFileKeys.knumberDataArea3]++;
-			fileHeader[zdssFileKeys.knumberUserHeader]++;
-			fileHeader[zdssFileKeys.knumberDataArea1]++;
-			fileHeader[zdssFileKeys.knumberDataArea2]++;
+			if (info[zdssInfoKeys.kinfoInternalHeadNumber] > 0)		fileHeader[zdssFileKeys.knumberInternalHeader]++;
+			if (info[zdssInfoKeys.kinfoHeader2Number] > 0)			fileHeader[zdssFileKeys.knumberHeader2]++;
+			if (info[zdssInfoKeys.kinfoValues3Number] > 0)			fileHeader[zdssFileKeys.knumberDataArea3]++;
+			if (info[zdssInfoKeys.kinfoUserHeadNumber] > 0)			fileHeader[zdssFileKeys.knumberUserHeader]++;
+			if (info[zdssInfoKeys.kinfoValues1Number] > 0)          fileHeader[zdssFileKeys.knumberDataArea1]++;
+			if (info[zdssInfoKeys.kinfoValues2Number] > 0)          fileHeader[zdssFileKeys.knumberDataArea2]++;
 		}
 		else {
 			if (ifltab[zdssKeys.kreclaimLevel] > RECLAIM_NONE) {
-- 
2.43.0


From 4639bd01b808940471b102e0963907458137c5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:18 +0000
Subject: [PATCH 24/66] fix: a deleted record counts as dead space, one that
 was moved is not handed out again

---
 heclib/heclib_c/src/Internal/zdeleteInternal.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zdeleteInternal.c b/heclib/heclib_c/src/Internal/zdeleteInternal.c
index 76b7b31..a911cf3 100644
--- a/heclib/heclib_c/src/Internal/zdeleteInternal.c
+++ b/heclib/heclib_c/src/Internal/zdeleteInternal.c
@@ -220,10 +220,13 @@ int zdeleteInternal(long long *ifltab, const char *pathname, int boolUndelete)
 				}
 				else {
 					//  Shouldn't have this happen
-					//fileHeader[zdssFileKeys.kdead] += releasedAmount;
-					zreleaseFileSpace(ifltab, ifltab[zdssKeys.kaddInfoLastPath], releasedAmount);
+					fileHeader[zdssFileKeys.kdead] += releasedAmount;
 				}
 			}
+			else {
+				//  this would have been done in release space
+				fileHeader[zdssFileKeys.kdead] += releasedAmount;
+			}
 			//  Decrement counters
 			fileHeader[zdssFileKeys.knumberRecords]--;
 			fileHeader[zdssFileKeys.knumberDeletes]++;
-- 
2.43.0


From 8c6b5a7f9326e2e8eca636b980f527280b907a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:50 +0000
Subject: [PATCH 25/66] fix: keep the maximum size of double paired data in its
 own header word

---
 heclib/heclib_c/src/Internal/zwriteInternal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zwriteInternal.c b/heclib/heclib_c/src/Internal/zwriteInternal.c
index 5b36a06..005e09b 100644
--- a/heclib/heclib_c/src/Internal/zwriteInternal.c
+++ b/heclib/heclib_c/src/Internal/zwriteInternal.c
@@ -310,7 +310,7 @@ int zwriteInternal(long long *ifltab, zStructTransfer* ztransfer, int checked,
 		if (totalNumber > fileHeader[zdssFileKeys.kmaxPdSize]) fileHeader[zdssFileKeys.kmaxPdSize] = totalNumber;
 	}
 	else if (ztransfer->dataType == DATA_TYPE_PDD) {
-		if (totalNumber > fileHeader[zdssFileKeys.kmaxPdSize]) fileHeader[zdssFileKeys.kmaxPdSize] = totalNumber;
+		if (totalNumber > fileHeader[zdssFileKeys.kmaxPddSize]) fileHeader[zdssFileKeys.kmaxPddSize] = totalNumber;
 	}
 	else  {
 		if (totalNumber > fileHeader[zdssFileKeys.kmaxOtherSize]) fileHeader[zdssFileKeys.kmaxOtherSize] = totalNumber;
-- 
2.43.0


From c669d65f34d8393a645ebb1fe88d0863be9cbc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:27 +0000
Subject: [PATCH 26/66] fix: rename looks up the old record first and checks
 the target under the pathname it will really use

---
 heclib/heclib_c/src/Public/zrename.c | 73 ++++++++++++++++------------
 1 file changed, 43 insertions(+), 30 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zrename.c b/heclib/heclib_c/src/Public/zrename.c
index bb5a882..9a9e14b 100644
--- a/heclib/heclib_c/src/Public/zrename.c
+++ b/heclib/heclib_c/src/Public/zrename.c
@@ -117,8 +117,45 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 			newPathname, "Allocating space for pathname");
 	}
 	
+	//  The record to rename must exist (before anything is changed)
+	ifltab[zdssKeys.kaddInfoLastPath] = 0;
+	status = zcheckInternal(ifltab, oldPathname, 1);
+	if (zisError(status)) {
+		free(newPath);
+		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
+	}
+	if (status != STATUS_RECORD_FOUND) {
+		if (zmessageLevel(ifltab, MESS_METHOD_UTILITY_ID, MESS_LEVEL_GENERAL)) {
+			zmessage2(ifltab, ZRENAME_NOT_EXIST, oldPathname);
+		}
+		free(newPath);
+		return STATUS_RECORD_NOT_FOUND;
+	}
+
+	//  If the pathname is time series, do not allow the D or E parts to be renamed!
+	//  That data has to be transformed, not renamed
+	i8toi4(ifltab[zdssKeys.kbinTypeAndCatSort], &dataType, &temp);
+	if ((dataType >= DATA_TYPE_RTS) && (dataType < DATA_TYPE_PD)) {
+		free(newPath);
+		zpathnamePartPositions(newPathname, strlen(newPathname), positions, 7);
+		start = positions[5];
+		end = positions[6];
+		len = (int)(strlen(newPathname) + strlen(oldPathname)) + 12;
+		newPath = calloc(len, 1);
+		if (!newPath) {
+			return zerrorProcessing(ifltab, DSS_FUNCTION_zrename_ID,
+				zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
+				zdssErrorSeverity.MEMORY_ERROR,
+				newPathname, "Allocating space for modified pathname");
+		}
+		stringCopy(newPath, len, newPathname, positions[3]);
+		zpathnamePartPositions(oldPathname, strlen(oldPathname), positions, 7);
+		stringCat(newPath, len, &oldPathname[positions[3]], (positions[5] - positions[3]));
+		stringCat(newPath, len, &newPathname[start], (end - start));
+	}
+
 	int lenOld = strnlen_hec(oldPathname, MAX_PATHNAME_LENGTH);
-	int lenNew= strnlen_hec(newPathname, MAX_PATHNAME_LENGTH);
+	int lenNew= strnlen_hec(newPath, MAX_PATHNAME_LENGTH);
 
 	if (lenOld == lenNew) {
 		char tmpPath[MAX_PATHNAME_LENGTH];
@@ -128,7 +165,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 		// what is the oldpathname representation on disk?
 
 
-		int samePathInsensitive = zstringCompare(oldPathname, newPathname, lenOld);
+		int samePathInsensitive = zstringCompare(oldPathname, newPath, lenOld);
 
 		if (samePathInsensitive) {
 			// if the rename is just chaning case, we need a temporay path, (using unique -Fpart below)
@@ -149,7 +186,7 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 				free(newPath);
 				return status;
 			}
-			status = zrename(ifltab, tmpPath, newPathname);
+			status = zrename(ifltab, tmpPath, newPath);
 			free(newPath);
 			return status;
 		}
@@ -157,20 +194,20 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	
 	//  Be sure the new pathname does not already exist
 	ifltab[zdssKeys.kaddInfoLastPath] = 0;
-	status = zcheckInternal(ifltab, newPathname, 1);
+	status = zcheckInternal(ifltab, newPath, 1);
 	if (zisError(status)) {
 		free(newPath);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 	}
 	if (status == STATUS_RECORD_FOUND) {
-		status = zdeleteInternal(ifltab, newPathname, 0);
+		status = zdeleteInternal(ifltab, newPath, 0);
 		if (zisError(status)) {
 			free(newPath);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zrename_ID);
 		}
 		if (status != STATUS_OKAY) {
 			if (zmessageLevel(ifltab, MESS_METHOD_UTILITY_ID, MESS_LEVEL_GENERAL)) {
-				zmessage2(ifltab, ZRENAME_ALREADY_EXIST, newPathname);
+				zmessage2(ifltab, ZRENAME_ALREADY_EXIST, newPath);
 				zmessage2(ifltab, ZRENAME_OLD_PATH, oldPathname);
 			}
 			free(newPath);
@@ -209,30 +246,6 @@ int zrename(long long *ifltab, const char* oldPathname, const char* newPathname)
 	}
 
 
-	//  If the pathname is time series, do not allow the D or E parts to be renamed!
-	//  That data has to be transformed, not renamed
-	i8toi4(ifltab[zdssKeys.kbinTypeAndCatSort], &dataType, &temp);
-	if ((dataType >= DATA_TYPE_RTS) && (dataType < DATA_TYPE_PD)) {
-		free(newPath);
-		zpathnamePartPositions(newPathname, strlen(newPathname), positions, 7);
-		start = positions[5];
-		end = positions[6];
-		len = (int)strlen(newPathname) + 12;
-		newPath = calloc(len, 1);
-		if (!newPath) {
-			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
-			return zerrorProcessing(ifltab, DSS_FUNCTION_zrename_ID,
-				zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
-				zdssErrorSeverity.MEMORY_ERROR,
-				newPathname, "Allocating space for modified pathname");
-		}
-		stringCopy(newPath, len, newPathname, positions[3]);
-		zpathnamePartPositions(oldPathname, strlen(oldPathname), positions, 7);
-		stringCat(newPath, len, &oldPathname[positions[3]], (positions[5] - positions[3]));
-		stringCat(newPath, len, &newPathname[start], (end - start));
-	}
-
-
 	//  First, mark the pathname bin status as remamed
 	address = ifltab[zdssKeys.kpathBinAddress] + zdssBinKeys.kbinStatus;
 	binStatus = REC_STATUS_RENAMED;
-- 
2.43.0


From f6b6b565346ed8c3f38dce2c313570e9266c8fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:46 +0000
Subject: [PATCH 27/66] fix: read exactly the user header that fits in the
 caller's array

---
 heclib/heclib_c/src/Internal/zreadInternal.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zreadInternal.c b/heclib/heclib_c/src/Internal/zreadInternal.c
index 8964f36..b2bc0ac 100644
--- a/heclib/heclib_c/src/Internal/zreadInternal.c
+++ b/heclib/heclib_c/src/Internal/zreadInternal.c
@@ -377,14 +377,8 @@ int zreadInternal(long long *ifltab, zStructTransfer* ztransfer,
 				}
 				bufferAction = BUFF_NO_ACTION;
 			}
-			if (isOdd(ztransfer->userHeaderNumber)) {
-				status = zgetBuff(ifltab, ztransfer->info[zdssInfoKeys.kinfoUserHeadAddress], ztransfer->userHeader,
-					ztransfer->userHeaderNumber+1, 1, bufferAction, bufferControl, buffer);
-			}
-			else {
-				status = zgetBuff(ifltab, ztransfer->info[zdssInfoKeys.kinfoUserHeadAddress], ztransfer->userHeader,
-					ztransfer->userHeaderNumber, 1, bufferAction, bufferControl, buffer);
-			}
+			status = zgetBuff(ifltab, ztransfer->info[zdssInfoKeys.kinfoUserHeadAddress], ztransfer->userHeader,
+							  ztransfer->userHeaderNumber, 1, bufferAction, bufferControl, buffer);
 			if (zisError(status)) {
 				return zerrorUpdate(ifltab, status, DSS_FUNCTION_zreadInternal_ID);
 			}
-- 
2.43.0


From 6479f0e08b3c2bdef823331aceacce440408c9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:17 +0000
Subject: [PATCH 28/66] fix: store the location bounds of the file header under
 the lock that saves them

---
 heclib/heclib_c/src/Public/zlocationStore.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zlocationStore.c b/heclib/heclib_c/src/Public/zlocationStore.c
index c4e4f7a..047999d 100644
--- a/heclib/heclib_c/src/Public/zlocationStore.c
+++ b/heclib/heclib_c/src/Public/zlocationStore.c
@@ -4,6 +4,8 @@
 #include "heclib.h"
 #include "zdssMessages.h"
 #include "hecdssInternal.h"
+#include "zdssKeys.h"
+#include "zdssLocking.h"
 
 
 /**
@@ -115,6 +117,7 @@ int zlocationStore(long long *ifltab, zStructLocation *locationStruct, int stora
 {
 	int len;
 	int status;
+	int istat;
 	int nwords;
 	double coordinates[3];
 	int values1[30];
@@ -245,11 +248,22 @@ int zlocationStore(long long *ifltab, zStructLocation *locationStruct, int stora
 	ztransfer->values1 = values1;
 	ztransfer->values1Number = values1Number;
 
-	//  Update perm section, if needed
-	zlocationUpdatePerm(ifltab, locationStruct);
-
 	status = zwrite(ifltab, ztransfer);
 
+	//  Update perm section, if needed
+	//  (locking reads the perm section, so it has to be updated and saved under the lock)
+	if (!zisError(status)) {
+		istat = zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_ON, LOCKING_FLUSH_ON);
+		if (!zisError(istat)) {
+			zlocationUpdatePerm(ifltab, locationStruct);
+			ifltab[zdssKeys.kwritingNow] = 1;
+			istat = zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		}
+		if (zisError(istat)) {
+			status = zerrorUpdate(ifltab, istat, DSS_FUNCTION_zlocationStore_ID);
+		}
+	}
+
 	ztransfer->values1 = 0;
 	if (ztransfer->values2) {
 		free(ztransfer->values2);
-- 
2.43.0


From 850ef91b0f5dd3385df077ea03483b3f764d4b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:08 +0000
Subject: [PATCH 29/66] fix: removing the aliases of a record no longer
 releases the lock of the delete

---
 heclib/heclib_c/src/Public/zaliasRemoveAll.c | 22 ++++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zaliasRemoveAll.c b/heclib/heclib_c/src/Public/zaliasRemoveAll.c
index dc7e120..4e14437 100644
--- a/heclib/heclib_c/src/Public/zaliasRemoveAll.c
+++ b/heclib/heclib_c/src/Public/zaliasRemoveAll.c
@@ -80,7 +80,7 @@ int zaliasRemoveAll(long long *ifltab, const char* pathname)
 
 	//  Lock the file if we are in a multi-user access mode
 	//  And read the file header
-	status = zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_ON, LOCKING_FLUSH_ON);
+	status = zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_ON, LOCKING_FLUSH_ON);
 	if (zisError(status)) {
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasRemove_ID);
 	}
@@ -90,7 +90,7 @@ int zaliasRemoveAll(long long *ifltab, const char* pathname)
 	//  Read in the info block
 	status = zreadInfo(ifltab, pathname, REC_STATUS_ANY);
 	if (zisError(status)) {
-		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasRemove_ID);
 	}
 	if (status != STATUS_RECORD_FOUND) {
@@ -98,7 +98,7 @@ int zaliasRemoveAll(long long *ifltab, const char* pathname)
 			zmessageDebugInt(ifltab, DSS_FUNCTION_zaliasRemove_ID, "Exit zaliasRemove, status: ", status);
 			zmessageDebug(ifltab, DSS_FUNCTION_zaliasRemove_ID, "Record not found ", pathname);
 		}
-		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		return status;
 	}
 	info = (long long *)ifltab[zdssKeys.kinfo];
@@ -110,7 +110,7 @@ int zaliasRemoveAll(long long *ifltab, const char* pathname)
 			charLong(&info[zdssInfoKeys.kinfoPathname], path, (int)info[zdssInfoKeys.kinfoPathnameLength], sizeof(path), 0, 0);
 			zmessageDebug(ifltab, DSS_FUNCTION_zaliasRemove_ID, "Primary Pathname: ", path);
 		}
-		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		return STATUS_RECORD_NOT_FOUND;
 	}
 	//  Remove the alias address from the info area
@@ -118,7 +118,7 @@ int zaliasRemoveAll(long long *ifltab, const char* pathname)
 	zero = 0;
 	status = zput(ifltab, infoAddress, (int *)&zero, 1, 2);
 	if (zisError(status)) {
-		zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+		zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasRemove_ID);
 	}
 	infoAddress = ifltab[zdssKeys.kaddInfoLastPath];
@@ -127,7 +127,7 @@ int zaliasRemoveAll(long long *ifltab, const char* pathname)
 	while (1) {
 		status = zget(ifltab, aliasAddress, (int *)binAlias, 4, 2);
 		if (zisError(status)) {
-			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+			zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasRemove_ID);
 		}
 		if (binAlias[0] == DSS_INFO_FLAG) {
@@ -138,7 +138,7 @@ int zaliasRemoveAll(long long *ifltab, const char* pathname)
 		//  double check that we are still walking down alias bins
 		if (binAlias[zdssBinKeys.kbinStatus] != REC_STATUS_ALIAS) {
 			//  Uh-oh, shouldn't have this number - needs to be a "2"!
-			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+			zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			return zerrorProcessing(ifltab, DSS_FUNCTION_zaliasUtil_ID,
 								zdssErrorCodes.RECORD_DOES_NOT_EXIST, 0,
 								0, zdssErrorSeverity.WARNING, pathname, "");
@@ -148,7 +148,7 @@ int zaliasRemoveAll(long long *ifltab, const char* pathname)
 		address = aliasAddress + zdssBinKeys.kbinStatus;
 		status = zput(ifltab, address, (int *)&longStatus, 1, 2);
 		if (zisError(status)) {
-			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+			zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasRemove_ID);
 		}
 		//  Need to mark deleted and number chars different, so that bin spot will not be reused
@@ -156,7 +156,7 @@ int zaliasRemoveAll(long long *ifltab, const char* pathname)
 		address = aliasAddress + zdssBinKeys.kbinPathLen;
 		status = zget(ifltab, address, (int *)&lnumber, 1, 2);
 		if (zisError(status)) {
-			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+			zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasRemove_ID);
 		}
 		i8toi4(lnumber, &numberChars, &pathnameSize);
@@ -165,7 +165,7 @@ int zaliasRemoveAll(long long *ifltab, const char* pathname)
 		lnumber = i4toi8(numberChars, pathnameSize);
 		status = zput(ifltab, address, (int *)&lnumber, 1, 2);
 		if (zisError(status)) {
-			zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+			zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasRemove_ID);
 		}
 		numberAliases++;
@@ -182,7 +182,7 @@ int zaliasRemoveAll(long long *ifltab, const char* pathname)
 	fileHeader[zdssFileKeys.kcatSortStatus] = 3;
 
 	status = zpermWrite(ifltab);
-	istat = zlockActive(ifltab, LOCKING_LEVEL_MID, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
+	istat = zlockActive(ifltab, LOCKING_LEVEL_LOW, LOCKING_LOCK_OFF, LOCKING_FLUSH_ON);
 	if (!zisError(status)) {
 		status = istat;
 	}
-- 
2.43.0


From 6ba8e476e134c1bd1241417c52f05aca0e262ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:35 +0000
Subject: [PATCH 30/66] fix: an interrupt no longer cuts the squeezed file
 short while it is copied back

---
 heclib/heclib_c/src/Internal/copyFile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/copyFile.c b/heclib/heclib_c/src/Internal/copyFile.c
index 96b3d99..5f13608 100644
--- a/heclib/heclib_c/src/Internal/copyFile.c
+++ b/heclib/heclib_c/src/Internal/copyFile.c
@@ -76,7 +76,8 @@ int copyFile(long long *ifltab, int handleTo)
 		iaddress += isize;
 		zprogress.currentNumber = i;
 		zprogress.handle = zhandle(ifltab);
-		if (zprogress.interrupt) break;
+		//  Only the load into the cache may stop early; half a copy would lose the rest of the file
+		if (zprogress.interrupt && (handleTo <= 0)) break;
 	}
 
 	return istat;
-- 
2.43.0


From 90174ce4cb9f06227554ef875e2a53e2d6908466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:47 +0000
Subject: [PATCH 31/66] fix: read back the version of a gridded record

---
 heclib/heclib_c/src/Public/zspatialGridRetrieve.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/heclib/heclib_c/src/Public/zspatialGridRetrieve.c b/heclib/heclib_c/src/Public/zspatialGridRetrieve.c
index 74f87e9..cc85607 100644
--- a/heclib/heclib_c/src/Public/zspatialGridRetrieve.c
+++ b/heclib/heclib_c/src/Public/zspatialGridRetrieve.c
@@ -244,6 +244,7 @@ int zspatialGridRetrieve(long long *ifltab, zStructSpatialGrid *gridStruct, int
 	// Can only handle version 1 records 
 	if (gridStruct->_structVersion == VERSION_100) {
 		gridStruct->_type = ztransfer->internalHeader[INT_HEAD_grid_type];
+		gridStruct->_version = ztransfer->internalHeader[INT_HEAD_grid_version];
 		gridStruct->_dataType = ztransfer->internalHeader[INT_HEAD_grid_dataType];
 		gridStruct->_lowerLeftCellX = ztransfer->internalHeader[INT_HEAD_grid_lowerLeftCellX];
 		gridStruct->_lowerLeftCellY = ztransfer->internalHeader[INT_HEAD_grid_lowerLeftCellY];
-- 
2.43.0


From fc68bac8721c2f767b5bb54aed7561f26fa89560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:07 +0000
Subject: [PATCH 32/66] fix: an empty time window no longer returns an
 uninitialised status

---
 heclib/heclib_c/src/Internal/ztsGetSizesInternal.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsGetSizesInternal.c b/heclib/heclib_c/src/Internal/ztsGetSizesInternal.c
index d6436ea..c56ff1c 100644
--- a/heclib/heclib_c/src/Internal/ztsGetSizesInternal.c
+++ b/heclib/heclib_c/src/Internal/ztsGetSizesInternal.c
@@ -62,7 +62,6 @@ int ztsGetSizesInternal(long long *ifltab, ztsTimeWindow *timeWindow, zStructRec
 
 
 	int status;
-	int returnStatus;
 	int boolMultipleRecs;
 	int number;
 	int dataType;
@@ -112,7 +111,7 @@ int ztsGetSizesInternal(long long *ifltab, ztsTimeWindow *timeWindow, zStructRec
 	recordSize->tsInotesCompressionFlag = 0;
 	recordSize->tsCnotesLength = 0;
 
-	returnStatus = STATUS_RECORD_NOT_FOUND;
+	status = STATUS_RECORD_NOT_FOUND;
 	boolMultipleRecs = 0;
 	if (recordSize->pathname) {
 		stringCopy (path, sizeof(path), recordSize->pathname, strlen(recordSize->pathname));
-- 
2.43.0


From e0a1b40b0f5340e7b435843d29e8e3420ec06430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:07 +0000
Subject: [PATCH 33/66] fix: copying a record of another type to a file that is
 not version 7 or not open is an error

---
 heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c b/heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c
index c347f96..c7b9e1a 100644
--- a/heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c
+++ b/heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c
@@ -278,7 +278,11 @@ int zcopyRecord(long long *ifltabFrom, long long *ifltabTo, const char *pathname
 				return zerrorUpdate(ifltabTo, status, DSS_FUNCTION_zcopyRecord_ID);
 			}
 		}
-		
+		else {
+			//  Other data types can only be copied from version 7 to version 7
+			return zerrorProcessing(ifltabTo, DSS_FUNCTION_zcopyRecord_ID, zdssErrorCodes.INCOMPATIBLE_VERSION,
+				versFileTo, 0, zdssErrorSeverity.WARNING, pathnameFrom, "");
+		}
 	}
 	return status;
 }
-- 
2.43.0


From dabfdd87c070aa8973d53b789827acd8464dec11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:07 +0000
Subject: [PATCH 34/66] fix: a handle that is not open is refused instead of
 followed to a null header

---
 .../src/DssInterface/v6and7/zrecordAddresses.c      |  5 +++++
 heclib/heclib_c/src/Internal/zcatInternalSort.c     |  5 +++++
 heclib/heclib_c/src/Internal/zreadInternal.c        |  6 ++++++
 heclib/heclib_c/src/Public/zcatalogFile.c           |  6 ++++++
 heclib/heclib_c/src/Public/zcheckFile.c             |  5 +++++
 heclib/heclib_c/src/Public/zgetVersion.c            |  4 ++++
 heclib/heclib_c/src/Public/zinquire.c               | 13 ++++++++-----
 heclib/heclib_c/src/Public/zinquireChar.c           |  5 +++++
 heclib/heclib_c/src/SemiPublic/zfileAccessInfo.c    |  5 +++++
 .../heclib_c/src/SemiPublic/zgetRecordAddresses.c   |  5 +++++
 heclib/heclib_c/src/SemiPublic/zmaxPart.c           |  8 ++++++++
 11 files changed, 62 insertions(+), 5 deletions(-)

diff --git a/heclib/heclib_c/src/DssInterface/v6and7/zrecordAddresses.c b/heclib/heclib_c/src/DssInterface/v6and7/zrecordAddresses.c
index cfdf1d6..a2c51aa 100644
--- a/heclib/heclib_c/src/DssInterface/v6and7/zrecordAddresses.c
+++ b/heclib/heclib_c/src/DssInterface/v6and7/zrecordAddresses.c
@@ -25,6 +25,11 @@ int zrecordAddresses(long long *ifltab, const char* pathname, long long *address
 	long long *fileHeader;
 
 
+	if (zgetVersion(ifltab) != 7) {
+		return zerrorProcessing(ifltab, DSS_FUNCTION_other_ID, zdssErrorCodes.NOT_OPENED,
+			0, 0, zdssErrorSeverity.INVALID_ARGUMENT, pathname, "zrecordAddresses");
+	}
+
 	fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
 	status = zcheck(ifltab, pathname);
 
diff --git a/heclib/heclib_c/src/Internal/zcatInternalSort.c b/heclib/heclib_c/src/Internal/zcatInternalSort.c
index 8165a27..0c4239a 100644
--- a/heclib/heclib_c/src/Internal/zcatInternalSort.c
+++ b/heclib/heclib_c/src/Internal/zcatInternalSort.c
@@ -98,6 +98,11 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 	FILE *sortedFP;
 
 
+	if ((zgetVersion(ifltab) != 6) && (zgetVersion(ifltab) != 7)) {
+		return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID, zdssErrorCodes.INCOMPATIBLE_VERSION,
+								zgetVersion(ifltab), 0, zdssErrorSeverity.WARNING, "", "");
+	}
+
 	nonSortedStruct = zstructCatalogNew();
 	if (!nonSortedStruct) {
 		return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
diff --git a/heclib/heclib_c/src/Internal/zreadInternal.c b/heclib/heclib_c/src/Internal/zreadInternal.c
index b2bc0ac..380ab38 100644
--- a/heclib/heclib_c/src/Internal/zreadInternal.c
+++ b/heclib/heclib_c/src/Internal/zreadInternal.c
@@ -245,6 +245,12 @@ int zreadInternal(long long *ifltab, zStructTransfer* ztransfer,
 	}
 
 
+	if (zgetVersion(ifltab) != 7) {
+		//  Not open (anymore); an info block from an earlier read is no longer valid
+		return zerrorProcessing(ifltab, DSS_FUNCTION_zread_ID, zdssErrorCodes.NOT_OPENED,
+			0, 0, zdssErrorSeverity.INVALID_ARGUMENT, ztransfer->pathname, "");
+	}
+
 	//  Read info block, if it has not been read
 	if ((!ztransfer->info) || (ztransfer->info[0] != DSS_INFO_FLAG)){
 		if (zmessageLevel(ifltab, MESS_METHOD_READ_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
diff --git a/heclib/heclib_c/src/Public/zcatalogFile.c b/heclib/heclib_c/src/Public/zcatalogFile.c
index 0857bab..8d09d39 100644
--- a/heclib/heclib_c/src/Public/zcatalogFile.c
+++ b/heclib/heclib_c/src/Public/zcatalogFile.c
@@ -92,6 +92,12 @@ int zcatalogFile(long long *ifltab, const char *catalogFilename, int boolSorted,
 	}
 
 
+	if ((zgetVersion(ifltab) != 6) && (zgetVersion(ifltab) != 7)) {
+		//  Not open; do not touch the catalog file
+		return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID, zdssErrorCodes.INCOMPATIBLE_VERSION,
+								zgetVersion(ifltab), 0, zdssErrorSeverity.WARNING, "", "");
+	}
+
 	if (!catalogFilename) {
 		if (zgetVersion(ifltab) == 7) {
 			charLong((void *)ifltab[zdssKeys.kfullFilename], catalogName, 0, sizeof(catalogName), 0, 0);
diff --git a/heclib/heclib_c/src/Public/zcheckFile.c b/heclib/heclib_c/src/Public/zcheckFile.c
index 30f09c1..674013b 100644
--- a/heclib/heclib_c/src/Public/zcheckFile.c
+++ b/heclib/heclib_c/src/Public/zcheckFile.c
@@ -55,6 +55,11 @@ int zcheckFile(long long *ifltab)
 	*/
 
 
+	if (zgetVersion(ifltab) != 7) {
+		return zerrorProcessing(ifltab, DSS_FUNCTION_other_ID, zdssErrorCodes.NOT_OPENED,
+			0, 0, zdssErrorSeverity.INVALID_ARGUMENT, "", "zcheckFile");
+	}
+
 	fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
 	zresetProgress(zhandle(ifltab), fileHeader[zdssFileKeys.knumberRecords]);
 	zprogress.handle = zhandle(ifltab);
diff --git a/heclib/heclib_c/src/Public/zgetVersion.c b/heclib/heclib_c/src/Public/zgetVersion.c
index 71132d9..1241a29 100644
--- a/heclib/heclib_c/src/Public/zgetVersion.c
+++ b/heclib/heclib_c/src/Public/zgetVersion.c
@@ -78,6 +78,10 @@ int zgetFullVersion(long long *ifltab)
 	int minorVersion;	//	G	= 07
 
 	fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
+	if (!fileHeader) {
+		//  Not open
+		return 0;
+	}
 	charInt((void *)&fileHeader[zdssFileKeys.kversion], cversion, 5, sizeof(cversion), 0, 1, 0);
 
 	majorVersion = getVersFromChar(cversion[0]);
diff --git a/heclib/heclib_c/src/Public/zinquire.c b/heclib/heclib_c/src/Public/zinquire.c
index d4fe0bc..132dea7 100644
--- a/heclib/heclib_c/src/Public/zinquire.c
+++ b/heclib/heclib_c/src/Public/zinquire.c
@@ -44,11 +44,7 @@ long long zinquire(long long *ifltab, const char *request)
 	requestlc[len] = '\0';
 
 
-	/////////////////////////////
-	/////////////  FIX ME HERE
-	//////////////////
-	///  IF THE FILE IS NOT OPENED YET, THIS WILL BLOW UP
-
+	//  The file header is null if the file is not open
 	fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
 	if (zmessageLevel(ifltab, MESS_METHOD_UTILITY_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {
 		zmessageDebug(ifltab, DSS_FUNCTION_zinquire_ID, "Request: ", requestlc);
@@ -85,6 +81,9 @@ long long zinquire(long long *ifltab, const char *request)
 		longNumber = (long)zprogress.numberErrors;
 	}
 	//
+	else if (!fileHeader && (!strcmp(requestlc, "nrec") || !strcmp(requestlc, "npri") || !strcmp(requestlc, "nali"))) {
+		return -1;
+	}
 	else if (!strcmp(requestlc, "nrec")) {
 		longNumber = fileHeader[zdssFileKeys.knumberRecords] + fileHeader[zdssFileKeys.knumberAliases];
 	}
@@ -120,6 +119,10 @@ long long zinquire(long long *ifltab, const char *request)
 			longNumber = zdssVals.globalErrorFlag;
 		}
 	}
+	else if (!fileHeader) {
+		//  Everything that follows is about an open file
+		return -1;
+	}
 	else  if (!strcmp(requestlc, "fver")) {
 		charInt((void *)&fileHeader[zdssFileKeys.kversion], ctemp, 4, sizeof(ctemp), 0, 1, 0);
 		ctemp[4] = '\0';
diff --git a/heclib/heclib_c/src/Public/zinquireChar.c b/heclib/heclib_c/src/Public/zinquireChar.c
index da8a3f6..23a542e 100644
--- a/heclib/heclib_c/src/Public/zinquireChar.c
+++ b/heclib/heclib_c/src/Public/zinquireChar.c
@@ -71,6 +71,11 @@ int zinquireChar(long long *ifltab, const char *request, char *creturn, size_t c
 			stringCopy(creturn, (size_t)creturnSize, zdssVals.globalErrorMess, strlen(zdssVals.globalErrorMess));
 		}
 	}
+	else if (!ifltab[zdssKeys.kfileHeader] && (!strcmp(requestlc, "fver") || !strcmp(requestlc, "name") ||
+			(!strcmp(requestlc, "rver") && !boolPathIncreturn))) {
+		//  The file is not open
+		number[0] = -1;
+	}
 	else  if (!strcmp(requestlc, "fver")) {
 		long long* fileHeader = (long long*)ifltab[zdssKeys.kfileHeader];
 		charInt((void *)&fileHeader[zdssFileKeys.kversion], ctemp, 4, sizeof(ctemp), 0, 1, 0);
diff --git a/heclib/heclib_c/src/SemiPublic/zfileAccessInfo.c b/heclib/heclib_c/src/SemiPublic/zfileAccessInfo.c
index 37aa30f..cc1d338 100644
--- a/heclib/heclib_c/src/SemiPublic/zfileAccessInfo.c
+++ b/heclib/heclib_c/src/SemiPublic/zfileAccessInfo.c
@@ -70,6 +70,11 @@ int zfileAccessInfo(long long *ifltab, int *accessMode, int *numberAccessing, in
 	long long *fileHeader;
 
 
+	if (zgetVersion(ifltab) != 7) {
+		return zerrorProcessing(ifltab, DSS_FUNCTION_other_ID, zdssErrorCodes.NOT_OPENED,
+			0, 0, zdssErrorSeverity.INVALID_ARGUMENT, "", "zfileAccessInfo");
+	}
+
 	fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
 	*accessMode = (int)ifltab[zdssKeys.kmultiUserAccess];
 	*numberAccessing = zlockPassive(ifltab, LOCKING_LOCK_NUMBER, LOCKING_ACCESS_READ) + 1;  //  The "+ 1" adds us in.
diff --git a/heclib/heclib_c/src/SemiPublic/zgetRecordAddresses.c b/heclib/heclib_c/src/SemiPublic/zgetRecordAddresses.c
index 10f72d2..bc91167 100644
--- a/heclib/heclib_c/src/SemiPublic/zgetRecordAddresses.c
+++ b/heclib/heclib_c/src/SemiPublic/zgetRecordAddresses.c
@@ -52,6 +52,11 @@ int zgetRecordAddresses (long long *ifltab, const char *pathname, zStructRecordA
 
 	foundOne = 0;
 
+	if (zgetVersion(ifltab) != 7) {
+		return zerrorProcessing(ifltab, DSS_FUNCTION_other_ID, zdssErrorCodes.NOT_OPENED,
+			0, 0, zdssErrorSeverity.INVALID_ARGUMENT, pathname, "zgetRecordAddresses");
+	}
+
 	fileHeader = (long long *)ifltab[zdssKeys.kfileHeader];
 	//  If the record has just been accessed (usually the case), we don't need to re-read it.
 	info = (long long *)ifltab[zdssKeys.kinfo];
diff --git a/heclib/heclib_c/src/SemiPublic/zmaxPart.c b/heclib/heclib_c/src/SemiPublic/zmaxPart.c
index 3173d22..e437990 100644
--- a/heclib/heclib_c/src/SemiPublic/zmaxPart.c
+++ b/heclib/heclib_c/src/SemiPublic/zmaxPart.c
@@ -32,6 +32,14 @@ void zmaxPart7(long long *ifltab, int *maxParts)
 	int istat;
 	long long *fileHeader;
 
+	if (zgetVersion(ifltab) != 7) {
+		//  Not open, there are no lengths to tell
+		for (istat = 0; istat < 6; istat++) {
+			maxParts[istat] = 0;
+		}
+		return;
+	}
+
 	istat = zpermRead(ifltab);
 	//  Not sure what to do if istat != 0
 
-- 
2.43.0


From 431e9b647e9dac7f98d763b492c29bf6d4927fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:44 +0000
Subject: [PATCH 35/66] fix: give back the structures of the array, catalog and
 paired data calls of the C interface

---
 heclib/hecdss/hecdss.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index eea4b19..3aa339a 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -200,6 +200,7 @@ HECDSS_API int hec_dss_catalog(dss_file* dss, char* pathBuffer, int* recordTypes
   int status = zcatalog(dss->ifltab,pathFilter, catStruct, UNSORTED);
   if (status < 0) {
     printf("Error during catalog.  Error code %d\n", status);
+    zstructFree(catStruct);
     return status;
   }
   int maxPaths = catStruct->numberPathnames > count ? count : catStruct->numberPathnames;
@@ -669,8 +670,10 @@ HECDSS_API int hec_dss_pdStore(dss_file* dss, const char* pathname,
     pds->labels = malloc(labelsLength);
     pds->allocated[zSTRUCT_PD_labels] = 1;
 
-    if (pds->labels == NULL)
+    if (pds->labels == NULL) {
+      zstructFree(pds);
       return -1;
+    }
     pds->labelsLength = labelsLength;
     memcpy(pds->labels, labels, labelsLength);
   }
@@ -889,6 +892,7 @@ HECDSS_API int hec_dss_arrayStore(dss_file* dss, const char* pathname,
   }
   int status = zarrayStore(dss->ifltab, array);
 
+  zstructFree(array);
   return status;
 }
 
@@ -903,6 +907,7 @@ HECDSS_API int hec_dss_arrayRetrieveInfo(dss_file* dss, const char* pathname,
     *floatValuesRead = array->numberFloatArray;
     *doubleValuesRead = array->numberDoubleArray;
   }
+  zstructFree(array);
   return status;
 }
 
@@ -927,6 +932,8 @@ HECDSS_API int hec_dss_arrayRetrieve(dss_file* dss, const char* pathname,
     }
   }
 
+  zstructFree(array);
+
   return status;
 }
 
-- 
2.43.0


From d2d130e17c47dc2b84e21ab406285739c968bc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:44 +0000
Subject: [PATCH 36/66] fix: Java natives give back strings, arrays and
 structures on every path

---
 heclib/javaHeclib/src/Hec_writeToLogFile.c    |  1 +
 heclib/javaHeclib/src/Hec_zarrayRetrieve.c    |  5 ++--
 heclib/javaHeclib/src/Hec_zarrayStore.c       |  2 +-
 heclib/javaHeclib/src/Hec_zcatalog.c          |  2 ++
 heclib/javaHeclib/src/Hec_zcatalogFile.c      |  8 +++---
 heclib/javaHeclib/src/Hec_zgridStore.c        |  3 +++
 heclib/javaHeclib/src/Hec_zlocationRetrieve.c |  2 +-
 heclib/javaHeclib/src/Hec_zlocationStore.c    |  1 +
 heclib/javaHeclib/src/Hec_zpdRetrieve.c       |  5 +++-
 heclib/javaHeclib/src/Hec_zpdStore.c          |  7 +++++
 heclib/javaHeclib/src/Hec_zrecInfo.c          | 12 +++++++++
 heclib/javaHeclib/src/Hec_ztextRetrieve.c     |  2 ++
 heclib/javaHeclib/src/Hec_ztextStore.c        |  5 +++-
 heclib/javaHeclib/src/Hec_ztinRetrieve.c      | 19 ++++++++++++-
 heclib/javaHeclib/src/Hec_ztinStore.c         | 27 ++++++++++++++++++-
 heclib/javaHeclib/src/Hec_ztsRetrieve.c       |  5 ++++
 heclib/javaHeclib/src/Hec_zwhatChanged.c      |  3 ++-
 .../javaHeclib/src/Hec_zwhatChangedCompare.c  |  8 ++++--
 heclib/javaHeclib/src/JavaCatalogToC.c        |  4 ++-
 19 files changed, 105 insertions(+), 16 deletions(-)

diff --git a/heclib/javaHeclib/src/Hec_writeToLogFile.c b/heclib/javaHeclib/src/Hec_writeToLogFile.c
index f9c9462..e2c6fcc 100644
--- a/heclib/javaHeclib/src/Hec_writeToLogFile.c
+++ b/heclib/javaHeclib/src/Hec_writeToLogFile.c
@@ -14,6 +14,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1writeToLogFile
   }
 
 	if (zdssVals.messageHandle <= 0) {
+		(*env)->ReleaseStringUTFChars(env, j_message, message);
 		return STATUS_NOT_OKAY;
 	}
 
diff --git a/heclib/javaHeclib/src/Hec_zarrayRetrieve.c b/heclib/javaHeclib/src/Hec_zarrayRetrieve.c
index ba1b202..4ad6a66 100644
--- a/heclib/javaHeclib/src/Hec_zarrayRetrieve.c
+++ b/heclib/javaHeclib/src/Hec_zarrayRetrieve.c
@@ -48,15 +48,16 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1zarrayRetrieve
     }
 
 	arrayStruct = zstructArrayNew(pathname);
+	(*env)->ReleaseStringUTFChars (env, j_pathname, pathname);
 	if (!arrayStruct) {
+		(*env)->ReleaseIntArrayElements (env, j_ifltab, ifltab, 0);
 		return (jint)-1;
 	}
-	(*env)->ReleaseStringUTFChars (env, j_pathname, pathname);
 
 	status = zarrayRetrieve((long long *)ifltab, arrayStruct);
 
 	if (zmessageLevel((long long*)ifltab, MESS_METHOD_JNI_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {		
-		zmessageDebug((long long*)ifltab, DSS_FUNCTION_javaNativeInterface_ID, "Hec_1zarrayRetrieve, Enter.  Pathname: ", pathname);
+		zmessageDebug((long long*)ifltab, DSS_FUNCTION_javaNativeInterface_ID, "Hec_1zarrayRetrieve, Enter.  Pathname: ", arrayStruct->pathname);
 		zmessageDebugInt((long long*)ifltab, DSS_FUNCTION_javaNativeInterface_ID, "Hec_1zarrayRetrieve Record found status: ", status);
 	}
 	
diff --git a/heclib/javaHeclib/src/Hec_zarrayStore.c b/heclib/javaHeclib/src/Hec_zarrayStore.c
index bf01e05..821b9aa 100644
--- a/heclib/javaHeclib/src/Hec_zarrayStore.c
+++ b/heclib/javaHeclib/src/Hec_zarrayStore.c
@@ -58,11 +58,11 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1zarrayStore
 	}
 
 	arrayStruct = zstructArrayNew(pathname);
+	(*env)->ReleaseStringUTFChars (env, j_pathname, pathname);
 	if (!arrayStruct) {
 		(*env)->ReleaseIntArrayElements (env, j_ifltab, ifltab, 0);
 		return (jint)-1;
 	}
-	(*env)->ReleaseStringUTFChars (env, j_pathname, pathname);
 
 
 	//  ints?
diff --git a/heclib/javaHeclib/src/Hec_zcatalog.c b/heclib/javaHeclib/src/Hec_zcatalog.c
index 43e243a..af1dcd2 100644
--- a/heclib/javaHeclib/src/Hec_zcatalog.c
+++ b/heclib/javaHeclib/src/Hec_zcatalog.c
@@ -99,6 +99,8 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1zcatalog(
 	}
 	
 	if (zisError(status)) {
+		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		zstructFree(catStruct);
 		return status;
 	}
 	
diff --git a/heclib/javaHeclib/src/Hec_zcatalogFile.c b/heclib/javaHeclib/src/Hec_zcatalogFile.c
index e393bc6..2441f55 100644
--- a/heclib/javaHeclib/src/Hec_zcatalogFile.c
+++ b/heclib/javaHeclib/src/Hec_zcatalogFile.c
@@ -27,15 +27,15 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1zcatalogFile
 
 	int status = zcatalogFile((long long *)ifltab, catalogName, boolSorted, pathWithWild);
 
+	if (zmessageLevel((long long*)ifltab, MESS_METHOD_JNI_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {		
+		zmessageDebugInt((long long*)ifltab, DSS_FUNCTION_javaNativeInterface_ID, "Exit Hec_zcatalogFile, status: ", status);
+	}
+
     (*env)->ReleaseIntArrayElements (env, j_ifltab, ifltab, 0);
     (*env)->ReleaseStringUTFChars (env, j_catalogName, catalogName);
 	if (j_pathWithWild) {
 		(*env)->ReleaseStringUTFChars (env, j_pathWithWild, pathWithWild);
 	}
 
-	if (zmessageLevel((long long*)ifltab, MESS_METHOD_JNI_ID, MESS_LEVEL_INTERNAL_DIAG_1)) {		
-		zmessageDebugInt((long long*)ifltab, DSS_FUNCTION_javaNativeInterface_ID, "Exit Hec_zcatalogFile, status: ", status);
-	}
-
     return (jint)status;
 }
diff --git a/heclib/javaHeclib/src/Hec_zgridStore.c b/heclib/javaHeclib/src/Hec_zgridStore.c
index 7c81736..12d8957 100644
--- a/heclib/javaHeclib/src/Hec_zgridStore.c
+++ b/heclib/javaHeclib/src/Hec_zgridStore.c
@@ -455,6 +455,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1zgridStore(
 					status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.CANNOT_ALLOCATE_MEMORY,
 						arraySize, 0, zdssErrorSeverity.MEMORY_ERROR, gridStruct->pathname, "zgridStore,  rangeLimitTable");
 					(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+					(*env)->ReleaseFloatArrayElements(env, jflArray, floatArray, 0);
 					zstructFree(gridStruct);
 					return status;
 				}
@@ -492,6 +493,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1zgridStore(
 					status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.CANNOT_ALLOCATE_MEMORY,
 						arraySize, 0, zdssErrorSeverity.MEMORY_ERROR, gridStruct->pathname, "zgridStore, range histogram");
 					(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+					(*env)->ReleaseIntArrayElements(env, jintAry, intAry, 0);
 					zstructFree(gridStruct);
 					return status;
 				}
@@ -529,6 +531,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1zgridStore(
 					status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.CANNOT_ALLOCATE_MEMORY,
 						arraySize, 0, zdssErrorSeverity.MEMORY_ERROR, gridStruct->pathname, "zgridStore,  data");
 					(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+					(*env)->ReleaseFloatArrayElements(env, jflArray, floatArray, 0);
 					zstructFree(gridStruct);
 					return status;
 				}
diff --git a/heclib/javaHeclib/src/Hec_zlocationRetrieve.c b/heclib/javaHeclib/src/Hec_zlocationRetrieve.c
index 6c9b9c9..02abda5 100644
--- a/heclib/javaHeclib/src/Hec_zlocationRetrieve.c
+++ b/heclib/javaHeclib/src/Hec_zlocationRetrieve.c
@@ -47,11 +47,11 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1zlocationRetrieve
 	}
 
 	locationStruct = zstructLocationNew(pathname);
+	(*env)->ReleaseStringUTFChars (env, j_pathname, pathname);
 	if (!locationStruct) {
 		(*env)->ReleaseIntArrayElements (env, j_ifltab, ifltab, 0);
 		return (jint)-1;
 	}
-	(*env)->ReleaseStringUTFChars (env, j_pathname, pathname);
 
 	status = zlocationRetrieve((long long *)ifltab, locationStruct);
 
diff --git a/heclib/javaHeclib/src/Hec_zlocationStore.c b/heclib/javaHeclib/src/Hec_zlocationStore.c
index be93e62..602bae0 100644
--- a/heclib/javaHeclib/src/Hec_zlocationStore.c
+++ b/heclib/javaHeclib/src/Hec_zlocationStore.c
@@ -48,6 +48,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1zlocationStore(
 	//  Do we have anything to store?
 	if (zlocationStructValid(locationStruct) != STATUS_OKAY) {
 		zstructFree(locationStruct);
+		(*env)->ReleaseIntArrayElements (env, j_ifltab, ifltab, 0);
 		return STATUS_NOT_OKAY;
 	}
 
diff --git a/heclib/javaHeclib/src/Hec_zpdRetrieve.c b/heclib/javaHeclib/src/Hec_zpdRetrieve.c
index 1da4d03..510820a 100644
--- a/heclib/javaHeclib/src/Hec_zpdRetrieve.c
+++ b/heclib/javaHeclib/src/Hec_zpdRetrieve.c
@@ -66,14 +66,15 @@ const char *cpath;
 	}
 
 	pdc = zstructPdNew(cpath); 
-	(*env)->ReleaseStringUTFChars(env, j_cpath,  cpath);
 
 	if (!pdc) {
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.CANNOT_ALLOCATE_MEMORY,
 			0, 0, zdssErrorSeverity.MEMORY_ERROR, cpath, "zpdRetrieve");
+		(*env)->ReleaseStringUTFChars(env, j_cpath,  cpath);
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
 		return status;
 	}
+	(*env)->ReleaseStringUTFChars(env, j_cpath,  cpath);
 
 	//  The following are new parameters and  not required
 	fid = (*env)->GetFieldID (env, cls, "startingCurve", "I");
@@ -165,6 +166,7 @@ const char *cpath;
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.INVALID_NUMBER,
 			0, 0, zdssErrorSeverity.WARNING, pdc->pathname, "zpdRetrieve, numberCurves");
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		zstructFree(pdc);
 		return status;
 	}
 
@@ -177,6 +179,7 @@ const char *cpath;
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.INVALID_NUMBER,
 			0, 0, zdssErrorSeverity.WARNING, pdc->pathname, "zpdRetrieve, numberOrdinates");
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		zstructFree(pdc);
 		return status;
 	}
 
diff --git a/heclib/javaHeclib/src/Hec_zpdStore.c b/heclib/javaHeclib/src/Hec_zpdStore.c
index 853cfe7..ce66f8b 100644
--- a/heclib/javaHeclib/src/Hec_zpdStore.c
+++ b/heclib/javaHeclib/src/Hec_zpdStore.c
@@ -74,6 +74,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1zpdStore(
 	if (!pdc) {
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.CANNOT_ALLOCATE_MEMORY,
 			0, 0, zdssErrorSeverity.MEMORY_ERROR, cpath, "zpdStore");
+		(*env)->ReleaseStringUTFChars(env, j_cpath,  cpath);
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
 		return status;
 	}
@@ -88,6 +89,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1zpdStore(
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.INVALID_NUMBER,
 			0, 0, zdssErrorSeverity.WARNING, pdc->pathname, "zpdStore, numberCurves");
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		zstructFree(pdc);
 		return status;
 	}
 
@@ -100,6 +102,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1zpdStore(
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.INVALID_NUMBER,
 			0, 0, zdssErrorSeverity.WARNING, pdc->pathname, "zpdStore, numberOrdinates");
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		zstructFree(pdc);
 		return status;
 	}
 
@@ -119,6 +122,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1zpdStore(
 						numberOrdinates, 0, zdssErrorSeverity.WARNING, pdc->pathname, "zpdStore, no ordinates");
 					(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
 					(*env)->ReleaseDoubleArrayElements (env, jordinateArray, ordinates, 0);
+					zstructFree(pdc);
 					return status;
 				}
 				pdc->doubleOrdinates = (double *)calloc(numberOrdinates, 8);
@@ -126,6 +130,8 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1zpdStore(
 					status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.CANNOT_ALLOCATE_MEMORY,
 						numberOrdinates, 0, zdssErrorSeverity.MEMORY_ERROR, pdc->pathname, "zpdStore");
 					(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+					(*env)->ReleaseDoubleArrayElements (env, jordinateArray, ordinates, 0);
+					zstructFree(pdc);
 					return status;
 				}
 				pdc->allocated[zSTRUCT_PD_doubleOridnates] = 1;			
@@ -141,6 +147,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1zpdStore(
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.INVALID_NUMBER,
 			0, 0, zdssErrorSeverity.WARNING, pdc->pathname, "zpdStore, no Ordinates");
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		zstructFree(pdc);
 		return status;
 	}
 	
diff --git a/heclib/javaHeclib/src/Hec_zrecInfo.c b/heclib/javaHeclib/src/Hec_zrecInfo.c
index 1cf0149..9dde1b1 100644
--- a/heclib/javaHeclib/src/Hec_zrecInfo.c
+++ b/heclib/javaHeclib/src/Hec_zrecInfo.c
@@ -178,6 +178,12 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1zrecInfo(
 			tss = zstructTsNewTimes(cpath, startDate, startTime, endDate, endTime);
 			if (!tss) {
 				//  Error out!
+				(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+				(*env)->ReleaseStringUTFChars(env, j_cpath,  cpath);
+				(*env)->ReleaseStringUTFChars(env, j_startDate,  startDate);
+				(*env)->ReleaseStringUTFChars(env, j_startTime,  startTime);
+				(*env)->ReleaseStringUTFChars(env, j_endDate,  endDate);
+				(*env)->ReleaseStringUTFChars(env, j_endTime,  endTime);
 				return -1;
 			}
 			status = ztsRetrieve((long long*)ifltab, tss, 0, 1, 1);
@@ -305,6 +311,12 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1zrecInfo(
 			zStructPairedData* pd = zstructPdNew(cpath);
 			if (!pd) {
 				//  Error out!
+				(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+				(*env)->ReleaseStringUTFChars(env, j_cpath,  cpath);
+				(*env)->ReleaseStringUTFChars(env, j_startDate,  startDate);
+				(*env)->ReleaseStringUTFChars(env, j_startTime,  startTime);
+				(*env)->ReleaseStringUTFChars(env, j_endDate,  endDate);
+				(*env)->ReleaseStringUTFChars(env, j_endTime,  endTime);
 				return -2;
 			}
 			status = zpdRetrieve((long long*)ifltab, pd, 0);
diff --git a/heclib/javaHeclib/src/Hec_ztextRetrieve.c b/heclib/javaHeclib/src/Hec_ztextRetrieve.c
index c20657f..368c728 100644
--- a/heclib/javaHeclib/src/Hec_ztextRetrieve.c
+++ b/heclib/javaHeclib/src/Hec_ztextRetrieve.c
@@ -48,6 +48,8 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztextRetrieve(
 	textStruct = zstructTextNew(cpath); 
 	if (!textStruct) {
 		//  Error out!
+		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		(*env)->ReleaseStringUTFChars(env, j_cpath,  cpath);
 		return -1;
 	}
 
diff --git a/heclib/javaHeclib/src/Hec_ztextStore.c b/heclib/javaHeclib/src/Hec_ztextStore.c
index f611e84..1fde330 100644
--- a/heclib/javaHeclib/src/Hec_ztextStore.c
+++ b/heclib/javaHeclib/src/Hec_ztextStore.c
@@ -46,6 +46,8 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztextStore(
 	textStruct = zstructTextNew(cpath); 
 	if (!textStruct) {
 		//  Error out!
+		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		(*env)->ReleaseStringUTFChars(env, j_cpath,  cpath);
 		return -1;
 	}
 	if (zmessageLevel((long long*)ifltab, MESS_METHOD_JNI_ID, MESS_LEVEL_USER_DIAG)) {		
@@ -68,6 +70,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztextStore(
 						zmessageDebugInt((long long*)ifltab, DSS_FUNCTION_javaNativeInterface_ID, "Text string to store.  Number characters: ", textStruct->numberTextChars);
 					}
 				}
+				(*env)->ReleaseStringUTFChars(env, jstr,  cstr);
 			}
 		}
 	}
@@ -103,11 +106,11 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztextStore(
 									else {
 										count++; 
 									}
+									(*env)->ReleaseStringUTFChars(env, jstr,  cstr);
 								}
 								else {
 									count++; 
 								}
-								(*env)->ReleaseStringUTFChars(env, jstr,  cstr);
 							}
 						}
 					}
diff --git a/heclib/javaHeclib/src/Hec_ztinRetrieve.c b/heclib/javaHeclib/src/Hec_ztinRetrieve.c
index dc30a7f..bbcee5c 100644
--- a/heclib/javaHeclib/src/Hec_ztinRetrieve.c
+++ b/heclib/javaHeclib/src/Hec_ztinRetrieve.c
@@ -71,7 +71,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinRetrieve(
 
 	if (!tinStruct) {
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.CANNOT_ALLOCATE_MEMORY,
-			0, 0, zdssErrorSeverity.MEMORY_ERROR, tinStruct->pathname, "ztinRetrieve, tinStruct");
+			0, 0, zdssErrorSeverity.MEMORY_ERROR, "", "ztinRetrieve, tinStruct");
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
 		return status;
 	}
@@ -113,6 +113,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinRetrieve(
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.INVALID_PARAMETER,
 			0, 0, zdssErrorSeverity.WARNING, tinStruct->pathname, "ztinStore, SpatialReferenceSystem");
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		zstructFree(tinStruct);
 		return status;
 	}
 
@@ -128,6 +129,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinRetrieve(
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.INVALID_NUMBER,
 			0, 0, zdssErrorSeverity.WARNING, tinStruct->pathname, "ztinStore, SRSType");
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		zstructFree(tinStruct);
 		return status;
 	}
 
@@ -146,6 +148,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinRetrieve(
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.INVALID_PARAMETER,
 			0, 0, zdssErrorSeverity.WARNING, tinStruct->pathname, "ztinStore, SRSName");
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		zstructFree(tinStruct);
 		return status;
 	}
 
@@ -164,6 +167,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinRetrieve(
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.INVALID_PARAMETER,
 			0, 0, zdssErrorSeverity.WARNING, tinStruct->pathname, "ztinStore, SRSUnits");
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		zstructFree(tinStruct);
 		return status;
 	}
 
@@ -184,6 +188,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinRetrieve(
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.INVALID_PARAMETER,
 			0, 0, zdssErrorSeverity.WARNING, tinStruct->pathname, "ztinStore, units");
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		zstructFree(tinStruct);
 		return status;
 	}
 
@@ -202,6 +207,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinRetrieve(
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.INVALID_PARAMETER,
 			0, 0, zdssErrorSeverity.WARNING, tinStruct->pathname, "ztinStore, type");
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		zstructFree(tinStruct);
 		return status;
 	}
 
@@ -220,6 +226,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinRetrieve(
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.INVALID_PARAMETER,
 			0, 0, zdssErrorSeverity.WARNING, tinStruct->pathname, "ztinStore, timeZoneName");
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		zstructFree(tinStruct);
 		return status;
 	}
 
@@ -232,6 +239,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinRetrieve(
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.INVALID_NUMBER,
 			0, 0, zdssErrorSeverity.WARNING, tinStruct->pathname, "ztinStore, minXCoordinate");
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		zstructFree(tinStruct);
 		return status;
 	}
 
@@ -244,6 +252,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinRetrieve(
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.INVALID_NUMBER,
 			0, 0, zdssErrorSeverity.WARNING, tinStruct->pathname, "ztinStore, minYCoordinate");
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		zstructFree(tinStruct);
 		return status;
 	}
 
@@ -256,6 +265,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinRetrieve(
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.INVALID_NUMBER,
 			0, 0, zdssErrorSeverity.WARNING, tinStruct->pathname, "ztinStore, maxXCoordinate");
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		zstructFree(tinStruct);
 		return status;
 	}
 
@@ -268,6 +278,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinRetrieve(
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.INVALID_NUMBER,
 			0, 0, zdssErrorSeverity.WARNING, tinStruct->pathname, "ztinStore, maxYCoordinate");
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		zstructFree(tinStruct);
 		return status;
 	}
 
@@ -280,6 +291,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinRetrieve(
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.INVALID_NUMBER,
 			0, 0, zdssErrorSeverity.WARNING, tinStruct->pathname, "ztinStore, minValue");
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		zstructFree(tinStruct);
 		return status;
 	}
 
@@ -292,6 +304,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinRetrieve(
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.INVALID_NUMBER,
 			0, 0, zdssErrorSeverity.WARNING, tinStruct->pathname, "ztinStore, meanValue");
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		zstructFree(tinStruct);
 		return status;
 	}
 
@@ -304,6 +317,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinRetrieve(
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.INVALID_NUMBER,
 			0, 0, zdssErrorSeverity.WARNING, tinStruct->pathname, "ztinStore, maxValue");
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		zstructFree(tinStruct);
 		return status;
 	}
 
@@ -319,6 +333,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinRetrieve(
 			status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.INVALID_NUMBER,
 				tinStruct->numberPoints, 0, zdssErrorSeverity.WARNING, tinStruct->pathname, "ztinStore, numberPoints");
 			(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+			zstructFree(tinStruct);
 			return status;
 		}
 	}	
@@ -326,6 +341,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinRetrieve(
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.INVALID_NUMBER,
 			0, 0, zdssErrorSeverity.WARNING, tinStruct->pathname, "ztinStore, numberPoints");
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		zstructFree(tinStruct);
 		return status;
 	}
 
@@ -338,6 +354,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinRetrieve(
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.INVALID_NUMBER,
 			0, 0, zdssErrorSeverity.WARNING, tinStruct->pathname, "ztinStore, slendernessRatio");
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		zstructFree(tinStruct);
 		return status;
 	}
 
diff --git a/heclib/javaHeclib/src/Hec_ztinStore.c b/heclib/javaHeclib/src/Hec_ztinStore.c
index a66469a..8accef8 100644
--- a/heclib/javaHeclib/src/Hec_ztinStore.c
+++ b/heclib/javaHeclib/src/Hec_ztinStore.c
@@ -71,7 +71,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinStore(
 
 	if (!tinStruct) {
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.CANNOT_ALLOCATE_MEMORY,
-			0, 0, zdssErrorSeverity.MEMORY_ERROR, tinStruct->pathname, "ztinStore, tinStruct");
+			0, 0, zdssErrorSeverity.MEMORY_ERROR, "", "ztinStore, tinStruct");
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
 		return status;
 	}
@@ -94,6 +94,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinStore(
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.INVALID_NUMBER,
 			0, 0, zdssErrorSeverity.WARNING, tinStruct->pathname, "ztinStore, SpatialReferenceSystem");
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		zstructFree(tinStruct);
 		return status;
 	}
 
@@ -106,6 +107,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinStore(
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.INVALID_NUMBER,
 			0, 0, zdssErrorSeverity.WARNING, tinStruct->pathname, "ztinStore, SRSType");
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		zstructFree(tinStruct);
 		return status;
 	}
 
@@ -220,6 +222,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinStore(
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.INVALID_NUMBER,
 			0, 0, zdssErrorSeverity.WARNING, tinStruct->pathname, "ztinStore, numberPoints");
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		zstructFree(tinStruct);
 		return status;
 	}
 	fid = (*env)->GetFieldID (env, cls, "slendernessRatio", "D");
@@ -246,6 +249,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinStore(
 						numbercoordinates, 0, zdssErrorSeverity.WARNING, tinStruct->pathname, "ztinStore, no X doubArray");
 					(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
 					(*env)->ReleaseDoubleArrayElements (env, jdoubArray, doubArray, 0);
+					zstructFree(tinStruct);
 					return status;
 				}
 				tinStruct->xCoordinate = (float *)calloc(numbercoordinates, 4);
@@ -253,6 +257,8 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinStore(
 					status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.CANNOT_ALLOCATE_MEMORY,
 						numbercoordinates, 0, zdssErrorSeverity.MEMORY_ERROR, tinStruct->pathname, "ztinStore, xCoordinate");
 					(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+					(*env)->ReleaseDoubleArrayElements(env, jdoubArray, doubArray, 0);
+					zstructFree(tinStruct);
 					return status;
 				}
 				tinStruct->allocated[zSTRUCT_TIN_xCoordinate] = 1;	
@@ -266,6 +272,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinStore(
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.INVALID_NUMBER,
 			0, 0, zdssErrorSeverity.WARNING, tinStruct->pathname, "ztinStore, no xCoordinates");
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		zstructFree(tinStruct);
 		return status;
 	}
 
@@ -281,6 +288,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinStore(
 						numbercoordinates, 0, zdssErrorSeverity.WARNING, tinStruct->pathname, "ztinStore, no Y doubArray");
 					(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
 					(*env)->ReleaseDoubleArrayElements (env, jdoubArray, doubArray, 0);
+					zstructFree(tinStruct);
 					return status;
 				}
 				tinStruct->yCoordinate = (float *)calloc(numbercoordinates, 4);
@@ -288,6 +296,8 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinStore(
 					status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.CANNOT_ALLOCATE_MEMORY,
 						numbercoordinates, 0, zdssErrorSeverity.MEMORY_ERROR, tinStruct->pathname, "ztinStore, yCoordinate");
 					(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+					(*env)->ReleaseDoubleArrayElements(env, jdoubArray, doubArray, 0);
+					zstructFree(tinStruct);
 					return status;
 				}
 				tinStruct->allocated[zSTRUCT_TIN_yCoordinate] = 1;	
@@ -301,6 +311,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinStore(
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.INVALID_NUMBER,
 			0, 0, zdssErrorSeverity.WARNING, tinStruct->pathname, "ztinStore, no yCoordinates");
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		zstructFree(tinStruct);
 		return status;
 	}
 
@@ -316,6 +327,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinStore(
 						numbercoordinates, 0, zdssErrorSeverity.WARNING, tinStruct->pathname, "ztinStore, no value array");
 					(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
 					(*env)->ReleaseDoubleArrayElements (env, jdoubArray, doubArray, 0);
+					zstructFree(tinStruct);
 					return status;
 				}
 				tinStruct->value = (float *)calloc(numbercoordinates, 4);
@@ -323,6 +335,8 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinStore(
 					status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.CANNOT_ALLOCATE_MEMORY,
 						numbercoordinates, 0, zdssErrorSeverity.MEMORY_ERROR, tinStruct->pathname, "ztinStore,  value");
 					(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+					(*env)->ReleaseDoubleArrayElements(env, jdoubArray, doubArray, 0);
+					zstructFree(tinStruct);
 					return status;
 				}
 				tinStruct->allocated[zSTRUCT_TIN_value] = 1;	
@@ -336,6 +350,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinStore(
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.INVALID_NUMBER,
 			0, 0, zdssErrorSeverity.WARNING, tinStruct->pathname, "ztinStore, no yCoordinates");
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		zstructFree(tinStruct);
 		return status;
 	}
 
@@ -351,6 +366,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinStore(
 						numbercoordinates, 0, zdssErrorSeverity.WARNING, tinStruct->pathname, "ztinStore, no pointType array");
 					(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
 					(*env)->ReleaseIntArrayElements (env, jintAry, intAry, 0);
+					zstructFree(tinStruct);
 					return status;
 				}
 				tinStruct->pointType = (int *)calloc(numbercoordinates, 4);
@@ -358,6 +374,8 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinStore(
 					status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.CANNOT_ALLOCATE_MEMORY,
 						numbercoordinates, 0, zdssErrorSeverity.MEMORY_ERROR, tinStruct->pathname, "ztinStore, pointType");
 					(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+					(*env)->ReleaseIntArrayElements(env, jintAry, intAry, 0);
+					zstructFree(tinStruct);
 					return status;
 				}
 				tinStruct->allocated[zSTRUCT_TIN_pointType] = 1;	
@@ -371,6 +389,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinStore(
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.INVALID_NUMBER,
 			0, 0, zdssErrorSeverity.WARNING, tinStruct->pathname, "ztinStore, no pointType");
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		zstructFree(tinStruct);
 		return status;
 	}
 
@@ -387,6 +406,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinStore(
 						numbercoordinates, 0, zdssErrorSeverity.WARNING, tinStruct->pathname, "ztinStore, no numberConnections array");
 					(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
 					(*env)->ReleaseIntArrayElements (env, jintAry, intAry, 0);
+					zstructFree(tinStruct);
 					return status;
 				}
 				tinStruct->numberConnections = (int *)calloc(numbercoordinates, 4);
@@ -394,6 +414,8 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinStore(
 					status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.CANNOT_ALLOCATE_MEMORY,
 						numbercoordinates, 0, zdssErrorSeverity.MEMORY_ERROR, tinStruct->pathname, "ztinStore, numberConnections");
 					(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+					(*env)->ReleaseIntArrayElements(env, jintAry, intAry, 0);
+					zstructFree(tinStruct);
 					return status;
 				}
 				tinStruct->allocated[zSTRUCT_TIN_numberConnections] = 1;	
@@ -407,6 +429,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinStore(
 		status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.INVALID_NUMBER,
 			0, 0, zdssErrorSeverity.WARNING, tinStruct->pathname, "ztinStore, no numberConnections");
 		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		zstructFree(tinStruct);
 		return status;
 	}
 
@@ -426,6 +449,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinStore(
 				status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.CANNOT_ALLOCATE_MEMORY,
 					numbercoordinates, 0, zdssErrorSeverity.MEMORY_ERROR, tinStruct->pathname, "ztinStore, numberConnections");
 				(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+				zstructFree(tinStruct);
 				return status;
 			}
 			tinStruct->allocated[zSTRUCT_TIN_numberConnections] = 1;	
@@ -450,6 +474,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztinStore(
 				status = zerrorProcessing((long long*)ifltab, MESS_METHOD_JNI_ID, zdssErrorCodes.CANNOT_ALLOCATE_MEMORY,
 						numbercoordinates, 0, zdssErrorSeverity.MEMORY_ERROR, tinStruct->pathname, "ztinStore, connection array");
 				(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+				zstructFree(tinStruct);
 				return status;
 			}
 			tinStruct->allocated[zSTRUCT_TIN_connection] = 1;
diff --git a/heclib/javaHeclib/src/Hec_ztsRetrieve.c b/heclib/javaHeclib/src/Hec_ztsRetrieve.c
index 8e897e1..bc49a39 100644
--- a/heclib/javaHeclib/src/Hec_ztsRetrieve.c
+++ b/heclib/javaHeclib/src/Hec_ztsRetrieve.c
@@ -89,6 +89,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztsRetrieve(
 	(*env)->ReleaseStringUTFChars(env, j_endTime, endTime);
 	if (!tss) {
 		//  Error out!
+		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
 		return -1;
 	}
 	
@@ -356,6 +357,8 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztsRetrieve(
 				
 				if (!tss->doubleProfileDepths && !tss->floatProfileDepths) {
 					//   No profile data?
+					(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+					zstructFree(tss);
 					return -1;
 				}
 				if (tss->floatProfileDepths) {
@@ -386,6 +389,8 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztsRetrieve(
 				}
 				if (!tss->doubleProfileValues && !tss->floatProfileValues) {
 					//   No profile data?
+					(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+					zstructFree(tss);
 					return -1;
 				}
 				number = tss->numberValues * tss->profileDepthsNumber;
diff --git a/heclib/javaHeclib/src/Hec_zwhatChanged.c b/heclib/javaHeclib/src/Hec_zwhatChanged.c
index ecc2763..3d0e5d5 100644
--- a/heclib/javaHeclib/src/Hec_zwhatChanged.c
+++ b/heclib/javaHeclib/src/Hec_zwhatChanged.c
@@ -40,7 +40,8 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1zwhatChanged(
 	status = zwhatChanged((long long*)ifltab, catStruct);
 	
 	if (zisError(status)) {
-		free(catStruct);
+		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		zstructFree(catStruct);
 		return status;
 	}
 
diff --git a/heclib/javaHeclib/src/Hec_zwhatChangedCompare.c b/heclib/javaHeclib/src/Hec_zwhatChangedCompare.c
index 0d1776e..ff838a5 100644
--- a/heclib/javaHeclib/src/Hec_zwhatChangedCompare.c
+++ b/heclib/javaHeclib/src/Hec_zwhatChangedCompare.c
@@ -59,8 +59,12 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1zwhatChangedCompare(
 	status = zwhatChangedCompare((long long*)ifltab, catStructBefore, catStructChanged, pathWithWild, boolUseCRC);
 	
 	if (zisError(status)) {
-		free(catStructBefore);
-		free(catStructChanged);
+		if (j_pathWithWild) {
+			(*env)->ReleaseStringUTFChars (env, j_pathWithWild, pathWithWild);
+		}
+		(*env)->ReleaseIntArrayElements(env, j_ifltab, ifltab, 0);
+		zstructFree(catStructBefore);
+		zstructFree(catStructChanged);
 		return status;
 	}
 
diff --git a/heclib/javaHeclib/src/JavaCatalogToC.c b/heclib/javaHeclib/src/JavaCatalogToC.c
index c9f5256..dd9d132 100644
--- a/heclib/javaHeclib/src/JavaCatalogToC.c
+++ b/heclib/javaHeclib/src/JavaCatalogToC.c
@@ -71,7 +71,9 @@ void JavaCatalogToC(
     if (fid != 0) {
 		jpathname = (*env)->GetObjectField(env, j_dssCatalog, fid); 
 		if (jpathname) {
-			catStruct->pathWithWildChars = mallocAndCopy((char *)(*env)->GetStringUTFChars(env, jpathname,  0));
+			pathname = (*env)->GetStringUTFChars(env, jpathname,  0);
+			catStruct->pathWithWildChars = mallocAndCopy(pathname);
+			(*env)->ReleaseStringUTFChars(env, jpathname, pathname);
 			(*env)->DeleteLocalRef(env, jpathname);
 		}
     }
-- 
2.43.0


From 11c9ae25827bf9b5859dd9fe608c08430bc68ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:21 +0000
Subject: [PATCH 37/66] fix: Hec_zaliasList frees the list of aliases

---
 heclib/javaHeclib/src/Hec_zaliasList.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/heclib/javaHeclib/src/Hec_zaliasList.c b/heclib/javaHeclib/src/Hec_zaliasList.c
index f52b167..b044c75 100644
--- a/heclib/javaHeclib/src/Hec_zaliasList.c
+++ b/heclib/javaHeclib/src/Hec_zaliasList.c
@@ -1,3 +1,4 @@
+#include <stdlib.h>
 #include <string.h>
 #include <jni.h>
 #include "heclib.h"
@@ -53,6 +54,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1zaliasList(
 			(*env)->SetObjectField (env, j_pathList, fid, stringArray);
 		}
 		(*env)->DeleteLocalRef(env, stringArray);
+		free(pathList);
 	}
 
 	(*env)->ReleaseStringUTFChars(env, j_aliasPath,  aliasPath);
-- 
2.43.0


From 5941424d340b15d4762b8b37c93c8cb31df5f668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:08 +0000
Subject: [PATCH 38/66] fix: ztsRetrieveIrregArgs returns once the structure is
 freed on an error

---
 heclib/heclib_c/src/DssInterface/ztsRetrieveIrregArgs.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/heclib/heclib_c/src/DssInterface/ztsRetrieveIrregArgs.c b/heclib/heclib_c/src/DssInterface/ztsRetrieveIrregArgs.c
index ea4e2df..2edb94a 100644
--- a/heclib/heclib_c/src/DssInterface/ztsRetrieveIrregArgs.c
+++ b/heclib/heclib_c/src/DssInterface/ztsRetrieveIrregArgs.c
@@ -54,12 +54,10 @@ int  ztsRetrieveIrregArgs(long long *ifltab, const char *pathname,
 
 	status = ztsRetrieve(ifltab, tss, 0, retrieveDoublesFlag, boolGetQuality);
 
-	if (zisError(status)) {
-		zstructFree(tss);
-	}
-
-	if (status == STATUS_RECORD_NOT_FOUND) {
+	if (zisError(status) || (status == STATUS_RECORD_NOT_FOUND)) {
+		*numberRead = 0;
 		zstructFree(tss);
+		return status;
 	}
 
 
-- 
2.43.0


From d0358f8bc0ca56f08a8c47193b6d681367118e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:08 +0000
Subject: [PATCH 39/66] fix: the sorted catalog gives back its lists, temporary
 names, stream and descriptors on every path

---
 .../heclib_c/src/Internal/zcatInternalSort.c  | 77 ++++++++++++++++---
 1 file changed, 67 insertions(+), 10 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/zcatInternalSort.c b/heclib/heclib_c/src/Internal/zcatInternalSort.c
index 0c4239a..f559ac0 100644
--- a/heclib/heclib_c/src/Internal/zcatInternalSort.c
+++ b/heclib/heclib_c/src/Internal/zcatInternalSort.c
@@ -177,6 +177,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 								status = writeBytes(catalogHandle, nonSortedStruct->pathnameList[j], (unsigned int)strlen(nonSortedStruct->pathnameList[j]));
 								if (status < 0) {
 									perror("Attempting to write pathname ");
+									free(sortAddresses);
 									if (nonSortedStruct) zstructFree(nonSortedStruct);
 									nonSortedStruct = 0;
 									return status;
@@ -184,6 +185,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 								status = writeBytes(catalogHandle, "\n", (size_t)1);
 								if (status < 0) {
 									perror("Attempting to write pathname ");
+									free(sortAddresses);
 									if (nonSortedStruct) zstructFree(nonSortedStruct);
 									nonSortedStruct = 0;
 									return status;
@@ -200,18 +202,24 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 				sortedStruct->listSize = nonSortedStruct->numberPathnames;
 				sortedStruct->pathnameList = (char **)calloc((size_t)sortedStruct->listSize, WORD_SIZE);
 				if (!sortedStruct->pathnameList) {
-					return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
+					status = zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
 									zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, sortedStruct->listSize, 0,
 									zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for sortedStruct->pathnameList");
+					free(sortAddresses);
+					if (nonSortedStruct) zstructFree(nonSortedStruct);
+					return status;
 				}
 				sortedStruct->allocated[zSTRUCT_pathname] = 1;
 				if (sortedStruct->boolIncludeDates) {
 					sortedStruct->startDates = (int *)calloc((size_t)sortedStruct->listSize, WORD_SIZE);
 					sortedStruct->endDates   = (int *)calloc((size_t)sortedStruct->listSize, WORD_SIZE);
 					if (!sortedStruct->startDates || !sortedStruct->endDates) {
-						return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
+						status = zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
 										zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, sortedStruct->listSize, 0,
 										zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for startDates / endDates");
+						free(sortAddresses);
+						if (nonSortedStruct) zstructFree(nonSortedStruct);
+						return status;
 					}
 				}
 				icount = 0;
@@ -250,6 +258,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 	tempUnsorted=(char*)malloc(32*sizeof(char));
 	memset( tempUnsorted, 0, sizeof(tempUnsorted));
 	strcpy( tempUnsorted, "/tmp/cat_unsorted-XXXXXX");
+	//  Only the name is needed; the file is opened again below
 	int fileId = mkstemp(tempUnsorted);
 	if (fileId<1)
 	{
@@ -258,6 +267,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 		free(tempUnsorted);
 		return -1;
 	}
+	close(fileId);
 	tempSorted=(char*)malloc(32*sizeof(char));
 	memset( tempSorted, 0, sizeof(tempSorted));
 	strcpy( tempSorted, "/tmp/cat_sorted-XXXXXX");
@@ -266,9 +276,12 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 	{
 		if (nonSortedStruct) zstructFree(nonSortedStruct);
 		nonSortedStruct = 0;
+		unlink(tempUnsorted);
+		free(tempUnsorted);
 		free(tempSorted);
 		return -1;
 	}
+	close(fileId);
 #endif
 	if (!tempUnsorted) {
 		if (nonSortedStruct) zstructFree(nonSortedStruct);
@@ -294,9 +307,6 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 	}
 	//  For both DSS-6 and DSS-7
 	numberPathnames = zcatalogInternal (ifltab, pathWithWild, nonSortedStruct, unsortedHandle, 0, 0, boolCollection, 1);
-	if (numberPathnames < 0) {
-		return numberPathnames;
-	}
 	closeFile(unsortedHandle);
 	unsortedHandle = 0;
 	if (numberPathnames < 0) {
@@ -309,7 +319,7 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 		free(tempSorted);
 		if (nonSortedStruct) zstructFree(nonSortedStruct);
 		nonSortedStruct = 0;
-		return status;
+		return numberPathnames;
 	}
 
 	status = sortfiles (tempUnsorted, tempSorted);
@@ -342,27 +352,51 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 		sortedStruct->listSize = numberPathnames;
 		sortedStruct->pathnameList = (char **)calloc((size_t)sortedStruct->listSize, WORD_SIZE);
 		if (!sortedStruct->pathnameList) {
-				return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
+				status = zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
 							zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, sortedStruct->listSize, 0,
 							zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for sortedStruct->pathnameList");
+#ifdef _MSC_VER
+				_unlink(tempSorted);
+#else
+				unlink(tempSorted);
+#endif
+				free(tempSorted);
+				if (nonSortedStruct) zstructFree(nonSortedStruct);
+				return status;
 		}
 		sortedStruct->allocated[zSTRUCT_pathname] = 1;
 		if ((sortedStruct->boolIncludeDates) && (nonSortedStruct->startDates)) {
 			sortedStruct->startDates = (int *)calloc((size_t)sortedStruct->listSize, WORD_SIZE);
 			sortedStruct->endDates   = (int *)calloc((size_t)sortedStruct->listSize, WORD_SIZE);
 			if (!sortedStruct->startDates || !sortedStruct->endDates) {
-				return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
+				status = zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
 								zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, sortedStruct->listSize, 0,
 								zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for startDates / endDates");
+#ifdef _MSC_VER
+				_unlink(tempSorted);
+#else
+				unlink(tempSorted);
+#endif
+				free(tempSorted);
+				if (nonSortedStruct) zstructFree(nonSortedStruct);
+				return status;
 			}
 		}
 		if (zgetVersion(ifltab) == 7) {
 			if ((numberPathnames == (int)fileHeader[zdssFileKeys.knumberRecords]) && (nonSortedStruct->sortAddresses)){
 				sortedStruct->sortAddresses = (long long*)calloc((size_t)sortedStruct->listSize, LONG_SIZE);
 				if (!sortedStruct->sortAddresses) {
-					return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
+					status = zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
 									zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, sortedStruct->listSize, 0,
 									zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for sortedStruct->sortAddresses");
+#ifdef _MSC_VER
+					_unlink(tempSorted);
+#else
+					unlink(tempSorted);
+#endif
+					free(tempSorted);
+					if (nonSortedStruct) zstructFree(nonSortedStruct);
+					return status;
 				}
 			}
 		}
@@ -409,6 +443,13 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 				status = writeBytes(catalogHandle, nonSortedStruct->pathnameList[sequence], (unsigned int)strlen(nonSortedStruct->pathnameList[sequence]));
 				if (status < 0) {
 					perror("Attempting to write pathname ");
+					fclose(sortedFP);
+#ifdef _MSC_VER
+					_unlink(tempSorted);
+#else
+					unlink(tempSorted);
+#endif
+					free(tempSorted);
 					if (nonSortedStruct) zstructFree(nonSortedStruct);
 					nonSortedStruct = 0;
 					return status;
@@ -416,6 +457,13 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 				status = writeBytes(catalogHandle, "\n", (size_t)1);
 				if (status < 0) {
 					perror("Attempting to write pathname ");
+					fclose(sortedFP);
+#ifdef _MSC_VER
+					_unlink(tempSorted);
+#else
+					unlink(tempSorted);
+#endif
+					free(tempSorted);
 					if (nonSortedStruct) zstructFree(nonSortedStruct);
 					nonSortedStruct = 0;
 					return status;
@@ -424,9 +472,18 @@ int zcatInternalSort(long long *ifltab, const char *pathWithWild, zStructCatalog
 			if (sortedStruct) {
 				sortedStruct->pathnameList[i] = mallocAndCopy(nonSortedStruct->pathnameList[sequence]);
 				if (!sortedStruct->pathnameList[i]) {
-					return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
+					status = zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
 									zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
 									zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for pathname");
+					fclose(sortedFP);
+#ifdef _MSC_VER
+					_unlink(tempSorted);
+#else
+					unlink(tempSorted);
+#endif
+					free(tempSorted);
+					if (nonSortedStruct) zstructFree(nonSortedStruct);
+					return status;
 				}
 				if ((sortedStruct->startDates) && (sortedStruct->endDates) &&
 					(nonSortedStruct->startDates) && (nonSortedStruct->endDates)) {
-- 
2.43.0


From 1e8426d864248f3fad5dcce51a273eb80b868b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:08 +0000
Subject: [PATCH 40/66] fix: copying a record gives back the transfer structure
 and unlocks the file that was locked

---
 heclib/heclib_c/src/Internal/zcopyRecordInternal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zcopyRecordInternal.c b/heclib/heclib_c/src/Internal/zcopyRecordInternal.c
index 3b27086..8e441e6 100644
--- a/heclib/heclib_c/src/Internal/zcopyRecordInternal.c
+++ b/heclib/heclib_c/src/Internal/zcopyRecordInternal.c
@@ -252,6 +252,7 @@ int zcopyRecordInternal(long long *ifltabFrom, long long *ifltabTo, const char *
 	if (!boolDuplicate) {
 		status = zlockActive(ifltabTo, LOCKING_LEVEL_MID, LOCKING_LOCK_ON, LOCKING_FLUSH_ON);
 		if (zisError(status)) {
+			zstructFree(ztransfer);
 			return zerrorEncodeHigh(status, DSS_FUNCTION_zcopyRecord_ID);
 		}
 		//  Write the dataset to the file
@@ -266,12 +267,13 @@ int zcopyRecordInternal(long long *ifltabFrom, long long *ifltabTo, const char *
 	else {
 		status = zlockActive(ifltabFrom, LOCKING_LEVEL_MID, LOCKING_LOCK_ON, LOCKING_FLUSH_ON);
 		if (zisError(status)) {
+			zstructFree(ztransfer);
 			return zerrorEncodeHigh(status, DSS_FUNCTION_zcopyRecord_ID);
 		}
 		//  Write the dataset to the file
 		status = zwrite(ifltabFrom, ztransfer);
 		if (zisError(status)) {
-			zlockActive(ifltabTo, LOCKING_LEVEL_SUPER, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			zlockActive(ifltabFrom, LOCKING_LEVEL_SUPER, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
 			zstructFree(ztransfer);
 			return zerrorUpdate(ifltabFrom, status, DSS_FUNCTION_zcopyRecord_ID);
 		}
-- 
2.43.0


From e606494c685792aa56a98e5add2a3cb275a8210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:08 +0000
Subject: [PATCH 41/66] fix: time series retrieve gives back its work arrays on
 every path

---
 heclib/heclib_c/src/Internal/ztsIrregReadBlock.c | 4 ++++
 heclib/heclib_c/src/Internal/ztsRetrieveReg7.c   | 7 +++++++
 heclib/heclib_c/src/Public/ztsRetrieve.c         | 2 ++
 3 files changed, 13 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c b/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
index 6fbefb5..5a32d11 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
@@ -465,6 +465,10 @@ int ztsIrregReadBlock(long long *ifltab, const char *pathname, long long *info,
 
 		if (zisError(status)) {
 			zstructFree(ztransfer);
+			if (valuesRead) free(valuesRead);
+			if (qualityRead) free(qualityRead);
+			if (notesRead) free(notesRead);
+			if (cnotesRead) free(cnotesRead);
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsIrregReadBlock_ID);
 		}
 
diff --git a/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c b/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c
index affb916..bbcbf02 100644
--- a/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c
+++ b/heclib/heclib_c/src/Internal/ztsRetrieveReg7.c
@@ -261,6 +261,8 @@ int ztsRetrieveReg7(long long *ifltab, zStructTimeSeries *tss,
 		}
 		if (blockStartPosition < 0) {
 			//  Error - should not occur
+			if (buffer) free(buffer);
+			if (profileDepths) free(profileDepths);
 			return zerrorProcessing(ifltab, DSS_FUNCTION_ztsRetrieveReg_ID, zdssErrorCodes.INVALID_DATE_TIME,
 				blockStartPosition, 0, zdssErrorSeverity.WARNING, tss->pathname, "");
 		}
@@ -280,6 +282,7 @@ int ztsRetrieveReg7(long long *ifltab, zStructTimeSeries *tss,
 			status = ztsGetSizesInternal(ifltab, tss->timeWindow, &timeSeriesRecordSizes);
 			if (zisError(status)) {
 				if (buffer) free(buffer);
+				if (profileDepths) free(profileDepths);
 				return zerrorUpdate(ifltab, status, DSS_FUNCTION_ztsRetrieveReg_ID);
 			}
 			if (status > 0) {
@@ -502,6 +505,8 @@ int ztsRetrieveReg7(long long *ifltab, zStructTimeSeries *tss,
 					//  dataType == 0 is missing; okay
 					if (timeSeriesRecordSizes.dataType != 0) {
 						//  Different data type - error out!
+						if (buffer) free(buffer);
+						if (profileDepths) free(profileDepths);
 						return zerrorProcessing(ifltab, DSS_FUNCTION_ztsRetrieveReg_ID,
 												zdssErrorCodes.DIFFERENT_RECORD_TYPE, timeSeriesRecordSizes.dataType,
 												0, zdssErrorSeverity.WARNING, tss->pathname, "");
@@ -578,6 +583,8 @@ int ztsRetrieveReg7(long long *ifltab, zStructTimeSeries *tss,
 				if (boolProfileRecord) {
 					//  Profile data - do we need to convert?
 					if (profileDepthsNumberRead < profileDepthsArraySize) {
+						if (buffer) free(buffer);
+						if (profileDepths) free(profileDepths);
 						return zerrorProcessing(ifltab, DSS_FUNCTION_ztsRetrieveReg_ID,
 													zdssErrorCodes.DIFFERENT_PROFILE_NUMBER, profileDepthsNumberRead,
 													(long long)profileDepthsArraySize,
diff --git a/heclib/heclib_c/src/Public/ztsRetrieve.c b/heclib/heclib_c/src/Public/ztsRetrieve.c
index ade0e6a..6be4193 100644
--- a/heclib/heclib_c/src/Public/ztsRetrieve.c
+++ b/heclib/heclib_c/src/Public/ztsRetrieve.c
@@ -559,6 +559,7 @@ int ztsRetrieve(long long *ifltab, zStructTimeSeries *tss,
 								zdssErrorSeverity.WARNING,
 								tss->pathname,
 								errmsg);
+							if (vdi != &_vdi) free(vdi);
 							return status;
 						}
 						offset = getOffset(offset, vdi->unit, tss->units);
@@ -580,6 +581,7 @@ int ztsRetrieve(long long *ifltab, zStructTimeSeries *tss,
 								zdssErrorSeverity.WARNING,
 								tss->pathname,
 								errmsg);
+							if (vdi != &_vdi) free(vdi);
 							return status;
 						}
 						else {
-- 
2.43.0


From 05ef9951414bc6f6e0da00a46f6e20b5dc0f7e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:08 +0000
Subject: [PATCH 42/66] fix: paired data store and retrieve give back transfer
 structures and work strings, and free the user header once

---
 heclib/heclib_c/src/Public/zpdRetrieve.c | 13 ++++++++++++-
 heclib/heclib_c/src/Public/zpdStore.c    | 13 +++++++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zpdRetrieve.c b/heclib/heclib_c/src/Public/zpdRetrieve.c
index 4e28509..6f360c1 100644
--- a/heclib/heclib_c/src/Public/zpdRetrieve.c
+++ b/heclib/heclib_c/src/Public/zpdRetrieve.c
@@ -754,6 +754,8 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 								zdssErrorSeverity.WARNING,
 								pds->pathname,
 								errmsg);
+							free(vdiStr);
+							zstructFree(ztransfer);
 							return status;
 						}
 						else {
@@ -781,6 +783,7 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 							zdssErrorSeverity.WARNING,
 							pds->pathname,
 							errmsg);
+						zstructFree(ztransfer);
 						return status;
 				}
 				else {
@@ -806,7 +809,6 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 								"%s:%s;", 
 								VERTICAL_DATUM_INFO_USER_HEADER_PARAM,
 								vdiStr);
-							free(pds->userHeader);
 						}
 					}
 					else {
@@ -861,6 +863,8 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 									zdssErrorSeverity.WARNING,
 									pds->pathname,
 									errmsg);
+								free(headerString);
+								zstructFree(ztransfer);
 								return status;
 							}
 							else {
@@ -883,6 +887,8 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 										zdssErrorSeverity.WARNING,
 										pds->pathname,
 										errmsg);
+									free(headerString);
+									zstructFree(ztransfer);
 									return status;
 								}
 							}
@@ -951,6 +957,8 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 									zdssErrorSeverity.WARNING,
 									pds->pathname,
 									errmsg);
+								free(headerString);
+								zstructFree(ztransfer);
 								return status;
 							}
 							else {
@@ -985,6 +993,8 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 										zdssErrorSeverity.WARNING,
 										pds->pathname,
 										errmsg);
+									free(headerString);
+									zstructFree(ztransfer);
 									return status;
 								}
 							}
@@ -1017,6 +1027,7 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 						"%s:%s;", 
 						VERTICAL_DATUM_USER_HEADER_PARAM,
 						cvertical_datum);
+					if (pds->userHeader && pds->allocated[zSTRUCT_userHeader]) free(pds->userHeader);
 					pds->userHeader = stringToUserHeader(headerString, &pds->userHeaderNumber);
 					pds->allocated[zSTRUCT_userHeader] = TRUE;
 					free(headerString);
diff --git a/heclib/heclib_c/src/Public/zpdStore.c b/heclib/heclib_c/src/Public/zpdStore.c
index 8fcf737..4a4584c 100644
--- a/heclib/heclib_c/src/Public/zpdStore.c
+++ b/heclib/heclib_c/src/Public/zpdStore.c
@@ -924,12 +924,14 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 		//  Lock the file at a high level
 		status =  zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_ON, LOCKING_FLUSH_ON);
 		if (zisError(status)) {
+			zstructFree(ztransfer);
 			FREE_TEMPS_AND_RESTORE
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpdStore_ID);
 		}
 		status = zreadInternal(ifltab, ztransfer, bufferControl, buffer, 0);
 		if (zisError(status)) {
 			zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			zstructFree(ztransfer);
 			FREE_TEMPS_AND_RESTORE
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpdStore_ID);
 		}
@@ -938,6 +940,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 				zdssErrorCodes.WRONG_RECORD_TYPE, DATA_TYPE_PD,
 				(long long)ztransfer->dataType, zdssErrorSeverity.WARNING, ztransfer->pathname, "");
 			zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			zstructFree(ztransfer);
 			FREE_TEMPS_AND_RESTORE
 			return status;
 		}
@@ -1001,6 +1004,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 		}
 		if (!ztransfer->values2) {
 			zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+			zstructFree(ztransfer);
 			FREE_TEMPS_AND_RESTORE
 			return zerrorProcessing(ifltab, DSS_FUNCTION_zpdStore_ID,
 									zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, numberRows, 0,
@@ -1027,6 +1031,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 				status = zgetBuff(ifltab, address, ztransfer->values2, 2, 1, BUFF_READ, bufferControl, buffer);
 				if (zisError(status)) {
 					zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+					zstructFree(ztransfer);
 					FREE_TEMPS_AND_RESTORE
 					return zerrorUpdate(ifltab, status, DSS_FUNCTION_zreadInternal_ID);
 				}
@@ -1060,6 +1065,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 			}
 			else {
 				zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+				zstructFree(ztransfer);
 				FREE_TEMPS_AND_RESTORE
 				return zerrorProcessing(ifltab, DSS_FUNCTION_zpdStore_ID,
 									zdssErrorCodes.NO_DATA_GIVEN, 0, 0,
@@ -1073,6 +1079,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 			status = zputBuff(ifltab, address, ztransfer->values2, (numberRows + offset), sizeValues, BUFF_WRITE, bufferControl, buffer);
 			if (zisError(status)) {
 				zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+				zstructFree(ztransfer);
 				FREE_TEMPS_AND_RESTORE
 				return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
 			}
@@ -1154,6 +1161,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 				ztransfer = zstructTransferNew(pds->pathname, 1);
 				if (!ztransfer) {
 					zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+					free(clabels);
 					FREE_TEMPS_AND_RESTORE
 					return zerrorProcessing(ifltab, DSS_FUNCTION_zpdStore_ID,
 											zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
@@ -1162,6 +1170,8 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 				status = zreadInternal(ifltab, ztransfer, bufferControl, buffer, 0);
 				if (zisError(status)) {
 					zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+					zstructFree(ztransfer);
+					free(clabels);
 					FREE_TEMPS_AND_RESTORE
 					return zerrorUpdate(ifltab, status, DSS_FUNCTION_zpdStore_ID);
 				}
@@ -1170,6 +1180,8 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 						zdssErrorCodes.WRONG_RECORD_TYPE, DATA_TYPE_PD,
 						(long long)ztransfer->dataType, zdssErrorSeverity.WARNING, ztransfer->pathname, "");
 					zlockActive(ifltab, LOCKING_LEVEL_HIGH, LOCKING_LOCK_OFF, LOCKING_FLUSH_OFF);
+					zstructFree(ztransfer);
+					free(clabels);
 					FREE_TEMPS_AND_RESTORE
 					return status;
 				}
@@ -1197,6 +1209,7 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 			status = istat;
 		}
 			if (zisError(status)) {
+			zstructFree(ztransfer);
 			FREE_TEMPS_AND_RESTORE
 			return zerrorUpdate(ifltab, status, DSS_FUNCTION_zwriteInternal_ID);
 		}
-- 
2.43.0


From 8ecd648ca866780b7aa862a7c4cea1c818d35958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:08 +0000
Subject: [PATCH 43/66] fix: binary, text and alias functions give back
 structures, files and lists on every path

---
 heclib/heclib_c/src/Public/zaliasList.c            | 7 ++++++-
 heclib/heclib_c/src/Public/zbinaryRetrieveToFile.c | 3 +++
 heclib/heclib_c/src/Public/zbinaryStoreFromFile.c  | 7 +++++--
 heclib/heclib_c/src/Public/ztextRetrieveToFile.c   | 2 +-
 heclib/heclib_c/src/Public/ztextStoreFromFile.c    | 4 ++++
 5 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zaliasList.c b/heclib/heclib_c/src/Public/zaliasList.c
index 249eb41..b6bb2f4 100644
--- a/heclib/heclib_c/src/Public/zaliasList.c
+++ b/heclib/heclib_c/src/Public/zaliasList.c
@@ -132,6 +132,7 @@ int zaliasList(long long *ifltab, const char* pathname, char** pathameList, int
 		while (1) {
 			status = zget(ifltab, aliasAddress, (int *)binAlias, 4, 2);
 			if (zisError(status)) {
+				free(list);
 				return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasUtil_ID);
 			}
 			if (binAlias[0] == DSS_INFO_FLAG) {
@@ -142,9 +143,11 @@ int zaliasList(long long *ifltab, const char* pathname, char** pathameList, int
 			//  double check that we are still walking down alias bins
 			if (binAlias[zdssBinKeys.kbinStatus] != REC_STATUS_ALIAS) {
 				//  Uh-oh, shouldn't have this number - needs to be a "2"!
-				return zerrorProcessing(ifltab, DSS_FUNCTION_zaliasUtil_ID,
+				status = zerrorProcessing(ifltab, DSS_FUNCTION_zaliasUtil_ID,
 									zdssErrorCodes.RECORD_DOES_NOT_EXIST, 0,
 									0, zdssErrorSeverity.WARNING, list, "");
+				free(list);
+				return status;
 			}
 
 			i8toi4(binAlias[zdssBinKeys.kbinPathLen], &npath, &pathnameSize);
@@ -152,10 +155,12 @@ int zaliasList(long long *ifltab, const char* pathname, char** pathameList, int
 			bin = (long long *)ifltab[zdssKeys.kinfo];
 			status = zget(ifltab, aliasAddress, (int *)bin, number, 2);
 			if (zisError(status)) {
+				free(list);
 				return zerrorUpdate(ifltab, status, DSS_FUNCTION_zaliasUtil_ID);
 			}
 			listTemp = (char *)calloc(*pathnameListLength + npath + 9, 1);
 			if (!listTemp) {
+				free(list);
 				return zerrorProcessing(ifltab, DSS_FUNCTION_zaliasAdd_ID,
 						zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, (*pathnameListLength + npath + 1), 0,
 						zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for alias pathnameList");
diff --git a/heclib/heclib_c/src/Public/zbinaryRetrieveToFile.c b/heclib/heclib_c/src/Public/zbinaryRetrieveToFile.c
index a90bc8c..616d643 100644
--- a/heclib/heclib_c/src/Public/zbinaryRetrieveToFile.c
+++ b/heclib/heclib_c/src/Public/zbinaryRetrieveToFile.c
@@ -97,6 +97,7 @@ int zbinaryRetrieveToFile(long long *ifltab, const char *pathname, const char *f
 	access = 0;
 	status = zopenDisk(filename, &ihandle, access, 0);
 	if (status != STATUS_OKAY) {
+		zstructFree(ztransfer);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_zbinaryRetrieve_ID,
 								zdssErrorCodes.UNABLE_TO_WRITE_FILE, 0, 0,
 								zdssErrorSeverity.WARNING_NO_FILE_ACCESS,
@@ -105,6 +106,8 @@ int zbinaryRetrieveToFile(long long *ifltab, const char *pathname, const char *f
 	status = writeBytes(ihandle, (const char *)ztransfer->values1, ztransfer->logicalNumberValues);
 	if (status < 0) {
 		perror("Write status");
+		closeFile(ihandle);
+		zstructFree(ztransfer);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_zbinaryRetrieve_ID,
 								zdssErrorCodes.UNABLE_TO_WRITE_FILE, 0, 0,
 								zdssErrorSeverity.WARNING_NO_FILE_ACCESS,
diff --git a/heclib/heclib_c/src/Public/zbinaryStoreFromFile.c b/heclib/heclib_c/src/Public/zbinaryStoreFromFile.c
index 37efa32..c8f6129 100644
--- a/heclib/heclib_c/src/Public/zbinaryStoreFromFile.c
+++ b/heclib/heclib_c/src/Public/zbinaryStoreFromFile.c
@@ -80,6 +80,7 @@ int zbinaryStoreFromFile(long long *ifltab, const char *pathname, const char *fi
 	numberCharacters = zfileSize(ihandle);
 	if (numberCharacters <= 0) {
 		perror("Read status");
+		closeFile(ihandle);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_zbinaryStore_ID,
 			zdssErrorCodes.UNABLE_TO_ACCESS_FILE, 0, 0,
 			zdssErrorSeverity.WARNING_NO_FILE_ACCESS,
@@ -88,6 +89,7 @@ int zbinaryStoreFromFile(long long *ifltab, const char *pathname, const char *fi
 
 	transferStruct = zstructTransferNew(pathname, 0);
 	if (!transferStruct) {
+		closeFile(ihandle);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_zbinaryStore_ID,
 								zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
 								zdssErrorSeverity.MEMORY_ERROR,
@@ -100,10 +102,13 @@ int zbinaryStoreFromFile(long long *ifltab, const char *pathname, const char *fi
 	transferStruct->dataType = 600;   ///  CHANGE ME!!!!!
 
 	transferStruct->values1 = (int *)malloc((size_t)transferStruct->values1Number * 4);
+	transferStruct->allocated[zSTRUCT_TRANS_values1] = 1;
 
 	status = readBytes(ihandle, (char *)transferStruct->values1, transferStruct->logicalNumberValues);
 	if (status < 0) {
 		perror("Read status");
+		closeFile(ihandle);
+		zstructFree(transferStruct);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_zbinaryStore_ID,
 								zdssErrorCodes.UNABLE_TO_ACCESS_FILE, 0, 0,
 								zdssErrorSeverity.WARNING_NO_FILE_ACCESS,
@@ -120,8 +125,6 @@ int zbinaryStoreFromFile(long long *ifltab, const char *pathname, const char *fi
 		return status;
 	}
 
-	free(transferStruct->values1);
-	transferStruct->values1 = (int *)0;
 	zstructFree(transferStruct);
 
 	if (zmessageLevel(ifltab, MESS_METHOD_READ_ID, MESS_LEVEL_USER_DIAG)) {
diff --git a/heclib/heclib_c/src/Public/ztextRetrieveToFile.c b/heclib/heclib_c/src/Public/ztextRetrieveToFile.c
index a8fc12b..b9885f5 100644
--- a/heclib/heclib_c/src/Public/ztextRetrieveToFile.c
+++ b/heclib/heclib_c/src/Public/ztextRetrieveToFile.c
@@ -89,7 +89,7 @@ int ztextRetrieveToFile(long long *ifltab, const char *pathname, const char *fil
 	}
 #endif
 	if (status != 0) {
-		fclose(textFileFP);
+		zstructFree(textStruct);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_ztextRetrieve_ID,
 					zdssErrorCodes.UNABLE_TO_WRITE_FILE, status, 0,
 					zdssErrorSeverity.WARNING, pathname, filename);
diff --git a/heclib/heclib_c/src/Public/ztextStoreFromFile.c b/heclib/heclib_c/src/Public/ztextStoreFromFile.c
index c0cf50e..caac48b 100644
--- a/heclib/heclib_c/src/Public/ztextStoreFromFile.c
+++ b/heclib/heclib_c/src/Public/ztextStoreFromFile.c
@@ -90,6 +90,7 @@ int ztextStoreFromFile(long long *ifltab, const char *pathname, const char *file
 	}
 #endif
 	if (status != 0) {
+		zstructFree(textStruct);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_ztextStore_ID,
 					zdssErrorCodes.UNABLE_TO_ACCESS_FILE, status, 0,
 					zdssErrorSeverity.WARNING, pathname, filename);
@@ -104,11 +105,14 @@ int ztextStoreFromFile(long long *ifltab, const char *pathname, const char *file
 	//  Allocate space
 	textStruct->textTable = (char *)malloc((size_t)numberCharacters);
 	if (!textStruct->textTable) {
+		fclose(textFileFP);
+		zstructFree(textStruct);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_ztextStore_ID,
 								zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, numberCharacters, 0,
 								zdssErrorSeverity.MEMORY_ERROR,
 								pathname, "Allocating textTable");
 	}
+	textStruct->allocated[zSTRUCT_TX_textTable] = 1;
 	textStruct->numberRows = numberLines;
 	textStruct->numberColumns = 1;
 	textStruct->numberTableChars = numberCharacters;
-- 
2.43.0


From 641775fc9149bdbd1df4c81a08b4ee496288b46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:08 +0000
Subject: [PATCH 44/66] fix: spatial grid store and TIN retrieve give back
 their transfer structure and work arrays

---
 heclib/heclib_c/src/Public/zspatialGridStore.c   | 5 +++--
 heclib/heclib_c/src/Public/zspatialTinRetrieve.c | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zspatialGridStore.c b/heclib/heclib_c/src/Public/zspatialGridStore.c
index b97243d..4b929aa 100644
--- a/heclib/heclib_c/src/Public/zspatialGridStore.c
+++ b/heclib/heclib_c/src/Public/zspatialGridStore.c
@@ -106,6 +106,8 @@ int zspatialGridStore_extended(long long* ifltab, zStructSpatialGrid* gridStruct
 
 	ztransfer->internalHeaderMode = 1;
 	internalHeader = (int*)calloc(ztransfer->internalHeaderNumber, 4);
+	ztransfer->internalHeader = internalHeader;
+	ztransfer->allocated[zSTRUCT_TRANS_internalHeader] = 1;
 	internalHeader[INT_HEAD_grid_structVersion] = gridStruct->_structVersion;
 	internalHeader[INT_HEAD_grid_type] = gridStruct->_type;
 	internalHeader[INT_HEAD_grid_version] = gridStruct->_version;
@@ -297,6 +299,7 @@ int zspatialGridStore_extended(long long* ifltab, zStructSpatialGrid* gridStruct
 			free(dataValues);
 			break;
 			default:
+				free(dataValues);
 				zstructFree(ztransfer);
 				return zerrorProcessing(ifltab, DSS_FUNCTION_zspatialGridStore_ID, zdssErrorCodes.WRITE_ERROR,
 					0, 0, zdssErrorSeverity.WRITE_ERROR, "", "gridStruct: Unsupported Compression");
@@ -337,8 +340,6 @@ int zspatialGridStore_extended(long long* ifltab, zStructSpatialGrid* gridStruct
 			}
 		}
 	}
-	ztransfer->internalHeader = internalHeader;
-	ztransfer->allocated[zSTRUCT_TRANS_internalHeader] = 1;
 	if (bigEndian()) {
 		zswitchInts(ztransfer->internalHeader, ztransfer->internalHeaderNumber);
 	}
diff --git a/heclib/heclib_c/src/Public/zspatialTinRetrieve.c b/heclib/heclib_c/src/Public/zspatialTinRetrieve.c
index 59d774d..7223384 100644
--- a/heclib/heclib_c/src/Public/zspatialTinRetrieve.c
+++ b/heclib/heclib_c/src/Public/zspatialTinRetrieve.c
@@ -233,6 +233,8 @@ int zspatialTinRetrieve(long long *ifltab, zStructSpatialTin *tinStruct, int boo
 		}
 	}
 
+	zstructFree(ztransfer);
+
 	if (zmessageLevel(ifltab, MESS_METHOD_WRITE_ID, MESS_LEVEL_USER_DIAG)) {
 		zmessageDebugInt(ifltab, DSS_FUNCTION_zspatialTinRetrieve_ID, "Exit; status:  ", status);
 	}
-- 
2.43.0


From 746137c758d091800677d9fd3a56df4b64186e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:08 +0000
Subject: [PATCH 45/66] fix: zwhatChangedCompare gives back the catalog and the
 index on every path

---
 heclib/heclib_c/src/Public/zwhatChangedCompare.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zwhatChangedCompare.c b/heclib/heclib_c/src/Public/zwhatChangedCompare.c
index 10923b8..6e1bb22 100644
--- a/heclib/heclib_c/src/Public/zwhatChangedCompare.c
+++ b/heclib/heclib_c/src/Public/zwhatChangedCompare.c
@@ -99,6 +99,7 @@ int zwhatChangedCompare(long long *ifltab, zStructCatalog *catStructBefore, zStr
 	catStruct->typeWantedEnd = catStructBefore->typeWantedEnd;
 	status = zcatalog(ifltab, pathWithWild, catStruct, catStructBefore->boolSorted);
 	if (status < 0) {
+		zstructFree(catStruct);
 		return zerrorUpdate(ifltab, status, DSS_FUNCTION_zcatalog_ID);
 	}
 
@@ -113,6 +114,7 @@ int zwhatChangedCompare(long long *ifltab, zStructCatalog *catStructBefore, zStr
 
 	index = (int *)calloc((size_t)catStruct->numberPathnames, WORD_SIZE);
 	if (!index) {
+		zstructFree(catStruct);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
 						zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
 						zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for index");
@@ -151,6 +153,8 @@ int zwhatChangedCompare(long long *ifltab, zStructCatalog *catStructBefore, zStr
 
 	catStructChanged->pathnameList = (char **)calloc((size_t)catStructChanged->listSize, WORD_SIZE);
 	if (!catStructChanged->pathnameList) {
+		zstructFree(catStruct);
+		free(index);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
 						zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, catStructChanged->listSize, 0,
 						zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for catStructChanged->pathnameList");
@@ -160,6 +164,8 @@ int zwhatChangedCompare(long long *ifltab, zStructCatalog *catStructBefore, zStr
 		catStructChanged->startDates = (int *)calloc((size_t)catStructChanged->listSize, WORD_SIZE);
 		catStructChanged->endDates   = (int *)calloc((size_t)catStructChanged->listSize, WORD_SIZE);
 		if (!catStructChanged->startDates || !catStructChanged->endDates) {
+			zstructFree(catStruct);
+			free(index);
 			return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
 							zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, catStructChanged->listSize, 0,
 							zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for startDates / endDates");
@@ -167,24 +173,32 @@ int zwhatChangedCompare(long long *ifltab, zStructCatalog *catStructBefore, zStr
 	}
 	catStructChanged->recordType = (int*)calloc((size_t)catStructChanged->listSize, WORD_SIZE);
 	if (!catStructChanged->recordType) {
+		zstructFree(catStruct);
+		free(index);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
 			zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, catStructChanged->listSize, 0,
 			zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for catStructChanged->recordType");
 	}
 	catStructChanged->pathnameHash = (long long*)calloc((size_t)catStructChanged->listSize, LONG_SIZE);
 	if (!catStructChanged->pathnameHash) {
+		zstructFree(catStruct);
+		free(index);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
 						zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, catStructChanged->listSize, 0,
 						zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for catStructChanged->pathnameHash");
 	}
 	catStructChanged->lastWriteTimeRecord = (long long*)calloc((size_t)catStructChanged->listSize, LONG_SIZE);
 	if (!catStructChanged->lastWriteTimeRecord) {
+		zstructFree(catStruct);
+		free(index);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
 						zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, catStructChanged->listSize, 0,
 						zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for catStructChanged->lastWriteTimeRecord");
 	}
 	catStructChanged->crcValues = (unsigned int*)calloc((size_t)catStructChanged->listSize, sizeof(unsigned int));
 	if (!catStructChanged->crcValues) {
+		zstructFree(catStruct);
+		free(index);
 		return zerrorProcessing(ifltab, DSS_FUNCTION_zcatalog_ID,
 						zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, catStructChanged->listSize, 0,
 						zdssErrorSeverity.MEMORY_ERROR, "", "Allocating space for catStructChanged->crcValues");
-- 
2.43.0


From a0ed8c229d0cefad75d9105f7f0840b580d7a808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:08 +0000
Subject: [PATCH 46/66] fix: vertical datum functions give back their work
 strings; an end tag without a start is refused

---
 heclib/heclib_c/src/Utilities/verticalDatum.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Utilities/verticalDatum.c b/heclib/heclib_c/src/Utilities/verticalDatum.c
index c65eae7..b92b002 100644
--- a/heclib/heclib_c/src/Utilities/verticalDatum.c
+++ b/heclib/heclib_c/src/Utilities/verticalDatum.c
@@ -144,13 +144,14 @@ double getOffset(double offset, const char* offsetUnit, const char* _dataUnit) {
     if (offset == UNDEFINED_VERTICAL_DATUM_VALUE) {
         return offset;
     }
+    if (offsetUnit == NULL || _dataUnit == NULL) return UNDEFINED_VERTICAL_DATUM_VALUE;
     // blank trim the data unit (shouldn't have to do this)
     char* dataUnit = (char*)mallocAndInit(strlen(_dataUnit)+1);
     strcpy(dataUnit, _dataUnit);
     for (int i = strlen(dataUnit)-1; dataUnit[i] == 32; --i) {
         dataUnit[i] = '\0';
     }
-    if (offsetUnit == NULL || dataUnit == NULL) return UNDEFINED_VERTICAL_DATUM_VALUE;
+    if (dataUnit == NULL) return UNDEFINED_VERTICAL_DATUM_VALUE;
     if (!strcasecmp(offsetUnit, dataUnit)) {
         free(dataUnit);
         return offset;
@@ -748,7 +749,11 @@ char* validateXmlStructure(const char* xml) {
             //-----------------//
             ++cp1;
             len = cp2 - cp1;
-            if (strncmp(cp1, tagNames[count-1], len)) {
+            if (count == 0 || strncmp(cp1, tagNames[count-1], len)) {
+                for (int i = 0; i < count; ++i) {
+                    free(tagNames[i]);
+                }
+                free(tagNames);
                 free(buf);
                 return INVALID_XML_STRUCTURE;
             }
@@ -837,6 +842,7 @@ char* stringToVerticalDatumInfo(verticalDatumInfo* vdi, const char* inputStr) {
     }
     errmsg = validateXmlStructure(xml);
     if (errmsg) {
+        free(xml);
         return errmsg;
     }
     errmsg = findTextBetween(&tbi, xml, "<vertical-datum-info", "</vertical-datum-info>");
@@ -1242,6 +1248,7 @@ char* normalizeVdiInUserHeader(int* userHeader, int* userHeaderNumber, int userH
         free(headerString);
         return errmsg;
     }
+    free(vdiStr);
     errmsg = verticalDatumInfoToString(&vdiStr, &vdi, TRUE);
     if (errmsg) {
         free(headerString);
-- 
2.43.0


From 9a684e0df8b9dc413bc4d8a6959b6b6899a33e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:58 +0000
Subject: [PATCH 47/66] fix: zstructFree frees the user header of text and
 array structs

---
 heclib/heclib_c/src/Public/zstructFree.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zstructFree.c b/heclib/heclib_c/src/Public/zstructFree.c
index 63b0cc7..07ad0e8 100644
--- a/heclib/heclib_c/src/Public/zstructFree.c
+++ b/heclib/heclib_c/src/Public/zstructFree.c
@@ -295,6 +295,7 @@ void ztextStructFree(zStructText *zstruct)
 	if ((zstruct->textString) && (zstruct->allocated[zSTRUCT_TX_textString])) free(zstruct->textString);
 	if ((zstruct->textTable) && (zstruct->allocated[zSTRUCT_TX_textTable])) free(zstruct->textTable);
 	if ((zstruct->labels) && (zstruct->allocated[zSTRUCT_TX_labels])) free(zstruct->labels);
+	if ((zstruct->userHeader) && (zstruct->allocated[zSTRUCT_userHeader])) free(zstruct->userHeader);
 
 	for (i=0; i<zSTRUCT_length; i++) {
 		zstruct->allocated[i] = 0;
@@ -314,6 +315,7 @@ void zarrayStructFree(zStructArray *zstruct)
 	if ((zstruct->intArray) && (zstruct->allocated[zSTRUCT_ARRAY_INT])) free(zstruct->intArray);
 	if ((zstruct->floatArray) && (zstruct->allocated[zSTRUCT_ARRAY_FLOAT])) free(zstruct->floatArray);
 	if ((zstruct->doubleArray) && (zstruct->allocated[zSTRUCT_ARRAY_DOUBLE])) free(zstruct->doubleArray);
+	if ((zstruct->userHeader) && (zstruct->allocated[zSTRUCT_userHeader])) free(zstruct->userHeader);
 
 
 	for (i=0; i<zSTRUCT_length; i++) {
-- 
2.43.0


From 9aeb7bb6fdf422c7139b190af74933a545dd07a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:58 +0000
Subject: [PATCH 48/66] fix: zpdRetrieve marks the arrays it allocates as soon
 as it has them

---
 heclib/heclib_c/src/Public/zpdRetrieve.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zpdRetrieve.c b/heclib/heclib_c/src/Public/zpdRetrieve.c
index 6f360c1..cd7e3cf 100644
--- a/heclib/heclib_c/src/Public/zpdRetrieve.c
+++ b/heclib/heclib_c/src/Public/zpdRetrieve.c
@@ -427,6 +427,8 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 			if (boolRetrieveDoubles) {
 				pds->doubleOrdinates = (double *)calloc((size_t)pds->numberOrdinates, 8);
 				pds->doubleValues = (double *)calloc((size_t)numberValues, 8);
+				pds->allocated[zSTRUCT_PD_doubleOridnates] = 1;
+				pds->allocated[zSTRUCT_PD_doubleValues] = 1;
 				if (!pds->doubleOrdinates || !pds->doubleValues) {
 					//  memory error
 					zstructFree(ztransfer);
@@ -436,8 +438,6 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 				}
 				convertDataArray((void *)ztransfer->values1, (void *)pds->doubleOrdinates, pds->numberOrdinates, 1, 2);
 				convertDataArray((void *)ztransfer->values2, (void *)pds->doubleValues, numberValues, 1, 2);
-				pds->allocated[zSTRUCT_PD_doubleOridnates] = 1;
-				pds->allocated[zSTRUCT_PD_doubleValues] = 1;
 			}
 			else {
 				//  Move pointer to pds and change memory ownership to pds
@@ -463,6 +463,8 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 			else {
 				pds->floatOrdinates = (float *)calloc((size_t)pds->numberOrdinates, 4);
 				pds->floatValues = (float *)calloc((size_t)numberValues, 4);
+				pds->allocated[zSTRUCT_PD_floatOrdinates] = 1;
+				pds->allocated[zSTRUCT_PD_floatValues] = 1;
 				if (!pds->floatOrdinates || !pds->floatValues) {
 					//  memory error
 					zstructFree(ztransfer);
@@ -472,8 +474,6 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 				}
 				convertDataArray((void *)ztransfer->values1, (void *)pds->floatOrdinates, pds->numberOrdinates, 2, 1);
 				convertDataArray((void *)ztransfer->values2, (void *)pds->floatValues, numberValues, 2, 1);
-				pds->allocated[zSTRUCT_PD_floatOrdinates] = 1;
-				pds->allocated[zSTRUCT_PD_floatValues] = 1;
 			}
 		}
 		else {
@@ -517,6 +517,8 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 			ztransfer->values2 = (int *)calloc((size_t)(pds->numberOrdinatesInStruct + 2), 4);
 			wordSize = 1;
 		}
+		ztransfer->allocated[zSTRUCT_TRANS_values1] = 1;
+		ztransfer->allocated[zSTRUCT_TRANS_values2] = 1;
 		//   Allocate an additional word in case of an offset
 		if (!ztransfer->values1 || !ztransfer->values2) {
 			zstructFree(ztransfer);
@@ -525,9 +527,7 @@ int zpdRetrieve(long long *ifltab, zStructPairedData *pds, int retrieveSizeFlag)
 									zdssErrorSeverity.MEMORY_ERROR, pds->pathname, "Allocating values1 or values2");
 		}
 		ztransfer->values1Mode = 1;
-		ztransfer->allocated[zSTRUCT_TRANS_values1] = 1;
 		ztransfer->values2Mode = 1;
-		ztransfer->allocated[zSTRUCT_TRANS_values2] = 1;
 
 		if (ztransfer->dataType == DATA_TYPE_PDD) {
 			address = ztransfer->info[zdssInfoKeys.kinfoValues1Address] + startOrdinate;
-- 
2.43.0


From b87b51767ba8521700600c01a8855fbcb0f5c02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:58 +0000
Subject: [PATCH 49/66] fix: zspatialTinStore marks the arrays of its transfer
 struct so that they are freed

---
 heclib/heclib_c/src/Public/zspatialTinStore.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/heclib/heclib_c/src/Public/zspatialTinStore.c b/heclib/heclib_c/src/Public/zspatialTinStore.c
index ffe88dd..e674536 100644
--- a/heclib/heclib_c/src/Public/zspatialTinStore.c
+++ b/heclib/heclib_c/src/Public/zspatialTinStore.c
@@ -96,6 +96,7 @@ int zspatialTinStore(long long *ifltab, zStructSpatialTin *tinStruct)
 	//  Header 1, basic info
 	ztransfer->internalHeaderNumber = 12;
 	ztransfer->internalHeader = (int *)calloc(ztransfer->internalHeaderNumber, 4);
+	ztransfer->allocated[zSTRUCT_TRANS_internalHeader] = 1;
 	ztransfer->internalHeaderMode = 1;
 	ztransfer->internalHeader[0] = tinStruct->numberPoints;
 	ztransfer->internalHeader[1] = tinStruct->connectTableLen;
@@ -184,6 +185,7 @@ int zspatialTinStore(long long *ifltab, zStructSpatialTin *tinStruct)
 	str[count++] = '\0';
 	ztransfer->header2Number = numberIntsInBytes((int)total);
 	ztransfer->header2 = (int *)calloc(ztransfer->header2Number + 2, 4);
+	ztransfer->allocated[zSTRUCT_TRANS_header2] = 1;
 	ztransfer->header2Mode = 1;
 	//  Need to be sure to copy char into in array, not cast and assign to header
 	charInt (str, ztransfer->header2, (int)total, (ztransfer->header2Number * 4), 1, 1, 0);
@@ -192,6 +194,7 @@ int zspatialTinStore(long long *ifltab, zStructSpatialTin *tinStruct)
 	//  Labels (char) array
 	ztransfer->userHeaderNumber = numberIntsInBytes(tinStruct->pointLabelLen);
 	ztransfer->userHeader = (int *)calloc(ztransfer->userHeaderNumber + 2, 4);
+	ztransfer->allocated[zSTRUCT_userHeader] = 1;
 	ztransfer->header2Mode = 1;
 	//  Need to be sure to copy char into in array, not cast and assign to header
 	 charInt (tinStruct->pointLabel, ztransfer->userHeader, tinStruct->pointLabelLen, (ztransfer->userHeaderNumber * 4), 1, 1, 0);
@@ -199,6 +202,7 @@ int zspatialTinStore(long long *ifltab, zStructSpatialTin *tinStruct)
 	 //  Values 1, x, y, value
 	 ztransfer->values1Number = 3 * tinStruct->numberPoints;
 	 ztransfer->values1 = (int *)calloc(ztransfer->values1Number, 4);
+	 ztransfer->allocated[zSTRUCT_TRANS_values1] = 1;
 	 ztransfer->values1Mode = 1;
 	 convertDataArray((int *)tinStruct->xCoordinate, &ztransfer->values1[0], tinStruct->numberPoints, 1, 1);
 	 convertDataArray((int *)tinStruct->yCoordinate, &ztransfer->values1[tinStruct->numberPoints], tinStruct->numberPoints, 1, 1);
@@ -207,6 +211,7 @@ int zspatialTinStore(long long *ifltab, zStructSpatialTin *tinStruct)
 	  //  Values 2, other arrays
 	 ztransfer->values2Number = 3 * tinStruct->numberPoints;
 	 ztransfer->values2 = (int *)calloc(ztransfer->values2Number, 4);
+	 ztransfer->allocated[zSTRUCT_TRANS_values2] = 1;
 	 ztransfer->values2Mode = 1;
 	 convertDataArray((int *)tinStruct->pointType, &ztransfer->values2[0], tinStruct->numberPoints, 1, 1);
 	 convertDataArray((int *)tinStruct->numberConnections, &ztransfer->values2[(tinStruct->numberPoints * 2)], tinStruct->numberPoints, 1, 1);
@@ -215,6 +220,7 @@ int zspatialTinStore(long long *ifltab, zStructSpatialTin *tinStruct)
 	 if (tinStruct->connectTableLen > 0) {
 		 ztransfer->values3Number = tinStruct->connectTableLen;
 		 ztransfer->values3 = (int *)calloc(ztransfer->values3Number, 4);
+		 ztransfer->allocated[zSTRUCT_TRANS_values3] = 1;
 		 ztransfer->values3Mode = 1;
 		 convertDataArray((int *)tinStruct->connectTo, ztransfer->values3, tinStruct->connectTableLen, 1, 1);
 	 }
-- 
2.43.0


From 83988754ecff3ffac7572d226b66ca1e943cd6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:58 +0000
Subject: [PATCH 50/66] fix: ztsTrim frees only arrays the struct owns and
 marks the new ones

---
 heclib/heclib_c/src/Internal/ztsTrim.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsTrim.c b/heclib/heclib_c/src/Internal/ztsTrim.c
index 762c954..ca65df4 100644
--- a/heclib/heclib_c/src/Internal/ztsTrim.c
+++ b/heclib/heclib_c/src/Internal/ztsTrim.c
@@ -135,8 +135,9 @@ int ztsTrim(long long *ifltab, zStructTimeSeries *tss)
 					for (i=firstValid; i<(firstValid + numberValues); i++) {
 						floatValues[count++] = tss->floatValues[i];
 					}
-					free(tss->floatValues);
+					if (tss->allocated[zSTRUCT_TS_floatValues]) free(tss->floatValues);
 					tss->floatValues = floatValues;
+					tss->allocated[zSTRUCT_TS_floatValues] = 1;
 				}
 				else {
 					n = numberValues * 4;
@@ -152,8 +153,9 @@ int ztsTrim(long long *ifltab, zStructTimeSeries *tss)
 					for (i=firstValid; i<(firstValid + numberValues); i++) {
 						doubleValues[count++] = tss->doubleValues[i];
 					}
-					free(tss->doubleValues);
+					if (tss->allocated[zSTRUCT_TS_doubleValues]) free(tss->doubleValues);
 					tss->doubleValues = doubleValues;
+					tss->allocated[zSTRUCT_TS_doubleValues] = 1;
 				}
 				else {
 					n = numberValues * 8;
@@ -259,8 +261,9 @@ int ztsTrim(long long *ifltab, zStructTimeSeries *tss)
 						//  floatValues[j][count++] = tss->floatProfileValues[j][i];
 					}
 				}
-				free(tss->floatProfileValues);
+				if (tss->allocated[zSTRUCT_TS_profileFloatValues]) free(tss->floatProfileValues);
 				tss->floatProfileValues = floatValues;
+				tss->allocated[zSTRUCT_TS_profileFloatValues] = 1;
 			}
 			else {
 				doubleValues = (double *)malloc((size_t)numberToMalloc * 8);
@@ -278,8 +281,9 @@ int ztsTrim(long long *ifltab, zStructTimeSeries *tss)
 						//  doubleValues[j][count++] = tss->doubleProfileValues[j][i];
 					}
 				}
-				free(tss->doubleProfileValues);
+				if (tss->allocated[zSTRUCT_TS_profileDoubleValues]) free(tss->doubleProfileValues);
 				tss->doubleProfileValues = doubleValues;
+				tss->allocated[zSTRUCT_TS_profileDoubleValues] = 1;
 			}
 		}
 		else if (firstValid == -1) {
@@ -304,8 +308,9 @@ int ztsTrim(long long *ifltab, zStructTimeSeries *tss)
 			for (i=firstValid; i<(firstValid + numberValues); i++) {
 				times[count++] = tss->times[i];
 			}
-			free(tss->times);
+			if (tss->allocated[zSTRUCT_TS_times]) free(tss->times);
 			tss->times = times;
+			tss->allocated[zSTRUCT_TS_times] = 1;
 		}
 		if (tss->quality) {
 			quality = (int *)malloc((size_t)numberValues * tss->qualityElementSize * 4);
@@ -323,8 +328,9 @@ int ztsTrim(long long *ifltab, zStructTimeSeries *tss)
 						//  quality[j][count++] = tss->quality[j][i];
 					}
 			}
-			free(tss->quality);
+			if (tss->allocated[zSTRUCT_TS_quality]) free(tss->quality);
 			tss->quality = quality;
+			tss->allocated[zSTRUCT_TS_quality] = 1;
 		}
 		if (tss->inotes) {
 			inotes = (int *)malloc((size_t)numberValues * tss->inoteElementSize * 4);
@@ -341,8 +347,9 @@ int ztsTrim(long long *ifltab, zStructTimeSeries *tss)
 						inotes[count++] = tss->inotes[n];
 					}
 			}
-			free(tss->inotes);
+			if (tss->allocated[zSTRUCT_TS_inotes]) free(tss->inotes);
 			tss->inotes = inotes;
+			tss->allocated[zSTRUCT_TS_inotes] = 1;
 		}
 		if (tss->cnotes) {
 			//  Count the number of characters we'll need
@@ -367,8 +374,9 @@ int ztsTrim(long long *ifltab, zStructTimeSeries *tss)
 										zdssErrorSeverity.MEMORY_ERROR, tss->pathname, "Allocating cnotes");
 			}
 			tss->cnotesLengthTotal = copyLines(cnotes, (size_t)numberToMalloc, &tss->cnotes[count], (size_t)numberToMalloc, numberValues);
-			free(tss->cnotes);
+			if (tss->allocated[zSTRUCT_TS_cnotes]) free(tss->cnotes);
 			tss->cnotes = cnotes;
+			tss->allocated[zSTRUCT_TS_cnotes] = 1;
 		}
 	}
 
-- 
2.43.0


From 91074a35f88171ef6497e9070fd227b699693aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:58 +0000
Subject: [PATCH 51/66] fix: ztsStore and zpdStore resize only their own
 location text; ztsStore restores the caller's values on every error

---
 heclib/heclib_c/src/Public/zpdStore.c | 20 ++++++++++++---
 heclib/heclib_c/src/Public/ztsStore.c | 36 ++++++++++++++++++++++++---
 2 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zpdStore.c b/heclib/heclib_c/src/Public/zpdStore.c
index 4a4584c..73a95fa 100644
--- a/heclib/heclib_c/src/Public/zpdStore.c
+++ b/heclib/heclib_c/src/Public/zpdStore.c
@@ -515,9 +515,23 @@ int zpdStore(long long *ifltab, zStructPairedData *pds, int storageFlag)
 							VERTICAL_DATUM_INFO_USER_HEADER_PARAM_LEN +
 							strlen(compressed) +
 							3;
-						pds->locationStruct->supplemental = (char*)realloc(
-							pds->locationStruct->supplemental,
-							newLen);
+						if (pds->locationStruct->allocated[zSTRUCT_otherInformation]) {
+							pds->locationStruct->supplemental = (char*)realloc(
+								pds->locationStruct->supplemental,
+								newLen);
+						}
+						else {
+							//  not ours to resize - use a copy
+							char* newSupplemental = (char*)malloc(newLen);
+							if (newSupplemental) {
+								strcpy(newSupplemental, pds->locationStruct->supplemental);
+								pds->locationStruct->supplemental = newSupplemental;
+								pds->locationStruct->allocated[zSTRUCT_otherInformation] = TRUE;
+							}
+							else {
+								newLen = 0;
+							}
+						}
 						status = insertIntoDelimitedString(
 							&pds->locationStruct->supplemental,
 							newLen,
diff --git a/heclib/heclib_c/src/Public/ztsStore.c b/heclib/heclib_c/src/Public/ztsStore.c
index c6bcf7f..6a2817e 100644
--- a/heclib/heclib_c/src/Public/ztsStore.c
+++ b/heclib/heclib_c/src/Public/ztsStore.c
@@ -563,9 +563,23 @@ int ztsStore(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 								VERTICAL_DATUM_INFO_USER_HEADER_PARAM_LEN +
 								(int)strlen(compressed) +
 								3;
-							tss->locationStruct->supplemental = (char*)realloc(
-								tss->locationStruct->supplemental,
-								newLen);
+							if (tss->locationStruct->allocated[zSTRUCT_otherInformation]) {
+								tss->locationStruct->supplemental = (char*)realloc(
+									tss->locationStruct->supplemental,
+									newLen);
+							}
+							else {
+								//  not ours to resize - use a copy
+								char* newSupplemental = (char*)malloc(newLen);
+								if (newSupplemental) {
+									strcpy(newSupplemental, tss->locationStruct->supplemental);
+									tss->locationStruct->supplemental = newSupplemental;
+									tss->locationStruct->allocated[zSTRUCT_otherInformation] = TRUE;
+								}
+								else {
+									newLen = 0;
+								}
+							}
 							status = insertIntoDelimitedString(
 								&tss->locationStruct->supplemental,
 								newLen,
@@ -674,6 +688,14 @@ int ztsStore(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 				free(vdiTs);
 			}
 			if (!zinquire(ifltab, "write")) {
+				if (tmpFloatVals != NULL) {
+					tss->floatValues = origFloatVals;
+					free(tmpFloatVals);
+				}
+				if (tmpDoubleVals != NULL) {
+					tss->doubleValues = origDoubleVals;
+					free(tmpDoubleVals);
+				}
 				return zerrorProcessing(ifltab, DSS_FUNCTION_ztsStore_ID,
 					zdssErrorCodes.WRITE_ON_READ_ONLY, 0, 0,
 					zdssErrorSeverity.WARNING_NO_WRITE_ACCESS, tss->pathname, "");
@@ -684,6 +706,14 @@ int ztsStore(long long *ifltab, zStructTimeSeries *tss, int storageFlag)
 				//  Error out
 				//  Programming error - profile values must only be in profile struct
 				//  values detected in time series struct.
+				if (tmpFloatVals != NULL) {
+					tss->floatValues = origFloatVals;
+					free(tmpFloatVals);
+				}
+				if (tmpDoubleVals != NULL) {
+					tss->doubleValues = origDoubleVals;
+					free(tmpDoubleVals);
+				}
 				return zerrorProcessing(ifltab, DSS_FUNCTION_ztsStore_ID,
 				zdssErrorCodes.VERTICAL_DATUM_ERROR, 0,
 				0, zdssErrorSeverity.WARNING, tss->pathname,
-- 
2.43.0


From 746a8b80cd3f105f484da76a50368d7ac245feec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:58 +0000
Subject: [PATCH 52/66] fix: ztsRetrieve and ztsRetrievePattern free only a
 header or time window the struct owns

---
 heclib/heclib_c/src/Public/ztsRetrieve.c        | 2 +-
 heclib/heclib_c/src/Public/ztsRetrievePattern.c | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Public/ztsRetrieve.c b/heclib/heclib_c/src/Public/ztsRetrieve.c
index 6be4193..872790a 100644
--- a/heclib/heclib_c/src/Public/ztsRetrieve.c
+++ b/heclib/heclib_c/src/Public/ztsRetrieve.c
@@ -490,7 +490,6 @@ int ztsRetrieve(long long *ifltab, zStructTimeSeries *tss,
 								"%s:%s;",
 								VERTICAL_DATUM_INFO_USER_HEADER_PARAM,
 								vdiStr);
-							free(tss->userHeader);
 						}
 					}
 					else {
@@ -519,6 +518,7 @@ int ztsRetrieve(long long *ifltab, zStructTimeSeries *tss,
 						"%s:%s;",
 						VERTICAL_DATUM_USER_HEADER_PARAM,
 						cvertical_datum);
+					if (tss->userHeader && tss->allocated[zSTRUCT_userHeader]) free(tss->userHeader);
 					tss->userHeader = stringToUserHeader(headerString, &tss->userHeaderNumber);
 					tss->allocated[zSTRUCT_userHeader] = TRUE;
 					free(headerString);
diff --git a/heclib/heclib_c/src/Public/ztsRetrievePattern.c b/heclib/heclib_c/src/Public/ztsRetrievePattern.c
index a8e411c..cf13375 100644
--- a/heclib/heclib_c/src/Public/ztsRetrievePattern.c
+++ b/heclib/heclib_c/src/Public/ztsRetrievePattern.c
@@ -360,7 +360,9 @@ int ztsRetrievePattern(long long *ifltab, zStructTimeSeries *tss, int retrieveDo
 	}
 
 	if (tss->timeWindow) {
-		free(tss->timeWindow);
+		if (tss->allocated[zSTRUCT_TS_timeWindow]) {
+			free(tss->timeWindow);
+		}
 		tss->timeWindow = 0;
 		tss->allocated[zSTRUCT_TS_timeWindow] = 0;
 	}
-- 
2.43.0


From 75acd0a74f7295556d56e154b8dec7165b955521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:58 +0000
Subject: [PATCH 53/66] fix: block reads hand back one-word headers and depths
 instead of losing them

---
 .../heclib_c/src/Internal/ztsIrregReadBlock.c |  7 +++--
 .../heclib_c/src/Internal/ztsRegReadBlock.c   | 30 ++++---------------
 2 files changed, 10 insertions(+), 27 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c b/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
index 5a32d11..57880a2 100644
--- a/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsIrregReadBlock.c
@@ -338,9 +338,10 @@ int ztsIrregReadBlock(long long *ifltab, const char *pathname, long long *info,
 		*userHeaderNumber = ztransfer->userHeaderNumber;
 		if (*userHeaderNumber > 0) {
 			if (userHeaderArraySize == 1) {
-				//  space allocated in zread
-				userHeader = ztransfer->userHeader;
-				ztransfer->allocated[zSTRUCT_userHeader] = 0;
+				//  space allocated in zread, which is freed with the transfer struct
+				if (userHeader && ztransfer->userHeader && (ztransfer->userHeader != userHeader)) {
+					userHeader[0] = ztransfer->userHeader[0];
+				}
 			}
 		}
 
diff --git a/heclib/heclib_c/src/Internal/ztsRegReadBlock.c b/heclib/heclib_c/src/Internal/ztsRegReadBlock.c
index 62508d8..545807b 100644
--- a/heclib/heclib_c/src/Internal/ztsRegReadBlock.c
+++ b/heclib/heclib_c/src/Internal/ztsRegReadBlock.c
@@ -254,35 +254,17 @@ int ztsRegReadBlock(long long *ifltab, const char *pathname, int boolExists,
 		*qualityElementSize = internalHeader[INT_HEAD_qualityElementSize];
 		*inoteElementSize = internalHeader[INT_HEAD_inotesElementSize];
 		if ((ztransfer->values2Number > 0) && (profileDepthsArraySize > 0)) {
-			if (profileDepthsArraySize == 1) {
-				//  space allocated in zread
-				*profileDepthsNumberRead = ztransfer->values2Number;
-				profileDepths = ztransfer->values2;
-				ztransfer->allocated[zSTRUCT_TRANS_values2] = 0;
-				ztransfer->values2 = 0;
-			}
-			else {
-				if (profileDepthsArraySize > ztransfer->values2Number) profileDepthsArraySize = ztransfer->values2Number;
-				*profileDepthsNumberRead = profileDepthsArraySize;
-				convertIntArray(ztransfer->values2, profileDepths, profileDepthsArraySize, 1, 1);
-			}
+			if (profileDepthsArraySize > ztransfer->values2Number) profileDepthsArraySize = ztransfer->values2Number;
+			*profileDepthsNumberRead = profileDepthsArraySize;
+			convertIntArray(ztransfer->values2, profileDepths, profileDepthsArraySize, 1, 1);
 		}
 		else {
 			*profileDepthsNumberRead = 0;
 		}		
 		if ((ztransfer->userHeaderNumber > 0) && (userHeaderArraySize > 0) && ztransfer->userHeader && userHeader) {
-			if (profileDepthsArraySize == 1) {
-				//  space allocated in zread
-				*userHeaderNumber = ztransfer->userHeaderNumber;
-				userHeader = ztransfer->userHeader;
-				ztransfer->allocated[zSTRUCT_userHeader] = 0;
-				ztransfer->userHeader = 0;
-			}
-			else {
-				if (userHeaderArraySize > ztransfer->userHeaderNumber) userHeaderArraySize = ztransfer->userHeaderNumber;
-				*userHeaderNumber = userHeaderArraySize;
-				convertIntArray(ztransfer->userHeader, userHeader, userHeaderArraySize, 1, 1);
-			}
+			if (userHeaderArraySize > ztransfer->userHeaderNumber) userHeaderArraySize = ztransfer->userHeaderNumber;
+			*userHeaderNumber = userHeaderArraySize;
+			convertIntArray(ztransfer->userHeader, userHeader, userHeaderArraySize, 1, 1);
 		}
 		else {
 			*userHeaderNumber = 0;
-- 
2.43.0


From a090a53460c05eaeb44fc7aee07c36de39d52d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:58 +0000
Subject: [PATCH 54/66] fix: zcopyRecord checks and marks the location pathname
 it replaces

---
 heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c b/heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c
index c7b9e1a..6c176e0 100644
--- a/heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c
+++ b/heclib/heclib_c/src/DssInterface/v6and7/zcopyRecord.c
@@ -191,7 +191,8 @@ int zcopyRecord(long long *ifltabFrom, long long *ifltabTo, const char *pathname
 					free(tss->locationStruct->pathname);
 				}
 				tss->locationStruct->pathname = mallocAndCopyPath(pathnameTo);
-				if (!tss->pathname) {
+				tss->locationStruct->allocated[zSTRUCT_pathname] = 1;
+				if (!tss->locationStruct->pathname) {
 					zstructFree(tss);
 					return zerrorProcessing(ifltabFrom, DSS_FUNCTION_zcopyRecord_ID,
 						zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
@@ -234,7 +235,8 @@ int zcopyRecord(long long *ifltabFrom, long long *ifltabTo, const char *pathname
 					free(pds->locationStruct->pathname);
 				}
 				pds->locationStruct->pathname = mallocAndCopyPath(pathnameTo);
-				if (!pds->pathname) {
+				pds->locationStruct->allocated[zSTRUCT_pathname] = 1;
+				if (!pds->locationStruct->pathname) {
 					zstructFree(pds);
 					return zerrorProcessing(ifltabFrom, DSS_FUNCTION_zcopyRecord_ID,
 						zdssErrorCodes.CANNOT_ALLOCATE_MEMORY, 0, 0,
-- 
2.43.0


From df21c9af72548092adf5c16a2fc1f9fd61441f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:58 +0000
Subject: [PATCH 55/66] fix: ztsStorePattern leaves the times with the caller's
 struct

---
 heclib/heclib_c/src/SemiPublic/ztsStorePattern.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/heclib/heclib_c/src/SemiPublic/ztsStorePattern.c b/heclib/heclib_c/src/SemiPublic/ztsStorePattern.c
index fdfa632..28cb1fa 100644
--- a/heclib/heclib_c/src/SemiPublic/ztsStorePattern.c
+++ b/heclib/heclib_c/src/SemiPublic/ztsStorePattern.c
@@ -143,7 +143,6 @@ int ztsStorePattern(long long *ifltab, zStructTimeSeries *tss)
 	}
 	else {
 		ztransfer->values2 = tss->times;
-		tss->allocated[zSTRUCT_TS_times] = 0;
 		if (tss->floatValues) {
 			ztransfer->dataType = DATA_TYPE_ITS_PATTERN;
 			ztransfer->values1 = (int*)calloc(ztransfer->numberValues, 8);
-- 
2.43.0


From 0b2515f5e52aab06ef2f030515bf912b0e441587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:58 +0000
Subject: [PATCH 56/66] fix: Java store natives mark labels and supplemental
 text and free replaced quality

---
 heclib/javaHeclib/src/Hec_zlocationToStruct.c | 1 +
 heclib/javaHeclib/src/Hec_zpdStore.c          | 1 +
 heclib/javaHeclib/src/Hec_ztsStore.c          | 3 +++
 3 files changed, 5 insertions(+)

diff --git a/heclib/javaHeclib/src/Hec_zlocationToStruct.c b/heclib/javaHeclib/src/Hec_zlocationToStruct.c
index ed0ee4b..67ae113 100644
--- a/heclib/javaHeclib/src/Hec_zlocationToStruct.c
+++ b/heclib/javaHeclib/src/Hec_zlocationToStruct.c
@@ -157,6 +157,7 @@ int Hec_zlocationToStruct(JNIEnv *env, jobject obj, jobject j_dataContainer, zSt
 				c_str = (char *)(*env)->GetStringUTFChars(env, j_str,  0);
 				if (c_str) {
 					locationStruct->supplemental = (char *)mallocAndCopy(c_str);
+					locationStruct->allocated[zSTRUCT_otherInformation] = 1;
 					(*env)->ReleaseStringUTFChars (env, j_str, c_str);
 				}
 			}
diff --git a/heclib/javaHeclib/src/Hec_zpdStore.c b/heclib/javaHeclib/src/Hec_zpdStore.c
index ce66f8b..38eefa8 100644
--- a/heclib/javaHeclib/src/Hec_zpdStore.c
+++ b/heclib/javaHeclib/src/Hec_zpdStore.c
@@ -297,6 +297,7 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1zpdStore(
 					//  Now create the label array and fill it
 					pdc->labelsLength = count;
 					pdc->labels = (char *)calloc(count, 1);
+					pdc->allocated[zSTRUCT_PD_labels] = 1;
 					count = 0;
 					for (i=0; i<numberCurves; i++) {
 						jstr = (jstring) (*env)->GetObjectArrayElement(env, objectArray, i);
diff --git a/heclib/javaHeclib/src/Hec_ztsStore.c b/heclib/javaHeclib/src/Hec_ztsStore.c
index a2a7f2b..2f2b2e4 100644
--- a/heclib/javaHeclib/src/Hec_ztsStore.c
+++ b/heclib/javaHeclib/src/Hec_ztsStore.c
@@ -499,6 +499,9 @@ JNIEXPORT jint JNICALL Java_hec_heclib_util_Heclib_Hec_1ztsStore(
 		number = (int)(*env)->GetIntField(env, j_timeSeriesContainer, fid);
 		if (number > 0) {
 			tss->qualityElementSize = number;			
+			if (tss->quality && tss->allocated[zSTRUCT_TS_quality]) {
+				free(tss->quality);
+			}
 			tss->quality = (int *)calloc(tss->numberValues, (tss->qualityElementSize * 4));
 			tss->allocated[zSTRUCT_TS_quality] = 1;
 			fid = (*env)->GetFieldID (env, cls, "quality7", "[[I");
-- 
2.43.0


From f1be6a2fac7418b72a2dbd566ade7b3a84409ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:21 +0000
Subject: [PATCH 57/66] fix: zmessConcat1 wrote past its message when adding
 the new line filled it

---
 heclib/heclib_c/src/Internal/zmessConcat.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zmessConcat.c b/heclib/heclib_c/src/Internal/zmessConcat.c
index cd6770b..ae381eb 100644
--- a/heclib/heclib_c/src/Internal/zmessConcat.c
+++ b/heclib/heclib_c/src/Internal/zmessConcat.c
@@ -54,10 +54,12 @@ char *zmessConcat1(char *messIn, size_t sizeIn, const char *message)
 		return messOut;
 	}
 
+	if (lenMessIn > 0)  {
+		lenCombined++;  //  For new line at beginning of message
+	}
 	if (lenCombined > (int)sizeIn) lenCombined = (int)sizeIn;
 
 	if (lenMessIn > 0)  {
-		lenCombined++;  //  For new line at beginning of message
 		stringCat(messOut, (size_t)lenCombined, "\n", _TRUNCATE);
 	}
 	stringCat(messOut, (size_t)lenCombined, message, _TRUNCATE);
-- 
2.43.0


From 78a16dcb7c4aa3beebc29eaddfbcb805a4c344c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:21 +0000
Subject: [PATCH 58/66] fix: zpathnameClean wrote past a buffer the pathname
 fills

---
 heclib/heclib_c/src/Public/zpathnameClean.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zpathnameClean.c b/heclib/heclib_c/src/Public/zpathnameClean.c
index 4cfdb8b..8a81122 100644
--- a/heclib/heclib_c/src/Public/zpathnameClean.c
+++ b/heclib/heclib_c/src/Public/zpathnameClean.c
@@ -72,7 +72,7 @@ int zpathnameClean(char *newPathname, size_t sizeofNewPathname, const char *oldP
 			//  Count slashes
 			slashCount++;
 		}
-		if (count >= (int)sizeofNewPathname) {
+		if (count >= (int)sizeofNewPathname - 1) {
 			//  Don't go beyond buffer length
 			break;
 		}
-- 
2.43.0


From 4d5dfd3b34d87edeb381f0a790461c8dc9fe43c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:21 +0000
Subject: [PATCH 59/66] fix: zpathnameSetPart put the end of a pathname one
 past a buffer it fills

---
 heclib/heclib_c/src/Public/zpathnameSetPart.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zpathnameSetPart.c b/heclib/heclib_c/src/Public/zpathnameSetPart.c
index 3cd2d92..c7d99cd 100644
--- a/heclib/heclib_c/src/Public/zpathnameSetPart.c
+++ b/heclib/heclib_c/src/Public/zpathnameSetPart.c
@@ -95,7 +95,7 @@ int zpathnameSetPart (char *pathname, size_t sizeofPathname, const char *part, i
 		//  To do this, we must increment negatively.
 		diff = newLength - oldLength;
 		endPath = positions[6] + diff;
-		if (endPath > (int)sizeofPathname) {
+		if (endPath >= (int)sizeofPathname) {
 			//  We don't have enough room to expand the pathname!
 			return STATUS_NOT_OKAY;
 		}
-- 
2.43.0


From 8923bc5ef94b03536ceee6c606d8608ad67438e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:21 +0000
Subject: [PATCH 60/66] fix: charInt padded past the room it was given

---
 heclib/heclib_c/src/Internal/charInt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/heclib/heclib_c/src/Internal/charInt.c b/heclib/heclib_c/src/Internal/charInt.c
index 0d7d83f..d9ae56e 100644
--- a/heclib/heclib_c/src/Internal/charInt.c
+++ b/heclib/heclib_c/src/Internal/charInt.c
@@ -98,6 +98,7 @@ int charInt(void *fromBuff, void *toBuff, int numberBytes, int maxBytesTo, int b
 		}
 		if (zeroEnd) {
 			len = nwords * 4;
+			if (len > maxBytesTo) len = maxBytesTo;
 			if (numberBytes < len) {
 				for (i = numberBytes; i < len; i++) {
 					charTo[i] = '\0';
-- 
2.43.0


From cde15233436c59782140f07788216e141b1746db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:21 +0000
Subject: [PATCH 61/66] fix: longWithCommas wrote the sign past the buffer it
 fills

---
 heclib/heclib_c/src/Utilities/longWithCommas.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/heclib/heclib_c/src/Utilities/longWithCommas.c b/heclib/heclib_c/src/Utilities/longWithCommas.c
index f21cf01..a2607a2 100644
--- a/heclib/heclib_c/src/Utilities/longWithCommas.c
+++ b/heclib/heclib_c/src/Utilities/longWithCommas.c
@@ -60,6 +60,7 @@ int longWithCommas(char *str, size_t strSize, long long number)
 
 	//  Now it has commas, but is inversed.  Right side it.
 	if (boolNegative) count++;
+	if (count >= (int)strSize) return -1;
 	ipos = 0;
 	for (i=(count-1); i>=0; i--) {
 		str[i] = temp[ipos++];
-- 
2.43.0


From 429baf11f54e666d8dd694248d9812ee91973da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:21 +0000
Subject: [PATCH 62/66] fix: toFixedFields wrote one past the end of its buffer

---
 heclib/heclib_c/src/Utilities/toFixedFields.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/heclib/heclib_c/src/Utilities/toFixedFields.c b/heclib/heclib_c/src/Utilities/toFixedFields.c
index 9d1b2a5..94e552e 100644
--- a/heclib/heclib_c/src/Utilities/toFixedFields.c
+++ b/heclib/heclib_c/src/Utilities/toFixedFields.c
@@ -18,7 +18,7 @@ int toFixedFields(char *cstring, size_t sizeofCstring, char **fields, int *field
 	if(columnStart[0] > 0) {
 		for (i=0; i<columnStart[0]; i++) {
 			cstring[count++] = ' ';
-			if ((count-1) == (int)sizeofCstring) {
+			if (count == (int)sizeofCstring) {
 				cstring[count-1] = '\0';
 				return count;
 			}
@@ -30,7 +30,7 @@ int toFixedFields(char *cstring, size_t sizeofCstring, char **fields, int *field
 			diff = columnStart[j] - count;
 			for (i=0; i<diff; i++) {
 				cstring[count++] = ' ';
-				if ((count-1) == (int)sizeofCstring) {
+				if (count == (int)sizeofCstring) {
 					cstring[count-1] = '\0';
 					return count;
 				}
@@ -52,7 +52,7 @@ int toFixedFields(char *cstring, size_t sizeofCstring, char **fields, int *field
 			nblanks = diff - len;
 			for (i=0; i<nblanks; i++) {
 				cstring[count++] = ' ';
-				if ((count-1) == (int)sizeofCstring) {
+				if (count == (int)sizeofCstring) {
 					cstring[count-1] = '\0';
 					return count;
 				}
@@ -60,7 +60,7 @@ int toFixedFields(char *cstring, size_t sizeofCstring, char **fields, int *field
 		}
 		for (i=0; i<len; i++) {
 			cstring[count++] = cfield[i];
-			if ((count-1) == (int)sizeofCstring) {
+			if (count == (int)sizeofCstring) {
 				cstring[count-1] = '\0';
 				return count;
 			}
-- 
2.43.0


From 859f3989605a34fa4896ce8e91cce35d31ace09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:21 +0000
Subject: [PATCH 63/66] fix: long offset blocks and datum names overran fixed
 size text in verticalDatum.c

---
 heclib/heclib_c/src/Utilities/verticalDatum.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Utilities/verticalDatum.c b/heclib/heclib_c/src/Utilities/verticalDatum.c
index b92b002..706247d 100644
--- a/heclib/heclib_c/src/Utilities/verticalDatum.c
+++ b/heclib/heclib_c/src/Utilities/verticalDatum.c
@@ -906,9 +906,17 @@ char* stringToVerticalDatumInfo(verticalDatumInfo* vdi, const char* inputStr) {
     //----------------------------------------//
     errmsg = findTextBetween(&tbi, xml, "<offset", "</offset>");
     if (errmsg == NULL && tbi.lenNonBlank != 0) {
+        if (tbi.lenWithBoundaries >= (int)sizeof(offsetBuf[0])) {
+            free(xml);
+            return INVALID_OFFSET_BLOCK_IN_XML;
+        }
         strncpy(offsetBuf[0], tbi.firstWithBoundary, tbi.lenWithBoundaries);
         errmsg = findTextBetween(&tbi, tbi.lastWithBoundary, "<offset", "</offset>");
         if (errmsg == NULL && tbi.lenNonBlank != 0) {
+            if (tbi.lenWithBoundaries >= (int)sizeof(offsetBuf[1])) {
+                free(xml);
+                return INVALID_OFFSET_BLOCK_IN_XML;
+            }
             strncpy(offsetBuf[1], tbi.firstWithBoundary, tbi.lenWithBoundaries);
         }
     }
@@ -1141,7 +1149,7 @@ int	getCurrentVerticalDatum(
                 }
                 else {
                     iverticalDatum = IVERTICAL_DATUM_OTHER;
-                    strcpy(cverticalDatum, verticalDatum);
+                    stringCopy(cverticalDatum, cverticalDatumSize, verticalDatum, strlen(verticalDatum));
                 }
                 //---------------------------------------//
                 // remove vertical datum from userHeader //
@@ -1209,7 +1217,7 @@ int	getCurrentVerticalDatum(
                 }
                 else {
                     iverticalDatum = IVERTICAL_DATUM_OTHER;
-                    strcpy(cverticalDatum, verticalDatum);
+                    stringCopy(cverticalDatum, cverticalDatumSize, verticalDatum, strlen(verticalDatum));
                 }
             }
             free(unitSpec);
-- 
2.43.0


From 810bc4df7a11d296ed5c52b9949ed15f7a8e2b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:39 +0000
Subject: [PATCH 64/66] fix: itoa_hec wrote the sign and the terminator past
 the length it was given

---
 heclib/heclib_c/src/Utilities/itoa.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/heclib/heclib_c/src/Utilities/itoa.c b/heclib/heclib_c/src/Utilities/itoa.c
index b6808ec..4667843 100644
--- a/heclib/heclib_c/src/Utilities/itoa.c
+++ b/heclib/heclib_c/src/Utilities/itoa.c
@@ -46,7 +46,7 @@ void itoa_hec(int num, char* str, int strLength, int base)
 	int isNegative = 0;
 
 	/* Handle 0 explicitely, otherwise empty string is printed for 0 */
-	if (num == 0)
+	if (num == 0 && strLength > 1)
 	{
 		str[i++] = '0';
 		str[i] = '\0';
@@ -61,16 +61,15 @@ void itoa_hec(int num, char* str, int strLength, int base)
 	}
 
 	// Process individual digits
-	while (num != 0)
+	while (num != 0 && i + isNegative + 1 < strLength)
 	{
 		int rem = num % base;
 		str[i++] = (rem > 9) ? (rem - 10) + 'a' : rem + '0';
 		num = num / base;
-		if (i >= strLength) break;
 	}
 
 	// If number is negative, append '-'
-	if (isNegative)
+	if (isNegative && i + 1 < strLength)
 		str[i++] = '-';
 
 	str[i] = '\0'; // Append string terminator
-- 
2.43.0


From 02dfe71536e7d507e17ab1157d742844e405a107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:39 +0000
Subject: [PATCH 65/66] fix: ztsDisaggregate cleared notes past the size of the
 caller's buffer

---
 heclib/heclib_c/src/Internal/ztsDisaggregate.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Internal/ztsDisaggregate.c b/heclib/heclib_c/src/Internal/ztsDisaggregate.c
index 4365777..07001e9 100644
--- a/heclib/heclib_c/src/Internal/ztsDisaggregate.c
+++ b/heclib/heclib_c/src/Internal/ztsDisaggregate.c
@@ -330,7 +330,7 @@ int ztsDisaggregate(long long *ifltab, int numberToRead, int numberStored,
 		//  number = min(cnotesSize, numberToRead);
 		number = numberToRead;
 		if (cnotesSize < number) number = cnotesSize;
-		zeroFill(cnotes, numberToRead);
+		zeroFill(cnotes, number);
 		//  Set size requested to zero to bypass code below.
 		cnotesSize = 0;
 		*cnotesLength = number;
@@ -955,7 +955,7 @@ int ztsDisaggregateDep(long long *ifltab, int numberToRead, int numberStored,
 		//  number = min(cnotesSize, numberToRead);
 		number = numberToRead;
 		if (cnotesSize < number) number = cnotesSize;
-		zeroFill(cnotes, numberToRead);
+		zeroFill(cnotes, number);
 		//  Set size requested to zero to bypass code below.
 		cnotesSize = 0;
 		*cnotesLength = number;
-- 
2.43.0


From e0ecc0101dee69b09f3763e234a496f0692b49a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:39 +0000
Subject: [PATCH 66/66] fix: float copies made by hec_dss_tsStoreRegular and
 hec_dss_tsStoreIregular were never freed

---
 heclib/hecdss/hecdss.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heclib/hecdss/hecdss.c b/heclib/hecdss/hecdss.c
index 3aa339a..83a8db3 100644
--- a/heclib/hecdss/hecdss.c
+++ b/heclib/hecdss/hecdss.c
@@ -392,7 +392,7 @@ HECDSS_API int hec_dss_tsStoreRegular(dss_file* dss, const char* pathname,
       
 
     tss = zstructTsNewRegFloats(pathname, values, valueArraySize, startDate, startTime, units, type);
-    tss->allocated[zSTRUCT_TS_floatValues];// zstructFree will free float array
+    tss->allocated[zSTRUCT_TS_floatValues] = 1;// zstructFree will free float array
     if (qualityArraySize > 0 && qualityArraySize == valueArraySize)
       tss->quality = qualityArray;
   }
@@ -427,7 +427,7 @@ HECDSS_API int hec_dss_tsStoreIregular(dss_file* dss, const char* pathname,
 
     tss = zstructTsNewIrregFloats(pathname,values, valueArraySize,times,
       timeGranularitySeconds, startDateBase,units, type);
-    tss->allocated[zSTRUCT_TS_floatValues];
+    tss->allocated[zSTRUCT_TS_floatValues] = 1;
   }
   else {
     tss = zstructTsNewIrregDoubles(pathname, valueArray, valueArraySize, times,
-- 
2.43.0

