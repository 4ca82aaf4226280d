From b8565478f3edbdffec28a1bf933d48770969afa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:30 +0000
Subject: [PATCH 01/36] fix: receive command parameters in the order in which
 the manager sends them

The receives were arguments of one call, so their order was unspecified (gcc
evaluates them right to left and swapped file names and token names).
---
 src/manager/ProcessGroupWorker.cpp | 43 +++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/manager/ProcessGroupWorker.cpp b/src/manager/ProcessGroupWorker.cpp
index bb58c70..6d0fb91 100644
--- a/src/manager/ProcessGroupWorker.cpp
+++ b/src/manager/ProcessGroupWorker.cpp
@@ -205,22 +205,29 @@ SignalType ProcessGroupWorker<CombiDataType>::wait() {
     } break;
     case COMBINE_WRITE_DSGS: {
       Stats::startEvent("combine third level write");
-      combineThirdLevelFileBasedWrite(receiveStringFromManagerAndBroadcastToGroup(),
-                                      receiveStringFromManagerAndBroadcastToGroup());
+      // receive in the order in which the manager sends
+      std::string filenamePrefixToWrite = receiveStringFromManagerAndBroadcastToGroup();
+      std::string writeCompleteTokenFileName = receiveStringFromManagerAndBroadcastToGroup();
+      combineThirdLevelFileBasedWrite(filenamePrefixToWrite, writeCompleteTokenFileName);
       Stats::stopEvent("combine third level write");
     } break;
     case COMBINE_READ_DSGS_AND_REDUCE: {
       Stats::startEvent("combine third level read");
-      combineThirdLevelFileBasedReadReduce({receiveStringFromManagerAndBroadcastToGroup()},
-                                           {receiveStringFromManagerAndBroadcastToGroup()});
+      // receive in the order in which the manager sends
+      std::string filenamePrefixToRead = receiveStringFromManagerAndBroadcastToGroup();
+      std::string startReadingTokenFileName = receiveStringFromManagerAndBroadcastToGroup();
+      combineThirdLevelFileBasedReadReduce({filenamePrefixToRead}, {startReadingTokenFileName});
       Stats::stopEvent("combine third level read");
     } break;
     case COMBINE_THIRD_LEVEL_FILE: {
       Stats::startEvent("combine third level file");
-      combineThirdLevelFileBased(receiveStringFromManagerAndBroadcastToGroup(),
-                                 receiveStringFromManagerAndBroadcastToGroup(),
-                                 {receiveStringFromManagerAndBroadcastToGroup()},
-                                 {receiveStringFromManagerAndBroadcastToGroup()});
+      // receive in the order in which the manager sends
+      std::string filenamePrefixToWrite = receiveStringFromManagerAndBroadcastToGroup();
+      std::string writeCompleteTokenFileName = receiveStringFromManagerAndBroadcastToGroup();
+      std::string filenamePrefixToRead = receiveStringFromManagerAndBroadcastToGroup();
+      std::string startReadingTokenFileName = receiveStringFromManagerAndBroadcastToGroup();
+      combineThirdLevelFileBased(filenamePrefixToWrite, writeCompleteTokenFileName,
+                                 {filenamePrefixToRead}, {startReadingTokenFileName});
       Stats::stopEvent("combine third level file");
     } break;
     case WAIT_FOR_TL_COMBI_RESULT: {
@@ -352,17 +359,19 @@ SignalType ProcessGroupWorker<CombiDataType>::wait() {
     } break;
     case INTERPOLATE_VALUES_AND_WRITE_SINGLE_FILE: {
       Stats::startEvent("interpolate values");
-      writeInterpolatedValuesSingleFile(
-          receiveAndBroadcastInterpolationCoords(combiParameters_.getDim()),
-          receiveStringFromManagerAndBroadcastToGroup());
+      // receive in the order in which the manager sends
+      std::string filenamePrefix = receiveStringFromManagerAndBroadcastToGroup();
+      auto interpolationCoords = receiveAndBroadcastInterpolationCoords(combiParameters_.getDim());
+      writeInterpolatedValuesSingleFile(interpolationCoords, filenamePrefix);
       Stats::stopEvent("interpolate values");
     } break;
     case WRITE_INTERPOLATED_VALUES_PER_GRID: {  // interpolate values on given coordinates and write
                                                 // values to .h5
       Stats::startEvent("write interpolated values");
-      writeInterpolatedValuesPerGrid(
-          receiveAndBroadcastInterpolationCoords(combiParameters_.getDim()),
-          receiveStringFromManagerAndBroadcastToGroup());
+      // receive in the order in which the manager sends
+      std::string filenamePrefix = receiveStringFromManagerAndBroadcastToGroup();
+      auto interpolationCoords = receiveAndBroadcastInterpolationCoords(combiParameters_.getDim());
+      writeInterpolatedValuesPerGrid(interpolationCoords, filenamePrefix);
       Stats::stopEvent("write interpolated values");
     } break;
     case RESCHEDULE_ADD_TASK: {
@@ -565,8 +574,10 @@ void ProcessGroupWorker<CombiDataType>::combineAtOnce(bool collectMinMaxCoeffici
 
 template <typename CombiDataType>
 void ProcessGroupWorker<CombiDataType>::parallelEval() {
-  parallelEvalUniform(receiveStringFromManagerAndBroadcastToGroup(),
-                      receiveLevalAndBroadcast(combiParameters_.getDim()));
+  // receive in the order in which the manager sends
+  LevelVector leval = receiveLevalAndBroadcast(combiParameters_.getDim());
+  std::string filename = receiveStringFromManagerAndBroadcastToGroup();
+  parallelEvalUniform(filename, leval);
 }
 
 template <typename CombiDataType>
-- 
2.43.0


From 07a54b75ebe192c55b52f78957d6b5a7d9827099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:24 +0000
Subject: [PATCH 02/36] fix: complete the status request before the received
 status is read

The status buffer was polled while the receive was still active; when it was
seen in time the request was never completed and then overwritten.
---
 src/manager/ProcessGroupManager.cpp |  2 +-
 src/manager/ProcessGroupManager.hpp | 23 ++++++++++-------------
 2 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/manager/ProcessGroupManager.cpp b/src/manager/ProcessGroupManager.cpp
index ee6a6c5..28d952f 100644
--- a/src/manager/ProcessGroupManager.cpp
+++ b/src/manager/ProcessGroupManager.cpp
@@ -11,7 +11,7 @@ template <typename CombiDataType>
 ProcessGroupManager<CombiDataType>::ProcessGroupManager(RankType pgroupRootID)
     : pgroupRootID_(pgroupRootID),
       status_(PROCESS_GROUP_WAIT),
-      statusRequest_(MPI_Request()),
+      statusRequest_(MPI_REQUEST_NULL),
       statusRequestFT_(nullptr) {}
 
 template <typename CombiDataType>
diff --git a/src/manager/ProcessGroupManager.hpp b/src/manager/ProcessGroupManager.hpp
index c74222e..4fd4a17 100644
--- a/src/manager/ProcessGroupManager.hpp
+++ b/src/manager/ProcessGroupManager.hpp
@@ -367,6 +367,12 @@ using ProcessGroupManagerContainer = std::vector<ProcessGroupManagerID<CombiData
 
 template <typename CombiDataType>
 inline StatusType ProcessGroupManager<CombiDataType>::getStatus() {
+  if (!ENABLE_FT) {
+    // status_ may only be read once the request that receives it has been completed
+    int flag;
+    MPI_Test(&statusRequest_, &flag, MPI_STATUS_IGNORE);
+    if (!flag) return PROCESS_GROUP_BUSY;
+  }
   if (status_ == PROCESS_GROUP_WAIT) return PROCESS_GROUP_WAIT;
 
   if (status_ == PROCESS_GROUP_FAIL) return PROCESS_GROUP_FAIL;
@@ -380,13 +386,6 @@ inline StatusType ProcessGroupManager<CombiDataType>::getStatus() {
       int err = simft::Sim_FT_MPI_Test(&statusRequestFT_, &flag, &stat);
 
       if (err == MPI_ERR_PROC_FAILED) status_ = PROCESS_GROUP_FAIL;
-    } else {
-      /* todo: actually MPI_TEST is not really necessary here. However, i think it
-       * might be a good idea to have this here. MPI_Test might run a system
-       * call which enables the OS to switch to the MPI system.
-       */
-      int flag;
-      MPI_Test(&statusRequest_, &flag, MPI_STATUS_IGNORE);
     }
   }
   //  std::cout << "status is " << status_ << " \n";
@@ -402,6 +401,10 @@ inline void ProcessGroupManager<CombiDataType>::setStatus(StatusType status) {
 
 template <typename CombiDataType>
 inline StatusType ProcessGroupManager<CombiDataType>::waitStatus() {
+  if (!ENABLE_FT) {
+    // status_ may only be read once the request that receives it has been completed
+    MPI_Wait(&statusRequest_, MPI_STATUS_IGNORE);
+  }
   if (status_ == PROCESS_GROUP_WAIT) return PROCESS_GROUP_WAIT;
 
   if (status_ == PROCESS_GROUP_FAIL) return PROCESS_GROUP_FAIL;
@@ -411,12 +414,6 @@ inline StatusType ProcessGroupManager<CombiDataType>::waitStatus() {
       simft::Sim_FT_MPI_Status stat;
       int err = simft::Sim_FT_MPI_Wait(&statusRequestFT_, &stat);
       if (err == MPI_ERR_PROC_FAILED) status_ = PROCESS_GROUP_FAIL;
-    } else {
-      /* todo: actually MPI_TEST is not really necessary here. However, i think it
-       * might be a good idea to have this here. MPI_Test might run a system
-       * call which enables the OS to switch to the MPI system.
-       */
-      MPI_Wait(&statusRequest_, MPI_STATUS_IGNORE);
     }
   }
   assert(status_ >= 0);  // check for invalid values
-- 
2.43.0


From 7bddf0fbccf6b80207add9d4a891d61badc9fbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:25 +0000
Subject: [PATCH 03/36] fix: wait for the group's status also when assertions
 are disabled

---
 src/manager/ProcessGroupManager.cpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/manager/ProcessGroupManager.cpp b/src/manager/ProcessGroupManager.cpp
index 28d952f..bd11812 100644
--- a/src/manager/ProcessGroupManager.cpp
+++ b/src/manager/ProcessGroupManager.cpp
@@ -134,7 +134,8 @@ template <typename CombiDataType>
 bool ProcessGroupManager<CombiDataType>::combineThirdLevelFileBased(
     const std::string& filenamePrefixToWrite, const std::string& writeCompleteTokenFileName,
     const std::string& filenamePrefixToRead, const std::string& startReadingTokenFileName) {
-  assert(waitStatus() == PROCESS_GROUP_WAIT);
+  [[maybe_unused]] auto status = waitStatus();
+  assert(status == PROCESS_GROUP_WAIT);
   sendSignalAndReceive(COMBINE_THIRD_LEVEL_FILE);
 
   // send filenames
@@ -150,7 +151,8 @@ bool ProcessGroupManager<CombiDataType>::combineThirdLevelFileBased(
 template <typename CombiDataType>
 bool ProcessGroupManager<CombiDataType>::combineThirdLevelFileBasedWrite(
     const std::string& filenamePrefixToWrite, const std::string& writeCompleteTokenFileName) {
-  assert(waitStatus() == PROCESS_GROUP_WAIT);
+  [[maybe_unused]] auto status = waitStatus();
+  assert(status == PROCESS_GROUP_WAIT);
   sendSignalAndReceive(COMBINE_WRITE_DSGS);
 
   // send filenames
@@ -165,7 +167,8 @@ bool ProcessGroupManager<CombiDataType>::combineThirdLevelFileBasedWrite(
 template <typename CombiDataType>
 bool ProcessGroupManager<CombiDataType>::combineThirdLevelFileBasedReadReduce(
     const std::string& filenamePrefixToRead, const std::string& startReadingTokenFileName) {
-  assert(waitStatus() == PROCESS_GROUP_WAIT);
+  [[maybe_unused]] auto status = waitStatus();
+  assert(status == PROCESS_GROUP_WAIT);
   sendSignalAndReceive(COMBINE_READ_DSGS_AND_REDUCE);
 
   // send filenames
@@ -378,7 +381,8 @@ bool ProcessGroupManager<CombiDataType>::pretendReduceLocalAndRemoteSubspaceSize
     from = to;
   }
   assert(to == sendBuff.end());
-  assert(waitStatus() == PROCESS_GROUP_WAIT);
+  [[maybe_unused]] auto status = waitStatus();
+  assert(status == PROCESS_GROUP_WAIT);
   return true;
 }
 
@@ -505,7 +509,8 @@ bool ProcessGroupManager<CombiDataType>::combineSystemWide() {
 template <typename CombiDataType>
 bool ProcessGroupManager<CombiDataType>::waitForThirdLevelCombiResult() {
   // can only send sync signal when in wait state
-  assert(this->waitStatus() == PROCESS_GROUP_WAIT);
+  [[maybe_unused]] auto status = this->waitStatus();
+  assert(status == PROCESS_GROUP_WAIT);
 
   sendSignalAndReceive(WAIT_FOR_TL_COMBI_RESULT);
   return true;
@@ -751,7 +756,8 @@ void ProcessGroupManager<CombiDataType>::writeInterpolatedValuesPerGrid(
            abstraction::getMPIDatatype(abstraction::getabstractionDataType<real>()), pgroupRootID_,
            TRANSFER_INTERPOLATION_TAG, theMPISystem()->getGlobalComm());
   setProcessGroupBusyAndReceive();
-  assert(waitStatus() == PROCESS_GROUP_WAIT);
+  [[maybe_unused]] auto status = waitStatus();
+  assert(status == PROCESS_GROUP_WAIT);
 }
 
 template <typename CombiDataType>
@@ -809,7 +815,8 @@ Task<CombiDataType>* ProcessGroupManager<CombiDataType>::rescheduleRemoveTask(
 template <typename CombiDataType>
 bool ProcessGroupManager<CombiDataType>::writeCombigridsToVTKPlotFile() {
   // can only send sync signal when in wait state
-  assert(waitStatus() == PROCESS_GROUP_WAIT);
+  [[maybe_unused]] auto status = waitStatus();
+  assert(status == PROCESS_GROUP_WAIT);
 
   sendSignalAndReceive(WRITE_DFGS_TO_VTK);
   return true;
@@ -817,7 +824,8 @@ bool ProcessGroupManager<CombiDataType>::writeCombigridsToVTKPlotFile() {
 
 template <typename CombiDataType>
 bool ProcessGroupManager<CombiDataType>::writeDSGsToDisk(const std::string& filenamePrefix) {
-  assert(waitStatus() == PROCESS_GROUP_WAIT);
+  [[maybe_unused]] auto status = waitStatus();
+  assert(status == PROCESS_GROUP_WAIT);
   sendSignalAndReceive(WRITE_DSGS_TO_DISK);
   MPIUtils::sendClass(&filenamePrefix, pgroupRootID_, theMPISystem()->getGlobalComm());
   return true;
@@ -825,7 +833,8 @@ bool ProcessGroupManager<CombiDataType>::writeDSGsToDisk(const std::string& file
 
 template <typename CombiDataType>
 bool ProcessGroupManager<CombiDataType>::readDSGsFromDisk(const std::string& filenamePrefix) {
-  assert(waitStatus() == PROCESS_GROUP_WAIT);
+  [[maybe_unused]] auto status = waitStatus();
+  assert(status == PROCESS_GROUP_WAIT);
   sendSignalAndReceive(READ_DSGS_FROM_DISK);
   MPIUtils::sendClass(&filenamePrefix, pgroupRootID_, theMPISystem()->getGlobalComm());
   return true;
-- 
2.43.0


From 994faf59ab2b124765fb5e25f0d78b24fe82ffaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:25 +0000
Subject: [PATCH 04/36] fix: send a signal to a process group only after its
 last status arrived

getLpNorms, interpolateValues, writeSparseGridMinMaxCoefficients and others
sent their signal, and then reused the status request, while the status
answering the previous command was still outstanding.
---
 src/manager/ProcessGroupManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/manager/ProcessGroupManager.cpp b/src/manager/ProcessGroupManager.cpp
index bd11812..61b9f97 100644
--- a/src/manager/ProcessGroupManager.cpp
+++ b/src/manager/ProcessGroupManager.cpp
@@ -60,6 +60,9 @@ void ProcessGroupManager<CombiDataType>::sendSignalAndReceive(SignalType signal)
 
 template <typename CombiDataType>
 void ProcessGroupManager<CombiDataType>::sendSignalToProcessGroup(SignalType signal) {
+  // the group answers every signal with its status: a new signal may only be sent after the
+  // status answering the previous one has been received
+  waitStatus();
   MPI_Send(&signal, 1, MPI_INT, pgroupRootID_, TRANSFER_SIGNAL_TAG,
            theMPISystem()->getGlobalComm());
 }
-- 
2.43.0


From 59064bc0e4452f711ac3aac5c5678fcb59dbe36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:25 +0000
Subject: [PATCH 05/36] fix: receive the status a group sends after
 DO_DIAGNOSTICS

---
 src/manager/ProcessGroupManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/manager/ProcessGroupManager.cpp b/src/manager/ProcessGroupManager.cpp
index 61b9f97..43a4628 100644
--- a/src/manager/ProcessGroupManager.cpp
+++ b/src/manager/ProcessGroupManager.cpp
@@ -640,6 +640,7 @@ void ProcessGroupManager<CombiDataType>::doDiagnostics(size_t taskID) {
       MPI_Send(&taskID, 1,
                abstraction::getMPIDatatype(abstraction::getabstractionDataType<decltype(taskID)>()),
                this->pgroupRootID_, 0, theMPISystem()->getGlobalComm());
+      setProcessGroupBusyAndReceive();
       return;
     }
   }
-- 
2.43.0


From 029114865b2eed7ad3a6cec35024e86a4e89ef57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:25 +0000
Subject: [PATCH 06/36] fix: refuse unsupported norms instead of requesting the
 L1 norm

---
 src/manager/ProcessGroupManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/manager/ProcessGroupManager.cpp b/src/manager/ProcessGroupManager.cpp
index 43a4628..364d18c 100644
--- a/src/manager/ProcessGroupManager.cpp
+++ b/src/manager/ProcessGroupManager.cpp
@@ -670,7 +670,7 @@ void ProcessGroupManager<CombiDataType>::getLpNorms(int p, std::map<size_t, doub
   } else if (p == 0) {
     signal = GET_MAX_NORM;
   } else {
-    assert(false && "please implement signal for this norm");
+    throw std::runtime_error("no signal implemented for this norm");
   }
 
   this->sendSignalToProcessGroup(signal);
-- 
2.43.0


From 1b797b40dd8796396815ff458e6568169063fa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:50 +0000
Subject: [PATCH 07/36] fix: detect incomplete parallel writes also in release
 builds

---
 src/io/MPIInputOutput.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/io/MPIInputOutput.hpp b/src/io/MPIInputOutput.hpp
index bab216a..c41dcac 100644
--- a/src/io/MPIInputOutput.hpp
+++ b/src/io/MPIInputOutput.hpp
@@ -138,7 +138,6 @@ class [[nodiscard]] MPIFileConsecutive {
       std::cerr << err << " in MPI_File_write_at_all" << std::endl;
       std::cerr << getMpiErrorString(err) << std::endl;
     }
-#ifndef NDEBUG
     if (err == MPI_SUCCESS) {
       int numWritten = 0;
       MPI_Get_count(&status, dataType, &numWritten);
@@ -148,7 +147,6 @@ class [[nodiscard]] MPIFileConsecutive {
         err = ~MPI_SUCCESS;
       }
     }
-#endif  // !NDEBUG
     return (err == MPI_SUCCESS) ? static_cast<int>(numValues) : 0;
   }
 
-- 
2.43.0


From 935bdfd5af426cdfb80d0275113bb9634ee80dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:50 +0000
Subject: [PATCH 08/36] fix: refuse to write through a file handle that could
 not be opened

---
 src/io/MPIInputOutput.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/MPIInputOutput.hpp b/src/io/MPIInputOutput.hpp
index c41dcac..bb720e8 100644
--- a/src/io/MPIInputOutput.hpp
+++ b/src/io/MPIInputOutput.hpp
@@ -103,11 +103,13 @@ class [[nodiscard]] MPIFileConsecutive {
         err = MPI_File_open(comm, fileName.c_str(), MPI_MODE_WRONLY, info, &file);
       }
     }
+    MPI_Info_free(&info);
     if (err != MPI_SUCCESS) {
       std::cerr << "Open error " << fileName << " :" << std::to_string(err) << " "
                 << getMpiErrorString(err) << std::endl;
+      throw std::runtime_error("write: could not open! " + fileName + ": " +
+                               getMpiErrorString(err));
     }
-    MPI_Info_free(&info);
     return MPIFileConsecutive(file);
   }
 
-- 
2.43.0


From 5873ceeaf00215787ea4b1480c668aa1c707aa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:50 +0000
Subject: [PATCH 09/36] fix: release the info object after opening a file for
 reading

---
 src/io/MPIInputOutput.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/MPIInputOutput.hpp b/src/io/MPIInputOutput.hpp
index bb720e8..cb80866 100644
--- a/src/io/MPIInputOutput.hpp
+++ b/src/io/MPIInputOutput.hpp
@@ -123,6 +123,7 @@ class [[nodiscard]] MPIFileConsecutive {
 
     MPI_File file;
     int err = MPI_File_open(comm, fileName.c_str(), MPI_MODE_RDONLY, info, &file);
+    MPI_Info_free(&info);
     if (err != MPI_SUCCESS) {
       std::cerr << err << " while reading OneFileFromDisk " << fileName << std::endl;
       throw std::runtime_error("read: could not open! " + fileName + ": " + getMpiErrorString(err));
-- 
2.43.0


From 0a1ac9addc77bba2ede4e0511354dbfd339605af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:50 +0000
Subject: [PATCH 10/36] fix: raise an error when a file to be reduced cannot be
 read completely

A short or failed read was only asserted; in release builds stale buffer
contents were reduced and a failing read looped forever.
---
 src/io/MPIInputOutput.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/io/MPIInputOutput.hpp b/src/io/MPIInputOutput.hpp
index cb80866..70c089b 100644
--- a/src/io/MPIInputOutput.hpp
+++ b/src/io/MPIInputOutput.hpp
@@ -257,7 +257,9 @@ int readReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues, const std:
     }
     auto readcountIncrement =
         file.readValuesFromFileAtPosition(buffer.data(), numElementsToBuffer, position);
-    assert(readcountIncrement > 0);
+    if (readcountIncrement != numElementsToBuffer) {
+      throw std::runtime_error("read: could not read all values from " + fileName);
+    }
     // reduce with present sparse grid data
     std::transform(buffer.cbegin(), buffer.cend(), writePointer, writePointer, reduceFunction);
     readcount += readcountIncrement;
@@ -307,7 +309,9 @@ int readMultipleReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues,
     for (size_t i = 0; i < buffers.size(); ++i) {
       readcountIncrement =
           files[i].readValuesFromFileAtPosition(buffers[i].data(), numElementsToBuffer, position);
-      assert(readcountIncrement > 0);
+      if (readcountIncrement != numElementsToBuffer) {
+        throw std::runtime_error("read: could not read all values from " + fileNames[i]);
+      }
     }
     // reduce with present sparse grid data
     // todo is there a variadic way of doing this?
-- 
2.43.0


From 847deda0851108b0e3b6976cbbbdee8d4323c9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:50 +0000
Subject: [PATCH 11/36] fix: examine the result of LZ4F_decompress for errors

LZ4F_decompress reports errors through its return value, not through the
decompressed size.
---
 src/io/MPICompression.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/io/MPICompression.hpp b/src/io/MPICompression.hpp
index 0c0fdf3..7bd1c0a 100644
--- a/src/io/MPICompression.hpp
+++ b/src/io/MPICompression.hpp
@@ -108,12 +108,12 @@ class [[nodiscard]] StreamingFrameDecompressor {
   size_t decompressNextBlock() {
     size_t decompressedSize = sink_.size();
     auto sourceSize = compressedString_.size() - readCompressedByNow_;
-    [[maybe_unused]] auto hintNextBufferSize =
+    auto hintNextBufferSize =
         LZ4F_decompress(dctx_, sink_.front(), &decompressedSize,
                         compressedString_.data() + readCompressedByNow_, &sourceSize, &opts_);
-    if (LZ4F_isError(decompressedSize)) {
+    if (LZ4F_isError(hintNextBufferSize)) {
       throw std::runtime_error("LZ4 decompression failed: " +
-                               std::string(LZ4F_getErrorName(decompressedSize)));
+                               std::string(LZ4F_getErrorName(hintNextBufferSize)));
     }
     decompressedByNow_ += decompressedSize;
     readCompressedByNow_ += sourceSize;
@@ -162,12 +162,12 @@ class [[nodiscard]] FrameDecompressor {
   size_t decompressNextBlocks(size_t numValues) {
     size_t decompressedSize = numValues * sizeof(T);
     auto sourceSize = compressedString_.size() - readCompressedByNow_;
-    [[maybe_unused]] auto hintNextBufferSize =
+    auto hintNextBufferSize =
         LZ4F_decompress(dctx_, decompressValuesStart_, &decompressedSize, compressedString_.data(),
                         &sourceSize, &opts_);
-    if (LZ4F_isError(decompressedSize)) {
+    if (LZ4F_isError(hintNextBufferSize)) {
       throw std::runtime_error("LZ4 decompression failed: " +
-                               std::string(LZ4F_getErrorName(decompressedSize)));
+                               std::string(LZ4F_getErrorName(hintNextBufferSize)));
     }
     decompressedByNow_ += decompressedSize;
     decompressValuesStart_ += decompressedSize;
-- 
2.43.0


From f98c9fad71c0ffe6718c58ebb3f39f25b89038db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:21 +0000
Subject: [PATCH 12/36] fix: do not read a group's status while it may still be
 arriving

status_ is the buffer of the pending status receive; decide on the result of
getStatus(), which completes (tests) that receive first.
---
 src/manager/ProcessGroupManager.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/manager/ProcessGroupManager.cpp b/src/manager/ProcessGroupManager.cpp
index 364d18c..24bbd8e 100644
--- a/src/manager/ProcessGroupManager.cpp
+++ b/src/manager/ProcessGroupManager.cpp
@@ -25,7 +25,7 @@ bool ProcessGroupManager<CombiDataType>::storeTaskReferenceAndSendTaskToProcessG
   // first check status
   // tying to add a task to a busy group is an invalid operation
   // and should be avoided
-  if (status_ != PROCESS_GROUP_WAIT) return false;
+  if (getStatus() != PROCESS_GROUP_WAIT) return false;
 
   storeTaskReference(t);
   return sendTaskToProcessGroup(t, signal);
@@ -93,7 +93,7 @@ bool ProcessGroupManager<CombiDataType>::runnext() {
 template <typename CombiDataType>
 bool ProcessGroupManager<CombiDataType>::exit() {
   // can only send exit signal when in wait state
-  if (status_ != PROCESS_GROUP_WAIT) return false;
+  if (getStatus() != PROCESS_GROUP_WAIT) return false;
 
   sendSignalAndReceive(EXIT);
   return true;
@@ -552,7 +552,7 @@ bool ProcessGroupManager<CombiDataType>::refreshTask(Task<CombiDataType>* t) {
   // first check status
   // tying to add a task to a busy group is an invalid operation
   // and should be avoided
-  if (status_ != PROCESS_GROUP_WAIT) {
+  if (getStatus() != PROCESS_GROUP_WAIT) {
     std::cout << "refreshing failed! \n";
     return false;
   }
@@ -573,7 +573,7 @@ bool ProcessGroupManager<CombiDataType>::resetTasksWorker() {
   // first check status
   // tying to reset tasks of a busy group is an invalid operation
   // and should be avoided
-  if (status_ != PROCESS_GROUP_WAIT) {
+  if (getStatus() != PROCESS_GROUP_WAIT) {
     assert(false);
     // return false;
   }
-- 
2.43.0


From faf37d7212b3dfdfb9649a480e258f769b656837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:37 +0000
Subject: [PATCH 13/36] fix: raise an error when a file could not be written or
 read completely

---
 src/io/MPIInputOutput.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/io/MPIInputOutput.hpp b/src/io/MPIInputOutput.hpp
index 70c089b..1d007a7 100644
--- a/src/io/MPIInputOutput.hpp
+++ b/src/io/MPIInputOutput.hpp
@@ -224,7 +224,11 @@ int writeValuesConsecutive(const T* valuesStart, MPI_Offset numValues, const std
   auto file = MPIFileConsecutive<T>::getFileToWrite(fileName, comm, replaceExistingFile,
                                                     withCollectiveBuffering);
   auto position = getPositionFromNumValues(numValues, comm);
-  return file.writeValuesToFileAtPosition(valuesStart, numValues, position);
+  auto numWritten = file.writeValuesToFileAtPosition(valuesStart, numValues, position);
+  if (numWritten != numValues) {
+    throw std::runtime_error("write: could not write all values to " + fileName);
+  }
+  return numWritten;
 }
 
 template <typename T>
@@ -234,7 +238,11 @@ int readValuesConsecutive(T* valuesStart, MPI_Offset numValues, const std::strin
   file.checkFileSizeConsecutive(numValues, comm);
 
   auto position = getPositionFromNumValues(numValues, comm);
-  return file.readValuesFromFileAtPosition(valuesStart, numValues, position);
+  auto numRead = file.readValuesFromFileAtPosition(valuesStart, numValues, position);
+  if (numRead != numValues) {
+    throw std::runtime_error("read: could not read all values from " + fileName);
+  }
+  return numRead;
 }
 
 template <typename T, typename ReduceFunctionType>
-- 
2.43.0


From d87d50fc2dfa7b208d700a495e4476305b4f7a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:37 +0000
Subject: [PATCH 14/36] fix: raise an error when compressed data is incomplete

---
 src/io/MPICompression.hpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/io/MPICompression.hpp b/src/io/MPICompression.hpp
index 7bd1c0a..f9dd635 100644
--- a/src/io/MPICompression.hpp
+++ b/src/io/MPICompression.hpp
@@ -199,7 +199,10 @@ size_t decompressLZ4FrameToBuffer(const std::vector<char>& compressedString,
     decompressedByNow += decompressedSize;
     ++numRounds;
   } while (decompressedSize > 0);
-  assert(numValues == 0);
+  if (numValues != 0) {
+    throw std::runtime_error("LZ4 decompression failed: " + std::to_string(numValues) +
+                             " values missing");
+  }
   if (numRounds != 2) {
     throw std::runtime_error("LZ4 decompression failed: " + std::to_string(numRounds) + " rounds");
   }
@@ -322,8 +325,9 @@ inline void getFrameSizeAndPosFromHeader(const MPIFileConsecutive<char>& file,
     std::vector<char> headerFrame(compressedHeaderSize);
     auto numCharsRead =
         file.readValuesFromFileAtPositionSingleRank(headerFrame.data(), headerFrame.size(), 0);
-    assert(numCharsRead == static_cast<int>(compressedHeaderSize));
-    headerFrame.resize(numCharsRead);
+    if (numCharsRead != static_cast<int>(compressedHeaderSize)) {
+      throw std::runtime_error("read: could not read the header of the compressed file");
+    }
 
     std::vector<MPI_Offset> frameSizes(commSize);
     [[maybe_unused]] auto numCharsInFirstFrame =
@@ -357,8 +361,9 @@ int readCompressedValuesConsecutive(T* valuesStart, MPI_Offset numValues,
 
   std::vector<char> frameString(frameSize);
   auto numCharsRead = file.readValuesFromFileAtPosition(frameString.data(), frameSize, position);
-  assert(numCharsRead == frameSize);
-  frameString.resize(numCharsRead);
+  if (numCharsRead != frameSize) {
+    throw std::runtime_error("read: could not read all compressed values from " + fileName);
+  }
 
   auto numValuesDecompressed = static_cast<int>(
       mpiio::decompressLZ4FrameToBuffer(std::move(frameString), valuesStart, numValues));
@@ -382,8 +387,9 @@ int readReduceCompressedValuesConsecutive(
 
   std::vector<char> frameString(frameSize);
   auto numCharsRead = file.readValuesFromFileAtPosition(frameString.data(), frameSize, position);
-  assert(numCharsRead == frameSize);
-  frameString.resize(numCharsRead);
+  if (numCharsRead != frameSize) {
+    throw std::runtime_error("read: could not read all compressed values from " + fileName);
+  }
 
   size_t bufferRemainderToRemember = 0;
   auto writePointer = valuesStart;
@@ -410,7 +416,10 @@ int readReduceCompressedValuesConsecutive(
     buffer.reset(bufferRemainder);
     bufferRemainderToRemember = bufferRemainder;
   } while (!decompressor.isFinished());
-  assert(numValuesDecompressed == numValues);
+  if (numValuesDecompressed != numValues) {
+    throw std::runtime_error("LZ4 decompression failed: " + std::to_string(numValuesDecompressed) +
+                             " instead of " + std::to_string(numValues) + " values in " + fileName);
+  }
 
   return numValuesDecompressed;
 #else
-- 
2.43.0


From 42b1047ae13e26e779d0a75da1c27f061b2cb479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:37 +0000
Subject: [PATCH 15/36] fix: raise an error when forwarding data between
 systems fails

---
 third_level_manager/thirdLevelManager.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/third_level_manager/thirdLevelManager.cpp b/third_level_manager/thirdLevelManager.cpp
index 88562cf..9325bf6 100644
--- a/third_level_manager/thirdLevelManager.cpp
+++ b/third_level_manager/thirdLevelManager.cpp
@@ -285,9 +285,12 @@ size_t ThirdLevelManager::forwardData(const System& sender, const System& receiv
   receiver.sendMessage(std::to_string(dataSize));
 
   // forward data to other system
-  if (dataSize != 0)
-    NetworkUtils::forward(*sender.getConnection(), *receiver.getConnection(),
-                          this->params_.getChunksize(), dataSize);
+  if (dataSize != 0) {
+    bool success = NetworkUtils::forward(*sender.getConnection(), *receiver.getConnection(),
+                                         this->params_.getChunksize(), dataSize);
+    if (!success)
+      throw std::runtime_error("forwarding data between systems failed");
+  }
 
   return dataSize;
 }
-- 
2.43.0


From 66007436c5402c32f5b50991cb3eeb7b3e924311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:13 +0000
Subject: [PATCH 16/36] fix: detect failures when writing plot files

---
 src/fullgrid/DistributedFullGrid.hpp | 33 +++++++++++++++++++---------
 src/io/MPIInputOutput.hpp            | 20 +++++++++++++++++
 2 files changed, 43 insertions(+), 10 deletions(-)

diff --git a/src/fullgrid/DistributedFullGrid.hpp b/src/fullgrid/DistributedFullGrid.hpp
index ecf061a..49d4044 100644
--- a/src/fullgrid/DistributedFullGrid.hpp
+++ b/src/fullgrid/DistributedFullGrid.hpp
@@ -13,6 +13,7 @@
 #include "fullgrid/FullGrid.hpp"
 #include "fullgrid/Tensor.hpp"
 #include "mpi/MPICartesianUtils.hpp"
+#include "io/MPIInputOutput.hpp"
 #include "mpi/MPISystem.hpp"
 #include "mpi/MPITags.hpp"
 #include "sparsegrid/AnyDistributedSparseGrid.hpp"
@@ -1418,7 +1419,10 @@ void DistributedFullGrid<FG_ELEMENT>::writePlotFile(const char* filename) const
 
   // open file
   MPI_File fh;
-  MPI_File_open(getCommunicator(), filename, MPI_MODE_WRONLY | MPI_MODE_CREATE, MPI_INFO_NULL, &fh);
+  MPI_Status status;
+  int err = MPI_File_open(getCommunicator(), filename, MPI_MODE_WRONLY | MPI_MODE_CREATE,
+                          MPI_INFO_NULL, &fh);
+  mpiio::throwIfNotOpened(err, filename);
 
   MPI_Offset offset = 0;
 
@@ -1448,10 +1452,12 @@ void DistributedFullGrid<FG_ELEMENT>::writePlotFile(const char* filename) const
   } else {
     // rank 0 write dim and resolution (and data format?)
     if (this->getRank() == 0) {
-      MPI_File_write(fh, &dim, 1, MPI_UNSIGNED_CHAR, MPI_STATUS_IGNORE);
+      err = MPI_File_write(fh, &dim, 1, MPI_UNSIGNED_CHAR, &status);
+      mpiio::throwIfIncomplete(err, status, MPI_UNSIGNED_CHAR, 1, filename);
 
       std::vector<int> res(csizes.begin(), csizes.end());
-      MPI_File_write(fh, &res[0], 6, MPI_INT, MPI_STATUS_IGNORE);
+      err = MPI_File_write(fh, res.data(), static_cast<int>(res.size()), MPI_INT, &status);
+      mpiio::throwIfIncomplete(err, status, MPI_INT, static_cast<int>(res.size()), filename);
     }
 
     // set file view to right offset (in bytes)
@@ -1461,8 +1467,10 @@ void DistributedFullGrid<FG_ELEMENT>::writePlotFile(const char* filename) const
   MPI_File_set_view(fh, offset, getMPIDatatype(), mysubarray, "native", MPI_INFO_NULL);
 
   // write subarray
-  MPI_File_write_all(fh, getData(), static_cast<int>(getNrLocalElements()), getMPIDatatype(),
-                     MPI_STATUS_IGNORE);
+  err = MPI_File_write_all(fh, getData(), static_cast<int>(getNrLocalElements()), getMPIDatatype(),
+                           &status);
+  mpiio::throwIfIncomplete(err, status, getMPIDatatype(), static_cast<int>(getNrLocalElements()),
+                           filename);
   // close file
   MPI_File_close(&fh);
   MPI_Type_free(&mysubarray);
@@ -1484,7 +1492,10 @@ void DistributedFullGrid<FG_ELEMENT>::writePlotFileVTK(const char* filename) con
 
   // open file
   MPI_File fh;
-  MPI_File_open(getCommunicator(), filename, MPI_MODE_WRONLY + MPI_MODE_CREATE, MPI_INFO_NULL, &fh);
+  MPI_Status status;
+  int err = MPI_File_open(getCommunicator(), filename, MPI_MODE_WRONLY + MPI_MODE_CREATE,
+                          MPI_INFO_NULL, &fh);
+  mpiio::throwIfNotOpened(err, filename);
 
   std::stringstream vtk_header;
   // cf https://lorensen.github.io/VTKExamples/site/VTKFileFormats/ => structured points
@@ -1522,8 +1533,8 @@ void DistributedFullGrid<FG_ELEMENT>::writePlotFileVTK(const char* filename) con
 
   // rank 0 write header
   if (this->getRank() == 0) {
-    MPI_File_write(fh, header_string.data(), static_cast<int>(header_size), MPI_CHAR,
-                   MPI_STATUS_IGNORE);
+    err = MPI_File_write(fh, header_string.data(), static_cast<int>(header_size), MPI_CHAR, &status);
+    mpiio::throwIfIncomplete(err, status, MPI_CHAR, static_cast<int>(header_size), filename);
   }
 
   // set file view to right offset (in bytes)
@@ -1533,8 +1544,10 @@ void DistributedFullGrid<FG_ELEMENT>::writePlotFileVTK(const char* filename) con
   MPI_File_set_view(fh, offset, getMPIDatatype(), mysubarray, "external32", MPI_INFO_NULL);
 
   // write subarray
-  MPI_File_write_all(fh, getData(), static_cast<int>(getNrLocalElements()), getMPIDatatype(),
-                     MPI_STATUS_IGNORE);
+  err = MPI_File_write_all(fh, getData(), static_cast<int>(getNrLocalElements()), getMPIDatatype(),
+                           &status);
+  mpiio::throwIfIncomplete(err, status, getMPIDatatype(), static_cast<int>(getNrLocalElements()),
+                           filename);
 
   // close file
   MPI_File_close(&fh);
diff --git a/src/io/MPIInputOutput.hpp b/src/io/MPIInputOutput.hpp
index 1d007a7..dd80aa5 100644
--- a/src/io/MPIInputOutput.hpp
+++ b/src/io/MPIInputOutput.hpp
@@ -44,6 +44,26 @@ static MPI_Info getNewConsecutiveMpiInfo(bool withCollectiveBuffering) {
   return info;
 }
 
+/// throw an error if a parallel file could not be opened
+inline void throwIfNotOpened(int err, const std::string& fileName) {
+  if (err != MPI_SUCCESS) {
+    throw std::runtime_error("could not open " + fileName + ": " + getMpiErrorString(err));
+  }
+}
+
+/// throw an error if a transfer to or from a parallel file failed or was incomplete
+inline void throwIfIncomplete(int err, const MPI_Status& status, MPI_Datatype dataType,
+                              int numExpected, const std::string& fileName) {
+  if (err != MPI_SUCCESS) {
+    throw std::runtime_error("could not access " + fileName + ": " + getMpiErrorString(err));
+  }
+  int numTransferred = 0;
+  MPI_Get_count(&status, dataType, &numTransferred);
+  if (numTransferred != numExpected) {
+    throw std::runtime_error("could not access all values in " + fileName);
+  }
+}
+
 inline MPI_Offset getPositionFromNumValues(MPI_Offset numValues, combigrid::CommunicatorType comm) {
   MPI_Offset position = 0;
   MPI_Exscan(&numValues, &position, 1, MPI_OFFSET, MPI_SUM, comm);
-- 
2.43.0


From e7d6df0ce78e28ed8bcd3d52b66aab52f83d3dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:14 +0000
Subject: [PATCH 17/36] fix: report a failure to receive the sender's
 endianness

---
 src/third_level/NetworkUtils.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/third_level/NetworkUtils.hpp b/src/third_level/NetworkUtils.hpp
index 0794a37..bef1fae 100644
--- a/src/third_level/NetworkUtils.hpp
+++ b/src/third_level/NetworkUtils.hpp
@@ -189,8 +189,10 @@ bool ClientSocket::recvallBinaryAndCorrectInPlace(FG_ELEMENT* buff,
   assert(isInitialized() && "Client Socket not initialized");
   // receive endianness
   char temp = ' ';
-  [[maybe_unused]] auto recvAllSuccess = recvall(&temp, 1);
-  assert(recvAllSuccess && "Receiving Endianess failed");
+  if (!recvall(&temp, 1)) {
+    std::cerr << "Receiving Endianess failed" << std::endl;
+    return false;
+  }
   bool hasSameEndianness = bool(temp) == NetworkUtils::isLittleEndian();
 
   // for recv()
@@ -262,6 +264,7 @@ bool ClientSocket::recvallBinaryAndCorrectInPlace(FG_ELEMENT* buff,
 
     totalRecvd += (size_t)recvd;
   }
+  if (totalRecvd == rawSize) return true;
   if ( recvd == -1) {
     std::cerr << "Receive failed: " << std::to_string(err) << std::endl;
     return false;
@@ -300,8 +303,10 @@ bool ClientSocket::recvallBinaryAndReduceInPlace(FG_ELEMENT* buff,
   assert(isInitialized() && "Client Socket not initialized");
   // receive endianness
   char temp = ' ';
-  [[maybe_unused]] auto recvSuccess = recvall(&temp, 1);
-  assert(recvSuccess && "Receiving Endianess failed");
+  if (!recvall(&temp, 1)) {
+    std::cerr << "Receiving Endianess failed" << std::endl;
+    return false;
+  }
   bool hasSameEndianness = bool(temp) == NetworkUtils::isLittleEndian();
 
   // for recv()
@@ -382,6 +387,7 @@ bool ClientSocket::recvallBinaryAndReduceInPlace(FG_ELEMENT* buff,
     totalRecvd += (size_t)recvd;
   }
 
+  if (totalRecvd == rawSize) return true;
   if ( recvd == -1) {
     std::cerr << "Receive failed: " << std::to_string(err) << std::endl;
     return false;
-- 
2.43.0


From e509ed4639b53612ba3f1e21657c8123d5c0118f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:14 +0000
Subject: [PATCH 18/36] fix: reverse exactly the bytes of the value when
 correcting the endianness

---
 src/third_level/NetworkUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/third_level/NetworkUtils.hpp b/src/third_level/NetworkUtils.hpp
index bef1fae..628a986 100644
--- a/src/third_level/NetworkUtils.hpp
+++ b/src/third_level/NetworkUtils.hpp
@@ -163,7 +163,7 @@ class NetworkUtils {
 
       // reverse bytes
       for (size_t j = 0; j < sizeof(T); j++)
-          rawRet[j] = rawValue[sizeof(T)-j];
+          rawRet[j] = rawValue[sizeof(T) - 1 - j];
 
       return retValue;
     }
-- 
2.43.0


From 051ffd0bfd28c3a3d88a2edc6c5dc855f097240e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:14 +0000
Subject: [PATCH 19/36] fix: raise an error when the exchange with the third
 level manager fails

---
 src/third_level/ThirdLevelUtils.cpp | 18 ++++++++++++++----
 src/third_level/ThirdLevelUtils.hpp | 27 ++++++++++++++++++---------
 2 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/third_level/ThirdLevelUtils.cpp b/src/third_level/ThirdLevelUtils.cpp
index ff696b3..f4364d5 100644
--- a/src/third_level/ThirdLevelUtils.cpp
+++ b/src/third_level/ThirdLevelUtils.cpp
@@ -11,7 +11,11 @@ ThirdLevelUtils::ThirdLevelUtils(const std::string& host, int port)
 
 ThirdLevelUtils::~ThirdLevelUtils(){
   if (isConnected_) {
-    signalFinalize();
+    try {
+      signalFinalize();
+    } catch (const std::exception& e) {
+      std::cerr << "ThirdLevelUtils: could not log off: " << e.what() << std::endl;
+    }
     isConnected_ = false;
   }
 }
@@ -81,12 +85,16 @@ void ThirdLevelUtils::signalFinalize() const
 
 void ThirdLevelUtils::sendMessage(const std::string& message) const
 {
-  connection_->sendallPrefixed(message);
+  if (!connection_->sendallPrefixed(message)) {
+    throw std::runtime_error("ThirdLevelUtils: sending '" + message + "' failed");
+  }
 }
 
 void ThirdLevelUtils::receiveMessage(std::string& message) const
 {
-  connection_->recvallPrefixed(message);
+  if (!connection_->recvallPrefixed(message)) {
+    throw std::runtime_error("ThirdLevelUtils: receiving a message failed");
+  }
 }
 
 void ThirdLevelUtils::signalizeSendData() const
@@ -106,7 +114,9 @@ size_t ThirdLevelUtils::receiveSize() const
 
   std::stringstream ss(sizeStr);
   size_t size;
-  ss >> size;
+  if (!(ss >> size)) {
+    throw std::runtime_error("ThirdLevelUtils: expected a size but received '" + sizeStr + "'");
+  }
   return size;
 }
 }
diff --git a/src/third_level/ThirdLevelUtils.hpp b/src/third_level/ThirdLevelUtils.hpp
index b5212e0..7d1ca05 100644
--- a/src/third_level/ThirdLevelUtils.hpp
+++ b/src/third_level/ThirdLevelUtils.hpp
@@ -86,7 +86,9 @@ namespace combigrid {
     signalizeSendData();
     size_t rawSize = size * sizeof(FG_ELEMENT) + 1; // + 1 due to endianness
     sendSize(rawSize);
-    connection_->sendallBinary(data, size);
+    if (!connection_->sendallBinary(data, size)) {
+      throw std::runtime_error("ThirdLevelUtils: sending data failed");
+    }
   }
 
   template <typename FG_ELEMENT>
@@ -94,10 +96,13 @@ namespace combigrid {
   {
     assert(isConnected_);
     size_t rawSize = receiveSize();
-    [[maybe_unused]] size_t recvSize = (rawSize - 1) / sizeof(FG_ELEMENT); // - 1 due to endianness
-    assert(recvSize == size && "Size mismatch receiving data size does not match expected");
-    [[maybe_unused]] bool success = connection_->recvallBinaryAndCorrectInPlace(data, size);
-    assert(success && "receiving dsgu data failed");
+    size_t recvSize = (rawSize - 1) / sizeof(FG_ELEMENT); // - 1 due to endianness
+    if (recvSize != size) {
+      throw std::runtime_error("Size mismatch receiving data size does not match expected");
+    }
+    if (!connection_->recvallBinaryAndCorrectInPlace(data, size)) {
+      throw std::runtime_error("receiving dsgu data failed");
+    }
   }
 
 
@@ -106,11 +111,15 @@ namespace combigrid {
   {
     assert(isConnected_);
     size_t rawSize = receiveSize();
-    [[maybe_unused]] size_t recvSize = (rawSize - 1) / sizeof(FG_ELEMENT); // - 1 due to endianness
-    assert(recvSize == size && "Size mismatch cannot add vectors of different size");
-    [[maybe_unused]] bool success = connection_->recvallBinaryAndReduceInPlace<FG_ELEMENT>(data, size,
+    size_t recvSize = (rawSize - 1) / sizeof(FG_ELEMENT); // - 1 due to endianness
+    if (recvSize != size) {
+      throw std::runtime_error("Size mismatch cannot add vectors of different size");
+    }
+    bool success = connection_->recvallBinaryAndReduceInPlace<FG_ELEMENT>(data, size,
         [](const FG_ELEMENT& lhs, const FG_ELEMENT& rhs) -> FG_ELEMENT {return lhs + rhs;});
-    assert(success && "receiving dsgu data failed");
+    if (!success) {
+      throw std::runtime_error("receiving dsgu data failed");
+    }
   }
 }
 #endif
-- 
2.43.0


From feb547372b318b8a50a6af80de7b4e39febb6e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:03 +0000
Subject: [PATCH 20/36] fix: raise an error when the broker cannot receive an
 expected message

---
 third_level_manager/System.cpp            |   5 +-
 third_level_manager/thirdLevelManager.cpp | 103 +++++++++++-----------
 2 files changed, 54 insertions(+), 54 deletions(-)

diff --git a/third_level_manager/System.cpp b/third_level_manager/System.cpp
index 962bf32..51c8197 100644
--- a/third_level_manager/System.cpp
+++ b/third_level_manager/System.cpp
@@ -9,7 +9,8 @@ System::System(std::shared_ptr<ClientSocket>& connection, size_t id)
 
 void System::sendMessage(const std::string& message) const
 {
-  connection_->sendallPrefixed(message);
+  if (!connection_->sendallPrefixed(message))
+    throw std::runtime_error("sending a message to a system failed");
 }
 
 bool System::receiveMessage(std::string& message, int timeout) const
@@ -22,7 +23,7 @@ bool System::receivePosNumber(size_t& number) const
   std::string message;
   if (receiveMessage(message))
   {
-    assert(NetworkUtils::isInteger(message));
+    if (!NetworkUtils::isInteger(message)) return false;
     number = std::stoul(message);
     return true;
   }
diff --git a/third_level_manager/thirdLevelManager.cpp b/third_level_manager/thirdLevelManager.cpp
index 9325bf6..1011054 100644
--- a/third_level_manager/thirdLevelManager.cpp
+++ b/third_level_manager/thirdLevelManager.cpp
@@ -60,6 +60,26 @@ int main(int argc, char* argv[])
 
 namespace combigrid {
 
+namespace {
+
+/** Receives the next message of a system; there always has to be one. */
+std::string receiveNext(const System& system) {
+  std::string message;
+  if (!system.receiveMessage(message))
+    throw std::runtime_error("ThirdLevelManager: Receiving message failed!");
+  return message;
+}
+
+/** Receives the next message of a system, which has to be the expected one. */
+void receiveExpected(const System& system, const std::string& expected) {
+  auto message = receiveNext(system);
+  if (message != expected)
+    throw std::runtime_error("ThirdLevelManager: expected '" + expected + "' but received '" +
+                             message + "'");
+}
+
+}  // namespace
+
 /** Initiates the third level manager by reading in parameters and creating
  *  abstractions for each managed system.
  */
@@ -90,7 +110,7 @@ void ThirdLevelManager::init()
   for (u_int i = 0; i < params_.getNumSystems(); i++) {
     std::cout << " Waiting for system (" << i+1 << "/" << params_.getNumSystems() << ")" << std::endl;
     std::shared_ptr<ClientSocket> connection = std::shared_ptr<ClientSocket>(server_.acceptClient());
-    assert(connection != nullptr && "Connecting to system failed");
+    if (connection == nullptr) throw std::runtime_error("Connecting to system failed");
     System sys(connection, i+1);
     systems_.push_back(std::move(sys));
   }
@@ -135,6 +155,8 @@ void ThirdLevelManager::processMessage(const std::string& message, size_t sysInd
     processAnyData(sysIndex);
   else if (message == "finished_computation")
     processFinished(sysIndex);
+  else
+    throw std::runtime_error("ThirdLevelManager: unknown message '" + message + "'");
 }
 
 /** Processes and manages the third level combination, initiated by a system
@@ -151,28 +173,25 @@ void ThirdLevelManager::processCombination(size_t initiatorIndex)
   size_t otherIndex = (initiatorIndex + 1) % systems_.size();
   System& other = systems_[otherIndex];
 
-  std::string message;
   initiator.sendMessage("send_first");
-  other.receiveMessage(message);
-  assert(message == "ready_to_combine");
+  receiveExpected(other, "ready_to_combine");
   other.sendMessage("recv_first");
 
   // transfer grids between the systems
-  while (initiator.receiveMessage(message) && message != "ready")
+  std::string message;
+  while ((message = receiveNext(initiator)) != "ready")
   {
-    assert(message == "sending_data");
+    if (message != "sending_data") throw std::runtime_error("Unexpected message: " + message);
     size_t dataSize = forwardData(initiator, other);
     stats_.addToBytesTransferredInCombination(dataSize);
 
-    other.receiveMessage(message);
-    assert(message == "sending_data");
+    receiveExpected(other, "sending_data");
     dataSize = forwardData(other, initiator);
     stats_.addToBytesTransferredInCombination(dataSize);
   }
 
   // wait for other system to finish receiving
-  other.receiveMessage(message);
-  assert(message == "ready");
+  receiveExpected(other, "ready");
 }
 
 
@@ -184,16 +203,12 @@ void ThirdLevelManager::processCombinationFile(size_t initiatorIndex)
   size_t otherIndex = (initiatorIndex + 1) % systems_.size();
   System& other = systems_[otherIndex];
 
-  std::string message;
   initiator.sendMessage("write_ok");
-  other.receiveMessage(message);
-  assert(message == "ready_to_combine_file");
+  receiveExpected(other, "ready_to_combine_file");
   other.sendMessage("write_ok");
 
-  initiator.receiveMessage(message);
-  assert(message == "ready");
-  other.receiveMessage(message);
-  assert(message == "ready");
+  receiveExpected(initiator, "ready");
+  receiveExpected(other, "ready");
 }
 
 /* TODO optimization: forward both directions at the same time
@@ -206,30 +221,21 @@ void ThirdLevelManager::processUnifySubspaceSizes(size_t initiatorIndex)
   size_t otherIndex = (initiatorIndex + 1) % systems_.size();
   System& other = systems_[otherIndex];
 
-  std::string message;
   initiator.sendMessage("send_first" );
-  other.receiveMessage( message);
-  assert(message == "ready_to_unify_subspace_sizes");
+  receiveExpected(other, "ready_to_unify_subspace_sizes");
   other.sendMessage("recv_first" );
 
   // transfer data from initiator (sends first) to other (receives first)
-  initiator.receiveMessage(message);
-  if (message == "sending_data")
-  {
-    size_t dataSize = forwardData(initiator, other);
-    stats_.addToBytesTransferredInSizeExchange(dataSize);
-  }
+  receiveExpected(initiator, "sending_data");
+  size_t dataSize = forwardData(initiator, other);
+  stats_.addToBytesTransferredInSizeExchange(dataSize);
   // transfer data from other to initiator
-  other.receiveMessage(message);
-  if (message == "sending_data")
-  {
-    size_t dataSize = forwardData(other, initiator);
-    stats_.addToBytesTransferredInSizeExchange(dataSize);
-  }
-  initiator.receiveMessage(message);
-  assert(message == "ready");
-  other.receiveMessage(message);
-  assert(message == "ready");
+  receiveExpected(other, "sending_data");
+  dataSize = forwardData(other, initiator);
+  stats_.addToBytesTransferredInSizeExchange(dataSize);
+
+  receiveExpected(initiator, "ready");
+  receiveExpected(other, "ready");
 }
 
 void ThirdLevelManager::processAnyData(size_t initiatorIndex) {
@@ -238,30 +244,22 @@ void ThirdLevelManager::processAnyData(size_t initiatorIndex) {
   size_t otherIndex = (initiatorIndex + 1) % systems_.size();
   System& other = systems_[otherIndex];
 
-  std::string message;
   initiator.sendMessage("send_first");
-  other.receiveMessage(message);
-  assert(message == "ready_to_exchange_data");
+  receiveExpected(other, "ready_to_exchange_data");
   other.sendMessage("recv_first");
 
   // transfer data from initiator (sends first) to other (receives first)
-  initiator.receiveMessage(message);
-  if (message == "sending_data") {
-    // size_t dataSize = forwardData(initiator, other);
-    forwardData(initiator, other);
-  }
+  receiveExpected(initiator, "sending_data");
+  forwardData(initiator, other);
   // transfer data from other to initiator if there is any
-  other.receiveMessage(message);
+  auto message = receiveNext(other);
   if (message == "sending_data") {
     // size_t dataSize = forwardData(other, initiator);
     forwardData(other, initiator);
-    initiator.receiveMessage(message);
-    assert(message == "ready");
-    other.receiveMessage(message);
-    assert(message == "ready");
+    receiveExpected(initiator, "ready");
+    receiveExpected(other, "ready");
   } else if (message == "ready") {
-    initiator.receiveMessage(message);
-    assert(message == "ready");
+    receiveExpected(initiator, "ready");
   } else {
     throw std::runtime_error("Unexpected message: " + message);
   }
@@ -281,7 +279,8 @@ void ThirdLevelManager::processFinished(size_t sysIndex)
 size_t ThirdLevelManager::forwardData(const System& sender, const System& receiver) const
 {
   size_t dataSize;
-  sender.receivePosNumber(dataSize);
+  if (!sender.receivePosNumber(dataSize))
+    throw std::runtime_error("receiving the size of the data to be forwarded failed");
   receiver.sendMessage(std::to_string(dataSize));
 
   // forward data to other system
-- 
2.43.0


From 9d96de05d7c00346e96761be12ab7f8bfc8db2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:03 +0000
Subject: [PATCH 21/36] fix: refuse unknown instructions of the third level
 manager

---
 src/manager/ProcessManager.cpp |  2 ++
 src/manager/ProcessManager.hpp | 14 ++++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/manager/ProcessManager.cpp b/src/manager/ProcessManager.cpp
index e358af8..7c8a063 100644
--- a/src/manager/ProcessManager.cpp
+++ b/src/manager/ProcessManager.cpp
@@ -564,6 +564,8 @@ void ProcessManager<CombiDataType>::monteCarloThirdLevel(
   } else if (instruction == "recv_first") {
     thirdLevel_.recvData(remoteValues.data(), buffSize);
     thirdLevel_.sendData(values.data(), buffSize);
+  } else {
+    throw std::runtime_error("unknown instruction: " + instruction);
   }
   thirdLevel_.signalReady();
 
diff --git a/src/manager/ProcessManager.hpp b/src/manager/ProcessManager.hpp
index a83fa3a..2c58d5d 100644
--- a/src/manager/ProcessManager.hpp
+++ b/src/manager/ProcessManager.hpp
@@ -520,6 +520,8 @@ void ProcessManager<CombiDataType>::combineThirdLevel() {
     thirdLevelPGroup_->combineThirdLevel(thirdLevel_, params_, true);
   } else if (instruction == "recv_first") {
     thirdLevelPGroup_->combineThirdLevel(thirdLevel_, params_, false);
+  } else {
+    throw std::runtime_error("unknown instruction: " + instruction);
   }
   Stats::stopEvent("manager exchange data with remote");
   thirdLevel_.signalReady();
@@ -536,7 +538,9 @@ void ProcessManager<CombiDataType>::combineThirdLevelFileBasedWrite(
   // obtain "instructions" from third level manager
   thirdLevel_.signalReadyToCombineFile();
   std::string instruction = thirdLevel_.fetchInstruction();
-  assert(instruction == "write_ok");
+  if (instruction != "write_ok") {
+    throw std::runtime_error("unknown instruction: " + instruction);
+  }
 
   // combine
   Stats::startEvent("manager combine write");
@@ -580,7 +584,9 @@ void ProcessManager<CombiDataType>::combineThirdLevelFileBased(
   // obtain instructions from third level manager
   thirdLevel_.signalReadyToCombineFile();
   std::string instruction = thirdLevel_.fetchInstruction();
-  assert(instruction == "write_ok");
+  if (instruction != "write_ok") {
+    throw std::runtime_error("unknown instruction: " + instruction);
+  }
 
   // combine
   Stats::startEvent("manager combine file");
@@ -642,6 +648,8 @@ size_t ProcessManager<CombiDataType>::pretendCombineThirdLevelForBroker(
       thirdLevel_.recvAndAddToData(dsguData.data(), dsguSize);
       // send combined solution to remote
       thirdLevel_.sendData(dsguData.data(), dsguSize);
+    } else {
+      throw std::runtime_error("unknown instruction: " + instruction);
     }
   }
   Stats::stopEvent("manager exchange data with remote");
@@ -670,6 +678,8 @@ size_t ProcessManager<CombiDataType>::unifySubspaceSizesThirdLevel(
   } else if (instruction == "recv_first") {
     thirdLevelPGroup_->reduceLocalAndRemoteSubspaceSizes(thirdLevel_, false,
                                                          thirdLevelExtraSparseGrid);
+  } else {
+    throw std::runtime_error("unknown instruction: " + instruction);
   }
   thirdLevel_.signalReady();
 
-- 
2.43.0


From 278c5cebbf1f5dda21fd59e66c608a08971b7d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:41 +0000
Subject: [PATCH 22/36] fix: sum up and multiply sizes in full width

---
 src/fullgrid/Tensor.hpp             |  4 ++--
 src/manager/ProcessGroupManager.cpp |  8 ++++----
 src/manager/ProcessManager.hpp      | 12 ++++++++----
 src/manager/SparseGridWorker.hpp    |  6 ++++--
 4 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/fullgrid/Tensor.hpp b/src/fullgrid/Tensor.hpp
index 644d534..3ed93b9 100644
--- a/src/fullgrid/Tensor.hpp
+++ b/src/fullgrid/Tensor.hpp
@@ -56,8 +56,8 @@ class TensorIndexer {
     if (this->extents_.empty()) {
       return 0;
     }
-    auto size = std::accumulate(this->extents_.begin(), this->extents_.end(), 1U,
-                                std::multiplies<size_t>());
+    auto size = std::accumulate(this->extents_.begin(), this->extents_.end(),
+                                static_cast<size_t>(1), std::multiplies<size_t>());
     assert(size < static_cast<size_t>(std::numeric_limits<IndexType>::max()));
     return size;
   }
diff --git a/src/manager/ProcessGroupManager.cpp b/src/manager/ProcessGroupManager.cpp
index 24bbd8e..2ccd0a1 100644
--- a/src/manager/ProcessGroupManager.cpp
+++ b/src/manager/ProcessGroupManager.cpp
@@ -296,7 +296,7 @@ bool ProcessGroupManager<CombiDataType>::reduceLocalAndRemoteSubspaceSizes(
   assert(numSubspacesPerWorker.size() > 0);
   for (size_t w = 0; w < numSubspacesPerWorker.size(); ++w) {
     std::advance(to, numSubspacesPerWorker[w]);
-    formerDsguDataSizePerWorker_[w] = std::accumulate(from, to, 0);
+    formerDsguDataSizePerWorker_[w] = std::accumulate(from, to, static_cast<size_t>(0));
     from = to;
   }
   assert(to == sendBuff.end());
@@ -325,7 +325,7 @@ bool ProcessGroupManager<CombiDataType>::reduceLocalAndRemoteSubspaceSizes(
   assert(numSubspacesPerWorker.size() > 0);
   for (size_t w = 0; w < numSubspacesPerWorker.size(); ++w) {
     std::advance(to, numSubspacesPerWorker[w]);
-    dsguDataSizePerWorker_[w] = std::accumulate(from, to, 0);
+    dsguDataSizePerWorker_[w] = std::accumulate(from, to, static_cast<size_t>(0));
     from = to;
   }
   assert(to == sendBuff.end());
@@ -359,7 +359,7 @@ bool ProcessGroupManager<CombiDataType>::pretendReduceLocalAndRemoteSubspaceSize
   assert(numSubspacesPerWorker.size() > 0);
   for (size_t w = 0; w < numSubspacesPerWorker.size(); ++w) {
     std::advance(to, numSubspacesPerWorker[w]);
-    formerDsguDataSizePerWorker_[w] = std::accumulate(from, to, 0);
+    formerDsguDataSizePerWorker_[w] = std::accumulate(from, to, static_cast<size_t>(0));
     from = to;
   }
   assert(to == sendBuff.end());
@@ -380,7 +380,7 @@ bool ProcessGroupManager<CombiDataType>::pretendReduceLocalAndRemoteSubspaceSize
   assert(numSubspacesPerWorker.size() > 0);
   for (size_t w = 0; w < numSubspacesPerWorker.size(); ++w) {
     std::advance(to, numSubspacesPerWorker[w]);
-    dsguDataSizePerWorker_[w] = std::accumulate(from, to, 0);
+    dsguDataSizePerWorker_[w] = std::accumulate(from, to, static_cast<size_t>(0));
     from = to;
   }
   assert(to == sendBuff.end());
diff --git a/src/manager/ProcessManager.hpp b/src/manager/ProcessManager.hpp
index 2c58d5d..d762795 100644
--- a/src/manager/ProcessManager.hpp
+++ b/src/manager/ProcessManager.hpp
@@ -689,9 +689,11 @@ size_t ProcessManager<CombiDataType>::unifySubspaceSizesThirdLevel(
   const auto& dsguDataSizePerWorker = thirdLevelPGroup_->getDsguDataSizePerWorker();
 
   auto formerDsguDataSize =
-      std::accumulate(formerDsguDataSizePerWorker.begin(), formerDsguDataSizePerWorker.end(), 0);
+      std::accumulate(formerDsguDataSizePerWorker.begin(), formerDsguDataSizePerWorker.end(),
+                      static_cast<size_t>(0));
   auto dsguDataSize =
-      std::accumulate(dsguDataSizePerWorker.begin(), dsguDataSizePerWorker.end(), 0);
+      std::accumulate(dsguDataSizePerWorker.begin(), dsguDataSizePerWorker.end(),
+                      static_cast<size_t>(0));
   Stats::setAttribute("formerDsguDataSize", std::to_string(formerDsguDataSize));
   Stats::setAttribute("dsguDataSize", std::to_string(dsguDataSize));
 
@@ -720,9 +722,11 @@ size_t ProcessManager<CombiDataType>::pretendUnifySubspaceSizesThirdLevel() {
   const auto& dsguDataSizePerWorker = thirdLevelPGroup_->getDsguDataSizePerWorker();
 
   auto formerDsguDataSize =
-      std::accumulate(formerDsguDataSizePerWorker.begin(), formerDsguDataSizePerWorker.end(), 0);
+      std::accumulate(formerDsguDataSizePerWorker.begin(), formerDsguDataSizePerWorker.end(),
+                      static_cast<size_t>(0));
   auto dsguDataSize =
-      std::accumulate(dsguDataSizePerWorker.begin(), dsguDataSizePerWorker.end(), 0);
+      std::accumulate(dsguDataSizePerWorker.begin(), dsguDataSizePerWorker.end(),
+                      static_cast<size_t>(0));
   Stats::setAttribute("formerDsguDataSize", std::to_string(formerDsguDataSize));
   Stats::setAttribute("dsguDataSize", std::to_string(dsguDataSize));
 
diff --git a/src/manager/SparseGridWorker.hpp b/src/manager/SparseGridWorker.hpp
index 5ea2401..ac30d81 100644
--- a/src/manager/SparseGridWorker.hpp
+++ b/src/manager/SparseGridWorker.hpp
@@ -983,9 +983,11 @@ inline int SparseGridWorker<CombiDataType>::reduceExtraSubspaceSizes(
 #ifndef NDEBUG
     assert(subspaceSizesToValidate.size() == dsgToUse->getSubspaceDataSizes().size());
     auto numDOFtoValidate =
-        std::accumulate(subspaceSizesToValidate.begin(), subspaceSizesToValidate.end(), 0);
+        std::accumulate(subspaceSizesToValidate.begin(), subspaceSizesToValidate.end(),
+                        static_cast<size_t>(0));
     auto numDOFnow = std::accumulate(dsgToUse->getSubspaceDataSizes().begin(),
-                                     dsgToUse->getSubspaceDataSizes().end(), 0);
+                                     dsgToUse->getSubspaceDataSizes().end(),
+                                     static_cast<size_t>(0));
     assert(numDOFtoValidate >= numDOFnow || filenamesToRead.size() > 1);
 #endif
     // may need to re-size original spaces if original sparse grid was too small
-- 
2.43.0


From 5d85afc63c942e6d66dfa1a5e99b16695a859a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:41 +0000
Subject: [PATCH 23/36] fix: zero all elements of the compensation buffer

---
 src/sparsegrid/DistributedSparseGridUniform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparsegrid/DistributedSparseGridUniform.hpp b/src/sparsegrid/DistributedSparseGridUniform.hpp
index bbb52db..889e824 100644
--- a/src/sparsegrid/DistributedSparseGridUniform.hpp
+++ b/src/sparsegrid/DistributedSparseGridUniform.hpp
@@ -84,7 +84,7 @@ class DistributedSparseGridDataContainer {
     size_t numDataPoints = dsgu_.getAccumulatedDataSize(subspacesWithData_);
     kahanData_.resize(numDataPoints, 0.);
     kahanDataBegin_.resize(dsgu_.getSubspaceDataSizes().size());
-    std::memset(kahanData_.data(), 0, kahanData_.size() * sizeof(FG_ELEMENT*));
+    std::memset(kahanData_.data(), 0, kahanData_.size() * sizeof(FG_ELEMENT));
     std::memset(kahanDataBegin_.data(), 0, kahanDataBegin_.size() * sizeof(FG_ELEMENT*));
 
     // update pointers for begin of subspacen in kahan buffer
-- 
2.43.0


From 046aeb5c1ced353b9ddf2528e54b25262c16442f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:41 +0000
Subject: [PATCH 24/36] fix: find the maximum coefficient also if all
 coefficients are negative

---
 src/sparsegrid/DistributedSparseGridUniform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparsegrid/DistributedSparseGridUniform.hpp b/src/sparsegrid/DistributedSparseGridUniform.hpp
index 889e824..d091182 100644
--- a/src/sparsegrid/DistributedSparseGridUniform.hpp
+++ b/src/sparsegrid/DistributedSparseGridUniform.hpp
@@ -732,7 +732,7 @@ template <typename FG_ELEMENT>
 void DistributedSparseGridUniform<FG_ELEMENT>::accumulateMinMaxCoefficients() {
   if (maxCoefficientPerSubspace_.empty()) {
     maxCoefficientPerSubspace_.resize(this->getNumSubspaces(),
-                                      std::numeric_limits<combigrid::real>::min());
+                                      std::numeric_limits<combigrid::real>::lowest());
     minCoefficientPerSubspace_.resize(this->getNumSubspaces(),
                                       std::numeric_limits<combigrid::real>::max());
   }
-- 
2.43.0


From 7596e816e6ccc25c2dc181d4e9bbde03f1298c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:30 +0000
Subject: [PATCH 25/36] fix: compute durations and buffer sizes in full width

---
 src/io/BroadcastParameters.cpp            | 4 ++--
 src/loadmodel/AverageOfLastNLoadModel.cpp | 2 +-
 src/manager/ProcessGroupManager.cpp       | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/io/BroadcastParameters.cpp b/src/io/BroadcastParameters.cpp
index a949434..2d35242 100644
--- a/src/io/BroadcastParameters.cpp
+++ b/src/io/BroadcastParameters.cpp
@@ -60,12 +60,12 @@ std::vector<std::vector<real>> getCoordinatesFromRankZero(const std::string& h5F
     coordinateSizes[1] = static_cast<int>(coordinates[0].size());
     assert(coordinateSizes[1] > 0);
     coordinatesSerialized = combigrid::serializeInterpolationCoords(coordinates);
-    assert(coordinatesSerialized.size() == static_cast<size_t>(coordinateSizes[0] * coordinateSizes[1]));
+    assert(coordinatesSerialized.size() == static_cast<size_t>(coordinateSizes[0]) * coordinateSizes[1]);
   }
 
   // broadcast vector sizes
   MPI_Bcast(&coordinateSizes, 2, MPI_INT, 0, comm);
-  coordinatesSerialized.resize(coordinateSizes[0] * coordinateSizes[1]);
+  coordinatesSerialized.resize(static_cast<size_t>(coordinateSizes[0]) * coordinateSizes[1]);
 
   // broadcast serialized vector
   MPI_Bcast(&coordinatesSerialized[0], static_cast<int>(coordinatesSerialized.size()),
diff --git a/src/loadmodel/AverageOfLastNLoadModel.cpp b/src/loadmodel/AverageOfLastNLoadModel.cpp
index 9b33904..86d7512 100644
--- a/src/loadmodel/AverageOfLastNLoadModel.cpp
+++ b/src/loadmodel/AverageOfLastNLoadModel.cpp
@@ -29,7 +29,7 @@ std::chrono::microseconds AverageOfLastNLoadModel::evalSpecificUOT(
 
   const auto& durations = this->levelVectorToLastNDurations_[lvlVec];
   const auto average = (static_cast<real>(std::accumulate(durations.begin(), 
-                                                          durations.end(), 0)) 
+                                                          durations.end(), 0UL)) 
                         / static_cast<real>(durations.size()));
   return std::chrono::microseconds{static_cast<long>(average)};
 }
diff --git a/src/manager/ProcessGroupManager.cpp b/src/manager/ProcessGroupManager.cpp
index 2ccd0a1..48d6804 100644
--- a/src/manager/ProcessGroupManager.cpp
+++ b/src/manager/ProcessGroupManager.cpp
@@ -442,7 +442,7 @@ bool ProcessGroupManager<CombiDataType>::collectSubspaceSizes(
   // for now all workers should have the same number of subspaces
   MPI_Gather(&dummy, 1, MPI_INT, recvCounts.data(), (int)1, MPI_INT, thirdLevelManagerRank, comm);
 
-  buffSize = std::accumulate(recvCounts.begin(), recvCounts.end(), 0U);
+  buffSize = std::accumulate(recvCounts.begin(), recvCounts.end(), static_cast<size_t>(0));
 
   std::vector<SubspaceSizeType> mdBuff(buffSize);
   assert(buffSize < INT_MAX &&
-- 
2.43.0


From c1a5c147e8d4c4b96517fdb883708d5f93f80376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:58 +0000
Subject: [PATCH 26/36] fix: vote with a datatype that supports bitwise
 reductions

---
 src/sparsegrid/AnyDistributedSparseGrid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparsegrid/AnyDistributedSparseGrid.cpp b/src/sparsegrid/AnyDistributedSparseGrid.cpp
index e6f31de..f23f6c6 100644
--- a/src/sparsegrid/AnyDistributedSparseGrid.cpp
+++ b/src/sparsegrid/AnyDistributedSparseGrid.cpp
@@ -147,7 +147,7 @@ std::vector<UIntForGroupReductionType> getSubspaceVote(
   // vote by binary or
   MPI_Allreduce(MPI_IN_PLACE, subspaceVote.data(),
                 static_cast<int>(subspaceVote.size()) * sizeof(UIntForGroupReductionType),
-                MPI_CHAR, MPI_BOR, comm);
+                MPI_BYTE, MPI_BOR, comm);
   return subspaceVote;
 }
 
-- 
2.43.0


From 9507dccd41fdf388923a394fef417879f4f3fa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:56 +0000
Subject: [PATCH 27/36] fix: refuse to collect on a rank that is not a rank of
 the subspace communicator

---
 src/combicom/CombiCom.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/combicom/CombiCom.hpp b/src/combicom/CombiCom.hpp
index 08d259b..744fd78 100644
--- a/src/combicom/CombiCom.hpp
+++ b/src/combicom/CombiCom.hpp
@@ -335,6 +335,17 @@ void distributedGlobalSubspaceReduce(SparseGridType& dsg, uint32_t maxMiBToSendP
                                      RankType globalReduceRankThatCollects = MPI_PROC_NULL) {
   assert(dsg.isSubspaceDataCreated() && "Only perform reduce with allocated data");
 
+  if (globalReduceRankThatCollects != MPI_PROC_NULL) {
+    // the collecting rank is only meaningful in communicators that contain all process groups
+    for (const auto& commAndItsSubspaces : dsg.getSubspacesByCommunicator()) {
+      if (getCommSize(commAndItsSubspaces.first) !=
+          getCommSize(theMPISystem()->getGlobalReduceComm())) {
+        throw std::runtime_error(
+            "Cannot collect on a single rank if subspaces are reduced within parts of the groups");
+      }
+    }
+  }
+
   MPI_Op indexedAdd;
   MPI_Op_create(addIndexedElements<typename SparseGridType::ElementType>, true, &indexedAdd);
 
-- 
2.43.0


From 57481e3a77e0f44325197bfdab46760319d0013a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:02 +0000
Subject: [PATCH 28/36] fix: refuse to write an extra sparse grid that the
 variant never fills

---
 src/manager/SparseGridWorker.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/manager/SparseGridWorker.hpp b/src/manager/SparseGridWorker.hpp
index ac30d81..2fdfd59 100644
--- a/src/manager/SparseGridWorker.hpp
+++ b/src/manager/SparseGridWorker.hpp
@@ -1149,6 +1149,8 @@ inline int SparseGridWorker<CombiDataType>::writeDSGsToDisk(const std::string& f
       if (combinationVariant == CombinationVariant::sparseGridReduce ||
           combinationVariant == CombinationVariant::outgroupSparseGridReduce) {
         dsgToUse->copyDataFrom(*uniDsg);
+      } else if (combinationVariant != CombinationVariant::chunkedOutgroupSparseGridReduce) {
+        throw std::runtime_error("Combination variant not implemented");
       }
       assert(dsgToUse->isSubspaceDataCreated());
       numWritten += DistributedSparseGridIO::writeSomeFiles(*dsgToUse, filename);
-- 
2.43.0


From 0eb199591c5205603fddfee62a854f3197f97c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:02 +0000
Subject: [PATCH 29/36] fix: refuse negative norm selectors also in release
 builds

---
 src/fullgrid/DistributedFullGrid.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fullgrid/DistributedFullGrid.hpp b/src/fullgrid/DistributedFullGrid.hpp
index 49d4044..e212e30 100644
--- a/src/fullgrid/DistributedFullGrid.hpp
+++ b/src/fullgrid/DistributedFullGrid.hpp
@@ -1365,7 +1365,9 @@ void DistributedFullGrid<FG_ELEMENT>::get1dIndicesLocal(DimType d, LevelType l,
 
 template <typename FG_ELEMENT>
 real DistributedFullGrid<FG_ELEMENT>::getLpNorm(int p) const {
-  assert(p >= 0);
+  if (p < 0) {
+    throw std::invalid_argument("DistributedFullGrid::getLpNorm: p must not be negative");
+  }
   // special case maximum norm
   MPI_Datatype dtype = abstraction::getMPIDatatype(abstraction::getabstractionDataType<real>());
   if (p == 0) {
-- 
2.43.0


From 4c41343f29976e5b11b7d488891d2f3980e3a985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:32 +0000
Subject: [PATCH 30/36] fix: set the request also if there is nothing to
 broadcast

---
 src/combicom/CombiCom.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/combicom/CombiCom.hpp b/src/combicom/CombiCom.hpp
index 744fd78..1fea506 100644
--- a/src/combicom/CombiCom.hpp
+++ b/src/combicom/CombiCom.hpp
@@ -621,6 +621,8 @@ static void asyncBcastOutgroupDsgData(SparseGridType& dsg, RankType root, Commun
                                       MPI_Request* request) {
   // assert that the dsg is set up for outgroup sparse grid reduce
   assert(dsg.getSubspacesByCommunicator().size() < 2);
+  // nothing to wait for, unless a broadcast is started
+  *request = MPI_REQUEST_NULL;
   if (!dsg.getSubspacesByCommunicator().empty()) {
     std::vector<std::pair<typename AnyDistributedSparseGrid::SubspaceIndexType, MPI_Datatype>>
         datatypesByStartIndex;
-- 
2.43.0


From 51a9f9aa1844b541caac5fdee1e4bcd0e26e3c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:32 +0000
Subject: [PATCH 31/36] fix: release the datatypes of asynchronous broadcasts

---
 src/combicom/CombiCom.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/combicom/CombiCom.hpp b/src/combicom/CombiCom.hpp
index 1fea506..9ad46c5 100644
--- a/src/combicom/CombiCom.hpp
+++ b/src/combicom/CombiCom.hpp
@@ -642,6 +642,10 @@ static void asyncBcastOutgroupDsgData(SparseGridType& dsg, RankType root, Commun
     [[maybe_unused]] auto success =
         MPI_Ibcast(dsg.getData(subspaceStartIndex), 1, datatype, root, comm, request);
     assert(success == MPI_SUCCESS);
+    // free datatypes -- MPI standard says they will be kept until the operation is finished
+    for (auto& startIndexAndDatatype : datatypesByStartIndex) {
+      MPI_Type_free(&startIndexAndDatatype.second);
+    }
   }
 }
 
-- 
2.43.0


From d515ff7f8445784b8be4cd057bc690a158e2b44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:32 +0000
Subject: [PATCH 32/36] fix: release the request of the failure signal

---
 src/mpi/MPISystem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpi/MPISystem.cpp b/src/mpi/MPISystem.cpp
index 5640016..f314686 100644
--- a/src/mpi/MPISystem.cpp
+++ b/src/mpi/MPISystem.cpp
@@ -603,6 +603,8 @@ void MPISystem::sendFailedSignal() {  // worldComm still includes failed ranks a
   MPI_Request sendReq;
   MPI_Isend(&worldRank_, 1, MPI_INT, managerRankWorld_, FT_FAILED_RANK_TAG,
             theMPISystem()->getWorldComm(), &sendReq);
+  // the failed rank cannot wait for the manager
+  MPI_Request_free(&sendReq);
 }
 
 bool MPISystem::receiveRecoverStatus() {
-- 
2.43.0


From f084b032b6a97d78e551da23c126248f8a21f5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:07 +0000
Subject: [PATCH 33/36] fix: discard the data when subspace sizes are read from
 file

---
 src/sparsegrid/DistributedSparseGridIO.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sparsegrid/DistributedSparseGridIO.hpp b/src/sparsegrid/DistributedSparseGridIO.hpp
index 58cd3ff..d43d170 100644
--- a/src/sparsegrid/DistributedSparseGridIO.hpp
+++ b/src/sparsegrid/DistributedSparseGridIO.hpp
@@ -230,6 +230,8 @@ int readSubspaceSizesFromFile(SparseGridType& dsg, const std::string& fileName,
   MPI_Offset len = dsg.getNumSubspaces();
   int numRead = mpiio::readValuesConsecutive<SubspaceSizeType>(
       dsg.getSubspaceDataSizes().data(), len, fileName, comm, withCollectiveBuffering);
+  // assume that the sizes changed, the buffer might be the wrong size now
+  dsg.deleteSubspaceData();
   return numRead;
 }
 
@@ -246,6 +248,8 @@ int readReduceSubspaceSizesFromFile(SparseGridType& dsg, const std::string& file
   int numReduced = mpiio::readReduceValuesConsecutive<SubspaceSizeType>(
       dsg.getSubspaceDataSizes().data(), len, fileName, comm, numElementsToBuffer, reduceFunction,
       withCollectiveBuffering);
+  // assume that the sizes changed, the buffer might be the wrong size now
+  dsg.deleteSubspaceData();
 
   return numReduced;
 }
@@ -263,6 +267,8 @@ int readReduceSubspaceSizesFromFiles(SparseGridType& dsg, const std::vector<std:
   int numReduced = mpiio::readMultipleReduceValuesConsecutive<SubspaceSizeType>(
       dsg.getSubspaceDataSizes().data(), len, fileNames, comm, numElementsToBuffer, reduceFunction,
       withCollectiveBuffering);
+  // assume that the sizes changed, the buffer might be the wrong size now
+  dsg.deleteSubspaceData();
 
   return numReduced;
 }
-- 
2.43.0


From 1388c6fdf05520c920fe8b79813567a6040544ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:53 +0000
Subject: [PATCH 34/36] fix: transform the biorthogonal basis with its own
 kernels

---
 src/hierarchization/DistributedHierarchization.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hierarchization/DistributedHierarchization.hpp b/src/hierarchization/DistributedHierarchization.hpp
index fb4f719..0234385 100644
--- a/src/hierarchization/DistributedHierarchization.hpp
+++ b/src/hierarchization/DistributedHierarchization.hpp
@@ -1165,7 +1165,7 @@ class DistributedHierarchization {
               dfg, remoteData, dim, lmin[dim]);
         } else if (dynamic_cast<BiorthogonalBasisFunction*>(hierarchicalBases[dim]) != nullptr) {
           hierarchizeWithBoundary<FG_ELEMENT,
-                                  hierarchize_full_weighting_boundary_kernel<FG_ELEMENT, false>>(
+                                  hierarchize_biorthogonal_boundary_kernel<FG_ELEMENT, false>>(
               dfg, remoteData, dim, lmin[dim]);
         } else if (dynamic_cast<BiorthogonalPeriodicBasisFunction*>(hierarchicalBases[dim]) !=
                    nullptr) {
@@ -1247,7 +1247,7 @@ class DistributedHierarchization {
               dfg, remoteData, dim, lmin[dim]);
         } else if (dynamic_cast<BiorthogonalBasisFunction*>(hierarchicalBases[dim]) != nullptr) {
           hierarchizeWithBoundary<FG_ELEMENT,
-                                  dehierarchize_full_weighting_boundary_kernel<FG_ELEMENT, false>>(
+                                  dehierarchize_biorthogonal_boundary_kernel<FG_ELEMENT, false>>(
               dfg, remoteData, dim, lmin[dim]);
         } else if (dynamic_cast<BiorthogonalPeriodicBasisFunction*>(hierarchicalBases[dim]) !=
                    nullptr) {
-- 
2.43.0


From 848dc95b808a6fd87f0c84579635ac8c40b5ad58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:05 +0000
Subject: [PATCH 35/36] fix: let only one thread at a time discard the data of
 a sparse grid

---
 src/sparsegrid/DistributedSparseGridUniform.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sparsegrid/DistributedSparseGridUniform.hpp b/src/sparsegrid/DistributedSparseGridUniform.hpp
index d091182..2932ab3 100644
--- a/src/sparsegrid/DistributedSparseGridUniform.hpp
+++ b/src/sparsegrid/DistributedSparseGridUniform.hpp
@@ -694,7 +694,8 @@ void DistributedSparseGridUniform<FG_ELEMENT>::setDataSize(SubspaceIndexType i,
   }
 #endif  // NDEBUG
   if (newSize != subspacesDataSizes_[i]) {
-    // invalidate the data vector
+    // invalidate the data vector; sizes may be set by several threads at once
+#pragma omp critical(deleteSubspaceData)
     this->deleteSubspaceData();
   }
   subspacesDataSizes_[i] = newSize;
-- 
2.43.0


From f8c356d26ff248c2e777a3ab919aa0f8bf038cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:06 +0000
Subject: [PATCH 36/36] fix: count the values read so far in the width of the
 total

readReduceValuesConsecutive and readMultipleReduceValuesConsecutive summed up the
number of values read in int although the total is an MPI_Offset: with more than
2^31-1 values on a rank the sum overflowed and reading went past the rank's part.
---
 src/io/MPIInputOutput.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/io/MPIInputOutput.hpp b/src/io/MPIInputOutput.hpp
index dd80aa5..f526e7d 100644
--- a/src/io/MPIInputOutput.hpp
+++ b/src/io/MPIInputOutput.hpp
@@ -274,7 +274,7 @@ int readReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues, const std:
   file.checkFileSizeConsecutive(numValues, comm);
 
   MPI_Offset position = getPositionFromNumValues(numValues, comm);
-  int readcount = 0;
+  MPI_Offset readcount = 0;
   std::vector<T> buffer(numElementsToBuffer);
   auto writePointer = valuesStart;
   while (readcount < numValues) {
@@ -294,7 +294,7 @@ int readReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues, const std:
     position += readcountIncrement;
     std::advance(writePointer, readcountIncrement);
   }
-  return readcount;
+  return static_cast<int>(readcount);
 }
 
 // n-ary std::transform https://stackoverflow.com/a/21768697
@@ -321,7 +321,7 @@ int readMultipleReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues,
   }
 
   // read from files with MPI-IO
-  int readcount = 0;
+  MPI_Offset readcount = 0;
   MPI_Offset position = getPositionFromNumValues(numValues, comm);
   std::vector<std::vector<T>> buffers(fileNames.size(), std::vector<T>(numElementsToBuffer));
   auto writePointer = valuesStart;
@@ -350,7 +350,7 @@ int readMultipleReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues,
     std::advance(writePointer, readcountIncrement);
   }
 
-  return readcount;
+  return static_cast<int>(readcount);
 }
 
 }  // namespace mpiio
-- 
2.43.0

