From c7ae4c9ad99fcef50a7d5fa9f67d085409b3f305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:56 +0000
Subject: [PATCH 01/42] fix: persistent push stores its receives first, as the
 one-by-one wait expects

---
 src/DNDS/ArrayTransformer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DNDS/ArrayTransformer.hpp b/src/DNDS/ArrayTransformer.hpp
index b5fe64e..6bb3010 100644
--- a/src/DNDS/ArrayTransformer.hpp
+++ b/src/DNDS/ArrayTransformer.hpp
@@ -495,7 +495,7 @@ namespace DNDS
                     auto dtypeInfo = (*pPushTypeVec)[ip];
                     MPI_int rankOther = dtypeInfo.first;
                     MPI_int tag = rankOther + mpi.rank;
-                    MPI_Recv_init(father->data(), 1, dtypeInfo.second, rankOther, tag, mpi.comm, PushReqVec->data() + pPullTypeVec->size() + ip);
+                    MPI_Recv_init(father->data(), 1, dtypeInfo.second, rankOther, tag, mpi.comm, PushReqVec->data() + ip);
                     // cascade from father
                     nRecvPushReq++;
                 }
@@ -511,7 +511,7 @@ namespace DNDS
 #else
                     MPI_Bsend_init
 #endif
-                        (son->data(), 1, dtypeInfo.second, rankOther, tag, mpi.comm, PushReqVec->data() + ip);
+                        (son->data(), 1, dtypeInfo.second, rankOther, tag, mpi.comm, PushReqVec->data() + pPushTypeVec->size() + ip);
 
                     // cascade from father
 
-- 
2.43.0


From 31424ad9f58fc508e51f5afea7a5c880ff79bf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:56 +0000
Subject: [PATCH 02/42] fix: in-situ push no longer asserts when the last ranks
 are sent nothing

---
 src/DNDS/ArrayTransformer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DNDS/ArrayTransformer.hpp b/src/DNDS/ArrayTransformer.hpp
index 6bb3010..b6873b2 100644
--- a/src/DNDS/ArrayTransformer.hpp
+++ b/src/DNDS/ArrayTransformer.hpp
@@ -816,11 +816,11 @@ namespace DNDS
                 for (MPI_int r = 0; r < mpi.size; r++)
                 {
                     // push
-                    DNDS_assert(bufferVec < inSituBuffer.end());
                     MPI_int pushNumber = pLGhostMapping->pushIndexSizes[r];
                     // std::cout << "PN" << pushNumber << std::endl;
                     if (pushNumber > 0)
                     {
+                        DNDS_assert(bufferVec < inSituBuffer.end());
                         index nPushData = 0;
                         for (index i = 0; i < pushNumber; i++)
                         {
-- 
2.43.0


From eda1b2967822cdcaedeac03693d6ff4b702a03b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:19 +0000
Subject: [PATCH 03/42] fix: in-situ packing sends whole rows of fixed-maximum
 layouts, as the receiver expects

---
 src/DNDS/ArrayTransformer.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DNDS/ArrayTransformer.hpp b/src/DNDS/ArrayTransformer.hpp
index b6873b2..4f85c9a 100644
--- a/src/DNDS/ArrayTransformer.hpp
+++ b/src/DNDS/ArrayTransformer.hpp
@@ -625,7 +625,7 @@ namespace DNDS
                         if constexpr (_dataLayout == CSR)
                             nPush = father->RowSizeField(loc);
                         if constexpr (isTABLE_Max(_dataLayout)) //! init sizes
-                            nPush = father->RowSize(loc);
+                            nPush = father->RowSizeField();
                         if constexpr (isTABLE_Fixed(_dataLayout))
                             nPush = father->RowSizeField();
                         nPushData += nPush;
@@ -721,7 +721,7 @@ namespace DNDS
                         if constexpr (_dataLayout == CSR)
                             nPush = father->RowSizeField(loc);
                         if constexpr (isTABLE_Max(_dataLayout)) //! init sizes
-                            nPush = father->RowSize(loc);
+                            nPush = father->RowSizeField();
                         if constexpr (isTABLE_Fixed(_dataLayout))
                             nPush = father->RowSizeField();
                         nPushData += nPush;
@@ -735,7 +735,7 @@ namespace DNDS
                         if constexpr (_dataLayout == CSR)
                             nPush = father->RowSizeField(loc);
                         if constexpr (isTABLE_Max(_dataLayout)) //! init sizes
-                            nPush = father->RowSize(loc);
+                            nPush = father->RowSizeField();
                         if constexpr (isTABLE_Fixed(_dataLayout))
                             nPush = father->RowSizeField();
                         std::copy((*father)[loc], (*father)[loc] + nPush, inSituBuffer.back().begin() + nPushData);
@@ -829,7 +829,7 @@ namespace DNDS
                             if constexpr (_dataLayout == CSR)
                                 nPush = father->RowSizeField(loc);
                             if constexpr (isTABLE_Max(_dataLayout)) //! init sizes
-                                nPush = father->RowSize(loc);
+                                nPush = father->RowSizeField();
                             if constexpr (isTABLE_Fixed(_dataLayout))
                                 nPush = father->RowSizeField();
                             std::copy(bufferVec->begin() + nPushData, bufferVec->begin() + nPushData + nPush, (*father)[loc]);
-- 
2.43.0


From f556d8e852e80773ec0589529ee24659a8c43505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:19 +0000
Subject: [PATCH 04/42] fix: in-situ packing posts no message when the
 requested rows are all empty

---
 src/DNDS/ArrayTransformer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DNDS/ArrayTransformer.hpp b/src/DNDS/ArrayTransformer.hpp
index 4f85c9a..46048d1 100644
--- a/src/DNDS/ArrayTransformer.hpp
+++ b/src/DNDS/ArrayTransformer.hpp
@@ -631,6 +631,8 @@ namespace DNDS
                         nPushData += nPush;
                     }
                     inSituBuffer.emplace_back(nPushData);
+                    if (nPushData == 0)
+                        continue; // the other side does not send an empty message
                     PushReqVec->emplace_back(MPI_REQUEST_NULL);
                     MPI_Irecv(inSituBuffer.back().data(), nPushData * father->getTypeMult(), father->getDataType(),
                               r, mpi.rank + r, mpi.comm, &PushReqVec->back());
@@ -741,6 +743,8 @@ namespace DNDS
                         std::copy((*father)[loc], (*father)[loc] + nPush, inSituBuffer.back().begin() + nPushData);
                         nPushData += nPush;
                     }
+                    if (nPushData == 0)
+                        continue; // the other side does not expect an empty message
                     PullReqVec->emplace_back(MPI_REQUEST_NULL);
                     MPI_Issend(inSituBuffer.back().data(), nPushData * father->getTypeMult(), father->getDataType(),
                                r, mpi.rank + r, mpi.comm, &PullReqVec->back());
-- 
2.43.0


From de9359a6def5af150c78600aca6b48c58af39e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:19 +0000
Subject: [PATCH 05/42] fix: reInitPersistentPullPush handles requests never
 initialised and stays collective

---
 src/DNDS/ArrayTransformer.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/DNDS/ArrayTransformer.hpp b/src/DNDS/ArrayTransformer.hpp
index 46048d1..dcf58dd 100644
--- a/src/DNDS/ArrayTransformer.hpp
+++ b/src/DNDS/ArrayTransformer.hpp
@@ -174,6 +174,7 @@ namespace DNDS
         ssp<MPIReqHolder> PullReqVec;
         MPI_int nRecvPushReq{-1};
         MPI_int nRecvPullReq{-1};
+        bool pushInited{false}, pullInited{false}; // set by init, unset by clear, the same on all ranks
         tMPI_statVec PushStatVec;
         tMPI_statVec PullStatVec;
         MPI_Aint pushSendSize;
@@ -480,6 +481,7 @@ namespace DNDS
          */
         void initPersistentPush() // collective;
         {
+            pushInited = true;
             if (commTypeCurrent == MPI::CommStrategy::HIndexed)
             {
                 // DNDS_assert(pPullTypeVec && pPushTypeVec);
@@ -547,6 +549,7 @@ namespace DNDS
          */
         void initPersistentPull() // collective;
         {
+            pullInited = true;
             if (commTypeCurrent == MPI::CommStrategy::HIndexed)
             {
                 // DNDS_assert(pPullTypeVec && pPushTypeVec);
@@ -904,11 +907,13 @@ namespace DNDS
         {
             waitPersistentPush();
             PushReqVec->clear(); // stat vec is left untouched here
+            pushInited = false;
         }
         void clearPersistentPull() // collective;
         {
             waitPersistentPull();
             PullReqVec->clear();
+            pullInited = false;
         }
 
         void clearMPITypes() // collective;
@@ -946,13 +951,13 @@ namespace DNDS
         void reInitPersistentPullPush()
         {
             bool clearedPull{false}, clearedPush{false};
-            if (!PullReqVec->empty())
+            if (pullInited)
             {
                 clearedPull = true;
                 waitPersistentPull();
                 clearPersistentPull();
             }
-            if (!PushReqVec->empty())
+            if (pushInited)
             {
                 clearedPush = true;
                 waitPersistentPush();
-- 
2.43.0


From 0b4947c1150b385c8db9408dfc3df6c678e7e1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:19 +0000
Subject: [PATCH 06/42] fix: waiting on a push or pull that was not started
 completes nothing (one-by-one and in-situ modes)

---
 src/DNDS/ArrayTransformer.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/DNDS/ArrayTransformer.hpp b/src/DNDS/ArrayTransformer.hpp
index dcf58dd..0e19b29 100644
--- a/src/DNDS/ArrayTransformer.hpp
+++ b/src/DNDS/ArrayTransformer.hpp
@@ -175,6 +175,7 @@ namespace DNDS
         MPI_int nRecvPushReq{-1};
         MPI_int nRecvPullReq{-1};
         bool pushInited{false}, pullInited{false}; // set by init, unset by clear, the same on all ranks
+        bool pushStarted{false}, pullStarted{false}; // a start not waited for yet
         tMPI_statVec PushStatVec;
         tMPI_statVec PullStatVec;
         MPI_Aint pushSendSize;
@@ -662,6 +663,7 @@ namespace DNDS
 
         void startPersistentPush() // collective;
         {
+            pushStarted = true;
             if (commTypeCurrent == MPI::CommStrategy::HIndexed)
             {
                 // req already ready
@@ -757,6 +759,7 @@ namespace DNDS
 
         void startPersistentPull() // collective;
         {
+            pullStarted = true;
             PerformanceTimer::Instance().StartTimer(PerformanceTimer::TimerType::Comm);
             if (commTypeCurrent == MPI::CommStrategy::HIndexed)
             {
@@ -798,7 +801,7 @@ namespace DNDS
             if (commTypeCurrent == MPI::CommStrategy::HIndexed)
             {
                 // data alright
-                if (!PushReqVec->empty())
+                if (!PushReqVec->empty() && pushStarted)
                 {
                     DNDS_assert(nRecvPushReq <= PushReqVec->size());
                     if (MPI::CommStrategy::Instance().GetUseAsyncOneByOne())
@@ -820,7 +823,7 @@ namespace DNDS
                 if (!PushReqVec->empty())
                     MPI::WaitallAuto(PushReqVec->size(), PushReqVec->data(), PushStatVec.data());
                 auto bufferVec = inSituBuffer.begin();
-                for (MPI_int r = 0; r < mpi.size; r++)
+                for (MPI_int r = 0; r < mpi.size && pushStarted; r++)
                 {
                     // push
                     MPI_int pushNumber = pLGhostMapping->pushIndexSizes[r];
@@ -852,6 +855,7 @@ namespace DNDS
             {
                 DNDS_assert(false);
             }
+            pushStarted = false;
             PerformanceTimer::Instance().StopTimer(PerformanceTimer::TimerType::Comm);
             if (MPI::CommStrategy::Instance().GetUseStrongSyncWait())
                 MPI::Barrier(mpi.comm);
@@ -867,7 +871,7 @@ namespace DNDS
             if (commTypeCurrent == MPI::CommStrategy::HIndexed)
             {
                 // data alright
-                if (!PullReqVec->empty())
+                if (!PullReqVec->empty() && pullStarted)
                 {
                     DNDS_assert(nRecvPullReq <= PullReqVec->size());
                     if (MPI::CommStrategy::Instance().GetUseAsyncOneByOne())
@@ -900,6 +904,7 @@ namespace DNDS
             {
                 DNDS_assert(false);
             }
+            pullStarted = false;
             PerformanceTimer::Instance().StopTimer(PerformanceTimer::TimerType::Comm);
         }
 
-- 
2.43.0


From d9fca2b498781da8bd1147477500dd5a22f5580a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:25 +0000
Subject: [PATCH 07/42] fix: H5 serializer writes globally empty arrays with
 compression on

---
 src/DNDS/SerializerH5.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DNDS/SerializerH5.cpp b/src/DNDS/SerializerH5.cpp
index f26dc23..dc43b33 100644
--- a/src/DNDS/SerializerH5.cpp
+++ b/src/DNDS/SerializerH5.cpp
@@ -269,7 +269,8 @@ namespace DNDS::Serializer
         herr = H5Sclose(fileSpace);
         fileSpace = H5Dget_space(dset_id);
         herr |= H5Sselect_hyperslab(fileSpace, H5S_SELECT_SET, offset.data(), NULL, siz.data(), NULL);
-        herr |= H5Dwrite(dset_id, mem_dataType, memSpace, fileSpace, dxpl_id, buf);
+        if (nGlobal > 0) // nothing to write on any rank, and HDF5 fails on filtered writes of empty datasets
+            herr |= H5Dwrite(dset_id, mem_dataType, memSpace, fileSpace, dxpl_id, buf);
         herr |= H5Dclose(dset_id);
         herr |= H5Pclose(dcpl_id);
         herr |= H5Sclose(fileSpace);
-- 
2.43.0


From a2ce85244ce832fc0e03c4b0c59c8927e3c7207d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:25 +0000
Subject: [PATCH 08/42] fix: H5 serializer writes single-copy arrays
 collectively when compression is on

---
 src/DNDS/SerializerH5.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DNDS/SerializerH5.cpp b/src/DNDS/SerializerH5.cpp
index dc43b33..b3cc018 100644
--- a/src/DNDS/SerializerH5.cpp
+++ b/src/DNDS/SerializerH5.cpp
@@ -301,7 +301,8 @@ namespace DNDS::Serializer
 
         herr_t herr{0};
         hid_t dxpl_id = H5Pcreate(H5P_DATASET_XFER);
-        if ((offset.isDist() || offset == ArrayGlobalOffset_Parts) && (coll_on_data || deflateLevel > 0)) //! is this necessary?
+        if (((offset.isDist() || offset == ArrayGlobalOffset_Parts) && coll_on_data) ||
+            deflateLevel > 0) //! filtered parallel writes must be collective, for ArrayGlobalOffset_One too
             herr = H5Pset_dxpl_mpio(dxpl_id, H5FD_MPIO_COLLECTIVE), H5CHECK_Set;
         else
             herr = H5Pset_dxpl_mpio(dxpl_id, H5FD_MPIO_INDEPENDENT), H5CHECK_Set;
-- 
2.43.0


From 86ea6d4d51639eaa55636c1b9d60a6b91d2a51f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:25 +0000
Subject: [PATCH 09/42] fix: H5 serializer: ranks with no entries take part in
 collective reads, empty datasets are not read

---
 src/DNDS/SerializerH5.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/DNDS/SerializerH5.cpp b/src/DNDS/SerializerH5.cpp
index b3cc018..2793e8d 100644
--- a/src/DNDS/SerializerH5.cpp
+++ b/src/DNDS/SerializerH5.cpp
@@ -532,7 +532,7 @@ namespace DNDS::Serializer
             dim2 = -1;
         nGlobal = sizes[0];
 
-        if (buf != nullptr)
+        if (buf != nullptr && nGlobal > 0) // an empty dataset has nothing to read on any rank
         {
             int rank = dim2 >= 0 ? 2 : 1;
             std::array<hsize_t, 2> offset{hsize_t(nOffset), 0};
@@ -671,7 +671,8 @@ namespace DNDS::Serializer
                 DNDS_assert_info_mpi(size >= 0 && (size == 0 || v != nullptr), mpi, fmt::format("{} {}", size, size_t(v)));
                 index nGlobal{-1};
                 int dim2{-1};
-                H5_ReadDataset(group_id, name.c_str(), nGlobal, offset.offset(), size, T_H5TYPE, dxpl_id, dapl_id, v, dim2);
+                T emptyBuf{}; // a rank without entries has no buffer but still takes part in the (collective) read
+                H5_ReadDataset(group_id, name.c_str(), nGlobal, offset.offset(), size, T_H5TYPE, dxpl_id, dapl_id, v != nullptr ? v : &emptyBuf, dim2);
                 DNDS_assert(dim2 == -1);
             }
             else
-- 
2.43.0


From cbacdad1265dacf333d7f5366c5163ab2be1502b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:40 +0000
Subject: [PATCH 10/42] fix: serializers keep shared vectors alive instead of
 raw addresses of them

---
 src/DNDS/SerializerH5.cpp   | 20 ++++++++++----------
 src/DNDS/SerializerH5.hpp   |  4 ++--
 src/DNDS/SerializerJSON.cpp | 20 ++++++++++----------
 src/DNDS/SerializerJSON.hpp |  4 ++--
 4 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/DNDS/SerializerH5.cpp b/src/DNDS/SerializerH5.cpp
index 2793e8d..55c2dd9 100644
--- a/src/DNDS/SerializerH5.cpp
+++ b/src/DNDS/SerializerH5.cpp
@@ -372,26 +372,26 @@ namespace DNDS::Serializer
     }
     void SerializerH5::WriteSharedIndexVector(const std::string &name, const ssp<std::vector<index>> &v, ArrayGlobalOffset offset)
     {
-        index CanNotShare = ptr_2_pth.count(v.get()) ? 0 : 1;
+        index CanNotShare = ptr_2_pth.count(v) ? 0 : 1;
         MPI::AllreduceOneIndex(CanNotShare, MPI_MAX, MPIInfo{commDup, mpi.rank, mpi.size});
         if (!CanNotShare)
-            this->WriteString(name + "::ref", ptr_2_pth[v.get()]);
+            this->WriteString(name + "::ref", ptr_2_pth[v]);
         else
         {
             WriteDataVector<index>(name, v->data(), v->size(), offset, chunksize, deflateLevel, h5file, reading, cP, mpi, commDup, collectiveMetadataRW, collectiveDataRW);
-            ptr_2_pth[v.get()] = cP + "/" + name;
+            ptr_2_pth[v] = cP + "/" + name;
         }
     }
     void SerializerH5::WriteSharedRowsizeVector(const std::string &name, const ssp<std::vector<rowsize>> &v, ArrayGlobalOffset offset)
     {
-        index CanNotShare = ptr_2_pth.count(v.get()) ? 0 : 1;
+        index CanNotShare = ptr_2_pth.count(v) ? 0 : 1;
         MPI::AllreduceOneIndex(CanNotShare, MPI_MAX, MPIInfo{commDup, mpi.rank, mpi.size});
         if (!CanNotShare)
-            this->WriteString(name + "::ref", ptr_2_pth[v.get()]);
+            this->WriteString(name + "::ref", ptr_2_pth[v]);
         else
         {
             WriteDataVector<rowsize>(name, v->data(), v->size(), offset, chunksize, deflateLevel, h5file, reading, cP, mpi, commDup, collectiveMetadataRW, collectiveDataRW);
-            ptr_2_pth[v.get()] = cP + "/" + name;
+            ptr_2_pth[v] = cP + "/" + name;
         }
     }
 
@@ -732,12 +732,12 @@ namespace DNDS::Serializer
 
         if (pth_2_ssp.count(refPath))
         {
-            v = *((ssp<tValue> *)(pth_2_ssp[refPath])); // ! reform this (and in json counterpart) to use reinterpret_cast or use STL's tools
+            v = std::static_pointer_cast<tValue>(pth_2_ssp[refPath]);
         }
         else
         {
             v = std::make_shared<tValue>();
-            pth_2_ssp[refPath] = &v;
+            pth_2_ssp[refPath] = v;
 
             size_t size;
             ReadDataVector<index>(refPath, nullptr, size, offset, h5file, reading, "/", mpi, collectiveMetadataRW, collectiveDataRW);
@@ -765,12 +765,12 @@ namespace DNDS::Serializer
 
         if (pth_2_ssp.count(refPath))
         {
-            v = *((ssp<tValue> *)(pth_2_ssp[refPath])); // ! reform this (and in json counterpart) to use reinterpret_cast or use STL's tools
+            v = std::static_pointer_cast<tValue>(pth_2_ssp[refPath]);
         }
         else
         {
             v = std::make_shared<tValue>();
-            pth_2_ssp[refPath] = &v;
+            pth_2_ssp[refPath] = v;
 
             size_t size;
             ReadDataVector<rowsize>(refPath, nullptr, size, offset, h5file, reading, "/", mpi, collectiveMetadataRW, collectiveDataRW);
diff --git a/src/DNDS/SerializerH5.hpp b/src/DNDS/SerializerH5.hpp
index 2e19ccf..39a7002 100644
--- a/src/DNDS/SerializerH5.hpp
+++ b/src/DNDS/SerializerH5.hpp
@@ -12,8 +12,8 @@ namespace DNDS::Serializer
         bool reading = true;
         std::vector<std::string> cPathSplit;
         std::string cP; // current path
-        std::map<void *, std::string> ptr_2_pth;
-        std::map<std::string, void *> pth_2_ssp;
+        std::map<ssp<void>, std::string> ptr_2_pth; // holds the vectors: an address is not reused while the file is open
+        std::map<std::string, ssp<void>> pth_2_ssp;
 
         MPIInfo mpi;
         MPI_Comm commDup{MPI_COMM_NULL};
diff --git a/src/DNDS/SerializerJSON.cpp b/src/DNDS/SerializerJSON.cpp
index 551001b..1842c10 100644
--- a/src/DNDS/SerializerJSON.cpp
+++ b/src/DNDS/SerializerJSON.cpp
@@ -125,23 +125,23 @@ namespace DNDS::Serializer
     void SerializerJSON::WriteSharedIndexVector(const std::string &name, const ssp<std::vector<index>> &v, ArrayGlobalOffset offset)
     {
         auto cPointer = nlohmann::json::json_pointer(cP);
-        if (ptr_2_pth.count(v.get()))
-            jObj[cPointer][name]["ref"] = ptr_2_pth[v.get()];
+        if (ptr_2_pth.count(v))
+            jObj[cPointer][name]["ref"] = ptr_2_pth[v];
         else
         {
             jObj[cPointer][name] = *v;
-            ptr_2_pth[v.get()] = cP + "/" + name;
+            ptr_2_pth[v] = cP + "/" + name;
         }
     }
     void SerializerJSON::WriteSharedRowsizeVector(const std::string &name, const ssp<std::vector<rowsize>> &v, ArrayGlobalOffset offset)
     {
         auto cPointer = nlohmann::json::json_pointer(cP);
-        if (ptr_2_pth.count(v.get()))
-            jObj[cPointer][name]["ref"] = ptr_2_pth[v.get()];
+        if (ptr_2_pth.count(v))
+            jObj[cPointer][name]["ref"] = ptr_2_pth[v];
         else
         {
             jObj[cPointer][name] = *v;
-            ptr_2_pth[v.get()] = cP + "/" + name;
+            ptr_2_pth[v] = cP + "/" + name;
         }
     }
 
@@ -207,13 +207,13 @@ namespace DNDS::Serializer
 
         if (pth_2_ssp.count(refPath))
         {
-            v = *((ssp<tValue> *)(pth_2_ssp[refPath]));
+            v = std::static_pointer_cast<tValue>(pth_2_ssp[refPath]);
         }
         else
         {
             DNDS_assert(jObj[nlohmann::json::json_pointer(refPath)].is_array());
             v = std::make_shared<tValue>(jObj[nlohmann::json::json_pointer(refPath)].get<tValue>()); // vector's copy constructor
-            pth_2_ssp[refPath] = &v;
+            pth_2_ssp[refPath] = v;
         }
         offset = ArrayGlobalOffset_Unknown;
     }
@@ -234,13 +234,13 @@ namespace DNDS::Serializer
 
         if (pth_2_ssp.count(refPath))
         {
-            v = *((ssp<tValue> *)(pth_2_ssp[refPath]));
+            v = std::static_pointer_cast<tValue>(pth_2_ssp[refPath]);
         }
         else
         {
             DNDS_assert(jObj[nlohmann::json::json_pointer(refPath)].is_array());
             v = std::make_shared<tValue>(jObj[nlohmann::json::json_pointer(refPath)].get<tValue>()); // vector's copy constructor
-            pth_2_ssp[refPath] = &v;
+            pth_2_ssp[refPath] = v;
         }
         offset = ArrayGlobalOffset_Unknown;
     }
diff --git a/src/DNDS/SerializerJSON.hpp b/src/DNDS/SerializerJSON.hpp
index c09513c..1cd405e 100644
--- a/src/DNDS/SerializerJSON.hpp
+++ b/src/DNDS/SerializerJSON.hpp
@@ -14,8 +14,8 @@ namespace DNDS::Serializer
         bool reading = true;
         std::vector<std::string> cPathSplit;
         std::string cP; // current path
-        std::map<void *, std::string> ptr_2_pth;
-        std::map<std::string, void *> pth_2_ssp;
+        std::map<ssp<void>, std::string> ptr_2_pth; // holds the vectors: an address is not reused while the file is open
+        std::map<std::string, ssp<void>> pth_2_ssp;
 
         bool useCodecOnUint8{false};
         int deflateLevel{5};
-- 
2.43.0


From b2f13b075ab90d8aa96e773023d2955cbf7b2c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:40 +0000
Subject: [PATCH 11/42] fix: H5 serializer writes empty strings

---
 src/DNDS/SerializerH5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DNDS/SerializerH5.cpp b/src/DNDS/SerializerH5.cpp
index 55c2dd9..bdb55e4 100644
--- a/src/DNDS/SerializerH5.cpp
+++ b/src/DNDS/SerializerH5.cpp
@@ -214,7 +214,7 @@ namespace DNDS::Serializer
             if (coll_on_meta)
                 herr = H5Pset_all_coll_metadata_ops(aapl_id, true), H5CHECK_Set;
             hid_t scalar_space = H5Screate(H5S_SCALAR);
-            hid_t string_type = H5Tcreate(H5T_STRING, v.length());
+            hid_t string_type = H5Tcreate(H5T_STRING, std::max<size_t>(v.length(), 1)); // HDF5 has no zero-length strings
             herr = H5Tset_strpad(string_type, H5T_STR_NULLPAD), H5CHECK_Set;
             hid_t type_attr_id = H5Acreate(group_id, name.c_str(), string_type, scalar_space, H5P_DEFAULT, aapl_id);
             DNDS_assert_info(type_attr_id >= 0, fmt::format("{}, {}, {}", name, v, cP));
-- 
2.43.0


From 8dede34211eaee5fa4bcdb05ceb64137c17aac8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:08 +0000
Subject: [PATCH 12/42] fix: H5 serializer references a shared vector only when
 all ranks wrote it under one path

---
 src/DNDS/SerializerH5.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/DNDS/SerializerH5.cpp b/src/DNDS/SerializerH5.cpp
index bdb55e4..da2854b 100644
--- a/src/DNDS/SerializerH5.cpp
+++ b/src/DNDS/SerializerH5.cpp
@@ -370,28 +370,38 @@ namespace DNDS::Serializer
     {
         WriteAttributeScalar<std::string>(name, v, h5file, reading, cP, collectiveMetadataRW);
     }
+    /// a reference is one attribute of the file: every rank has to have written its vector under the same path
+    static bool AllRanksSharePath(const std::string &path, const MPIInfo &mpi)
+    {
+        std::string path0 = path;
+        index size0 = index(path0.size());
+        MPI::Bcast(&size0, 1, DNDS_MPI_INDEX, 0, mpi.comm);
+        path0.resize(size0);
+        MPI::Bcast(path0.data(), MPI_int(size0), MPI_CHAR, 0, mpi.comm);
+        index CanNotShare = path.empty() || path != path0 ? 1 : 0;
+        MPI::AllreduceOneIndex(CanNotShare, MPI_MAX, mpi);
+        return !CanNotShare;
+    }
     void SerializerH5::WriteSharedIndexVector(const std::string &name, const ssp<std::vector<index>> &v, ArrayGlobalOffset offset)
     {
-        index CanNotShare = ptr_2_pth.count(v) ? 0 : 1;
-        MPI::AllreduceOneIndex(CanNotShare, MPI_MAX, MPIInfo{commDup, mpi.rank, mpi.size});
-        if (!CanNotShare)
+        auto found = ptr_2_pth.find(v);
+        if (AllRanksSharePath(found == ptr_2_pth.end() ? std::string{} : found->second, MPIInfo{commDup, mpi.rank, mpi.size}))
             this->WriteString(name + "::ref", ptr_2_pth[v]);
         else
         {
             WriteDataVector<index>(name, v->data(), v->size(), offset, chunksize, deflateLevel, h5file, reading, cP, mpi, commDup, collectiveMetadataRW, collectiveDataRW);
-            ptr_2_pth[v] = cP + "/" + name;
+            ptr_2_pth.emplace(v, cP + "/" + name);
         }
     }
     void SerializerH5::WriteSharedRowsizeVector(const std::string &name, const ssp<std::vector<rowsize>> &v, ArrayGlobalOffset offset)
     {
-        index CanNotShare = ptr_2_pth.count(v) ? 0 : 1;
-        MPI::AllreduceOneIndex(CanNotShare, MPI_MAX, MPIInfo{commDup, mpi.rank, mpi.size});
-        if (!CanNotShare)
+        auto found = ptr_2_pth.find(v);
+        if (AllRanksSharePath(found == ptr_2_pth.end() ? std::string{} : found->second, MPIInfo{commDup, mpi.rank, mpi.size}))
             this->WriteString(name + "::ref", ptr_2_pth[v]);
         else
         {
             WriteDataVector<rowsize>(name, v->data(), v->size(), offset, chunksize, deflateLevel, h5file, reading, cP, mpi, commDup, collectiveMetadataRW, collectiveDataRW);
-            ptr_2_pth[v] = cP + "/" + name;
+            ptr_2_pth.emplace(v, cP + "/" + name);
         }
     }
 
-- 
2.43.0


From 959e90daba13389766a6cc7ccedcb3adc066c3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:37 +0000
Subject: [PATCH 13/42] fix: serializers report a file that could not be
 written when it is closed

---
 src/DNDS/SerializerH5.cpp   |  6 +++++-
 src/DNDS/SerializerH5.hpp   |  2 +-
 src/DNDS/SerializerJSON.cpp | 10 +++++++---
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/DNDS/SerializerH5.cpp b/src/DNDS/SerializerH5.cpp
index da2854b..5f45940 100644
--- a/src/DNDS/SerializerH5.cpp
+++ b/src/DNDS/SerializerH5.cpp
@@ -133,7 +133,11 @@ namespace DNDS::Serializer
         cP.clear();
 
         if (H5I_INVALID_HID != h5file)
-            H5Fclose(h5file), h5file = H5I_INVALID_HID;
+        {
+            herr_t herr = H5Fclose(h5file);
+            h5file = H5I_INVALID_HID;
+            H5CHECK_Close;
+        }
     }
     void SerializerH5::CreatePath(const std::string &p)
     {
diff --git a/src/DNDS/SerializerH5.hpp b/src/DNDS/SerializerH5.hpp
index 39a7002..4c8c1dd 100644
--- a/src/DNDS/SerializerH5.hpp
+++ b/src/DNDS/SerializerH5.hpp
@@ -18,7 +18,7 @@ namespace DNDS::Serializer
         MPIInfo mpi;
         MPI_Comm commDup{MPI_COMM_NULL};
 
-        hid_t h5file{NULL};
+        hid_t h5file{H5I_INVALID_HID};
 
         int64_t chunksize{0};
         int deflateLevel{0};
diff --git a/src/DNDS/SerializerJSON.cpp b/src/DNDS/SerializerJSON.cpp
index 1842c10..5188626 100644
--- a/src/DNDS/SerializerJSON.cpp
+++ b/src/DNDS/SerializerJSON.cpp
@@ -51,9 +51,13 @@ namespace DNDS::Serializer
     void SerializerJSON::CloseFileNonVirtual()
     {
         // DNDS_assert(fileStream.is_open());
-        if (!reading && bool(fileStream))
-            fileStream << jObj;
-        fileStream.close();
+        if (fileStream.is_open())
+        {
+            if (!reading)
+                fileStream << jObj;
+            fileStream.close();
+            DNDS_assert_info(reading || !fileStream.fail(), "failed to write the file");
+        }
         cPathSplit.clear();
         ptr_2_pth.clear();
         pth_2_ssp.clear();
-- 
2.43.0


From ce899d7c50620c2e7d2a544b464432d0a157f872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:43 +0000
Subject: [PATCH 14/42] fix: SerializerH5::CreatePath creates the path it is
 given

---
 src/DNDS/SerializerH5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DNDS/SerializerH5.cpp b/src/DNDS/SerializerH5.cpp
index 5f45940..c03fff3 100644
--- a/src/DNDS/SerializerH5.cpp
+++ b/src/DNDS/SerializerH5.cpp
@@ -150,7 +150,7 @@ namespace DNDS::Serializer
         else
             for (auto &name : pth)
                 newPath.push_back(name);
-        std::string nP = constructPath(cPathSplit);
+        std::string nP = constructPath(newPath);
         hid_t group_id = GetGroupOfFileIfExist(h5file, reading, nP, collectiveMetadataRW);
         herr = H5Gclose(group_id), H5CHECK_Close;
     }
-- 
2.43.0


From f1337b7c0089cd41e9405c64a1d67e4add8765f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:51 +0000
Subject: [PATCH 15/42] fix: IsO1/IsO2 give the collective answer on every
 rank, also on ranks without cells

---
 src/Geom/Mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Geom/Mesh.cpp b/src/Geom/Mesh.cpp
index 4e9d3f8..19dff85 100644
--- a/src/Geom/Mesh.cpp
+++ b/src/Geom/Mesh.cpp
@@ -453,7 +453,7 @@ namespace DNDS::Geom
         }
         int hasBadAll;
         MPI::Allreduce(&hasBad, &hasBadAll, 1, MPI_INT, MPI_SUM, mpi.comm);
-        return hasBad == 0;
+        return hasBadAll == 0;
     }
 
     bool UnstructuredMesh::IsO2()
@@ -481,7 +481,7 @@ namespace DNDS::Geom
         }
         int hasBadAll;
         MPI::Allreduce(&hasBad, &hasBadAll, 1, MPI_INT, MPI_SUM, mpi.comm);
-        return hasBad == 0;
+        return hasBadAll == 0;
     }
 
     using tIndexMapFunc = std::function<index(index)>;
-- 
2.43.0


From 7bb8007b019791b08dcc260369520462ccb4b315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:59 +0000
Subject: [PATCH 16/42] fix: Deduplicate1to1Periodic accepts second-order
 periodic boundary elements

---
 src/Geom/Mesh_Serial_BuildCell2Cell.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Geom/Mesh_Serial_BuildCell2Cell.cpp b/src/Geom/Mesh_Serial_BuildCell2Cell.cpp
index 7176c5e..930e876 100644
--- a/src/Geom/Mesh_Serial_BuildCell2Cell.cpp
+++ b/src/Geom/Mesh_Serial_BuildCell2Cell.cpp
@@ -201,8 +201,9 @@ namespace DNDS::Geom
             auto faceID = bndElemInfoSerial->operator()(iBnd, 0).zone;
             if (FaceIDIsPeriodicDonor(faceID))
             {
-                for (auto iNodeFace : (*bnd2nodeSerial)[iBnd])
+                for (rowsize ib2n = 0; ib2n < Elem::Element{(*bndElemInfoSerial)(iBnd, 0).getElemType()}.GetNumVertices(); ib2n++) // only primary vertices
                 {
+                    auto iNodeFace = (*bnd2nodeSerial)(iBnd, ib2n);
                     DNDS_assert(donorNode2Cell.count(iNodeFace)); // node 2 cell means all the cells in bound are calculated
                     for (auto iCell : donorNode2Cell[iNodeFace])
                         for (auto iNode : (*bnd2nodeSerial)[iBnd])
-- 
2.43.0


From 91a6a00a293d5d37eb8539330eecb74a9be78453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:56 +0000
Subject: [PATCH 17/42] fix: BuildVTKConnectivity can be called again without
 appending to the old connectivity

---
 src/Geom/Mesh_Serial_BuildCell2Cell.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Geom/Mesh_Serial_BuildCell2Cell.cpp b/src/Geom/Mesh_Serial_BuildCell2Cell.cpp
index 930e876..96a4fc6 100644
--- a/src/Geom/Mesh_Serial_BuildCell2Cell.cpp
+++ b/src/Geom/Mesh_Serial_BuildCell2Cell.cpp
@@ -618,6 +618,7 @@ namespace DNDS::Geom
             vtkCellType[iC] = vtkType;
             vtkCell2nodeOffsets[iC + 1] = vtkCell2nodeOffsets[iC] + vtkC2n.size();
         }
+        vtkCell2node.clear();
         vtkCell2node.reserve(vtkCell2nodeOffsets.back()); // now offsets are local
         for (index iC = 0; iC < cell2node.father->Size(); iC++)
         {
-- 
2.43.0


From 266d326892fd15666c1ab6566771ff85c984cd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:21 +0000
Subject: [PATCH 18/42] fix: the local face-neighbour graph lists each
 neighbour cell once, also with several shared faces

Two cells of a mesh that is periodic over two layers share more than one
face; GetCell2CellFaceVLocal listed the neighbour once per shared face, and
ReorderLocalCells then threw "Graph not having unique directed edges".
---
 src/Geom/Mesh_Serial_Partition.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Geom/Mesh_Serial_Partition.cpp b/src/Geom/Mesh_Serial_Partition.cpp
index 4f3cc95..2b6f30c 100644
--- a/src/Geom/Mesh_Serial_Partition.cpp
+++ b/src/Geom/Mesh_Serial_Partition.cpp
@@ -189,8 +189,11 @@ namespace DNDS::Geom
                 for (auto iFace : cell2face[iCell])
                 {
                     index iCellOther = this->CellFaceOther(iCell, iFace);
-                    if (iCellOther != UnInitIndex && iCellOther < this->NumCell()) //! must be local not ghost ptrs
-                        cell2cellFaceV[iCell].push_back(iCellOther);
+                    if (iCellOther == UnInitIndex || iCellOther >= this->NumCell()) //! must be local not ghost ptrs
+                        continue;
+                    auto &row = cell2cellFaceV[iCell];
+                    if (std::find(row.begin(), row.end(), iCellOther) == row.end()) // two cells may share several faces (periodic)
+                        row.push_back(iCellOther);
                 }
             }
         }
-- 
2.43.0


From 0945da0e1f65a6f80afe5f9ec4e0b17b3857d9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:44 +0000
Subject: [PATCH 19/42] fix: Array: a CSR array that was compressed while empty
 can be resized and filled again

---
 src/DNDS/Array.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DNDS/Array.hpp b/src/DNDS/Array.hpp
index 33a4f75..69d2d0c 100644
--- a/src/DNDS/Array.hpp
+++ b/src/DNDS/Array.hpp
@@ -321,6 +321,7 @@ namespace DNDS
             if constexpr (_dataLayout == CSR) // to un compressed
             {
                 DNDS_assert_info(!IfCompressed(), "Need to decompress before auto resizing");
+                _pRowStart.reset(); // could remain from compressing a size 0 array
                 _size = nSize;
                 // _dataUncompressed.resize(nSize, typename decltype(_dataUncompressed)::value_type(nRow_size_dynamic));
                 _dataUncompressed.resize(nSize);
@@ -351,6 +352,7 @@ namespace DNDS
             if constexpr (_dataLayout == CSR)
             {
                 DNDS_assert_info(!IfCompressed(), "Need to decompress before auto resizing");
+                _pRowStart.reset(); // could remain from compressing a size 0 array
                 _size = nSize;
                 _dataUncompressed.resize(nSize);
             }
-- 
2.43.0


From 9b68b66397c704eee563dc059b690caa52afed8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:42 +0000
Subject: [PATCH 20/42] fix: convert the mean gradient with the dimension of
 the model

---
 src/Euler/EulerEvaluator_EvaluateRHS.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/EulerEvaluator_EvaluateRHS.hxx b/src/Euler/EulerEvaluator_EvaluateRHS.hxx
index 40d2f5c..829b725 100644
--- a/src/Euler/EulerEvaluator_EvaluateRHS.hxx
+++ b/src/Euler/EulerEvaluator_EvaluateRHS.hxx
@@ -366,7 +366,7 @@ namespace DNDS::Euler
                                               (unitNorm * (URxyPrim - ULxyPrim).transpose());
                     }
                     else
-                        Gas::GradientCons2Prim_IdealGas(UMeanXy, GradUMeanXy, GradUMeanXyPrim, gamma);
+                        Gas::GradientCons2Prim_IdealGas<dim>(UMeanXy, GradUMeanXy, GradUMeanXyPrim, gamma);
 
 #else
                     TDiffU GradUMeanXy;
-- 
2.43.0


From e6bcc412c57b9fff17654bac3793d6219d5c39cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:35 +0000
Subject: [PATCH 21/42] fix: HLLEP wave speeds are the signed Roe eigenvalues,
 not their magnitudes

---
 src/Euler/Gas.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Euler/Gas.hpp b/src/Euler/Gas.hpp
index 966e5ae..70d5725 100644
--- a/src/Euler/Gas.hpp
+++ b/src/Euler/Gas.hpp
@@ -330,8 +330,8 @@ namespace DNDS::Euler::Gas
         // std::cout << alpha.transpose() << std::endl;
         // std::cout << std::endl;
 
-        real SL = std::min(lam0, veloLm0 - std::sqrt(asqrL));
-        real SR = std::max(lam4, veloRm0 + std::sqrt(asqrR));
+        real SL = std::min(veloRoe0 - aRoe, veloLm0 - std::sqrt(asqrL));
+        real SR = std::max(veloRoe0 + aRoe, veloRm0 + std::sqrt(asqrR));
         real UU = std::abs(veloRoe0);
         real dfix = aRoe / (aRoe + UU);
         real SP = std::max(SR, 0.0);
-- 
2.43.0


From 95fb0c2e76a2d9c297e663872237b4822953ac65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:52 +0000
Subject: [PATCH 22/42] fix: the maximum norm of a reconstruction is reduced
 with a maximum for P == 3 too

---
 src/Euler/EulerEvaluator.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/EulerEvaluator.hxx b/src/Euler/EulerEvaluator.hxx
index 367e7aa..e126df1 100644
--- a/src/Euler/EulerEvaluator.hxx
+++ b/src/Euler/EulerEvaluator.hxx
@@ -1257,7 +1257,7 @@ namespace DNDS::Euler
             if (P < 3)
                 resc._v += rescCell;
         }
-        if (P > 3)
+        if (P >= 3)
             MPI::Allreduce(resc._v.data(), res.data(), res.size(), DNDS_MPI_REAL, MPI_MAX, u.father->getMPI().comm);
         else
         {
-- 
2.43.0


From 02a04bb310cf45c299a636d72a1bac307b3d4280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:09 +0000
Subject: [PATCH 23/42] fix: the rotated Riemann solver keeps the flux along
 the velocity difference in the batch variant

---
 src/Euler/EulerEvaluator_EvaluateDt.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/EulerEvaluator_EvaluateDt.hxx b/src/Euler/EulerEvaluator_EvaluateDt.hxx
index dbdf718..aa5279f 100644
--- a/src/Euler/EulerEvaluator_EvaluateDt.hxx
+++ b/src/Euler/EulerEvaluator_EvaluateDt.hxx
@@ -1201,7 +1201,7 @@ namespace DNDS::Euler
                     Gas::InviscidFlux_IdealGas_Batch_Dispatcher<dim>(
                         rsTypeAux,
                         ULxy, URxy, ULMeanXy, URMeanXy, vgXY, vgC, N1B, N1,
-                        settings.idealGasProperty.gamma, finc, deltaLambdaFace[iFace],
+                        settings.idealGasProperty.gamma, F1, deltaLambdaFace[iFace],
                         exitFun, lam0, lam123, lam4);
                     lam0V1.setConstant(lam0);
                     lam123V1.setConstant(lam123);
-- 
2.43.0


From d799a5b95109c38172a7f90c433a8da8257b8845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:17 +0000
Subject: [PATCH 24/42] fix: the wall distance refinement goes on after a batch
 without points to refine

---
 src/Euler/EulerEvaluator_EvaluateDt.hxx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Euler/EulerEvaluator_EvaluateDt.hxx b/src/Euler/EulerEvaluator_EvaluateDt.hxx
index aa5279f..f29ddd0 100644
--- a/src/Euler/EulerEvaluator_EvaluateDt.hxx
+++ b/src/Euler/EulerEvaluator_EvaluateDt.hxx
@@ -322,7 +322,15 @@ namespace DNDS::Euler
                 pullingSet.resize(PntTransformer.pLGlobalMapping->globalSize());
                 // std::cout << "Here1 " << iIter << std::endl;
                 if (!pullingSet.size())
-                    break;
+                {
+                    // no points in this batch: done only if no rank has cells left
+                    index hasMore = iCellBase + cellLoadNum < mesh->NumCellProc() ? 1 : 0;
+                    MPI::AllreduceOneIndex(hasMore, MPI_MAX, mesh->getMPI());
+                    if (!hasMore)
+                        break;
+                    iCellBase += cellLoadNum;
+                    continue;
+                }
                 if (mesh->getMPI().rank == 0)
                     log() << fmt::format("=== EulerEvaluator<model>::GetWallDist() iter [{}], nProcessed [{}], t [{:.6g}] ",
                                          iIter, nProcessed, MPI_Wtime() - t0)
-- 
2.43.0


From 74be2b099cf9b6832d9e47fda50e0629e49b2c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:31 +0000
Subject: [PATCH 25/42] fix: the local LU matrix adds up the couplings of two
 cells that share several faces

---
 src/Euler/EulerEvaluator.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/EulerEvaluator.hxx b/src/Euler/EulerEvaluator.hxx
index e126df1..2f4fb0d 100644
--- a/src/Euler/EulerEvaluator.hxx
+++ b/src/Euler/EulerEvaluator.hxx
@@ -261,7 +261,7 @@ namespace DNDS::Euler
                               mesh->periodicInfo.TransVector<dim, nVarsFixed>(
                                                     jacIJ(Eigen::all, Seq123).transpose(), faceID)
                                   .transpose(); });
-                    jacLU.LDU(iCell, symLU->cell2cellFaceVLocal2FullRowPos[iCell][iC2CInLocal]) =
+                    jacLU.LDU(iCell, symLU->cell2cellFaceVLocal2FullRowPos[iCell][iC2CInLocal]) +=
                         (0.5 * alphaDiag) * vfv->GetFaceArea(iFace) / vfv->GetCellVol(iCell) * jacIJ;
                 }
             }
-- 
2.43.0


From ca718231eaf84c271cc109c395025145436cee40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:43 +0000
Subject: [PATCH 26/42] fix: the turbulent normal stress acts along the face
 normal

---
 src/Euler/EulerEvaluator_EvaluateDt.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Euler/EulerEvaluator_EvaluateDt.hxx b/src/Euler/EulerEvaluator_EvaluateDt.hxx
index f29ddd0..d4264c1 100644
--- a/src/Euler/EulerEvaluator_EvaluateDt.hxx
+++ b/src/Euler/EulerEvaluator_EvaluateDt.hxx
@@ -1292,8 +1292,9 @@ namespace DNDS::Euler
                 ((vnL * ULxy(I4 + 2, Eigen::all).array() + vnR * URxy(I4 + 2, Eigen::all).array()) -
                  (URxy(I4 + 2, Eigen::all).array() - ULxy(I4 + 2, Eigen::all).array()) * lambdaFaceCC.array()) *
                 0.5;
-            finc(1, Eigen::all).array() += UMeanXy(I4 + 1, Eigen::all).array() * (2. / 3.); //! k's normal stress
-            finc(I4, Eigen::all).array() += UMeanXy(I4 + 1, Eigen::all).array() * (2. / 3.) * UMeanXy(1, Eigen::all).array() / UMeanXy(0, Eigen::all).array();
+            finc(Seq123, Eigen::all).array() += unitNorm.array().rowwise() * (UMeanXy(I4 + 1, Eigen::all).array() * (2. / 3.)); //! k's normal stress
+            finc(I4, Eigen::all).array() += UMeanXy(I4 + 1, Eigen::all).array() * (2. / 3.) *
+                                            (UMeanXy(Seq123, Eigen::all).array() * unitNorm.array()).colwise().sum() / UMeanXy(0, Eigen::all).array();
         }
 
 #ifndef DNDS_FV_EULEREVALUATOR_IGNORE_VISCOUS_TERM
-- 
2.43.0


From e19892436f6b41f4f6918ee9ae70016af39abdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:27 +0000
Subject: [PATCH 27/42] fix: HLLC: the estimated star pressure rises when the
 states move towards each other

---
 src/Euler/Gas.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/Gas.hpp b/src/Euler/Gas.hpp
index 70d5725..7f60e78 100644
--- a/src/Euler/Gas.hpp
+++ b/src/Euler/Gas.hpp
@@ -451,7 +451,7 @@ namespace DNDS::Euler::Gas
                 q = 1;
             return q;
         };
-        real pS = 0.5 * (pLm + pRm) - 0.5 * (veloLm0 - veloRm0) * rhoRoe * aRoe;
+        real pS = 0.5 * (pLm + pRm) - 0.5 * (veloRm0 - veloLm0) * rhoRoe * aRoe;
         pS = std::max(0.0, pS);
         real SL = veloLm0 - std::sqrt(asqrLm) * HLLCq(pLm, pS);
         real SR = veloRm0 + std::sqrt(asqrRm) * HLLCq(pRm, pS);
-- 
2.43.0


From 609bf9fb4b42fcc0de027c8028eb399dc2d84b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:54 +0000
Subject: [PATCH 28/42] fix: GMRES uses the last direction when the Krylov
 space closes

The column that closes the space was dropped, so the solution found with
it was not added: with an exact preconditioner (a single direction) x was
returned unchanged and reported as converged.
---
 src/Solver/Linear.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Solver/Linear.hpp b/src/Solver/Linear.hpp
index f7f0169..e14dcc8 100644
--- a/src/Solver/Linear.hpp
+++ b/src/Solver/Linear.hpp
@@ -81,6 +81,7 @@ namespace DNDS::Linear
                     if (h(j + 1, j) < scale_MLb * 1e-32)
                     {
                         std::cout << "early stop" << std::endl;
+                        j++; // the invariant subspace is complete with this column
                         break;
                     }
                     Vs[j + 1] *= 1.0 / h(j + 1, j); // normalize
-- 
2.43.0


From 4b32d71e6685d34997a6d079998553f13d7be51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:06 +0000
Subject: [PATCH 29/42] fix: BDF with positivity adds the right hand side to
 the residual

The residual was added to itself instead, so the step solved an equation
without the right hand side.
---
 src/Solver/ODE.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index 9336fac..028fa52 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -456,7 +456,7 @@ namespace DNDS::ODE
                 rhs.addTo(xLast, 1 / dt);
                 resOther = rhs;
                 rhs.addTo(x, -1. / dt);
-                rhs.addTo(rhs, BDFCoefs(kCurrent - 1, 0));
+                rhs.addTo(rhsbuf[0], BDFCoefs(kCurrent - 1, 0));
                 fsolve(x, rhs, resOther, dTau, dt, BDFCoefs(kCurrent - 1, 0), xinc, iter, 1.0, 0);
                 //* xinc = (I/dtau-A*alphaDiag)\rhs
 
-- 
2.43.0


From aad09bd84fe234982d3ffe78c74b1dbad348f77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:06 +0000
Subject: [PATCH 30/42] fix: VBDF with positivity evaluates the right hand side
 where it is used

It was evaluated into the buffer of the residual, which is overwritten
before use; the limiter and the residual saw the one of the previous
iteration, or zero.
---
 src/Solver/ODE.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index 028fa52..fb0fec8 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -725,7 +725,7 @@ namespace DNDS::ODE
             {
                 fdt(x, dTau, BDFCoefs(0), 0);
 
-                frhs(rhs, x, dTau, iter, 1.0, 0);
+                frhs(rhsbuf[0], x, dTau, iter, 1.0, 0);
 
                 xBase.setConstant(0.0);
                 xBase.addTo(xLast, (BDFCoefs(1) - 0) / dt); // 0 because xBase includes xLast/dt part
-- 
2.43.0


From 814b0061641df6258a3b24cdeac76cc485375aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:17 +0000
Subject: [PATCH 31/42] fix: Hermite3 evaluates the middle point at its own
 time

Without a previous step the U3R1 variant puts the middle point at a quarter
of the step, but evaluated the right hand side there at the time of the
configured position.
---
 src/Solver/ODE.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index fb0fec8..004502b 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -840,6 +840,7 @@ namespace DNDS::ODE
         real alphaHM3 = 0.5;
         int maskHM3 = 0;
         int maskHM3Exe = 0;
+        real alphaHM3Exe = 0.5; // position of the middle point with the current coefficients
 
         TDATA xPrev;
         real dtPrev = 0;
@@ -932,6 +933,7 @@ namespace DNDS::ODE
                 break;
             }
 
+            alphaHM3Exe = alpha;
             wInteg[0] = (-1.0 / 6.0) / alpha + 1.0 / 2.0;
             wInteg[1] = (-1.0 / 6.0) / (alpha * (alpha - 1.0));
             wInteg[2] = 1.0 / (alpha * 6.0 - 6.0) + 1.0 / 2.0;
@@ -1009,12 +1011,12 @@ namespace DNDS::ODE
                                 rhsMid.addTo(rhsbuf[2], thetaCur * wInteg(1));
                             }
                             fdt(xMid, dTau, 1.0, 1);
-                            fsolve(xMid, rhsMid, resOther, dTau, dt, std::abs(thetaCur * wInteg(1)), xinc, iter, alphaHM3, 1);
+                            fsolve(xMid, rhsMid, resOther, dTau, dt, std::abs(thetaCur * wInteg(1)), xinc, iter, alphaHM3Exe, 1);
                         }
 
                         fincrement(xMid, xinc, 1.0, 1);
 
-                        frhs(rhsbuf[2], xMid, dTau, iter, alphaHM3, 1);
+                        frhs(rhsbuf[2], xMid, dTau, iter, alphaHM3Exe, 1);
 
                         rhsFull.setConstant(0.0);
                         {
-- 
2.43.0


From 79d50a7b70a7e9edc9d286d1e83eeb63d2bb5be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:17 +0000
Subject: [PATCH 32/42] fix: SSPRK3 evaluates its stages at the times they
 belong to

The stages are at the start, the end and the middle of the step; with the
times that were passed the scheme was of first order for time dependent
boundaries and sources.
---
 src/Solver/ODE.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index 004502b..e15134d 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -1227,7 +1227,7 @@ namespace DNDS::ODE
             // MPI::Barrier(MPI_COMM_WORLD);
             // std::cout << "fucked" << std::endl;
 
-            frhs(rhs, x, dTau, 1, 0.5, 0);
+            frhs(rhs, x, dTau, 1, 0.0, 0);
             rhsbuf[0] = rhs;
             if (localDtStepping)
                 rhs *= dTau;
@@ -1248,7 +1248,7 @@ namespace DNDS::ODE
             // x.addTo(rhs, 0.25);
             fincrement(x, rhs, 0.25, 0);
 
-            frhs(rhs, x, dTau, 1, 0.25, 0);
+            frhs(rhs, x, dTau, 1, 0.5, 0);
             rhsbuf[2] = rhs;
             if (localDtStepping)
                 rhs *= dTau;
-- 
2.43.0


From d65baa3b632fd851177aa32b5e1b01ea42e13689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:52 +0000
Subject: [PATCH 33/42] fix: BDF2 with positivity uses the integrator that was
 built for it

---
 src/Euler/EulerSolver.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/EulerSolver.hxx b/src/Euler/EulerSolver.hxx
index 74b3d3d..2dc57e9 100644
--- a/src/Euler/EulerSolver.hxx
+++ b/src/Euler/EulerSolver.hxx
@@ -1213,7 +1213,7 @@ namespace DNDS::Euler
                 switch (config.timeMarchControl.odeCode)
                 {
                 case 1: // BDF2
-                    std::dynamic_pointer_cast<ODE::ImplicitBDFDualTimeStep<ArrayDOFV<nVarsFixed>, ArrayDOFV<1>>>(ode)
+                    std::dynamic_pointer_cast<ODE::ImplicitVBDFDualTimeStep<ArrayDOFV<nVarsFixed>, ArrayDOFV<1>>>(ode)
                         ->StepPP(
                             u, uIncBufODE,
                             frhs,
-- 
2.43.0


From cad84f72a5addc5ddd2660ccc495c78c5cfdfe76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:42 +0000
Subject: [PATCH 34/42] fix: VTKHDF output of a mesh without boundary cells
 writes empty datasets

---
 src/Geom/Mesh_Plts.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Geom/Mesh_Plts.cpp b/src/Geom/Mesh_Plts.cpp
index f9a2f21..ea088e2 100644
--- a/src/Geom/Mesh_Plts.cpp
+++ b/src/Geom/Mesh_Plts.cpp
@@ -1242,8 +1242,11 @@ namespace DNDS::Geom
         DNDS_assert_info(H5I_INVALID_HID != dset_id, "dataset create failed");
         herr = H5Sclose(fileSpace);
         fileSpace = H5Dget_space(dset_id);
-        herr |= H5Sselect_hyperslab(fileSpace, H5S_SELECT_SET, offset.data(), NULL, siz.data(), NULL);
-        herr |= H5Dwrite(dset_id, mem_dataType, memSpace, fileSpace, plist_id, buf);
+        if (nGlobal > 0) // collective writes to an empty filtered dataset fail in HDF5
+        {
+            herr |= H5Sselect_hyperslab(fileSpace, H5S_SELECT_SET, offset.data(), NULL, siz.data(), NULL);
+            herr |= H5Dwrite(dset_id, mem_dataType, memSpace, fileSpace, plist_id, buf);
+        }
         herr |= H5Dclose(dset_id);
         herr |= H5Sclose(fileSpace);
         herr |= H5Sclose(memSpace);
-- 
2.43.0


From 8c523e86da03637be2a347720cf7006f4c060ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:30 +0000
Subject: [PATCH 35/42] fix: the damping of the reconstruction increment
 reaches the ghost cells

---
 src/Euler/EulerSolver.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Euler/EulerSolver.hxx b/src/Euler/EulerSolver.hxx
index 2dc57e9..cab7ebe 100644
--- a/src/Euler/EulerSolver.hxx
+++ b/src/Euler/EulerSolver.hxx
@@ -539,6 +539,8 @@ namespace DNDS::Euler
                 damper1 = dTau;
                 damper1 += curDtImplicit;
                 damper /= damper1;
+                damper.trans.startPersistentPull(); // dTau is only known in owned cells
+                damper.trans.waitPersistentPull();
                 // for (auto &v : damper)
                 //     v = v / (curDtImplicit + v); //! warning: teleported value here
 
-- 
2.43.0


From b9c4dcbe1aa8783b58b148e8e5c8878957952c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:41 +0000
Subject: [PATCH 36/42] fix: HLLC: the pressure works with the velocity of the
 fluid, not relative to a moving grid

---
 src/Euler/Gas.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Euler/Gas.hpp b/src/Euler/Gas.hpp
index 7f60e78..3d37639 100644
--- a/src/Euler/Gas.hpp
+++ b/src/Euler/Gas.hpp
@@ -480,11 +480,10 @@ namespace DNDS::Euler::Gas
                   (UL(Eigen::seq(Eigen::fix<1>, Eigen::fix<dim>)).dot(n) - vgN * UL(0)) * (SL - veloLm0) -
                   (UR(Eigen::seq(Eigen::fix<1>, Eigen::fix<dim>)).dot(n) - vgN * UR(0)) * (SR - veloRm0)) /
                  div;
-        //! is this right for moving mesh?
         Eigen::Vector<real, dim + 2> DS;
         DS.setZero();
         DS(Eigen::seq(Eigen::fix<1>, Eigen::fix<dim>)) = n;
-        DS(dim + 1) = SS;
+        DS(dim + 1) = SS + vgN; // SS is relative to the grid
         // SS += sign(SS) * std::exp(-std::abs(SS) / dLambda) * dLambda;
         if (SS >= 0)
         {
-- 
2.43.0


From 58aecfa087946c25bae10a10cadcebccaf808c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:41 +0000
Subject: [PATCH 37/42] fix: HLLC: the pressure is the same on both sides of
 the contact

---
 src/Euler/Gas.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Euler/Gas.hpp b/src/Euler/Gas.hpp
index 3d37639..fefc4b3 100644
--- a/src/Euler/Gas.hpp
+++ b/src/Euler/Gas.hpp
@@ -493,7 +493,7 @@ namespace DNDS::Euler::Gas
             else
                 F(Eigen::seq(Eigen::fix<0>, Eigen::fix<dim + 1>)) =
                     ((UL(Eigen::seq(Eigen::fix<0>, Eigen::fix<dim + 1>)) * SL - FL) * SS +
-                     DS * ((pL + UL(0) * (SL - veloLm0) * (SS - veloLm0)) * SL)) /
+                     DS * ((pL + UL(0) * (SL - veloLm0) * (SS - (veloL - vg).dot(n))) * SL)) /
                     div;
         }
         else
@@ -504,7 +504,7 @@ namespace DNDS::Euler::Gas
             else
                 F(Eigen::seq(Eigen::fix<0>, Eigen::fix<dim + 1>)) =
                     ((UR(Eigen::seq(Eigen::fix<0>, Eigen::fix<dim + 1>)) * SR - FR) * SS +
-                     DS * ((pR + UR(0) * (SR - veloRm0) * (SS - veloRm0)) * SR)) /
+                     DS * ((pR + UR(0) * (SR - veloRm0) * (SS - (veloR - vg).dot(n))) * SR)) /
                     div;
         }
     }
-- 
2.43.0


From 5b40c893b07e7216e34a20d052cfedd7773ab5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:13 +0000
Subject: [PATCH 38/42] fix: a JSON restart never mixes the files of two steps

---
 src/Euler/EulerSolver.hpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/Euler/EulerSolver.hpp b/src/Euler/EulerSolver.hpp
index 0deed3b..f7819e2 100644
--- a/src/Euler/EulerSolver.hpp
+++ b/src/Euler/EulerSolver.hpp
@@ -809,20 +809,25 @@ namespace DNDS::Euler
 
         void PrintRestart(std::string fname)
         {
+            std::filesystem::path outPath, writePath;
             if (config.dataIOControl.restartWriter.type == "JSON")
             {
-                std::filesystem::path outPath;
                 outPath = {fname + "_p" + std::to_string(mpi.size) + "_restart.dir"};
-                std::filesystem::create_directories(outPath);
+                // written aside, so that outPath never mixes the files of two steps
+                writePath = getStringForcePath(outPath) + ".tmp";
+                if (mpi.rank == 0)
+                    std::filesystem::remove_all(writePath);
+                MPI::Barrier(mpi.comm);
+                std::filesystem::create_directories(writePath);
                 char BUF[512];
                 std::sprintf(BUF, "%04d", mpi.rank);
-                fname = getStringForcePath(outPath / (std::string(BUF) + ".json"));
+                fname = getStringForcePath(writePath / (std::string(BUF) + ".json"));
                 config.restartState.lastRestartFile = getStringForcePath(outPath);
             }
             else if (config.dataIOControl.restartWriter.type == "H5")
             {
                 fname += "_p" + std::to_string(mpi.size) + ".restart.dnds.h5";
-                std::filesystem::path outPath = fname;
+                outPath = fname;
                 std::filesystem::create_directories(outPath.parent_path() / ".");
                 config.restartState.lastRestartFile = fname;
             }
@@ -835,6 +840,21 @@ namespace DNDS::Euler
             u.WriteSerialize(serializerP, "u");
             serializerP->CloseFile();
 
+            if (!writePath.empty())
+            {
+                MPI::Barrier(mpi.comm);
+                if (mpi.rank == 0)
+                {
+                    std::filesystem::path oldPath = getStringForcePath(outPath) + ".old";
+                    std::filesystem::remove_all(oldPath);
+                    if (std::filesystem::exists(outPath))
+                        std::filesystem::rename(outPath, oldPath);
+                    std::filesystem::rename(writePath, outPath);
+                    std::filesystem::remove_all(oldPath);
+                }
+                MPI::Barrier(mpi.comm);
+            }
+
             PrintConfig();
         }
 
-- 
2.43.0


From a9e442bfa53a545cb05df99a88fbeaad41487968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:45 +0000
Subject: [PATCH 39/42] fix: smoothing local time steps does not overwrite the
 steps it reads

With rhsFPPMode 2 a multigrid level smooths the local time steps in dTauTmp, which
the smoothing also used as its scratch array, so it took values of the same pass
for cells of the own rank and the result depended on the partition.
---
 src/Euler/EulerSolver.hxx | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/Euler/EulerSolver.hxx b/src/Euler/EulerSolver.hxx
index cab7ebe..05373d3 100644
--- a/src/Euler/EulerSolver.hxx
+++ b/src/Euler/EulerSolver.hxx
@@ -629,14 +629,19 @@ namespace DNDS::Euler
             // uRec.trans.waitPersistentPull();
             auto &uRecC = config.timeMarchControl.odeCode == 401 && uPos == 1 ? uRec1 : uRec;
             eval.EvaluateDt(dTau, cx, uRecC, CFLNow, curDtMin, 1e100, config.implicitCFLControl.useLocalDt);
-            for (int iS = 1; iS <= config.implicitCFLControl.nSmoothDTau; iS++)
+            if (config.implicitCFLControl.nSmoothDTau > 0)
             {
                 // ArrayDOFV<1> dTauNew = dTau; //TODO: copying is still unusable; consider doing copiers on the level of ArrayDOFV and ArrayRecV
-                dTauTmp = dTau;
-                dTau.trans.startPersistentPull();
-                dTau.trans.waitPersistentPull();
-                eval.MinSmoothDTau(dTau, dTauTmp);
-                dTau = dTauTmp;
+                ArrayDOFV<1> dTauNew; // not dTauTmp, which may be the dTau given here
+                vfv->BuildUDof(dTauNew, 1);
+                for (int iS = 1; iS <= config.implicitCFLControl.nSmoothDTau; iS++)
+                {
+                    dTauNew = dTau;
+                    dTau.trans.startPersistentPull();
+                    dTau.trans.waitPersistentPull();
+                    eval.MinSmoothDTau(dTau, dTauNew);
+                    dTau = dTauNew;
+                }
             }
 
             dTau *= 1. / alphaDiag;
-- 
2.43.0


From f798a40ef1761b8cf1e4b820d08767eb264d39f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:24 +0000
Subject: [PATCH 40/42] fix: the positivity step of variable-step BDF limits a
 state and its increment

xBase was handed to the limiter divided by the time step while the
increment was not, so the two did not add up to the state the step aims at.
---
 src/Solver/ODE.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index e15134d..dbd4373 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -728,12 +728,12 @@ namespace DNDS::ODE
                 frhs(rhsbuf[0], x, dTau, iter, 1.0, 0);
 
                 xBase.setConstant(0.0);
-                xBase.addTo(xLast, (BDFCoefs(1) - 0) / dt); // 0 because xBase includes xLast/dt part
+                xBase.addTo(xLast, BDFCoefs(1)); // xBase is a state, like resInc
                 if (prevSiz)
                     for (index iPrev = 0; iPrev < cnPrev; iPrev++)
                     {
                         // std::cout << "add " << BDFCoefs(2 + iPrev) <<" " << mod(iPrev + prevStart, prevSiz) << std::endl;
-                        xBase.addTo(xPrevs[mod(iPrev + prevStart, prevSiz)], BDFCoefs(2 + iPrev) / dt);
+                        xBase.addTo(xPrevs[mod(iPrev + prevStart, prevSiz)], BDFCoefs(2 + iPrev));
                     }
                 fresidualIncPP(
                     x, xBase, rhsbuf[0], resInc,
@@ -753,13 +753,13 @@ namespace DNDS::ODE
                         // falphaLimSource(resInc, 0); // non-rhs part of residual, fixed with alpha too
                         // *****
                         resInc.addTo(rhsbuf[0], BDFCoefs(0));
-                        resInc *= dt; // so that equation is resInc == x - xLast
+                        resInc *= dt; // so that equation is resInc == x - xBase
                     },
                     1.0,
                     0);
 
                 rhs = xBase;
-                // rhs.addTo(xLast, 1 / dt); // 0 because xBase includes xLast/dt part
+                rhs *= 1. / dt; // xBase includes the xLast part
                 resOther = rhs;
                 rhs.addTo(x, -1. / dt);
                 rhs.addTo(rhsbuf[0], BDFCoefs(0));
-- 
2.43.0


From 1857ccf725241798878bbab39f950e4d12f90a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:24 +0000
Subject: [PATCH 41/42] fix: distances of nearest boundary nodes survive the
 resize to what was found

resize() of an Eigen vector drops its entries: with fewer boundary nodes than
nSearch the radius test read uninitialised memory.
---
 src/Geom/Mesh_Elevation_SmoothSolver.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Geom/Mesh_Elevation_SmoothSolver.cpp b/src/Geom/Mesh_Elevation_SmoothSolver.cpp
index 295c2f9..f71831b 100644
--- a/src/Geom/Mesh_Elevation_SmoothSolver.cpp
+++ b/src/Geom/Mesh_Elevation_SmoothSolver.cpp
@@ -184,7 +184,7 @@ namespace DNDS::Geom
             index nFound = bndInterpTree.knnSearch(cooC.data(), nFind, idxFound.data(), outDistancesSqr.data());
             DNDS_assert(nFound >= 1);
             idxFound.resize(nFound);
-            outDistancesSqr.resize(nFound);
+            outDistancesSqr.conservativeResize(nFound);
             tSmallCoords coordBnd;
             tSmallCoords dispBnd;
             coordBnd.resize(3, nFound);
@@ -342,7 +342,7 @@ namespace DNDS::Geom
                 index nFound = bndInterpTree.knnSearch(cooC.data(), nFind, idxFound.data(), outDistancesSqr.data());
                 DNDS_assert(nFound >= 1);
                 idxFound.resize(nFound);
-                outDistancesSqr.resize(nFound);
+                outDistancesSqr.conservativeResize(nFound);
 
                 real RMin = outDistancesSqr.minCoeff();
                 real RMax = outDistancesSqr.maxCoeff();
@@ -583,7 +583,7 @@ namespace DNDS::Geom
             index nFound = bndInterpTree.knnSearch(cooC.data(), nFind, idxFound.data(), outDistancesSqr.data());
             DNDS_assert(nFound >= 1);
             idxFound.resize(nFound);
-            outDistancesSqr.resize(nFound);
+            outDistancesSqr.conservativeResize(nFound);
 
             real RMin = std::sqrt(outDistancesSqr.minCoeff());
             real RMax = std::sqrt(outDistancesSqr.maxCoeff());
-- 
2.43.0


From e70c5cb98db29b5f61228f1b4bbd818f93f4bc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:24 +0000
Subject: [PATCH 42/42] fix: opposite boundary normals at a node do not make
 elevated nodes NaN

---
 src/Geom/Mesh_Elevation.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Geom/Mesh_Elevation.cpp b/src/Geom/Mesh_Elevation.cpp
index 5a97a18..c77b7ac 100644
--- a/src/Geom/Mesh_Elevation.cpp
+++ b/src/Geom/Mesh_Elevation.cpp
@@ -970,11 +970,12 @@ namespace DNDS::Geom
                     }
                 }
                 // norms.array().rowwise() /= nAdd.transpose().array();
-                norms.colwise().normalize();
                 for (int iN = 0; iN < spanO2Node.size(); iN++)
                 {
-                    if (nAdd[iN] < 0.1) // no found, then no mov
+                    if (nAdd[iN] < 0.1 || norms(Eigen::all, iN).norm() < smallReal) // no found, or no common direction, then no mov
                         norms(Eigen::all, iN).setZero();
+                    else
+                        norms(Eigen::all, iN).normalize();
                     // DNDS_assert(nAdd[iN] > 0.1);
                 }
 
-- 
2.43.0

