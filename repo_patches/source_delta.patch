From 587d43e4f166b8048843a599747d5cebf77e0935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:46 +0000
Subject: [PATCH 01/39] fix: honour the lower corner of the global domain in
 MPICartSubdivision::init

init(lo, hi, delta) computed the local ranges as if lo was zero, so that for
lo != 0 the subdomains did not tile [lo, hi].
---
 src/grid/mpisubdivision.t | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/grid/mpisubdivision.t b/src/grid/mpisubdivision.t
index 3b87a65..e23a343 100644
--- a/src/grid/mpisubdivision.t
+++ b/src/grid/mpisubdivision.t
@@ -104,17 +104,17 @@ void MPICartSubdivision<GridType>::init(const LimitType &lo, const LimitType &hi
     errorCode = MPI_Cart_shift(comm,i,1,&prevcoord[i],&nextcoord[i]);
     SCHNEK_ASSERT(errorCode == MPI_SUCCESS, "Could not shift Cartesian coordinates ("+boost::lexical_cast<std::string>(errorCode)+")");
 
-    width[i] = (High[i]-1.)/double(dims[i]);
+    width[i] = (hi[i]-lo[i]-1.)/double(dims[i]);
 
     if (mycoord[i]>0)
-      Low[i] = int(width[i]*mycoord[i])-delta+1;
+      Low[i] = lo[i]+int(width[i]*mycoord[i])-delta+1;
     else
-      Low[i] = -delta;
+      Low[i] = lo[i]-delta;
 
     if (mycoord[i]<(dims[i]-1))
-      High[i] = int(width[i]*(mycoord[i]+1))+delta;
+      High[i] = lo[i]+int(width[i]*(mycoord[i]+1))+delta;
     else
-      High[i] = High[i]+delta;
+      High[i] = hi[i]+delta;
 
     exchangeSizeProduct *= (High[i]-Low[i]+1);
   }
-- 
2.43.0


From fcf21a97a83f5dd09847a793d1807ba179132e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:46 +0000
Subject: [PATCH 02/39] fix: physical extent of a subdomain relative to the
 global lower corner

getInnerExtent multiplied the absolute cell index with the cell size, which
shifts the result when the global domain does not start at index zero.
---
 src/grid/domainsubdivision.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grid/domainsubdivision.hpp b/src/grid/domainsubdivision.hpp
index cbc227d..2cf5ce9 100644
--- a/src/grid/domainsubdivision.hpp
+++ b/src/grid/domainsubdivision.hpp
@@ -141,8 +141,8 @@ class DomainSubdivision {
       {
         const T &lo = globalExtent.getLo()[i];
         T dx = (globalExtent.getHi()[i]-lo) / (T)(globalGridSize.getHi()[i] - globalGridSize.getLo()[i] + 1);
-        localDomainMin[i] = lo + this->getInnerLo()[i]*dx;
-        localDomainMax[i] = lo + (this->getInnerHi()[i] + 1)*dx;
+        localDomainMin[i] = lo + (this->getInnerLo()[i] - globalGridSize.getLo()[i])*dx;
+        localDomainMax[i] = lo + (this->getInnerHi()[i] - globalGridSize.getLo()[i] + 1)*dx;
       }
       return Range<T, Rank, CheckingPolicy>(localDomainMin,localDomainMax);
     }
-- 
2.43.0


From 0fbba23fd94f4538d977e763c81a7126e37c0b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:10 +0000
Subject: [PATCH 03/39] fix: SerialSubdivision::exchangeData shares the storage
 of the sent buffer

Assigning a grid makes both grids refer to the same data, so modifying the
sent buffer afterwards also changed the received one.
---
 src/grid/domainsubdivision.t | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/grid/domainsubdivision.t b/src/grid/domainsubdivision.t
index cd6206e..037f20e 100644
--- a/src/grid/domainsubdivision.t
+++ b/src/grid/domainsubdivision.t
@@ -24,6 +24,7 @@
  *
  */
 
+#include <algorithm>
 #include <memory>
 
 namespace schnek {
@@ -113,7 +114,10 @@ void SerialSubdivision<GridType>::accumulate(GridType &grid, size_t dim)
 template<class GridType>
 void SerialSubdivision<GridType>::exchangeData(size_t, int, BufferType &in, BufferType &out)
 {
-  out = in;
+  // grids share their data on assignment, the received buffer must be independent
+  BufferType copy(typename BufferType::IndexType(in.getSize()));
+  std::copy(in.begin(), in.end(), copy.begin());
+  out = copy;
 }
 
 } // namespace schnek
-- 
2.43.0


From 5b489dd6521a4d89416f14bcd35469ebc86be100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:49 +0000
Subject: [PATCH 04/39] fix: division by zero in MPICartSubdivision::init for
 empty subdomains

With more processes than cells in one direction and no ghost cells the local
domain of some processes is empty.
---
 src/grid/mpisubdivision.t | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/grid/mpisubdivision.t b/src/grid/mpisubdivision.t
index e23a343..eb13d76 100644
--- a/src/grid/mpisubdivision.t
+++ b/src/grid/mpisubdivision.t
@@ -95,9 +95,6 @@ void MPICartSubdivision<GridType>::init(const LimitType &lo, const LimitType &hi
   SCHNEK_ASSERT(errorCode == MPI_SUCCESS, "Could not determine MPI Cartesian coordinates ("+boost::lexical_cast<std::string>(errorCode)+")");
 
   double width[Rank];
-  int exchangeSizeProduct = delta;
-
-  //std::cout << "Calculating exchange size product: " << exchangeSizeProduct << std::endl;
 
   for (size_t i=0; i<Rank; ++i)
   {
@@ -115,13 +112,13 @@ void MPICartSubdivision<GridType>::init(const LimitType &lo, const LimitType &hi
       High[i] = lo[i]+int(width[i]*(mycoord[i]+1))+delta;
     else
       High[i] = hi[i]+delta;
-
-    exchangeSizeProduct *= (High[i]-Low[i]+1);
   }
 
   for (size_t i=0; i<Rank; ++i)
   {
-    exchSize[i] = exchangeSizeProduct/(High[i]-Low[i]+1);
+    // the local domain may be empty when there are more processes than cells
+    exchSize[i] = delta;
+    for (size_t j=0; j<Rank; ++j) if (j!=i) exchSize[i] *= (High[j]-Low[j]+1);
     //std::cout << "Calculating exchange size "<<i<<": " << exchSize[i] << std::endl;
     sendarr[i] = new value_type[exchSize[i]];
     recvarr[i] = new value_type[exchSize[i]];
-- 
2.43.0


From b6e48b7073186103adbbd82a368c4e1cb286e703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:45 +0000
Subject: [PATCH 05/39] fix: write HDF5 attributes collectively on all active
 processes

---
 src/diagnostic/hdfdiagnostic.t | 39 ++++++++++++++--------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/src/diagnostic/hdfdiagnostic.t b/src/diagnostic/hdfdiagnostic.t
index cc6051a..9a16185 100644
--- a/src/diagnostic/hdfdiagnostic.t
+++ b/src/diagnostic/hdfdiagnostic.t
@@ -292,34 +292,27 @@ void HdfOStream::writeGrid(GridContainer<FieldType> &g)
   assert(ret != -1);
 #endif
 
-  /* now write the attributes */
+  /* now write the attributes, this is a collective operation on all active processes */
 
-  int mpi_rank = 0;
-#if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
-  MPI_Comm_rank(MPI_COMM_WORLD, &mpi_rank);
-#endif
+  /* Create the data space for the attribute. */
+  typedef std::pair<std::string, HdfAttributes::pInfo> attPair;
+  for(attPair p: attributes->attributes) {
+    HdfAttributes::Info &info = *(p.second);
 
-  if (mpi_rank==0) {
-    /* Create the data space for the attribute. */
-    typedef std::pair<std::string, HdfAttributes::pInfo> attPair;
-    for(attPair p: attributes->attributes) {
-      HdfAttributes::Info &info = *(p.second);
+    const hid_t dataspace_id = H5Screate_simple(1, &info.dims, NULL);
+    /* Create a dataset attribute. */
+    const hid_t attribute_id = H5Acreate2 (dataset, p.first.c_str(), info.type, dataspace_id,
+                                           H5P_DEFAULT, H5P_DEFAULT);
 
-      const hid_t dataspace_id = H5Screate_simple(1, &info.dims, NULL);
-      /* Create a dataset attribute. */
-      const hid_t attribute_id = H5Acreate2 (dataset, p.first.c_str(), info.type, dataspace_id,
-                                             H5P_DEFAULT, H5P_DEFAULT);
+    /* Write the attribute data. */
+    ret = H5Awrite(attribute_id, info.type, info.buffer);
+    assert(ret != -1);
 
-      /* Write the attribute data. */
-      ret = H5Awrite(attribute_id, info.type, info.buffer);
-      assert(ret != -1);
+    /* Close the attribute. */
+    H5Aclose(attribute_id);
 
-      /* Close the attribute. */
-      H5Aclose(attribute_id);
-
-      /* Close the dataspace. */
-      H5Sclose(dataspace_id);
-    }
+    /* Close the dataspace. */
+    H5Sclose(dataspace_id);
   }
 
   /* close dataset collectively */
-- 
2.43.0


From 3d9fb72ddb14cd5d5078881ca5d6d5db14d6fa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:45 +0000
Subject: [PATCH 06/39] fix: HdfOStream::open closes the file that is already
 open

---
 src/diagnostic/hdfdiagnostic.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diagnostic/hdfdiagnostic.cpp b/src/diagnostic/hdfdiagnostic.cpp
index 5107595..86179f2 100644
--- a/src/diagnostic/hdfdiagnostic.cpp
+++ b/src/diagnostic/hdfdiagnostic.cpp
@@ -268,6 +268,7 @@ HdfOStream::HdfOStream(const char* fname)
 }
 
 int HdfOStream::open(const char* fname) {
+  close();
   sets_count = 0;
 
 #if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
-- 
2.43.0


From c62f6ff4ca1e9c965cd88eb7c5d0e38264745928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:45 +0000
Subject: [PATCH 07/39] fix: HdfOStream opens files with the current set of
 active processes and releases its access list

---
 src/diagnostic/hdfdiagnostic.cpp | 48 +++++++++++++++++---------------
 src/diagnostic/hdfdiagnostic.hpp |  4 ---
 2 files changed, 25 insertions(+), 27 deletions(-)

diff --git a/src/diagnostic/hdfdiagnostic.cpp b/src/diagnostic/hdfdiagnostic.cpp
index 86179f2..3f36717 100644
--- a/src/diagnostic/hdfdiagnostic.cpp
+++ b/src/diagnostic/hdfdiagnostic.cpp
@@ -283,39 +283,41 @@ int HdfOStream::open(const char* fname) {
     int rank;
     MPI_Comm_rank(MPI_COMM_WORLD, &rank);
 
-    if (!initialised) {
-      /* setup file access template */
-
-      plist_id = H5Pcreate(H5P_FILE_ACCESS);
+    /* setup file access template */
+    hid_t plist_id = H5Pcreate(H5P_FILE_ACCESS);
 
-      H5Pset_sieve_buf_size(plist_id, sieve_buf_size);
-      H5Pset_alignment(plist_id, align_threshold, alignment);
+    H5Pset_sieve_buf_size(plist_id, sieve_buf_size);
+    H5Pset_alignment(plist_id, align_threshold, alignment);
 
-      MPI_Info_create(&mpi_info);
+    MPI_Info mpi_info;
+    MPI_Info_create(&mpi_info);
 
-      // MPI
-      const char access_style[]         = "access_style";
-      const char write_once[]           = "write_once";
-      const char collective_buffering[] = "collective_buffering";
-      const char strue[]                = "true";
-      const char cb_block_size[]        = "cb_block_size";
-      const char n1048576[]             = "1048576";
-      const char cb_buffer_size[]       = "cb_buffer_size";
-      const char n4194304[]             = "4194304";
+    // MPI
+    const char access_style[]         = "access_style";
+    const char write_once[]           = "write_once";
+    const char collective_buffering[] = "collective_buffering";
+    const char strue[]                = "true";
+    const char cb_block_size[]        = "cb_block_size";
+    const char n1048576[]             = "1048576";
+    const char cb_buffer_size[]       = "cb_buffer_size";
+    const char n4194304[]             = "4194304";
 
-      MPI_Info_set(mpi_info, access_style, write_once);
-      MPI_Info_set(mpi_info, collective_buffering, strue);
-      MPI_Info_set(mpi_info, cb_block_size, n1048576);
-      MPI_Info_set(mpi_info, cb_buffer_size, n4194304);
+    MPI_Info_set(mpi_info, access_style, write_once);
+    MPI_Info_set(mpi_info, collective_buffering, strue);
+    MPI_Info_set(mpi_info, cb_block_size, n1048576);
+    MPI_Info_set(mpi_info, cb_buffer_size, n4194304);
 
-      /* set Parallel access with communicator */
-      H5Pset_fapl_mpio(plist_id, mpiComm, mpi_info);
-    }
+    /* set Parallel access with communicator */
+    H5Pset_fapl_mpio(plist_id, mpiComm, mpi_info);
 
     /* open the file collectively */
     //H5Pset_fapl_mpiposix(plist_id, mpiComm, 0);
     file_id = H5Fcreate (fname, H5F_ACC_TRUNC, H5P_DEFAULT, plist_id);
 
+    /* Release file-access template */
+    MPI_Info_free(&mpi_info);
+    H5Pclose(plist_id);
+
     if (!initialised) {
       dxpl_id = H5Pcreate(H5P_DATASET_XFER);
       SCHNEK_TRACE_LOG(3,"Data Transfer Property List Id (0) " << dxpl_id)
diff --git a/src/diagnostic/hdfdiagnostic.hpp b/src/diagnostic/hdfdiagnostic.hpp
index 47a4420..4d38e4d 100644
--- a/src/diagnostic/hdfdiagnostic.hpp
+++ b/src/diagnostic/hdfdiagnostic.hpp
@@ -205,10 +205,6 @@ class HdfIStream : public HdfStream {
 class HdfOStream : public HdfStream {
   private:
     hid_t dxpl_id;
-#if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
-    MPI_Info mpi_info;
-#endif
-    hid_t plist_id;
     bool initialised;
   public:
     /// constructor
-- 
2.43.0


From 93d8b7d2bb2c0a12decec8dfdd94288fac8e0558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:45 +0000
Subject: [PATCH 08/39] fix: keep the communicator of the active processes when
 a stream is opened again

---
 src/diagnostic/hdfdiagnostic.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diagnostic/hdfdiagnostic.cpp b/src/diagnostic/hdfdiagnostic.cpp
index 3f36717..801c138 100644
--- a/src/diagnostic/hdfdiagnostic.cpp
+++ b/src/diagnostic/hdfdiagnostic.cpp
@@ -170,6 +170,7 @@ void HdfStream::makeMPIGroup()
   delete[] activeArr;
   delete[] inputArr;
 
+  commSet = true;
   activeModified = false;
 }
 #endif
-- 
2.43.0


From a09e9f9787c6221251a8ff8c6f59b4f84335421d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:45 +0000
Subject: [PATCH 09/39] fix: HdfIStream::readGrid does nothing on inactive
 processes

---
 src/diagnostic/hdfdiagnostic.t | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diagnostic/hdfdiagnostic.t b/src/diagnostic/hdfdiagnostic.t
index 9a16185..e11ea70 100644
--- a/src/diagnostic/hdfdiagnostic.t
+++ b/src/diagnostic/hdfdiagnostic.t
@@ -53,6 +53,10 @@ void HdfAttributes::set(std::string name, const T &value, hsize_t dims) {
 template<typename FieldType>
 void HdfIStream::readGrid(GridContainer<FieldType> &g)
 {
+  if (!active) {
+    return;
+  }
+
   std::string dset_name = getNextBlockName();
 
   typedef typename FieldType::IndexType IndexType;
-- 
2.43.0


From 14db770845bd879cbcc1e847b15ba73c097bba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:04 +0000
Subject: [PATCH 10/39] fix: HdfStream::close no longer ignores a failing
 H5Fclose

---
 src/diagnostic/hdfdiagnostic.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diagnostic/hdfdiagnostic.cpp b/src/diagnostic/hdfdiagnostic.cpp
index 801c138..834668f 100644
--- a/src/diagnostic/hdfdiagnostic.cpp
+++ b/src/diagnostic/hdfdiagnostic.cpp
@@ -90,7 +90,8 @@ HdfStream::~HdfStream()
 void HdfStream::close()
 {
   if (file_id >= 0) {
-    H5Fclose (file_id);
+    status = H5Fclose (file_id);
+    assert(status != -1);
   }
   file_id = -1;
 }
-- 
2.43.0


From fb032c148d918ee0ae134b3c5ed9c7c5f0b089f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:05 +0000
Subject: [PATCH 11/39] fix: diagnostics deregister from the DiagnosticManager
 when they are destroyed

---
 src/diagnostic/diagnostic.cpp | 20 ++++++++++++++++++++
 src/diagnostic/diagnostic.hpp |  6 ++++++
 2 files changed, 26 insertions(+)

diff --git a/src/diagnostic/diagnostic.cpp b/src/diagnostic/diagnostic.cpp
index 106c62c..2e5429c 100644
--- a/src/diagnostic/diagnostic.cpp
+++ b/src/diagnostic/diagnostic.cpp
@@ -99,6 +99,11 @@ IntervalDiagnostic::IntervalDiagnostic() : interval(100)
   DiagnosticManager::instance().addIntervalDiagnostic(this);
 }
 
+IntervalDiagnostic::~IntervalDiagnostic()
+{
+  DiagnosticManager::instance().removeIntervalDiagnostic(this);
+}
+
 void IntervalDiagnostic::execute(bool master, int rank, int timeCounter)
 {
   SCHNEK_TRACE_LOG(2, "IntervalDiagnostic::execute" << fname << " " << rank)
@@ -128,6 +133,11 @@ DeltaTimeDiagnostic::DeltaTimeDiagnostic() : deltaTime(1.0), nextOutput(0.0), co
   DiagnosticManager::instance().addDeltaTimeDiagnostic(this);
 }
 
+DeltaTimeDiagnostic::~DeltaTimeDiagnostic()
+{
+  DiagnosticManager::instance().removeDeltaTimeDiagnostic(this);
+}
+
 void DeltaTimeDiagnostic::execute(bool master, int rank, double physicalTime)
 {
   SCHNEK_TRACE_LOG(2, "DeltaTimeDiagnostic::execute" << fname << " " << rank)
@@ -199,6 +209,16 @@ void DiagnosticManager::addDeltaTimeDiagnostic(DeltaTimeDiagnostic *diag)
   deltaTimeDiags.push_back(diag);
 }
 
+void DiagnosticManager::removeIntervalDiagnostic(IntervalDiagnostic *diag)
+{
+  intervalDiags.remove(diag);
+}
+
+void DiagnosticManager::removeDeltaTimeDiagnostic(DeltaTimeDiagnostic *diag)
+{
+  deltaTimeDiags.remove(diag);
+}
+
 void DiagnosticManager::execute()
 {
 
diff --git a/src/diagnostic/diagnostic.hpp b/src/diagnostic/diagnostic.hpp
index c5f7457..795938a 100644
--- a/src/diagnostic/diagnostic.hpp
+++ b/src/diagnostic/diagnostic.hpp
@@ -79,6 +79,8 @@ class IntervalDiagnostic : public DiagnosticInterface
     int interval;
   public:
     IntervalDiagnostic();
+    /// The destructor removes the diagnostic from the DiagnosticManager
+    virtual ~IntervalDiagnostic();
     void execute(bool master, int rank, int timeCounter);
     int getInterval();
   protected:
@@ -94,6 +96,8 @@ class DeltaTimeDiagnostic : public DiagnosticInterface
     int count;
   public:
     DeltaTimeDiagnostic();
+    /// The destructor removes the diagnostic from the DiagnosticManager
+    virtual ~DeltaTimeDiagnostic();
     void execute(bool master, int rank, double physicalTime);
     double getNextOutput();
     double getDeltaTime();
@@ -122,6 +126,8 @@ class DiagnosticManager : public Singleton<DiagnosticManager>
   public:
     void addIntervalDiagnostic(IntervalDiagnostic*);
     void addDeltaTimeDiagnostic(DeltaTimeDiagnostic*);
+    void removeIntervalDiagnostic(IntervalDiagnostic*);
+    void removeDeltaTimeDiagnostic(DeltaTimeDiagnostic*);
     void execute();
 
     void setTimeCounter(int *timecounter);
-- 
2.43.0


From ca64263a0752dcb006dd7ef643404a9e4019036e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:05 +0000
Subject: [PATCH 12/39] fix: in append mode open the output file exactly once,
 at the first execution

---
 src/diagnostic/diagnostic.cpp | 13 ++++++++++---
 src/diagnostic/diagnostic.hpp |  3 +++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/diagnostic/diagnostic.cpp b/src/diagnostic/diagnostic.cpp
index 2e5429c..bad983a 100644
--- a/src/diagnostic/diagnostic.cpp
+++ b/src/diagnostic/diagnostic.cpp
@@ -34,7 +34,7 @@
 using namespace schnek;
 
 DiagnosticInterface::DiagnosticInterface() :
-  fname(""), append(false)
+  fname(""), append(false), appendOpened(false)
 {
 }
 
@@ -51,6 +51,13 @@ bool DiagnosticInterface::appending()
   return bool(append);
 }
 
+void DiagnosticInterface::openForAppending()
+{
+  if (appendOpened) return;
+  open(fname);
+  appendOpened = true;
+}
+
 std::string DiagnosticInterface::parsedFileName(int rank, int timeCounter)
 {
 
@@ -109,7 +116,7 @@ void IntervalDiagnostic::execute(bool master, int rank, int timeCounter)
   SCHNEK_TRACE_LOG(2, "IntervalDiagnostic::execute" << fname << " " << rank)
   if (singleOut() && !master) return;
 
-  if ((0 == timeCounter) && appending()) open(fname);
+  if (appending()) openForAppending();
   if ((timeCounter < 0) || ((timeCounter % interval) == 0))
   {
     if (!appending()) open(parsedFileName(rank, timeCounter));
@@ -143,7 +150,7 @@ void DeltaTimeDiagnostic::execute(bool master, int rank, double physicalTime)
   SCHNEK_TRACE_LOG(2, "DeltaTimeDiagnostic::execute" << fname << " " << rank)
   if (singleOut() && !master) return;
 
-  if ((0.0 == physicalTime) && appending()) open(fname);
+  if (appending()) openForAppending();
 
   if (physicalTime >= nextOutput)
   {
diff --git a/src/diagnostic/diagnostic.hpp b/src/diagnostic/diagnostic.hpp
index 795938a..9779895 100644
--- a/src/diagnostic/diagnostic.hpp
+++ b/src/diagnostic/diagnostic.hpp
@@ -51,6 +51,8 @@ class DiagnosticInterface : public Block
     std::string fname;
     /// Append data at every write to the same file?
     int append;
+    /// In append mode, has the file been opened?
+    bool appendOpened;
   public:
     /// Default constructor
     DiagnosticInterface();
@@ -68,6 +70,7 @@ class DiagnosticInterface : public Block
     void initParameters(BlockParameters&);
 
     bool appending();
+    void openForAppending();
     std::string parsedFileName(int rank, int timeCounter);
     std::string parsedFileName(int rank, double physicalTime);
 };
-- 
2.43.0


From 5abfc013932d05acf61adf90bae0bfad16230066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:05 +0000
Subject: [PATCH 13/39] fix: DeltaTimeDiagnostic with single output keeps the
 output times of all processes in step

---
 src/diagnostic/diagnostic.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/diagnostic/diagnostic.cpp b/src/diagnostic/diagnostic.cpp
index bad983a..6a81fa2 100644
--- a/src/diagnostic/diagnostic.cpp
+++ b/src/diagnostic/diagnostic.cpp
@@ -148,15 +148,20 @@ DeltaTimeDiagnostic::~DeltaTimeDiagnostic()
 void DeltaTimeDiagnostic::execute(bool master, int rank, double physicalTime)
 {
   SCHNEK_TRACE_LOG(2, "DeltaTimeDiagnostic::execute" << fname << " " << rank)
-  if (singleOut() && !master) return;
+  // all processes keep track of the output times so that adjustDeltaT gives the same
+  // result everywhere, even if only the master writes the data
+  const bool writing = master || !singleOut();
 
-  if (appending()) openForAppending();
+  if (writing && appending()) openForAppending();
 
   if (physicalTime >= nextOutput)
   {
-    if (!appending()) open(parsedFileName(rank, count));
-    write();
-    if (!appending()) close();
+    if (writing)
+    {
+      if (!appending()) open(parsedFileName(rank, count));
+      write();
+      if (!appending()) close();
+    }
     nextOutput += deltaTime;
     ++count;
   }
-- 
2.43.0


From 8facbde8d8da462fcb3c66c53b0fd14f192cd0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:05 +0000
Subject: [PATCH 14/39] fix: DiagnosticManager reports a missing time source
 instead of dereferencing a null pointer

---
 src/diagnostic/diagnostic.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diagnostic/diagnostic.cpp b/src/diagnostic/diagnostic.cpp
index 6a81fa2..2b45403 100644
--- a/src/diagnostic/diagnostic.cpp
+++ b/src/diagnostic/diagnostic.cpp
@@ -237,7 +237,8 @@ void DiagnosticManager::execute()
   SCHNEK_TRACE_LOG(2, "DiagnosticManager::execute " << rank << " "
                    << usePhysicalTime?boost::lexical_cast<std::string>(*physicalTime):boost::lexical_cast<std::string>(*timecounter));
 
-  if ((!usePhysicalTime && !timecounter) || (usePhysicalTime && !physicalTime))
+  if ((!usePhysicalTime && !timecounter) || (usePhysicalTime && !physicalTime)
+      || (!timecounter && !intervalDiags.empty()) || (!physicalTime && !deltaTimeDiags.empty()))
     throw schnek::VariableNotInitialisedException("In DiagnosticManager: A time counter or physical time must be specified!");
 
   for(IntervalDiagnostic *diag: intervalDiags)
@@ -256,6 +257,8 @@ double DiagnosticManager::adjustDeltaT(double deltaT)
 {
   double adjustedDt = deltaT;
 
+  if (!physicalTime && !deltaTimeDiags.empty())
+    throw schnek::VariableNotInitialisedException("In DiagnosticManager: A physical time must be specified!");
 
   for(DeltaTimeDiagnostic *diag: deltaTimeDiags)
   {
-- 
2.43.0


From a1a82598bc60401efbc16416638bb0b088b564a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:05 +0000
Subject: [PATCH 15/39] fix: HDFGridDiagnostic numbers the data sets in append
 mode

---
 src/diagnostic/hdfdiagnostic.hpp | 2 ++
 src/diagnostic/hdfdiagnostic.t   | 9 ++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/diagnostic/hdfdiagnostic.hpp b/src/diagnostic/hdfdiagnostic.hpp
index 4d38e4d..dd7713b 100644
--- a/src/diagnostic/hdfdiagnostic.hpp
+++ b/src/diagnostic/hdfdiagnostic.hpp
@@ -233,6 +233,8 @@ class HDFGridDiagnostic : public SimpleDiagnostic<Type, Type, DiagnosticType> {
   protected:
     HdfOStream output;
     GridContainer<Type> container;
+    /// The data set name that has last been set on the output stream
+    std::string currentDatasetName;
   protected:
     /// Open the output file
     void open(const std::string &);
diff --git a/src/diagnostic/hdfdiagnostic.t b/src/diagnostic/hdfdiagnostic.t
index e11ea70..0ac2f9f 100644
--- a/src/diagnostic/hdfdiagnostic.t
+++ b/src/diagnostic/hdfdiagnostic.t
@@ -385,12 +385,19 @@ template<typename Type, class DiagnosticType>
 void HDFGridDiagnostic<Type, DiagnosticType>::open(const std::string &fname)
 {
   output.open(fname.c_str());
+  currentDatasetName.clear();
 }
 
 template<typename Type, class DiagnosticType>
 void HDFGridDiagnostic<Type, DiagnosticType>::write()
 {
-  output.setBlockName(this->getDatasetName());
+  // setting the block name restarts the numbering of the data sets
+  const std::string datasetName = this->getDatasetName();
+  if (datasetName != currentDatasetName)
+  {
+    output.setBlockName(datasetName);
+    currentDatasetName = datasetName;
+  }
   output.setAttributes(this->getAttributes());
   output.writeGrid(container);
 }
-- 
2.43.0


From 893cbabccfbfecc79279379e079172790288123d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:34 +0000
Subject: [PATCH 16/39] fix: SimpleFileDiagnostic flushes its output, in append
 mode the file might never be closed

---
 src/diagnostic/diagnostic.t | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diagnostic/diagnostic.t b/src/diagnostic/diagnostic.t
index d0b61bd..c537502 100644
--- a/src/diagnostic/diagnostic.t
+++ b/src/diagnostic/diagnostic.t
@@ -63,7 +63,8 @@ void SimpleFileDiagnostic<Type, PointerType, DiagnosticType>::open(const std::st
 template<class Type, typename PointerType, class DiagnosticType>
 void SimpleFileDiagnostic<Type, PointerType, DiagnosticType>::write()
 {
-  output << *(this->field);
+  // flush, the file might never be closed explicitly in append mode
+  output << *(this->field) << std::flush;
 }
 
 template<class Type, typename PointerType, class DiagnosticType>
-- 
2.43.0


From bb38386a7cd8affd2c3daeb54bf68bea9743d115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:34 +0000
Subject: [PATCH 17/39] fix: SimpleFileDiagnostic reports output files that
 cannot be opened or written

---
 src/diagnostic/diagnostic.t | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/diagnostic/diagnostic.t b/src/diagnostic/diagnostic.t
index c537502..e034fb4 100644
--- a/src/diagnostic/diagnostic.t
+++ b/src/diagnostic/diagnostic.t
@@ -27,6 +27,8 @@
 
 #include "../util/logger.hpp"
 
+#include <stdexcept>
+
 #undef LOGLEVEL
 #define LOGLEVEL 0
 
@@ -57,6 +59,7 @@ template<class Type, typename PointerType, class DiagnosticType>
 void SimpleFileDiagnostic<Type, PointerType, DiagnosticType>::open(const std::string &fname)
 {
   output.open(fname.c_str());
+  if (!output) throw std::runtime_error("SimpleFileDiagnostic: could not open output file " + fname);
 //  output.precision(14);
 }
 
@@ -65,12 +68,14 @@ void SimpleFileDiagnostic<Type, PointerType, DiagnosticType>::write()
 {
   // flush, the file might never be closed explicitly in append mode
   output << *(this->field) << std::flush;
+  if (!output) throw std::runtime_error("SimpleFileDiagnostic: could not write to output file " + this->fname);
 }
 
 template<class Type, typename PointerType, class DiagnosticType>
 void SimpleFileDiagnostic<Type, PointerType, DiagnosticType>::close()
 {
   output.close();
+  if (!output) throw std::runtime_error("SimpleFileDiagnostic: could not close output file " + this->fname);
 }
 
 
-- 
2.43.0


From 9bd8f7c18de4c9cb75c7611b3d5758816c6c8ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:47 +0000
Subject: [PATCH 18/39] fix: HDFGridReader declared but never defined its
 default constructor

---
 src/diagnostic/hdfdiagnostic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diagnostic/hdfdiagnostic.hpp b/src/diagnostic/hdfdiagnostic.hpp
index dd7713b..ab71b35 100644
--- a/src/diagnostic/hdfdiagnostic.hpp
+++ b/src/diagnostic/hdfdiagnostic.hpp
@@ -294,7 +294,7 @@ class HDFGridReader : public Block
     std::string fileName;
   public:
     /// Default constructor
-    HDFGridReader();
+    HDFGridReader() {}
     /// Virtual destructor
     virtual ~HDFGridReader() {}
   protected:
-- 
2.43.0


From a42beaac1f6f6df9d32c284243c3c0a1c7dd0ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:47 +0000
Subject: [PATCH 19/39] fix: Block::initAll did not terminate when called on a
 block below the second level

---
 src/variables/block.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variables/block.cpp b/src/variables/block.cpp
index dab2ed1..ba4a913 100644
--- a/src/variables/block.cpp
+++ b/src/variables/block.cpp
@@ -137,7 +137,7 @@ void Block::postInitHierarchy()
 void Block::initAll()
 {
   Block *b = this;
-  while (b->parent) b = &(*parent);
+  while (b->parent) b = &(*(b->parent));
 
   b->evaluateParameters();
   b->registerHierarchy();
-- 
2.43.0


From 558a0504383546b86c8c71ee0c146c89b4d15a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:09 +0000
Subject: [PATCH 20/39] fix: setup file tokens longer than 128 characters sent
 the scanner into an infinite loop

---
 parser/deckscanner.rl               | 20 ++++++++++++--------
 src/parser/internal/deckscanner.cpp | 20 ++++++++++++--------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/parser/deckscanner.rl b/parser/deckscanner.rl
index ebacad4..9bffee1 100644
--- a/parser/deckscanner.rl
+++ b/parser/deckscanner.rl
@@ -7,6 +7,7 @@
 #include <string>
 #include <cstring>
 #include <cstdio>
+#include <vector>
 #include "../deckscanner.hpp"
 #include "../deckgrammar.hpp"
 #include "../tokenlist.hpp"
@@ -103,7 +104,7 @@ using namespace schnek;
     
 void DeckScanner::do_scan(TokenList &tlist)
 {
-  static char buf[BUFSIZE];
+  std::vector<char> buffer(BUFSIZE);
   int cs; 
   int act; 
   int have = 0;
@@ -115,16 +116,19 @@ void DeckScanner::do_scan(TokenList &tlist)
   %% write init;
 
   while ( !done ) {
-    char *p = buf + have, *pe, *eof = 0;
-    int len, space = BUFSIZE - have;
-    
-    if ( space == 0 ) {
+    if ( have == (int)buffer.size() ) {
       /* We've used up the entire buffer storing an already-parsed token
-       * prefix that must be preserved. */
-      std::cerr << "OUT OF BUFFER SPACE\n";
-      // exit(1);
+       * prefix that must be preserved. The prefix starts at the beginning of the buffer. */
+      ptrdiff_t te_offset = te - ts;
+      buffer.resize(2*buffer.size());
+      ts = buffer.data();
+      te = ts + te_offset;
     }
 
+    char *buf = buffer.data();
+    char *p = buf + have, *pe, *eof = 0;
+    int len, space = buffer.size() - have;
+
     input->read(p,space);
     len = input->gcount();
     //len = fread( p, 1, space, *input );
diff --git a/src/parser/internal/deckscanner.cpp b/src/parser/internal/deckscanner.cpp
index aa6c180..c1be919 100644
--- a/src/parser/internal/deckscanner.cpp
+++ b/src/parser/internal/deckscanner.cpp
@@ -9,6 +9,7 @@
 #include <string>
 #include <cstring>
 #include <cstdio>
+#include <vector>
 #include "../deckscanner.hpp"
 #include "../deckgrammar.hpp"
 #include "../tokenlist.hpp"
@@ -216,7 +217,7 @@ static const int deck_en_main = 10;
     
 void DeckScanner::do_scan(TokenList &tlist)
 {
-  static char buf[BUFSIZE];
+  std::vector<char> buffer(BUFSIZE);
   int cs; 
   int act; 
   int have = 0;
@@ -237,16 +238,19 @@ void DeckScanner::do_scan(TokenList &tlist)
 
 
   while ( !done ) {
-    char *p = buf + have, *pe, *eof = 0;
-    int len, space = BUFSIZE - have;
-    
-    if ( space == 0 ) {
+    if ( have == (int)buffer.size() ) {
       /* We've used up the entire buffer storing an already-parsed token
-       * prefix that must be preserved. */
-      std::cerr << "OUT OF BUFFER SPACE\n";
-      // exit(1);
+       * prefix that must be preserved. The prefix starts at the beginning of the buffer. */
+      ptrdiff_t te_offset = te - ts;
+      buffer.resize(2*buffer.size());
+      ts = buffer.data();
+      te = ts + te_offset;
     }
 
+    char *buf = buffer.data();
+    char *p = buf + have, *pe, *eof = 0;
+    int len, space = buffer.size() - have;
+
     input->read(p,space);
     len = input->gcount();
     //len = fread( p, 1, space, *input );
-- 
2.43.0


From 60ccba5a0bee928cef4551a197766352c6cd928c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:54 +0000
Subject: [PATCH 21/39] fix: the scanner reports read errors and unexpected
 characters instead of dropping the rest of the setup file

---
 parser/deckscanner.rl               | 11 +++++++++--
 src/parser/internal/deckscanner.cpp | 11 +++++++++--
 src/parser/tokenlist.hpp            |  6 ++++++
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/parser/deckscanner.rl b/parser/deckscanner.rl
index 9bffee1..6d9bf13 100644
--- a/parser/deckscanner.rl
+++ b/parser/deckscanner.rl
@@ -11,6 +11,7 @@
 #include "../deckscanner.hpp"
 #include "../deckgrammar.hpp"
 #include "../tokenlist.hpp"
+#include "../parsertoken.hpp"
 
 using namespace schnek;
 
@@ -115,6 +116,10 @@ void DeckScanner::do_scan(TokenList &tlist)
 
   %% write init;
 
+  if ( input->fail() ) {
+    throw ParserError("Could not read the input", Token(tlist.getFilename(), cur_line, 0));
+  }
+
   while ( !done ) {
     if ( have == (int)buffer.size() ) {
       /* We've used up the entire buffer storing an already-parsed token
@@ -131,6 +136,9 @@ void DeckScanner::do_scan(TokenList &tlist)
 
     input->read(p,space);
     len = input->gcount();
+    if ( input->bad() ) {
+      throw ParserError("Could not read the input", Token(tlist.getFilename(), cur_line, 0));
+    }
     //len = fread( p, 1, space, *input );
     pe = p + len;
 
@@ -143,8 +151,7 @@ void DeckScanner::do_scan(TokenList &tlist)
     %% write exec;
 
     if ( cs == deck_error ) {
-      std::cerr << "TOKENISER ERROR " << cur_line << "\n";
-      break;
+      throw ParserError("Unexpected character", Token(tlist.getFilename(), cur_line, 0));
     }
 
     if ( ts == 0 )
diff --git a/src/parser/internal/deckscanner.cpp b/src/parser/internal/deckscanner.cpp
index c1be919..5acae25 100644
--- a/src/parser/internal/deckscanner.cpp
+++ b/src/parser/internal/deckscanner.cpp
@@ -13,6 +13,7 @@
 #include "../deckscanner.hpp"
 #include "../deckgrammar.hpp"
 #include "../tokenlist.hpp"
+#include "../parsertoken.hpp"
 
 using namespace schnek;
 
@@ -237,6 +238,10 @@ void DeckScanner::do_scan(TokenList &tlist)
 
 
 
+  if ( input->fail() ) {
+    throw ParserError("Could not read the input", Token(tlist.getFilename(), cur_line, 0));
+  }
+
   while ( !done ) {
     if ( have == (int)buffer.size() ) {
       /* We've used up the entire buffer storing an already-parsed token
@@ -253,6 +258,9 @@ void DeckScanner::do_scan(TokenList &tlist)
 
     input->read(p,space);
     len = input->gcount();
+    if ( input->bad() ) {
+      throw ParserError("Could not read the input", Token(tlist.getFilename(), cur_line, 0));
+    }
     //len = fread( p, 1, space, *input );
     pe = p + len;
 
@@ -552,8 +560,7 @@ _again:
 
 
     if ( cs == deck_error ) {
-      std::cerr << "TOKENISER ERROR " << cur_line << "\n";
-      break;
+      throw ParserError("Unexpected character", Token(tlist.getFilename(), cur_line, 0));
     }
 
     if ( ts == 0 )
diff --git a/src/parser/tokenlist.hpp b/src/parser/tokenlist.hpp
index 7dfcecd..75e7d47 100644
--- a/src/parser/tokenlist.hpp
+++ b/src/parser/tokenlist.hpp
@@ -137,6 +137,12 @@ class TokenList
       tlist.clear();
     }
 
+    /// Returns the name of the file from which the tokens are read
+    std::string getFilename() const
+    {
+      return filename;
+    }
+
     /// Insert an individual token onto the list.
     void insert(int line, int token)
     {
-- 
2.43.0


From 3e9e7b340bf03e04d49973dd9f06329ce6e1f4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:16 +0000
Subject: [PATCH 22/39] fix: a setup file that ends inside a block, a string, a
 comment or a statement is a ParserError, its last line need not be terminated

---
 parser/deckscanner.rl               |  6 ++++++
 src/parser/internal/deckscanner.cpp |  6 ++++++
 src/parser/parser.cpp               | 12 +++++++++++-
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/parser/deckscanner.rl b/parser/deckscanner.rl
index 6d9bf13..c95dee9 100644
--- a/parser/deckscanner.rl
+++ b/parser/deckscanner.rl
@@ -144,6 +144,8 @@ void DeckScanner::do_scan(TokenList &tlist)
 
     /* Check if this is the end of file. */
     if ( len < space ) {
+      /* The last line need not be terminated */
+      *pe++ = '\n';
       eof = pe;
       done = 1;
     }
@@ -154,6 +156,10 @@ void DeckScanner::do_scan(TokenList &tlist)
       throw ParserError("Unexpected character", Token(tlist.getFilename(), cur_line, 0));
     }
 
+    if ( done && cs != deck_start ) {
+      throw ParserError("Unexpected end of file", Token(tlist.getFilename(), cur_line, 0));
+    }
+
     if ( ts == 0 )
       have = 0;
     else {
diff --git a/src/parser/internal/deckscanner.cpp b/src/parser/internal/deckscanner.cpp
index 5acae25..7a93c33 100644
--- a/src/parser/internal/deckscanner.cpp
+++ b/src/parser/internal/deckscanner.cpp
@@ -266,6 +266,8 @@ void DeckScanner::do_scan(TokenList &tlist)
 
     /* Check if this is the end of file. */
     if ( len < space ) {
+      /* The last line need not be terminated */
+      *pe++ = '\n';
       eof = pe;
       done = 1;
     }
@@ -563,6 +565,10 @@ _again:
       throw ParserError("Unexpected character", Token(tlist.getFilename(), cur_line, 0));
     }
 
+    if ( done && cs != deck_start ) {
+      throw ParserError("Unexpected end of file", Token(tlist.getFilename(), cur_line, 0));
+    }
+
     if ( ts == 0 )
       have = 0;
     else {
diff --git a/src/parser/parser.cpp b/src/parser/parser.cpp
index e2fc8df..7ec45af 100644
--- a/src/parser/parser.cpp
+++ b/src/parser/parser.cpp
@@ -80,8 +80,11 @@ pBlock Parser::parse(std::istream &input, std::string filename)
     context.blockTree->moveDown();
   }
 
+  pBlockVariables startBlock = variables.getCurrentBlock();
+  Token lastToken(filename, 1, 0);
   for(Token tok: tokens)
   {
+    lastToken = tok;
     try{
       Parse(pParser, tok.getToken(), ParserToken(tok, context));
     }
@@ -90,7 +93,14 @@ pBlock Parser::parse(std::istream &input, std::string filename)
     }
   }
 
-  Parse(pParser, 0, ParserToken());
+  try {
+    Parse(pParser, 0, ParserToken());
+  }
+  catch (ParserInternalError & e) {
+    throw ParserError("Unexpected end of file", lastToken);
+  }
+  if (variables.getCurrentBlock() != startBlock)
+    throw ParserError("Missing } at the end of the file", lastToken);
 
   ParseFree(pParser);
 
-- 
2.43.0


From 1970ca2bca63113c7e8f017fb7f5a82ffe64df04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:59 +0000
Subject: [PATCH 23/39] fix: BlockVariables::exists dereferenced the null
 parent of the root block and never searched real parents

---
 src/variables/variables.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/variables/variables.cpp b/src/variables/variables.cpp
index ef872e9..52dedab 100644
--- a/src/variables/variables.cpp
+++ b/src/variables/variables.cpp
@@ -146,7 +146,7 @@ bool BlockVariables::exists(std::list<std::string> path, bool upward)
   {
     if (vars.count(name)>0) return true;
   }
-  if (upward && (parent.get()==0)) return parent->exists(path, true);
+  if (upward && parent) return parent->exists(path, true);
 
   return false;
 }
@@ -154,7 +154,7 @@ bool BlockVariables::exists(std::list<std::string> path, bool upward)
 bool BlockVariables::exists(std::string name)
 {
   std::list<std::string> path;
-  boost::split(path, name, boost::is_any_of("."));
+  boost::split(path, name, boost::is_any_of(":"));
   return exists(path, true);
 }
 
-- 
2.43.0


From 3bd4c1baa652aae719ce615da99ec5a5fe7f153f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:24 +0000
Subject: [PATCH 24/39] fix: DependencyMap keeps no empty entries for constant
 variables and can be recreated

---
 src/variables/dependencies.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/variables/dependencies.cpp b/src/variables/dependencies.cpp
index e6db25e..2b441d3 100644
--- a/src/variables/dependencies.cpp
+++ b/src/variables/dependencies.cpp
@@ -52,11 +52,6 @@ DependencyMap::DependencyMap(const pBlockVariables vars)
   pVariable tmp(new Variable(pexp, true, true));
   dummyVar = tmp;
 
-  VarInfo dummyInfo(dummyVar, DependencySet(), DependencySet());
-  //dependencies[-1] = dummyInfo;
-  dependencies[dummyVar->getId()] = dummyInfo;
-//  std::cerr << "DUMMY Id = " << dummyVar->getId() << std::endl;
-
   blockVars = vars;
   constructMap(vars);
 }
@@ -92,6 +87,8 @@ void DependencyMap::constructMap(const pBlockVariables vars)
 {
   SCHNEK_TRACE_ENTER_FUNCTION(3);
 
+  dependencies.clear();
+  dependencies[dummyVar->getId()] = VarInfo(dummyVar, DependencySet(), DependencySet());
 
   constructMapRecursive(vars);
 
@@ -152,6 +149,9 @@ DependencyMap::pRefDepMap DependencyMap::makeUpdatePredecessors(const VariableSe
       // check if we already considered this variable
       if (predecessors.count(id) > 0) continue;
 
+      // constant variables are not part of the map, they never have to be updated
+      if ((id>=0) && (dependencies.count(id) == 0)) continue;
+
       // A negative id signals that the expression should be re-evaluated for every change.
       // To do this we add all independent variables to the predecessors list.
       if (id<0)
-- 
2.43.0


From 9bfbc10e93942fe99e2117379dfb439a5771f493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:23 +0000
Subject: [PATCH 25/39] fix: assigning a grid storage deregisters it from the
 data it no longer uses and copies the lazy buffer sizes

---
 .../gridstorage/single-array-allocation.hpp   | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/grid/gridstorage/single-array-allocation.hpp b/src/grid/gridstorage/single-array-allocation.hpp
index fd0084e..84235a3 100644
--- a/src/grid/gridstorage/single-array-allocation.hpp
+++ b/src/grid/gridstorage/single-array-allocation.hpp
@@ -296,11 +296,15 @@ namespace schnek
     template <typename T, size_t rank>
     SingleArrayInstantAllocation<T, rank> &SingleArrayInstantAllocation<T, rank>::operator=(const SingleArrayInstantAllocation<T, rank> &other) 
     {
-        this->data = other.data;
+        if (this->data != other.data)
+        {
+            other.data->addUpdater(this, [this](const SizeInfo& sizeInfo) { this->updateSizeInfo(sizeInfo); });
+            this->data->removeUpdater(this);
+            this->data = other.data;
+        }
         this->size = other.size;
         this->range = other.range;
         this->dims = other.dims;
-        this->data->addUpdater(this, [this](const SizeInfo& sizeInfo) { this->updateSizeInfo(sizeInfo); });
         return *this;
     };
 
@@ -401,11 +405,19 @@ namespace schnek
     template <typename T, size_t rank>
     SingleArrayLazyAllocation<T, rank> &SingleArrayLazyAllocation<T, rank>::operator=(const SingleArrayLazyAllocation<T, rank> &other) 
     {
-        this->data = other.data;
+        if (this->data != other.data)
+        {
+            other.data->addUpdater(this, [this](const SizeInfo& sizeInfo) { this->updateSizeInfo(sizeInfo); });
+            this->data->removeUpdater(this);
+            this->data = other.data;
+        }
         this->size = other.size;
         this->range = other.range;
         this->dims = other.dims;
-        this->data->addUpdater(this, [this](const SizeInfo& sizeInfo) { this->updateSizeInfo(sizeInfo); });
+        this->bufSize = other.bufSize;
+        this->avgSize = other.avgSize;
+        this->avgVar = other.avgVar;
+        this->r = other.r;
         return *this;
     };
 
-- 
2.43.0


From 59afb27c68c20444dce816b0108bc38b9b32eaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:46 +0000
Subject: [PATCH 26/39] fix: lazily allocated storage uses signed indices like
 the Grid class, LazyArrayGridStorage did not compile

---
 src/grid/gridstorage/single-array-allocation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grid/gridstorage/single-array-allocation.hpp b/src/grid/gridstorage/single-array-allocation.hpp
index 84235a3..59c95d9 100644
--- a/src/grid/gridstorage/single-array-allocation.hpp
+++ b/src/grid/gridstorage/single-array-allocation.hpp
@@ -186,10 +186,10 @@ namespace schnek
     {
     public:
         /// The grid index type
-        typedef Array<size_t, rank> IndexType;
+        typedef Array<int, rank> IndexType;
 
         /// The grid range type
-        typedef Range<size_t, rank> RangeType;
+        typedef Range<int, rank> RangeType;
     protected:
         struct SizeInfo {
             IndexType lo;
-- 
2.43.0


From d95bd6207a5d59fc4d922ad5928500618bdaf2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:22 +0000
Subject: [PATCH 27/39] fix: all copies of a grid are consistently empty when a
 resize runs out of memory

---
 .../gridstorage/single-array-allocation.hpp   | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/grid/gridstorage/single-array-allocation.hpp b/src/grid/gridstorage/single-array-allocation.hpp
index 59c95d9..ea7895b 100644
--- a/src/grid/gridstorage/single-array-allocation.hpp
+++ b/src/grid/gridstorage/single-array-allocation.hpp
@@ -340,7 +340,16 @@ namespace schnek
     void SingleArrayInstantAllocation<T, rank>::resizeImpl(const IndexType &lo, const IndexType &hi)
     {
         this->deleteData();
-        this->newData(lo, hi);
+        try
+        {
+            this->newData(lo, hi);
+        }
+        catch (...)
+        {
+            // the old data is gone, leave all copies of the grid empty
+            data->update(SizeInfo{IndexType(0), IndexType(-1)});
+            throw;
+        }
         data->update(SizeInfo{lo, hi});
     }
 
@@ -465,6 +474,8 @@ namespace schnek
             newSize *= dims[d];
         }
 
+        const double oldAvgSize = avgSize;
+        const double oldAvgVar = avgVar;
         avgSize = r * newSize + (1 - r) * avgSize;
         ptrdiff_t diff = newSize - avgSize;
         avgVar = r * diff * diff + (1 - r) * avgVar;
@@ -472,7 +483,16 @@ namespace schnek
         if ((newSize > bufSize) || (((newSize + 32.0 * sqrt(avgVar)) < bufSize) && (bufSize > 100)))
         {
             this->deleteData();
-            this->newData(newSize);
+            try
+            {
+                this->newData(newSize);
+            }
+            catch (...)
+            {
+                // the old data is gone, leave all copies of the grid empty
+                this->data->update(SizeInfo{IndexType(0), IndexType(-1), 0, 0, oldAvgSize, oldAvgVar});
+                throw;
+            }
         }
         size = newSize;
         this->data->update(SizeInfo{lo, hi, size, bufSize, avgSize, avgVar});
-- 
2.43.0


From 607f87933d9eb9986a7bc7bd51c9dc0ed4ccbb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:11 +0000
Subject: [PATCH 28/39] fix: copies of a Kokkos grid share the resized view,
 assigning one registers it with its new data

---
 src/grid/gridstorage/kokkos-storage.hpp | 45 ++++++++++++++++++-------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/grid/gridstorage/kokkos-storage.hpp b/src/grid/gridstorage/kokkos-storage.hpp
index 0a1b22a..7053879 100644
--- a/src/grid/gridstorage/kokkos-storage.hpp
+++ b/src/grid/gridstorage/kokkos-storage.hpp
@@ -75,7 +75,8 @@ namespace schnek {
         /// The grid range type
         typedef Range<int, rank> RangeType;
     private:
-        typedef std::function<void(const RangeType&)> UpdaterType;
+        typedef Kokkos::View<typename internal::KokkosViewType<T, rank>::type, ViewProperties...> ViewType;
+        typedef std::function<void(const RangeType&, const ViewType&)> UpdaterType;
         typedef std::map<void *, UpdaterType> UpdaterMapType;
 
         /// The lowest and highest coordinates in the grid (inclusive)
@@ -84,7 +85,7 @@ namespace schnek {
         /// The dimensions of the grid `dims = high - low + 1`
         IndexType dims;
 
-        Kokkos::View<typename internal::KokkosViewType<T, rank>::type, ViewProperties...> view;
+        ViewType view;
 
         /// A map of updaters that are called when the grid is resized
         std::shared_ptr<UpdaterMapType> updaters;
@@ -97,6 +98,11 @@ namespace schnek {
          */
         KokkosGridStorage(const KokkosGridStorage &);
 
+        /**
+         * @brief Assignment operator
+         */
+        KokkosGridStorage &operator=(const KokkosGridStorage &);
+
         /**
          * @brief Construct with a given size
          * 
@@ -153,7 +159,7 @@ namespace schnek {
         SCHNEK_INLINE int getDims(int k) const { return this->dims[k]; }
 
         /// Get the length of the allocated array
-        SCHNEK_INLINE int getSize() const { return this->size; }
+        SCHNEK_INLINE int getSize() const { return this->view.size(); }
 
         /**
          * @brief resizes to grid with lower indices low[0],...,low[rank-1]
@@ -201,14 +207,15 @@ namespace schnek {
             return getFromViewImpl(pos, std::make_index_sequence<rank>{});
         }
 
-        void update(const RangeType& range) {
+        void update(const RangeType& range, const ViewType& view) {
             for (auto& updater: *updaters) {
-                updater.second(range);
+                updater.second(range, view);
             }
         }
 
-        void updateSizeInfo(const RangeType &range) {
+        void updateSizeInfo(const RangeType &range, const ViewType& view) {
             this->range = range;
+            this->view = view;
             for (size_t i = 0; i < rank; ++i)
             {
                 dims[i] = range.getHi(i) - range.getLo(i) + 1;
@@ -229,7 +236,7 @@ namespace schnek {
           dims{0},
           updaters{new UpdaterMapType}
     {
-        (*updaters)[this] = [this](const RangeType& range) { this->updateSizeInfo(range); };
+        (*updaters)[this] = [this](const RangeType& range, const ViewType& view) { this->updateSizeInfo(range, view); };
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
@@ -238,7 +245,22 @@ namespace schnek {
           dims{other.dims}, view{other.view},
           updaters{other.updaters}
     {
-        (*updaters)[this] = [this](const RangeType& range) { this->updateSizeInfo(range); };
+        (*updaters)[this] = [this](const RangeType& range, const ViewType& view) { this->updateSizeInfo(range, view); };
+    }
+
+    template <typename T, size_t rank, class ...ViewProperties>
+    KokkosGridStorage<T, rank, ViewProperties...> &KokkosGridStorage<T, rank, ViewProperties...>::operator=(const KokkosGridStorage &other)
+    {
+        if (this->updaters != other.updaters)
+        {
+            (*other.updaters)[this] = [this](const RangeType& range, const ViewType& view) { this->updateSizeInfo(range, view); };
+            this->updaters->erase(this);
+            this->updaters = other.updaters;
+        }
+        this->range = other.range;
+        this->dims = other.dims;
+        this->view = other.view;
+        return *this;
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
@@ -248,7 +270,7 @@ namespace schnek {
     {
         dims = hi - lo + 1;
         view = createKokkosView(dims);
-        (*updaters)[this] = [this](const RangeType& range) { this->updateSizeInfo(range); };
+        (*updaters)[this] = [this](const RangeType& range, const ViewType& view) { this->updateSizeInfo(range, view); };
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
@@ -258,7 +280,7 @@ namespace schnek {
     {
         dims = range.getHi() - range.getLo() + 1;
         view = createKokkosView(dims);
-        (*updaters)[this] = [this](const RangeType& range) { this->updateSizeInfo(range); };
+        (*updaters)[this] = [this](const RangeType& range, const ViewType& view) { this->updateSizeInfo(range, view); };
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
@@ -293,8 +315,7 @@ namespace schnek {
     void KokkosGridStorage<T, rank, ViewProperties...>::resize(const IndexType &lo, const IndexType &hi)
     {
         IndexType dims = hi - lo + 1;
-        this->view = createKokkosView(dims);
-        update(RangeType{lo, hi});
+        update(RangeType{lo, hi}, createKokkosView(dims));
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
-- 
2.43.0


From 080a3320398476e4d0e03cc40b11703780525d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:20 +0000
Subject: [PATCH 29/39] fix: FieldFiller::set used the coordinates, the updater
 and the filler of its first call for ever

---
 src/tools/fieldtools.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tools/fieldtools.hpp b/src/tools/fieldtools.hpp
index f5f429a..42687b2 100644
--- a/src/tools/fieldtools.hpp
+++ b/src/tools/fieldtools.hpp
@@ -142,10 +142,9 @@ class FieldFiller
       size_t rank,
       template<size_t> class ArrayCheckingPolicy
     >
-    fieldAdder<rank,ArrayCheckingPolicy> &set(Array<double, rank, ArrayCheckingPolicy> &coords, DependencyUpdater &updater)
+    fieldAdder<rank,ArrayCheckingPolicy> set(Array<double, rank, ArrayCheckingPolicy> &coords, DependencyUpdater &updater)
     {
-        static fieldAdder<rank,ArrayCheckingPolicy> adder(coords, updater, implementations);
-        return adder;
+        return fieldAdder<rank,ArrayCheckingPolicy>(coords, updater, implementations);
     }
 
     void clear() { implementations.clear(); }
-- 
2.43.0


From b7d3026d5484021d5e6eda484f3212ffd0003082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:30 +0000
Subject: [PATCH 30/39] fix: SerialSubdivision::getGlobalDomain excludes the
 ghost cells, getInnerExtent stretched the physical domain over them

---
 src/grid/domainsubdivision.hpp | 5 ++++-
 src/grid/domainsubdivision.t   | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/grid/domainsubdivision.hpp b/src/grid/domainsubdivision.hpp
index 2cf5ce9..685a08e 100644
--- a/src/grid/domainsubdivision.hpp
+++ b/src/grid/domainsubdivision.hpp
@@ -250,6 +250,9 @@ class SerialSubdivision : public DomainSubdivision<GridType>
 
     /// The positions of the upper corner of the local piece of the grid
     LimitType High;
+
+    /// The global domain excluding the ghost cells
+    DomainType globalDomain;
   public:
     using DomainSubdivision<GridType>::init;
     using DomainSubdivision<GridType>::exchange;
@@ -267,7 +270,7 @@ class SerialSubdivision : public DomainSubdivision<GridType>
     void init(const LimitType &low, const LimitType &high, int delta);
 
     /// Return the global domain size excluding ghost cells
-    const DomainType &getGlobalDomain() const { return this->bounds->getDomain(); }
+    const DomainType &getGlobalDomain() const { return globalDomain; }
 
     /** @brief Exchanges the boundaries in direction specified by dim.
      *
diff --git a/src/grid/domainsubdivision.t b/src/grid/domainsubdivision.t
index 037f20e..84c7350 100644
--- a/src/grid/domainsubdivision.t
+++ b/src/grid/domainsubdivision.t
@@ -41,6 +41,7 @@ template<class GridType>
 void SerialSubdivision<GridType>::init(const LimitType &low, const LimitType &high, int delta)
 {
   this->bounds = std::make_shared<BoundaryType>(low, high, delta);
+  globalDomain = this->bounds->getInnerDomain();
 }
 
 template<class GridType>
-- 
2.43.0


From 0c65df8b5297dca1dfffc9c5683f0f031192bf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:45 +0000
Subject: [PATCH 31/39] fix: running out of memory while evaluating the
 variables was swallowed and left them with stale values

---
 src/variables/dependencies.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/variables/dependencies.cpp b/src/variables/dependencies.cpp
index 2b441d3..0188179 100644
--- a/src/variables/dependencies.cpp
+++ b/src/variables/dependencies.cpp
@@ -36,7 +36,8 @@
 
 #pragma GCC diagnostic pop
 
-#include <cassert>
+#include <cassert>
+#include <new>
 
 #undef LOGLEVEL
 #define LOGLEVEL 0
@@ -296,6 +297,10 @@ void DependencyMap::updateAll()
     {
       v->evaluateExpression();
     }
+    catch(std::bad_alloc &)
+    {
+      throw;
+    }
     catch(...)
     {
       // no-op, bulkhead
-- 
2.43.0


From b1b40027287e15c377b843bf341d958034caaa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:19 +0000
Subject: [PATCH 32/39] fix: sums and products are evaluated from left to
 right, 8.0/4/2 was 8.0/(4/2) and chains of 50 terms overflowed the parser
 stack

The grammar was right recursive. BinaryOp flattened chains of one type but a
chain of another type on the right hand side was evaluated on its own.
deckgrammar.inc was regenerated with parser/lemon.c.
---
 parser/deckgrammar.y       |  12 +-
 src/parser/deckgrammar.inc | 400 +++++++++++++++++--------------------
 2 files changed, 192 insertions(+), 220 deletions(-)

diff --git a/parser/deckgrammar.y b/parser/deckgrammar.y
index b5bad7b..078dbcb 100644
--- a/parser/deckgrammar.y
+++ b/parser/deckgrammar.y
@@ -42,20 +42,16 @@ declaration ::= error.
 
 assignment(LHS) ::= IDENTIFIER(iden) EQUAL expression(expr). { SCHNEK_TRACE_LOG(5,"Parser: Rule 10"<< toString(expr.getType()) << " " << expr.getString()); LHS.evaluateExpression(iden,expr); }   // --done--
 
-expression(LHS) ::= signed_term_expression(A) PLUS unsigned_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 11"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorAdd>(A,B); }  // --done--
-expression(LHS) ::= signed_term_expression(A) MINUS unsigned_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 12"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorSubtract>(A,B); }  // --done--
+expression(LHS) ::= expression(A) PLUS term_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 11"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorAdd>(A,B); }  // --done--
+expression(LHS) ::= expression(A) MINUS term_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 12"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorSubtract>(A,B); }  // --done--
 expression(LHS) ::= signed_term_expression(RHS). { SCHNEK_TRACE_LOG(5,"Parser: Rule 13"<< toString(RHS.getType()) << " " << RHS.getString()); LHS = RHS; }  // --done--
 
-unsigned_expression(LHS) ::= term_expression(A) PLUS unsigned_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 14"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorAdd>(A,B); }  // --done--
-unsigned_expression(LHS) ::= term_expression(A) MINUS unsigned_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 15"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorSubtract>(A,B); }  // --done--
-unsigned_expression(LHS) ::= term_expression(RHS). { SCHNEK_TRACE_LOG(5,"Parser: Rule 16"<< toString(RHS.getType()) << " " << RHS.getString()); LHS = RHS; }  // --done--
-
 signed_term_expression(LHS) ::= PLUS term_expression(RHS). { SCHNEK_TRACE_LOG(5,"Parser: Rule 17"<< toString(RHS.getType()) << " " << RHS.getString()); LHS = RHS; }  // --done--
 signed_term_expression(LHS) ::= MINUS term_expression(A). { SCHNEK_TRACE_LOG(5,"Parser: Rule 18"<< toString(A.getType()) << " " << A.getString()); LHS.assignUnaryOperator<expression::OperatorNeg>(A); }  // --done--
 signed_term_expression(LHS) ::= term_expression(RHS). { SCHNEK_TRACE_LOG(5,"Parser: Rule 19"<< toString(RHS.getType()) << " " << RHS.getString()); LHS = RHS; }  // --done--
 
-term_expression(LHS) ::= exp_expression(A) TIMES term_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 20"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorMultiply>(A,B); }  // --done--
-term_expression(LHS) ::= exp_expression(A) DIVIDE term_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 21"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorDivide>(A,B); }  // --done--
+term_expression(LHS) ::= term_expression(A) TIMES exp_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 20"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorMultiply>(A,B); }  // --done--
+term_expression(LHS) ::= term_expression(A) DIVIDE exp_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 21"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorDivide>(A,B); }  // --done--
 term_expression(LHS) ::= exp_expression(RHS). { SCHNEK_TRACE_LOG(5,"Parser: Rule 22"<< toString(RHS.getType()) << " " << RHS.getString()); LHS = RHS; }  // --done--
 exp_expression(LHS) ::= atomic_expression(A) EXPONENT signed_atomic_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 23"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorExponent>(A,B); }  // --done--
 exp_expression(LHS) ::= atomic_expression(RHS). { SCHNEK_TRACE_LOG(5,"Parser: Rule 23b"<< toString(RHS.getType()) << " " << RHS.getString()); LHS = RHS; }  // --done--
diff --git a/src/parser/deckgrammar.inc b/src/parser/deckgrammar.inc
index cd5d02f..42d2212 100644
--- a/src/parser/deckgrammar.inc
+++ b/src/parser/deckgrammar.inc
@@ -60,7 +60,7 @@
 **                       defined, then do no error processing.
 */
 #define YYCODETYPE unsigned char
-#define YYNOCODE 41
+#define YYNOCODE 40
 #define YYACTIONTYPE unsigned char
 #define ParseTOKENTYPE ParserToken
 struct YYMINORTYPE {
@@ -69,7 +69,7 @@ struct YYMINORTYPE {
   YYMINORTYPE(int yyinit_, ParseTOKENTYPE yy0_=ParseTOKENTYPE()) : yyinit(yyinit_), yy0(yy0_) {}
   YYMINORTYPE(ParseTOKENTYPE yy0_=ParseTOKENTYPE()) : yyinit(0), yy0(yy0_) {}
   YYMINORTYPE &operator=(const YYMINORTYPE &rhs) { yyinit = rhs.yyinit; yy0 = rhs.yy0; return *this;}
-  int yy81;
+  int yy79;
 };
 #ifndef YYSTACKDEPTH
 #define YYSTACKDEPTH 100
@@ -78,10 +78,10 @@ struct YYMINORTYPE {
 #define ParseARG_PDECL
 #define ParseARG_FETCH
 #define ParseARG_STORE
-#define YYNSTATE 74
-#define YYNRULE 48
+#define YYNSTATE 69
+#define YYNRULE 45
 #define YYERRORSYMBOL 22
-#define YYERRSYMDT yy81
+#define YYERRSYMDT yy79
 #define YY_NO_ACTION      (YYNSTATE+YYNRULE+2)
 #define YY_ACCEPT_ACTION  (YYNSTATE+YYNRULE+1)
 #define YY_ERROR_ACTION   (YYNSTATE+YYNRULE)
@@ -151,66 +151,63 @@ static const YYMINORTYPE yyzerominor(0);
 **  yy_default[]       Default action for each state.
 */
 static const YYACTIONTYPE yy_action[] = {
- /*     0 */    13,   12,   69,   23,   21,   31,    3,   58,   54,   32,
- /*    10 */    15,   17,   18,    4,   62,   55,   56,   57,   58,   44,
- /*    20 */    32,    1,   13,   12,    4,   16,   55,   56,   57,   58,
- /*    30 */    30,   32,   73,   66,   50,    4,   54,   55,   56,   57,
- /*    40 */     6,    7,   28,   63,   24,   74,   59,   21,   31,   33,
- /*    50 */    22,   54,   27,   37,   35,   19,   68,   23,   21,   31,
- /*    60 */    65,  124,   54,   54,   39,   40,   41,   64,   36,  123,
- /*    70 */     5,   42,   14,  124,   26,   34,   27,   36,   35,   19,
- /*    80 */    43,   14,    2,   26,   34,   60,    9,    8,   39,   40,
- /*    90 */    41,  124,   47,   23,   21,   31,   61,   24,   54,   59,
- /*   100 */    21,   31,   46,   24,   54,   59,   21,   31,   25,   24,
- /*   110 */    54,   59,   21,   31,  124,   58,   54,   32,  124,   29,
- /*   120 */    38,    4,    3,   55,   56,   57,   48,   23,   21,   31,
- /*   130 */    10,   11,   54,   53,   21,   31,  124,  124,   54,   67,
- /*   140 */    21,   31,  124,   71,   54,   49,   21,   31,   71,   70,
- /*   150 */    54,   45,   51,   20,   70,   54,   72,  124,   52,   21,
- /*   160 */    31,  124,  124,   54,
+ /*     0 */     8,    9,   21,   41,   44,   30,   45,   49,   45,   31,
+ /*    10 */    29,    8,    9,    3,   51,   46,   47,   48,   49,   37,
+ /*    20 */    31,    2,   15,   16,    3,   14,   46,   47,   48,   49,
+ /*    30 */    22,   31,   44,   30,    1,    3,   45,   46,   47,   48,
+ /*    40 */    62,  115,    5,   68,   10,   11,   32,   60,   23,   26,
+ /*    50 */    43,   44,   30,   69,   27,   45,   33,   58,   61,   18,
+ /*    60 */    33,   59,   61,   18,   54,   40,   34,   45,   65,   66,
+ /*    70 */    67,  116,   65,   66,   67,   20,   26,   43,   44,   30,
+ /*    80 */     6,    7,   45,   17,   26,   43,   44,   30,   13,   12,
+ /*    90 */    45,   28,   26,   43,   44,   30,  116,  116,   45,   49,
+ /*   100 */    63,   31,   39,   30,  116,    3,   45,   46,   47,   48,
+ /*   110 */    62,   42,   30,   36,   10,   45,   32,   60,   24,   53,
+ /*   120 */    44,   30,   45,  116,   45,   25,   56,   44,   30,  116,
+ /*   130 */    56,   45,   55,  116,   38,   19,   55,  116,   57,  116,
+ /*   140 */     6,    7,   35,   64,  116,    2,  116,    4,  116,  116,
+ /*   150 */    50,  116,  116,  116,   52,
 };
 static const YYCODETYPE yy_lookahead[] = {
- /*     0 */     1,    2,   33,   34,   35,   36,   13,    8,   39,   10,
- /*    10 */     5,    1,    2,   14,   15,   16,   17,   18,    8,    6,
- /*    20 */    10,   14,    1,    2,   14,   12,   16,   17,   18,    8,
- /*    30 */    10,   10,    6,   36,   37,   14,   39,   16,   17,   18,
- /*    40 */     1,    2,    8,   31,   32,    0,   34,   35,   36,    6,
- /*    50 */    38,   39,    7,   11,    9,   10,   33,   34,   35,   36,
- /*    60 */    36,   40,   39,   39,   19,   20,   21,   15,   22,   23,
- /*    70 */    24,   25,   26,   40,   28,   29,    7,   22,    9,   10,
- /*    80 */    25,   26,   12,   28,   29,   15,    1,    2,   19,   20,
- /*    90 */    21,   40,   33,   34,   35,   36,   31,   32,   39,   34,
- /*   100 */    35,   36,   31,   32,   39,   34,   35,   36,   31,   32,
- /*   110 */    39,   34,   35,   36,   40,    8,   39,   10,   40,   10,
- /*   120 */    11,   14,   13,   16,   17,   18,   33,   34,   35,   36,
- /*   130 */     3,    4,   39,   34,   35,   36,   40,   40,   39,   34,
- /*   140 */    35,   36,   40,   22,   39,   34,   35,   36,   22,   28,
- /*   150 */    39,   30,   36,   27,   28,   39,   30,   40,   34,   35,
- /*   160 */    36,   40,   40,   39,
+ /*     0 */     1,    2,   32,   35,   34,   35,   38,    8,   38,   10,
+ /*    10 */    10,    1,    2,   14,   15,   16,   17,   18,    8,    6,
+ /*    20 */    10,   13,    1,    2,   14,   12,   16,   17,   18,    8,
+ /*    30 */    32,   10,   34,   35,   14,   14,   38,   16,   17,   18,
+ /*    40 */    22,   23,   24,   25,   26,    5,   28,   29,   31,   32,
+ /*    50 */    33,   34,   35,    0,   37,   38,    7,    6,    9,   10,
+ /*    60 */     7,    6,    9,   10,   35,   36,    8,   38,   19,   20,
+ /*    70 */    21,   39,   19,   20,   21,   31,   32,   33,   34,   35,
+ /*    80 */     1,    2,   38,   31,   32,   33,   34,   35,    3,    4,
+ /*    90 */    38,   31,   32,   33,   34,   35,   39,   39,   38,    8,
+ /*   100 */    11,   10,   34,   35,   39,   14,   38,   16,   17,   18,
+ /*   110 */    22,   34,   35,   25,   26,   38,   28,   29,   32,   35,
+ /*   120 */    34,   35,   38,   39,   38,   32,   22,   34,   35,   39,
+ /*   130 */    22,   38,   28,   39,   30,   27,   28,   39,   30,   39,
+ /*   140 */     1,    2,   10,   11,   39,   13,   39,   12,   39,   39,
+ /*   150 */    15,   39,   39,   39,   15,
 };
-#define YY_SHIFT_USE_DFLT (-8)
-#define YY_SHIFT_MAX 32
-static const signed char yy_shift_ofst[] = {
- /*     0 */    69,   -1,   21,   21,   21,   45,  107,  107,  107,  107,
- /*    10 */   107,  107,  107,  107,   20,   10,   20,  107,  107,  109,
- /*    20 */    13,  127,   70,   39,   85,   52,   26,   34,   43,   42,
- /*    30 */    -7,    5,    7,
+#define YY_SHIFT_USE_DFLT (-2)
+#define YY_SHIFT_MAX 35
+static const short yy_shift_ofst[] = {
+ /*     0 */    49,   -1,   10,   10,   10,   53,   91,   91,   91,   91,
+ /*    10 */     0,   21,   91,   91,    0,   91,   91,  139,  132,   13,
+ /*    20 */    79,   85,   85,   79,   85,   85,   85,  135,   79,    8,
+ /*    30 */    40,   20,   51,   58,   55,   89,
 };
-#define YY_REDUCE_USE_DFLT (-32)
-#define YY_REDUCE_MAX 18
+#define YY_REDUCE_USE_DFLT (-33)
+#define YY_REDUCE_MAX 16
 static const signed char yy_reduce_ofst[] = {
- /*     0 */    46,   12,   65,   71,   77,   55,   93,   23,  -31,   59,
- /*    10 */   105,  111,   99,  124,  126,   -3,  121,  116,   24,
+ /*     0 */    18,   17,   44,   52,   60,   88,  -30,   -2,   86,   93,
+ /*    10 */   108,   29,   68,   77,  104,  -32,   84,
 };
 static const YYACTIONTYPE yy_default[] = {
- /*     0 */   122,  122,  122,  122,  122,  122,  122,  122,  122,  122,
- /*    10 */   122,  122,  122,  122,  122,  122,  122,  122,  122,  122,
- /*    20 */   122,  102,  122,   96,   93,  122,  122,  122,  122,  122,
- /*    30 */    87,  104,  115,   79,   80,   81,   82,   83,   84,  119,
- /*    40 */   120,  121,   76,   75,   77,   85,   90,   91,   94,  100,
- /*    50 */   103,  105,   97,   98,  111,  114,  116,  117,  118,   99,
- /*    60 */   109,  112,  110,  113,  108,  106,  107,  101,   95,   92,
- /*    70 */    88,   89,   86,   78,
+ /*     0 */   114,  114,  114,  114,  114,  114,  114,  114,  114,  114,
+ /*    10 */   114,  114,  114,  114,  114,  114,  114,  114,  114,  114,
+ /*    20 */    85,   86,   87,  105,   89,   90,   91,  114,  104,   82,
+ /*    30 */    96,  107,  114,  114,  114,  114,   70,   72,   80,   92,
+ /*    40 */    95,   97,   93,   88,   94,  103,  106,  108,  109,  110,
+ /*    50 */   101,  102,  100,   98,   99,   83,   84,   81,   73,   74,
+ /*    60 */    75,   76,   77,   78,   79,  111,  112,  113,   71,
 };
 #define YY_SZ_ACTTAB (int)(sizeof(yy_action)/sizeof(yy_action[0]))
 
@@ -312,8 +309,8 @@ static const char *const yyTokenName[] = {
   "FLOAT_DECL",    "STRING_DECL",   "error",         "deck",        
   "statementlist",  "statement",     "typedecl",      "decllist",    
   "assignment",    "startblock",    "declaration",   "expression",  
-  "signed_term_expression",  "unsigned_expression",  "term_expression",  "exp_expression",
-  "atomic_expression",  "signed_atomic_expression",  "expressionlist",  "value",       
+  "term_expression",  "signed_term_expression",  "exp_expression",  "atomic_expression",
+  "signed_atomic_expression",  "expressionlist",  "value",       
 };
 #endif /* NDEBUG */
 
@@ -338,37 +335,34 @@ static const char *const yyRuleName[] = {
  /*  14 */ "declaration ::= assignment",
  /*  15 */ "declaration ::= error",
  /*  16 */ "assignment ::= IDENTIFIER EQUAL expression",
- /*  17 */ "expression ::= signed_term_expression PLUS unsigned_expression",
- /*  18 */ "expression ::= signed_term_expression MINUS unsigned_expression",
+ /*  17 */ "expression ::= expression PLUS term_expression",
+ /*  18 */ "expression ::= expression MINUS term_expression",
  /*  19 */ "expression ::= signed_term_expression",
- /*  20 */ "unsigned_expression ::= term_expression PLUS unsigned_expression",
- /*  21 */ "unsigned_expression ::= term_expression MINUS unsigned_expression",
- /*  22 */ "unsigned_expression ::= term_expression",
- /*  23 */ "signed_term_expression ::= PLUS term_expression",
- /*  24 */ "signed_term_expression ::= MINUS term_expression",
- /*  25 */ "signed_term_expression ::= term_expression",
- /*  26 */ "term_expression ::= exp_expression TIMES term_expression",
- /*  27 */ "term_expression ::= exp_expression DIVIDE term_expression",
- /*  28 */ "term_expression ::= exp_expression",
- /*  29 */ "exp_expression ::= atomic_expression EXPONENT signed_atomic_expression",
- /*  30 */ "exp_expression ::= atomic_expression",
- /*  31 */ "signed_atomic_expression ::= PLUS atomic_expression",
- /*  32 */ "signed_atomic_expression ::= MINUS atomic_expression",
- /*  33 */ "signed_atomic_expression ::= atomic_expression",
- /*  34 */ "atomic_expression ::= LBRACKET expression RBRACKET",
- /*  35 */ "atomic_expression ::= IDENTIFIER LBRACKET expressionlist RBRACKET",
- /*  36 */ "atomic_expression ::= IDENTIFIER LBRACKET RBRACKET",
- /*  37 */ "atomic_expression ::= value",
- /*  38 */ "expressionlist ::= expressionlist COMMA expression",
- /*  39 */ "expressionlist ::= expression",
- /*  40 */ "value ::= PATHIDENTIFIER",
- /*  41 */ "value ::= IDENTIFIER",
- /*  42 */ "value ::= INTEGER",
- /*  43 */ "value ::= FLOAT",
- /*  44 */ "value ::= STRING",
- /*  45 */ "typedecl ::= INT_DECL",
- /*  46 */ "typedecl ::= FLOAT_DECL",
- /*  47 */ "typedecl ::= STRING_DECL",
+ /*  20 */ "signed_term_expression ::= PLUS term_expression",
+ /*  21 */ "signed_term_expression ::= MINUS term_expression",
+ /*  22 */ "signed_term_expression ::= term_expression",
+ /*  23 */ "term_expression ::= term_expression TIMES exp_expression",
+ /*  24 */ "term_expression ::= term_expression DIVIDE exp_expression",
+ /*  25 */ "term_expression ::= exp_expression",
+ /*  26 */ "exp_expression ::= atomic_expression EXPONENT signed_atomic_expression",
+ /*  27 */ "exp_expression ::= atomic_expression",
+ /*  28 */ "signed_atomic_expression ::= PLUS atomic_expression",
+ /*  29 */ "signed_atomic_expression ::= MINUS atomic_expression",
+ /*  30 */ "signed_atomic_expression ::= atomic_expression",
+ /*  31 */ "atomic_expression ::= LBRACKET expression RBRACKET",
+ /*  32 */ "atomic_expression ::= IDENTIFIER LBRACKET expressionlist RBRACKET",
+ /*  33 */ "atomic_expression ::= IDENTIFIER LBRACKET RBRACKET",
+ /*  34 */ "atomic_expression ::= value",
+ /*  35 */ "expressionlist ::= expressionlist COMMA expression",
+ /*  36 */ "expressionlist ::= expression",
+ /*  37 */ "value ::= PATHIDENTIFIER",
+ /*  38 */ "value ::= IDENTIFIER",
+ /*  39 */ "value ::= INTEGER",
+ /*  40 */ "value ::= FLOAT",
+ /*  41 */ "value ::= STRING",
+ /*  42 */ "typedecl ::= INT_DECL",
+ /*  43 */ "typedecl ::= FLOAT_DECL",
+ /*  44 */ "typedecl ::= STRING_DECL",
 };
 #endif /* NDEBUG */
 
@@ -691,31 +685,28 @@ static const struct {
   { 31, 3 },
   { 31, 3 },
   { 31, 1 },
-  { 33, 3 },
-  { 33, 3 },
+  { 33, 2 },
+  { 33, 2 },
   { 33, 1 },
-  { 32, 2 },
-  { 32, 2 },
+  { 32, 3 },
+  { 32, 3 },
   { 32, 1 },
   { 34, 3 },
-  { 34, 3 },
   { 34, 1 },
+  { 36, 2 },
+  { 36, 2 },
+  { 36, 1 },
+  { 35, 3 },
+  { 35, 4 },
   { 35, 3 },
   { 35, 1 },
-  { 37, 2 },
-  { 37, 2 },
+  { 37, 3 },
   { 37, 1 },
-  { 36, 3 },
-  { 36, 4 },
-  { 36, 3 },
-  { 36, 1 },
-  { 38, 3 },
   { 38, 1 },
-  { 39, 1 },
-  { 39, 1 },
-  { 39, 1 },
-  { 39, 1 },
-  { 39, 1 },
+  { 38, 1 },
+  { 38, 1 },
+  { 38, 1 },
+  { 38, 1 },
   { 26, 1 },
   { 26, 1 },
   { 26, 1 },
@@ -776,207 +767,192 @@ static void yy_reduce(
       case 3: /* statement ::= typedecl decllist SEMICOLON */
 #line 26 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 1"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yymsp[-1].minor.yy0.storeVariable(yymsp[-2].minor.yy0); }
-#line 780 "deckgrammar.c"
+#line 771 "deckgrammar.c"
         break;
       case 4: /* statement ::= assignment SEMICOLON */
 #line 27 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 2"<< toString(yymsp[-1].minor.yy0.getType()) << " " << yymsp[-1].minor.yy0.getString()); yymsp[-1].minor.yy0.updateVariable(); }
-#line 785 "deckgrammar.c"
+#line 776 "deckgrammar.c"
         break;
       case 7: /* statement ::= RBRACE */
 #line 30 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 3"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yymsp[0].minor.yy0.endBlock(); }
-#line 790 "deckgrammar.c"
+#line 781 "deckgrammar.c"
         break;
       case 9: /* startblock ::= IDENTIFIER IDENTIFIER LBRACE */
 #line 33 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 4"<< toString(yymsp[-1].minor.yy0.getType()) << " " << yymsp[-1].minor.yy0.getString()); yymsp[-2].minor.yy0.createBlock(yymsp[-1].minor.yy0); }
-#line 795 "deckgrammar.c"
+#line 786 "deckgrammar.c"
         break;
       case 10: /* startblock ::= IDENTIFIER LBRACE */
 #line 34 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 5"<< toString(yymsp[-1].minor.yy0.getType()) << " " << yymsp[-1].minor.yy0.getString()); yymsp[-1].minor.yy0.createBlock(yymsp[-1].minor.yy0); }
-#line 800 "deckgrammar.c"
+#line 791 "deckgrammar.c"
         break;
       case 11: /* decllist ::= decllist COMMA declaration */
 #line 36 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 6"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yymsp[0].minor.yy0.append(yymsp[-2].minor.yy0); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 805 "deckgrammar.c"
+#line 796 "deckgrammar.c"
         break;
       case 12: /* decllist ::= declaration */
 #line 37 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 7"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 810 "deckgrammar.c"
+#line 801 "deckgrammar.c"
         break;
       case 13: /* declaration ::= IDENTIFIER */
 #line 39 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 8"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 815 "deckgrammar.c"
+#line 806 "deckgrammar.c"
         break;
       case 14: /* declaration ::= assignment */
 #line 40 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 9"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 820 "deckgrammar.c"
+#line 811 "deckgrammar.c"
         break;
       case 16: /* assignment ::= IDENTIFIER EQUAL expression */
 #line 43 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 10"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.evaluateExpression(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 825 "deckgrammar.c"
+#line 816 "deckgrammar.c"
         break;
-      case 17: /* expression ::= signed_term_expression PLUS unsigned_expression */
+      case 17: /* expression ::= expression PLUS term_expression */
 #line 45 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 11"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorAdd>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 830 "deckgrammar.c"
+#line 821 "deckgrammar.c"
         break;
-      case 18: /* expression ::= signed_term_expression MINUS unsigned_expression */
+      case 18: /* expression ::= expression MINUS term_expression */
 #line 46 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 12"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorSubtract>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 835 "deckgrammar.c"
+#line 826 "deckgrammar.c"
         break;
       case 19: /* expression ::= signed_term_expression */
 #line 47 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 13"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 840 "deckgrammar.c"
+#line 831 "deckgrammar.c"
         break;
-      case 20: /* unsigned_expression ::= term_expression PLUS unsigned_expression */
+      case 20: /* signed_term_expression ::= PLUS term_expression */
 #line 49 "deckgrammar.y"
-{ SCHNEK_TRACE_LOG(5,"Parser: Rule 14"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorAdd>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 845 "deckgrammar.c"
-        break;
-      case 21: /* unsigned_expression ::= term_expression MINUS unsigned_expression */
-#line 50 "deckgrammar.y"
-{ SCHNEK_TRACE_LOG(5,"Parser: Rule 15"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorSubtract>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 850 "deckgrammar.c"
-        break;
-      case 22: /* unsigned_expression ::= term_expression */
-#line 51 "deckgrammar.y"
-{ SCHNEK_TRACE_LOG(5,"Parser: Rule 16"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 855 "deckgrammar.c"
-        break;
-      case 23: /* signed_term_expression ::= PLUS term_expression */
-#line 53 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 17"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 860 "deckgrammar.c"
+#line 836 "deckgrammar.c"
         break;
-      case 24: /* signed_term_expression ::= MINUS term_expression */
-#line 54 "deckgrammar.y"
+      case 21: /* signed_term_expression ::= MINUS term_expression */
+#line 50 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 18"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignUnaryOperator<expression::OperatorNeg>(yymsp[0].minor.yy0); }
-#line 865 "deckgrammar.c"
+#line 841 "deckgrammar.c"
         break;
-      case 25: /* signed_term_expression ::= term_expression */
-#line 55 "deckgrammar.y"
+      case 22: /* signed_term_expression ::= term_expression */
+#line 51 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 19"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 870 "deckgrammar.c"
+#line 846 "deckgrammar.c"
         break;
-      case 26: /* term_expression ::= exp_expression TIMES term_expression */
-#line 57 "deckgrammar.y"
+      case 23: /* term_expression ::= term_expression TIMES exp_expression */
+#line 53 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 20"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorMultiply>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 875 "deckgrammar.c"
+#line 851 "deckgrammar.c"
         break;
-      case 27: /* term_expression ::= exp_expression DIVIDE term_expression */
-#line 58 "deckgrammar.y"
+      case 24: /* term_expression ::= term_expression DIVIDE exp_expression */
+#line 54 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 21"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorDivide>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 880 "deckgrammar.c"
+#line 856 "deckgrammar.c"
         break;
-      case 28: /* term_expression ::= exp_expression */
-#line 59 "deckgrammar.y"
+      case 25: /* term_expression ::= exp_expression */
+#line 55 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 22"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 885 "deckgrammar.c"
+#line 861 "deckgrammar.c"
         break;
-      case 29: /* exp_expression ::= atomic_expression EXPONENT signed_atomic_expression */
-#line 60 "deckgrammar.y"
+      case 26: /* exp_expression ::= atomic_expression EXPONENT signed_atomic_expression */
+#line 56 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 23"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorExponent>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 890 "deckgrammar.c"
+#line 866 "deckgrammar.c"
         break;
-      case 30: /* exp_expression ::= atomic_expression */
-#line 61 "deckgrammar.y"
+      case 27: /* exp_expression ::= atomic_expression */
+#line 57 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 23b"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 895 "deckgrammar.c"
+#line 871 "deckgrammar.c"
         break;
-      case 31: /* signed_atomic_expression ::= PLUS atomic_expression */
-#line 63 "deckgrammar.y"
+      case 28: /* signed_atomic_expression ::= PLUS atomic_expression */
+#line 59 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 24"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 900 "deckgrammar.c"
+#line 876 "deckgrammar.c"
         break;
-      case 32: /* signed_atomic_expression ::= MINUS atomic_expression */
-#line 64 "deckgrammar.y"
+      case 29: /* signed_atomic_expression ::= MINUS atomic_expression */
+#line 60 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 25"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignUnaryOperator<expression::OperatorNeg>(yymsp[0].minor.yy0); }
-#line 905 "deckgrammar.c"
+#line 881 "deckgrammar.c"
         break;
-      case 33: /* signed_atomic_expression ::= atomic_expression */
-#line 65 "deckgrammar.y"
+      case 30: /* signed_atomic_expression ::= atomic_expression */
+#line 61 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 26"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 910 "deckgrammar.c"
+#line 886 "deckgrammar.c"
         break;
-      case 34: /* atomic_expression ::= LBRACKET expression RBRACKET */
-#line 67 "deckgrammar.y"
+      case 31: /* atomic_expression ::= LBRACKET expression RBRACKET */
+#line 63 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 27"<< toString(yymsp[-1].minor.yy0.getType()) << " " << yymsp[-1].minor.yy0.getString()); yygotominor.yy0.assignUnaryOperator<expression::OperatorId>(yymsp[-1].minor.yy0); }
-#line 915 "deckgrammar.c"
+#line 891 "deckgrammar.c"
         break;
-      case 35: /* atomic_expression ::= IDENTIFIER LBRACKET expressionlist RBRACKET */
-#line 68 "deckgrammar.y"
+      case 32: /* atomic_expression ::= IDENTIFIER LBRACKET expressionlist RBRACKET */
+#line 64 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 28"<< toString(yymsp[-3].minor.yy0.getType()) << " " << yymsp[-3].minor.yy0.getString()<< " "<< toString(yymsp[-1].minor.yy0.getType()) << " " << yymsp[-1].minor.yy0.getString()); yygotominor.yy0.assignFunction(yymsp[-3].minor.yy0,yymsp[-1].minor.yy0); }
-#line 920 "deckgrammar.c"
+#line 896 "deckgrammar.c"
         break;
-      case 36: /* atomic_expression ::= IDENTIFIER LBRACKET RBRACKET */
-#line 69 "deckgrammar.y"
+      case 33: /* atomic_expression ::= IDENTIFIER LBRACKET RBRACKET */
+#line 65 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 28b"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignFunction(yymsp[-2].minor.yy0); }
-#line 925 "deckgrammar.c"
+#line 901 "deckgrammar.c"
         break;
-      case 37: /* atomic_expression ::= value */
-#line 71 "deckgrammar.y"
+      case 34: /* atomic_expression ::= value */
+#line 67 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 29"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignUnaryOperator<expression::OperatorId>(yymsp[0].minor.yy0); }
-#line 930 "deckgrammar.c"
+#line 906 "deckgrammar.c"
         break;
-      case 38: /* expressionlist ::= expressionlist COMMA expression */
-#line 73 "deckgrammar.y"
+      case 35: /* expressionlist ::= expressionlist COMMA expression */
+#line 69 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 30"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yymsp[0].minor.yy0.append(yymsp[-2].minor.yy0); yygotominor.yy0=yymsp[0].minor.yy0; }
-#line 935 "deckgrammar.c"
+#line 911 "deckgrammar.c"
         break;
-      case 39: /* expressionlist ::= expression */
-#line 74 "deckgrammar.y"
+      case 36: /* expressionlist ::= expression */
+#line 70 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 31"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; yygotominor.yy0.makeExpressionList(); }
-#line 940 "deckgrammar.c"
+#line 916 "deckgrammar.c"
         break;
-      case 40: /* value ::= PATHIDENTIFIER */
-#line 76 "deckgrammar.y"
+      case 37: /* value ::= PATHIDENTIFIER */
+#line 72 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 32"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignIdentifier(yymsp[0].minor.yy0); }
-#line 945 "deckgrammar.c"
+#line 921 "deckgrammar.c"
         break;
-      case 41: /* value ::= IDENTIFIER */
-#line 77 "deckgrammar.y"
+      case 38: /* value ::= IDENTIFIER */
+#line 73 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 33"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignIdentifier(yymsp[0].minor.yy0); }
-#line 950 "deckgrammar.c"
+#line 926 "deckgrammar.c"
         break;
-      case 42: /* value ::= INTEGER */
-#line 78 "deckgrammar.y"
+      case 39: /* value ::= INTEGER */
+#line 74 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 34"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignInteger(yymsp[0].minor.yy0); }
-#line 955 "deckgrammar.c"
+#line 931 "deckgrammar.c"
         break;
-      case 43: /* value ::= FLOAT */
-#line 79 "deckgrammar.y"
+      case 40: /* value ::= FLOAT */
+#line 75 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 35"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignFloat(yymsp[0].minor.yy0); }
-#line 960 "deckgrammar.c"
+#line 936 "deckgrammar.c"
         break;
-      case 44: /* value ::= STRING */
-#line 80 "deckgrammar.y"
+      case 41: /* value ::= STRING */
+#line 76 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 36"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignString(yymsp[0].minor.yy0); }
-#line 965 "deckgrammar.c"
+#line 941 "deckgrammar.c"
         break;
-      case 45: /* typedecl ::= INT_DECL */
-#line 82 "deckgrammar.y"
+      case 42: /* typedecl ::= INT_DECL */
+#line 78 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 37"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 970 "deckgrammar.c"
+#line 946 "deckgrammar.c"
         break;
-      case 46: /* typedecl ::= FLOAT_DECL */
-#line 83 "deckgrammar.y"
+      case 43: /* typedecl ::= FLOAT_DECL */
+#line 79 "deckgrammar.y"
 {  SCHNEK_TRACE_LOG(5,"Parser: Rule 38"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 975 "deckgrammar.c"
+#line 951 "deckgrammar.c"
         break;
-      case 47: /* typedecl ::= STRING_DECL */
-#line 84 "deckgrammar.y"
+      case 44: /* typedecl ::= STRING_DECL */
+#line 80 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 39 "<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 980 "deckgrammar.c"
+#line 956 "deckgrammar.c"
         break;
       default:
       /* (0) deck ::= statementlist */ yytestcase(yyruleno==0);
@@ -1048,7 +1024,7 @@ static void yy_syntax_error(
 #line 17 "deckgrammar.y"
 
   throw ParserInternalError();
-#line 1052 "deckgrammar.c"
+#line 1028 "deckgrammar.c"
   ParseARG_STORE; /* Suppress warning about unused %extra_argument variable */
 }
 
-- 
2.43.0


From 67b94a37384666c2010ef59ecab6137e8100d982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:57 +0000
Subject: [PATCH 33/39] fix: a variable called e or E followed by + or - and a
 digit was scanned as a number without mantissa

---
 parser/deckscanner.rl               | 2 +-
 src/parser/internal/deckscanner.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/deckscanner.rl b/parser/deckscanner.rl
index c95dee9..944f261 100644
--- a/parser/deckscanner.rl
+++ b/parser/deckscanner.rl
@@ -93,7 +93,7 @@ using namespace schnek;
 	# Match a floating point number.
 	float_exp = [eE] [+\-]? digit+;
 	float_dec = '.' digit* float_exp?;
-	digit* (float_dec | float_exp) { tlist.insert(cur_line, FLOAT,ts,te-ts); };
+	(digit* float_dec | digit+ float_exp) { tlist.insert(cur_line, FLOAT,ts,te-ts); };
 
 	*|;
 }%%
diff --git a/src/parser/internal/deckscanner.cpp b/src/parser/internal/deckscanner.cpp
index 7a93c33..df02b37 100644
--- a/src/parser/internal/deckscanner.cpp
+++ b/src/parser/internal/deckscanner.cpp
@@ -126,7 +126,7 @@ static const char _deck_indicies[] = {
 	32, 20, 18, 43, 43, 27, 42, 10, 
 	42, 45, 12, 44, 27, 43, 43, 29, 
 	46, 47, 32, 32, 32, 32, 8, 47, 
-	47, 47, 47, 48, 9, 9, 47, 32, 
+	47, 47, 47, 48, 49, 49, 47, 32, 
 	50, 32, 32, 49, 47, 32, 50, 32, 
 	32, 49, 47, 32, 51, 32, 32, 32, 
 	49, 47, 32, 52, 32, 32, 32, 49, 
-- 
2.43.0


From 8e3281948a5a4d016e6aee21e52810fe3aa26787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:28 +0000
Subject: [PATCH 34/39] fix: a circular definition of variables in the setup
 file is an error, it aborted the program

---
 src/variables/dependencies.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/variables/dependencies.cpp b/src/variables/dependencies.cpp
index 0188179..52bbf3c 100644
--- a/src/variables/dependencies.cpp
+++ b/src/variables/dependencies.cpp
@@ -36,7 +36,7 @@
 
 #pragma GCC diagnostic pop
 
-#include <cassert>
+#include <cassert>
 #include <new>
 
 #undef LOGLEVEL
@@ -260,7 +260,7 @@ void DependencyMap::makeUpdateOrder(pRefDepMap deps_p, VariableList &updateList)
       else ++it;
     }
 
-    assert(nextEval != 0);
+    if (nextEval == 0) throw EvaluationException("Variables depend on each other in a circle");
 
     workingSet.erase(it);
     updateList.push_back(nextEval->v);
-- 
2.43.0


From d560d9c5aa2cf3999f1854fd014d91130915ce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:28 +0000
Subject: [PATCH 35/39] fix: ParametersGroup::hasElements erased a range of
 another set, which is undefined

---
 src/variables/blockparameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variables/blockparameters.cpp b/src/variables/blockparameters.cpp
index 8f58e99..b551acf 100644
--- a/src/variables/blockparameters.cpp
+++ b/src/variables/blockparameters.cpp
@@ -51,7 +51,7 @@ bool ParametersGroup::isElement(pVariable v)
 
 bool ParametersGroup::hasElements(std::set<long> &ids)
 {
-  ids.erase(parameters.begin(), parameters.end());
+  for (long id: parameters) ids.erase(id);
   return ids.empty();
 }
 
-- 
2.43.0


From f45f521ef7d4adc2776886a2b0724d58701b014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:13 +0000
Subject: [PATCH 36/39] fix: Field::getInnerRange did not compile when it was
 used

---
 src/grid/field.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grid/field.hpp b/src/grid/field.hpp
index 58de237..2bffa31 100644
--- a/src/grid/field.hpp
+++ b/src/grid/field.hpp
@@ -104,7 +104,7 @@ class Field : public Grid<T, rank, CheckingPolicy, StoragePolicy>
     IndexType getInnerHi() { return this->getHi() - ghostCells; }
 
     /** Get the range the inner grid range */
-    RangeType getInnerRange() { return RangeType{this->getLo() + ghostCells, this->getHi() - ghostCells}; }
+    RangeType getInnerRange() { return RangeType{getInnerLo(), getInnerHi()}; }
 
     /** Calculates index and offset from a position on the field
      *
-- 
2.43.0


From e5d26336760f8fada15ef7385e450c2e5282f277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:13 +0000
Subject: [PATCH 37/39] fix: iterating over an empty range visited its lower
 corner

---
 src/grid/range.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/grid/range.hpp b/src/grid/range.hpp
index fcf1129..89b4231 100644
--- a/src/grid/range.hpp
+++ b/src/grid/range.hpp
@@ -350,7 +350,12 @@ class Range {
 
     /// Creates an iterator pointing to the beginning of the rectangle
     iterator begin() {
-      return iterator(*this, this->getLo());
+      bool empty = false;
+      for (size_t i=0; i<rank; ++i)
+      {
+        if (lo[i] > hi[i]) empty = true;
+      }
+      return iterator(*this, this->getLo(), empty);
     }
 
     /// Creates an iterator pointing to a position after the end of the rectangle
-- 
2.43.0


From b28aea1d1ffc783b0d2bb2f0a46b13cd819f62de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:31 +0000
Subject: [PATCH 38/39] fix: the integer average of large values overflowed
 while they were summed

---
 src/grid/mpisubdivision.t | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/grid/mpisubdivision.t b/src/grid/mpisubdivision.t
index eb13d76..b2f1911 100644
--- a/src/grid/mpisubdivision.t
+++ b/src/grid/mpisubdivision.t
@@ -420,8 +420,9 @@ double MPICartSubdivision<GridType>::avgReduce(double val) const {
 
 template<class GridType>
 int MPICartSubdivision<GridType>::avgReduce(int val) const {
-  int result;
-  MPI_Allreduce(&val, &result, 1, MPI_INT, MPI_SUM, comm);
+  // the sum might not fit into an int
+  double sum = val, result;
+  MPI_Allreduce(&sum, &result, 1, MPI_DOUBLE, MPI_SUM, comm);
   return result/double(ComSize);
 }
 
-- 
2.43.0


From 6ff8665ddb2ecec05fb2c7f98b960b8b2d4ae953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:43 +0000
Subject: [PATCH 39/39] fix: the school and the organisation of a literature
 reference were stored as its edition

---
 src/tools/literature.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tools/literature.hpp b/src/tools/literature.hpp
index 4e363ca..f5c5920 100644
--- a/src/tools/literature.hpp
+++ b/src/tools/literature.hpp
@@ -597,7 +597,7 @@ class LiteratureInProceedings : public LiteratureReference
       setPages(pages);
       setAddress(address);
       setMonth(month);
-      setEdition(organization);
+      setOrganization(organization);
       setPublisher(publisher);
       setNote(note);
       setKey(key);
@@ -617,7 +617,7 @@ class LiteratureManual : public LiteratureReference
 
       setTitle(title);
       setAuthor(author);
-      setEdition(organization);
+      setOrganization(organization);
       setAddress(address);
       setEdition(edition);
       setYear(year);
@@ -639,7 +639,7 @@ class LiteratureMastersThesis : public LiteratureReference
 
       setAuthor(author);
       setTitle(title);
-      setEdition(school);
+      setSchool(school);
       setYear(year);
       setType(type);
       setAddress(address);
@@ -683,7 +683,7 @@ class LiteraturePhdThesis : public LiteratureReference
 
       setAuthor(author);
       setTitle(title);
-      setEdition(school);
+      setSchool(school);
       setYear(year);
       setType(type);
       setAddress(address);
@@ -713,7 +713,7 @@ class LiteratureProceedings : public LiteratureReference
       setSeries(series);
       setAddress(address);
       setMonth(month);
-      setEdition(organization);
+      setOrganization(organization);
       setPublisher(publisher);
       setNote(note);
       setKey(key);
-- 
2.43.0

