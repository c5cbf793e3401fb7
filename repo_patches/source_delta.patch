From fc2d392cbe50312c4328cf063a2f29ee94afe7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 01/21] fix: keep exceptions inside the C interface and report
 them as failures

conviqt_convolver_convolve rethrew, and the *_new functions did not catch
exceptions raised by constructors.
---
 src/cconviqt.cpp | 60 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 50 insertions(+), 10 deletions(-)

diff --git a/src/cconviqt.cpp b/src/cconviqt.cpp
index ee7e044..20254ac 100644
--- a/src/cconviqt.cpp
+++ b/src/cconviqt.cpp
@@ -9,7 +9,13 @@ extern "C" {
 
 #include <string.h>
 
-    void *conviqt_beam_new() { return new(std::nothrow) conviqt::beam; }
+    void *conviqt_beam_new() {
+        try {
+            return new(std::nothrow) conviqt::beam;
+        } catch (...) {
+            return NULL;
+        }
+    }
 
     int conviqt_beam_del(void *ptr) {
         try {
@@ -103,7 +109,13 @@ extern "C" {
         }
     }
 
-    void *conviqt_sky_new() { return new(std::nothrow) conviqt::sky; }
+    void *conviqt_sky_new() {
+        try {
+            return new(std::nothrow) conviqt::sky;
+        } catch (...) {
+            return NULL;
+        }
+    }
 
     int conviqt_sky_del(void *ptr) {
         try {
@@ -186,10 +198,20 @@ extern "C" {
         }
     }
 
-    void *conviqt_detector_new() { return new(std::nothrow) conviqt::detector; }
+    void *conviqt_detector_new() {
+        try {
+            return new(std::nothrow) conviqt::detector;
+        } catch (...) {
+            return NULL;
+        }
+    }
 
     void *conviqt_detector_new_with_id(char *det_id) {
-        return new(std::nothrow) conviqt::detector(det_id);
+        try {
+            return new(std::nothrow) conviqt::detector(det_id);
+        } catch (...) {
+            return NULL;
+        }
     }
 
     int conviqt_detector_del(void *ptr) {
@@ -242,7 +264,13 @@ extern "C" {
         return 0;
     }
 
-    void *conviqt_pointing_new() { return new(std::nothrow) conviqt::pointing; }
+    void *conviqt_pointing_new() {
+        try {
+            return new(std::nothrow) conviqt::pointing;
+        } catch (...) {
+            return NULL;
+        }
+    }
 
     int conviqt_pointing_del(void *ptr) {
         try {
@@ -314,9 +342,18 @@ extern "C" {
         conviqt::beam *beamref = reinterpret_cast< conviqt::beam * >(beamptr);
         conviqt::detector *detref = reinterpret_cast< conviqt::detector * >(detptr);
 
-        return new(std::nothrow) conviqt::convolver(skyref, beamref, detref, pol,
-                                                    lmax, beammmax, order,
-                                                    verbosity, comm);
+        try {
+            return new(std::nothrow) conviqt::convolver(skyref, beamref, detref, pol,
+                                                        lmax, beammmax, order,
+                                                        verbosity, comm);
+        } catch (std::exception &e) {
+            std::cerr << "conviqt_convolver_new threw an exception: " << e.what()
+                      << std::endl;
+            return NULL;
+        } catch (...) {
+            std::cerr << "conviqt_convolver_new threw an exception." << std::endl;
+            return NULL;
+        }
     }
 
     int conviqt_convolver_del(void *ptr) {
@@ -376,9 +413,12 @@ extern "C" {
 #endif
 
             cnvref->convolve(*pntref, calibrate);
+        } catch (std::exception &e) {
+            std::cerr << "conviqt_convolver_convolve threw an exception: " << e.what()
+                      << std::endl;
+            return -1;
         } catch (...) {
-            std::cout << "convolve threw an exception:" << std::endl;
-            throw;
+            std::cerr << "conviqt_convolver_convolve threw an exception." << std::endl;
             return -1;
         }
         return 0;
-- 
2.43.0


From 1eee24cedf12182208317f208b9e87ce7cd31666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 02/21] fix: take part in the redistribution on every rank,
 also those without samples

The barrier and all2allv were skipped by ranks with neither samples of their
own nor samples to convolve, which left the other ranks waiting.  Empty
buffers on both sides are no longer mistaken for identical buffers.
---
 levels/cxxsupport/mpi_support.cc |  6 +++++-
 src/conviqt_math.cpp             | 30 ++++++++++++++----------------
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/levels/cxxsupport/mpi_support.cc b/levels/cxxsupport/mpi_support.cc
index 21ee6b5..117052e 100644
--- a/levels/cxxsupport/mpi_support.cc
+++ b/levels/cxxsupport/mpi_support.cc
@@ -53,7 +53,11 @@ using namespace std;
 namespace {
 
 void assert_unequal (const void *a, const void *b)
-  { levels_assert (a!=b,"input and output buffers must not be identical"); }
+  {
+  // two empty buffers are both NULL without being the same memory
+  levels_assert ((a!=b) || (a==0),
+    "input and output buffers must not be identical");
+  }
 
 } // unnamed namespace
 
diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index 4d3c729..a3ba552 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -1554,15 +1554,14 @@ int convolver::convolve(pointing &pntarr, bool calibrate) {
     }
 
     // Redistribute the data from pntarr2 to outpntarr
+    // (collective, also for processes that have nothing to send or receive)
 
-    if (totsize != 0 || outBetaSegSize != 0) {
-        mpiMgr.barrier();
-        t1 = mpiMgr.Wtime();
-        mpiMgr.all2allv(pntarr2, inBetaSeg, inOffset,
-                        outpntarr, outBetaSeg, outOffset, outBetaSegSize);
-        t_alltoall += mpiMgr.Wtime() - t1;
-        ++n_alltoall;
-    }
+    mpiMgr.barrier();
+    t1 = mpiMgr.Wtime();
+    mpiMgr.all2allv(pntarr2, inBetaSeg, inOffset,
+                    outpntarr, outBetaSeg, outOffset, outBetaSegSize);
+    t_alltoall += mpiMgr.Wtime() - t1;
+    ++n_alltoall;
 
     if (totsize > 0) {
         pntarr2.dealloc();
@@ -1619,15 +1618,14 @@ int convolver::convolve(pointing &pntarr, bool calibrate) {
     }
 
     // Communicate the pointing and TOD to the original owners
+    // (collective, also for processes that have nothing to send or receive)
 
-    if (totsize != 0 || ntod != 0) {
-        mpiMgr.barrier();
-        t1 = mpiMgr.Wtime();
-        mpiMgr.all2allv(outpntarr, outBetaSeg, outOffset, pntarr,
-                        inBetaSeg, inOffset, 5 * totsize);
-        t_alltoall += mpiMgr.Wtime() - t1;
-        ++n_alltoall;
-    }
+    mpiMgr.barrier();
+    t1 = mpiMgr.Wtime();
+    mpiMgr.all2allv(outpntarr, outBetaSeg, outOffset, pntarr,
+                    inBetaSeg, inOffset, 5 * totsize);
+    t_alltoall += mpiMgr.Wtime() - t1;
+    ++n_alltoall;
 
     if (ntod != 0) {
         outpntarr.dealloc();
-- 
2.43.0


From 6d6c6d18e4f0df63bc720c0d88b9e8955c26a92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 03/21] fix: reject illegal pointing collectively, including
 NaN and infinities

The check was made and raised by each rank on its own, leaving the other ranks
in a collective call, and let NaN through.
---
 src/conviqt_math.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index a3ba552..f25952c 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -2,6 +2,7 @@
 
 #include <sstream>
 
+#include <cmath>
 #include <cstring>
 
 #ifdef _OPENMP
@@ -451,10 +452,6 @@ void convolver::todRedistribution5cm(levels::arr<double> pntarr,
         int corenum = 0;
         for (long ii = 0; ii < totsize; ++ii) {
             double theta = pntarr[5 * ii + 1];
-            if (theta < 0 || theta > pi) {
-                throw std::runtime_error("ERROR: Illegal latitude in pntarr: theta = " +
-                                         std::to_string(theta) + " not in 0..pi");
-            }
             if (theta >= halfpi) {
                 theta = pi - theta;
             }
@@ -1505,13 +1502,27 @@ int convolver::convolve(pointing &pntarr, bool calibrate) {
 
     // Check the angles for conformity
 
+    // All processes must agree on the outcome: the error is raised on
+    // every process if any of them holds an illegal sample.
+
+    int my_illegal = 0, illegal = 0;
     for (long i = 0; i < totsize; ++i) {
-        double theta = pntarr[5 * i + 1];
-        if (theta < 0 || theta > pi) {
-            throw std::runtime_error("convolver::convolve: Illegal theta: " +
-                                     std::to_string(theta) + " not in 0..pi");
+        const double phi = pntarr[5 * i];
+        const double theta = pntarr[5 * i + 1];
+        const double psi = pntarr[5 * i + 2];
+        // The comparisons are written so that NaN is not accepted
+        if (!(theta >= 0 && theta <= pi) || !std::isfinite(phi) || !std::isfinite(psi)) {
+            std::cerr << corenum << " : Illegal pointing: phi = " << phi
+                      << ", theta = " << theta << ", psi = " << psi << std::endl;
+            my_illegal = 1;
+            break;
         }
     }
+    mpiMgr.allreduce(my_illegal, illegal, mpiMgr.Max);
+    if (illegal) {
+        throw std::runtime_error("convolver::convolve: Illegal pointing: theta is not in "
+                                 "0..pi or an angle is not finite");
+    }
 
     // distribute the co-latitudes.
 
-- 
2.43.0


From 3321a01dd88b4feb32b549adeac53fc3784d5a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 04/21] fix: keep the latitude histogram inside its table

A co-latitude of pi/2 was counted one past the last bin, and the search for the
limits read one past the end.
---
 src/conviqt_math.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index f25952c..8524fe9 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -291,7 +291,8 @@ void convolver::distribute_colatitudes(levels::arr<double> &pntarr,
         if (beta > halfpi) {
             beta = pi - beta;
         }
-        long ibin = beta / wbin;
+        // The equator belongs to the last bin
+        long ibin = std::min(long(beta / wbin), nbin - 1);
         ++my_hits[ibin];
     }
 
@@ -307,7 +308,7 @@ void convolver::distribute_colatitudes(levels::arr<double> &pntarr,
         double divisor = cores - corenum + 1;
         double nhit_target = nhitleft / divisor;
         long bin_hit = 0;
-        while (ibin < nbin) {
+        while (ibin < nbin - 1) {
             ++ibin;
             // Skip over isolatitudes that have no hits
             if (hits[ibin] != 0) {
-- 
2.43.0


From 144726941566ebc88df7ecc945b7150d50810db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 05/21] fix: beam::read honours the requested mmax instead of
 using lmax

---
 src/conviqt_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conviqt_io.cpp b/src/conviqt_io.cpp
index ebd7413..3e687f8 100644
--- a/src/conviqt_io.cpp
+++ b/src/conviqt_io.cpp
@@ -45,7 +45,7 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
     }
     // mmax
     if (beammmax > 0) {
-        mmax = beamlmax;
+        mmax = beammmax;
     } else {
         mmax = std::min((int)lmax, mmax_file);
     }
-- 
2.43.0


From fe25749964e91d85220e764c8403b25b13a7a129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 06/21] fix: loading coefficients into a beam clears its
 normalized state

---
 src/conviqt_io.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/conviqt_io.cpp b/src/conviqt_io.cpp
index 3e687f8..7a86513 100644
--- a/src/conviqt_io.cpp
+++ b/src/conviqt_io.cpp
@@ -19,6 +19,8 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
         std::cout << "Reading " << infile_beam << " on task = " << rank << std::endl;
     }
 
+    // The coefficients about to be loaded have not been normalized
+    normalized_ = false;
     pol = beampol;
     int lmax_file, mmax_file;
     if (rank == 0) {
-- 
2.43.0


From d3188a6e98944a7df67a1e9dac3e898ea086cd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 07/21] fix: never use expansion orders that the sky and beam
 do not hold

The default lmax was the larger of the two, exchanged or reloaded inputs were
not checked, and lmax = 0, mmax > lmax and orders beyond the grid were accepted.
---
 src/conviqt.hpp      |  2 ++
 src/conviqt_math.cpp | 44 +++++++++++++++++++++++++++++++++++---------
 2 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/conviqt.hpp b/src/conviqt.hpp
index c73594f..1cdd2cc 100644
--- a/src/conviqt.hpp
+++ b/src/conviqt.hpp
@@ -172,6 +172,8 @@ private :
         n_distribute_colatitudes, n_conviqt_hemiscm_pol,
         n_alltoall_datacube, n_sort, n_fillingBetaSeg;
 
+    void check_orders(sky *s, beam *b);
+
     void weight_ncm_initialize();
     void weight_ncm(double x, std::vector<double> &wgt);
 
diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index 8524fe9..fd0b16f 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -119,19 +119,18 @@ convolver::convolver(sky *s, beam *b, detector *d, bool pol,
     cores = mpiMgr.num_ranks();
     corenum = mpiMgr.rank();
 
-    const int lmax_sky = s->get_lmax();
-    const int lmax_beam = b->get_lmax();
     if (lmax < 0) {
-        this->lmax = std::max(lmax_beam, lmax_sky);
-    } else if (lmax > lmax_sky || lmax > lmax_beam) {
-        throw std::runtime_error("Convolver lmax exceeds input expansion order.");
+        this->lmax = std::min(s->get_lmax(), b->get_lmax());
     }
 
-    const int mmax_beam = b->get_mmax();
     if (beammmax < 0) {
-        this->beammmax = mmax_beam;
-    } else if (beammmax > mmax_beam) {
-        throw std::runtime_error("Convolver mmax exceeds input expansion order.");
+        this->beammmax = std::min((long)b->get_mmax(), this->lmax);
+    }
+
+    check_orders(s, b);
+
+    if (order < 0 || order > 2 * this->lmax) {
+        throw std::runtime_error("Convolver interpolation order does not fit the grid.");
     }
 
     // data cube gridding
@@ -196,8 +195,30 @@ convolver::convolver(sky *s, beam *b, detector *d, bool pol,
 }
 
 
+void convolver::check_orders(sky *s, beam *b) {
+    /*
+      The data cube is only defined for positive lmax and beammmax <= lmax
+      and every order that is used must be available in the inputs.
+    */
+    if (lmax <= 0) {
+        throw std::runtime_error("Convolver lmax must be positive.");
+    }
+    if (lmax > s->get_lmax() || lmax > b->get_lmax()) {
+        throw std::runtime_error("Convolver lmax exceeds input expansion order.");
+    }
+    if (beammmax < 0 || beammmax > lmax) {
+        throw std::runtime_error("Convolver mmax must be between 0 and lmax.");
+    }
+    if (beammmax > b->get_mmax()) {
+        throw std::runtime_error("Convolver mmax exceeds input expansion order.");
+    }
+}
+
+
 int convolver::set_sky(sky *s) {
 
+  check_orders(s, b);
+
   this->s = s;
 
   return 0;
@@ -205,6 +226,8 @@ int convolver::set_sky(sky *s) {
 
 int convolver::set_beam(beam *b) {
 
+  check_orders(s, b);
+
   this->b = b;
 
   return 0;
@@ -1476,6 +1499,9 @@ void convolver::arrFillingcm(long ntod,
 
 int convolver::convolve(pointing &pntarr, bool calibrate) {
 
+    // The inputs may have been reloaded since they were set
+    check_orders(s, b);
+
     mpiMgr.barrier();
 
     if (verbosity > 5 or (corenum == 0 and verbosity > 0)) {
-- 
2.43.0


From 0cf3aaad53df1ae129da084ed154ab1fc7536d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 08/21] fix: give every member of beam, sky and detector a
 definite initial value

---
 src/conviqt.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/conviqt.hpp b/src/conviqt.hpp
index 1cdd2cc..049470b 100644
--- a/src/conviqt.hpp
+++ b/src/conviqt.hpp
@@ -53,8 +53,9 @@ public :
 private :
     Alm< xcomplex<float> > blmT_, blmG_, blmC_;
     bool normalized_;
-    long lmax, mmax;
-    bool pol;
+    // Nothing is available before the first read
+    long lmax = -1, mmax = -1;
+    bool pol = false;
     int verbosity = 0;
     std::string fname;
 };
@@ -78,9 +79,10 @@ public :
     void remove_dipole(void);
 private :
     Alm< xcomplex<float> > slmT_, slmG_, slmC_;
-    long lmax;
-    bool pol;
-    double fwhm_deconv;
+    // Nothing is available before the first read
+    long lmax = -1;
+    bool pol = false;
+    double fwhm_deconv = 0;
     int verbosity = 0;
     std::string fname;
 };
@@ -113,7 +115,7 @@ public :
 private :
 
     std::string det_id_;
-    double epsilon_;
+    double epsilon_ = 0;
     int verbosity = 0;
 
 };
-- 
2.43.0


From cf2986083b319014af502cf2efd1715f641799e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 09/21] fix: a failure to read an input file is raised on every
 rank

Only rank 0 opened the file and threw, leaving the other ranks in a broadcast.
---
 src/conviqt_io.cpp | 70 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 54 insertions(+), 16 deletions(-)

diff --git a/src/conviqt_io.cpp b/src/conviqt_io.cpp
index 7a86513..df66e05 100644
--- a/src/conviqt_io.cpp
+++ b/src/conviqt_io.cpp
@@ -23,13 +23,24 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
     normalized_ = false;
     pol = beampol;
     int lmax_file, mmax_file;
+    // Only the first process reads the file.  The others must learn about a
+    // failure or they would wait for the coefficients.
+    int failed = 0;
     if (rank == 0) {
-        if (pol) {
-            get_almsize_pol(infile_beam, lmax_file, mmax_file);
-        } else {
-            get_almsize(infile_beam, lmax_file, mmax_file);
+        try {
+            if (pol) {
+                get_almsize_pol(infile_beam, lmax_file, mmax_file);
+            } else {
+                get_almsize(infile_beam, lmax_file, mmax_file);
+            }
+        } catch (...) {
+            failed = 1;
         }
     }
+    mpiMgr.bcast(failed);
+    if (failed) {
+        throw std::runtime_error("Failed to read the expansion order from " + infile_beam);
+    }
     mpiMgr.bcast(lmax_file);
     mpiMgr.bcast(mmax_file);
     // Ensure that the beam in the file has a high enough expansion order.
@@ -62,15 +73,23 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
     long blmsize = (mmax + 1) * (mmax + 2) + 2 * (mmax + 1) * (lmax - mmax);
 
     if (rank == 0) {
-        if (pol) {
-            read_Alm_from_fits(infile_beam, blmT_, blmG_, blmC_, lmax, mmax);
-        } else {
-            read_Alm_from_fits(infile_beam, blmT_, lmax, mmax);
+        try {
+            if (pol) {
+                read_Alm_from_fits(infile_beam, blmT_, blmG_, blmC_, lmax, mmax);
+            } else {
+                read_Alm_from_fits(infile_beam, blmT_, lmax, mmax);
+            }
+        } catch (...) {
+            failed = 1;
         }
         if (verbosity > 5) {
             std::cout << "Done reading beam alms on task = " << rank << std::endl;
         }
     }
+    mpiMgr.bcast(failed);
+    if (failed) {
+        throw std::runtime_error("Failed to read the expansion from " + infile_beam);
+    }
 
     mpiMgr.bcastRaw(&blmT_(0, 0).re, blmsize, 0);
     if (pol) {
@@ -116,13 +135,24 @@ int sky::read(long skylmax, bool skypol,
 
     pol = skypol;
     int lmax_file, mmax_file;
+    // Only the first process reads the file.  The others must learn about a
+    // failure or they would wait for the coefficients.
+    int failed = 0;
     if (rank == 0) {
-        if (pol) {
-            get_almsize_pol(infile_sky, lmax_file, mmax_file);
-        } else {
-            get_almsize(infile_sky, lmax_file, mmax_file);
+        try {
+            if (pol) {
+                get_almsize_pol(infile_sky, lmax_file, mmax_file);
+            } else {
+                get_almsize(infile_sky, lmax_file, mmax_file);
+            }
+        } catch (...) {
+            failed = 1;
         }
     }
+    mpiMgr.bcast(failed);
+    if (failed) {
+        throw std::runtime_error("Failed to read the expansion order from " + infile_sky);
+    }
     mpiMgr.bcast(lmax_file);
     mpiMgr.bcast(mmax_file);
     // If user provided skylmax, ensure that the file has high enough
@@ -152,15 +182,23 @@ int sky::read(long skylmax, bool skypol,
     long slmsize = (lmax + 1) * (lmax + 2);
 
     if (rank == 0) {
-        if (pol) {
-            read_Alm_from_fits(infile_sky, slmT_, slmG_, slmC_, lmax, mmax);
-        } else {
-            read_Alm_from_fits (infile_sky, slmT_, lmax, mmax);
+        try {
+            if (pol) {
+                read_Alm_from_fits(infile_sky, slmT_, slmG_, slmC_, lmax, mmax);
+            } else {
+                read_Alm_from_fits (infile_sky, slmT_, lmax, mmax);
+            }
+        } catch (...) {
+            failed = 1;
         }
         if (verbosity > 5) {
             std::cout << "Done reading sky alms on task = " << rank << std::endl;
         }
     }
+    mpiMgr.bcast(failed);
+    if (failed) {
+        throw std::runtime_error("Failed to read the expansion from " + infile_sky);
+    }
 
     mpiMgr.bcastRaw(&slmT_(0, 0).re, slmsize, 0);
     if (pol) {
-- 
2.43.0


From 659b0c1c64f2b97525371acda27b0b9069938e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 10/21] fix: a failed load leaves the object empty instead of
 inconsistent

Polarization and expansion orders were set before the load could fail, after
which the components they promise were not there.
---
 src/conviqt_io.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/conviqt_io.cpp b/src/conviqt_io.cpp
index df66e05..3ae3f2f 100644
--- a/src/conviqt_io.cpp
+++ b/src/conviqt_io.cpp
@@ -21,7 +21,12 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
 
     // The coefficients about to be loaded have not been normalized
     normalized_ = false;
-    pol = beampol;
+    // The object offers nothing until the load is complete
+    this->lmax = -1;
+    this->mmax = -1;
+    this->pol = false;
+    const bool pol = beampol;
+    long lmax, mmax;
     int lmax_file, mmax_file;
     // Only the first process reads the file.  The others must learn about a
     // failure or they would wait for the coefficients.
@@ -97,6 +102,10 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
         mpiMgr.bcastRaw(&blmC_(0, 0).re, blmsize, 0);
     }
 
+    this->lmax = lmax;
+    this->mmax = mmax;
+    this->pol = pol;
+
     return 0;
 }
 
@@ -133,7 +142,11 @@ int sky::read(long skylmax, bool skypol,
         std::cout << "Reading " << infile_sky << " on task = " << rank << std::endl;
     }
 
-    pol = skypol;
+    // The object offers nothing until the load is complete
+    this->lmax = -1;
+    this->pol = false;
+    const bool pol = skypol;
+    long lmax;
     int lmax_file, mmax_file;
     // Only the first process reads the file.  The others must learn about a
     // failure or they would wait for the coefficients.
@@ -213,6 +226,9 @@ int sky::read(long skylmax, bool skypol,
         smoothWithGauss (slmT_, -fwhm);
     }
 
+    this->lmax = lmax;
+    this->pol = pol;
+
     return 0;
 }
 
-- 
2.43.0


From e4c116d797003c74a56b7c8d71e1b5be97831182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 11/21] fix: the Python wrapper notices every failure and keeps
 its inputs alive

NULL from conviqt_convolver_new reaches Python as None, not 0; several results
were not checked, and the sky, beam and detector of a convolver could be
garbage collected while it still used them.
---
 python/libconviqt_wrapper/__init__.py | 72 ++++++++++++++++++++-------
 1 file changed, 53 insertions(+), 19 deletions(-)

diff --git a/python/libconviqt_wrapper/__init__.py b/python/libconviqt_wrapper/__init__.py
index fd55395..7cedb9c 100644
--- a/python/libconviqt_wrapper/__init__.py
+++ b/python/libconviqt_wrapper/__init__.py
@@ -45,6 +45,11 @@ if available:
         comm_ptr = MPI._addressof(comm)
         return MPI_Comm.from_address(comm_ptr)
 
+    def check_data(ptr):
+        if ptr is None:
+            raise RuntimeError("Failed to access the expansion coefficients")
+        return ptr
+
     # Beam functions
 
     _conviqt.conviqt_beam_new.restype = ct.c_void_p
@@ -91,6 +96,8 @@ if available:
 
         def __init__(self, lmax, mmax, pol, beamfile, comm):
             self._beam = _conviqt.conviqt_beam_new()
+            if self._beam is None:
+                raise RuntimeError("Failed to instantiate beam")
             self._pol = pol
             err = _conviqt.conviqt_beam_read(
                 self._beam, lmax, mmax, pol, beamfile.encode(), encode_comm(comm)
@@ -109,10 +116,16 @@ if available:
                 )
 
         def lmax(self):
-            return _conviqt.conviqt_beam_lmax(self._beam)
+            lmax = _conviqt.conviqt_beam_lmax(self._beam)
+            if lmax < 0:
+                raise RuntimeError("Failed to query beam lmax")
+            return lmax
 
         def mmax(self):
-            return _conviqt.conviqt_beam_mmax(self._beam)
+            mmax = _conviqt.conviqt_beam_mmax(self._beam)
+            if mmax < 0:
+                raise RuntimeError("Failed to query beam mmax")
+            return mmax
 
         def normalize(self):
             scale = _conviqt.conviqt_beam_normalize(self._beam)
@@ -136,16 +149,16 @@ if available:
             """Return a list of NDArrays with copies of the b_lm"""
             nelem = self.num_alms() * 2
             arr = ct.cast(
-                _conviqt.conviqt_beam_Tdata(self._beam), ct.POINTER(ct.c_float)
+                check_data(_conviqt.conviqt_beam_Tdata(self._beam)), ct.POINTER(ct.c_float)
             )
             result = [np.array(arr[0:nelem:2]) + 1j * np.array(arr[1:nelem:2])]
             if self._pol:
                 arr = ct.cast(
-                    _conviqt.conviqt_beam_Gdata(self._beam), ct.POINTER(ct.c_float)
+                    check_data(_conviqt.conviqt_beam_Gdata(self._beam)), ct.POINTER(ct.c_float)
                 )
                 result.append(np.array(arr[0:nelem:2]) + 1j * np.array(arr[1:nelem:2]))
                 arr = ct.cast(
-                    _conviqt.conviqt_beam_Cdata(self._beam), ct.POINTER(ct.c_float)
+                    check_data(_conviqt.conviqt_beam_Cdata(self._beam)), ct.POINTER(ct.c_float)
                 )
                 result.append(np.array(arr[0:nelem:2]) + 1j * np.array(arr[1:nelem:2]))
             return result
@@ -157,7 +170,7 @@ if available:
             if nelem_in != nelem:
                 raise RuntimeError(f"Cannot set {nelem} b_lm with {nelem_in} values")
             arr = ct.cast(
-                _conviqt.conviqt_beam_Tdata(self._beam), ct.POINTER(ct.c_float)
+                check_data(_conviqt.conviqt_beam_Tdata(self._beam)), ct.POINTER(ct.c_float)
             )
             nelem *= 2  # Count real and imaginary parts separately
             ReplaceType = ct.c_float * (nelem)
@@ -167,13 +180,13 @@ if available:
             ct.memmove(arr, replace, nelem * ct.sizeof(ct.c_float))
             if self._pol:
                 arr = ct.cast(
-                    _conviqt.conviqt_beam_Gdata(self._beam), ct.POINTER(ct.c_float)
+                    check_data(_conviqt.conviqt_beam_Gdata(self._beam)), ct.POINTER(ct.c_float)
                 )
                 replace[0:nelem:2] = np.real(blm[1])
                 replace[1:nelem:2] = np.imag(blm[1])
                 ct.memmove(arr, replace, nelem * ct.sizeof(ct.c_float))
                 arr = ct.cast(
-                    _conviqt.conviqt_beam_Cdata(self._beam), ct.POINTER(ct.c_float)
+                    check_data(_conviqt.conviqt_beam_Cdata(self._beam)), ct.POINTER(ct.c_float)
                 )
                 replace[0:nelem:2] = np.real(blm[2])
                 replace[1:nelem:2] = np.imag(blm[2])
@@ -223,6 +236,8 @@ if available:
 
         def __init__(self, lmax, pol, skyfile, fwhm, comm):
             self._sky = _conviqt.conviqt_sky_new()
+            if self._sky is None:
+                raise RuntimeError("Failed to instantiate sky")
             self._pol = pol
             err = _conviqt.conviqt_sky_read(
                 self._sky, lmax, pol, skyfile.encode(), fwhm, encode_comm(comm)
@@ -239,13 +254,20 @@ if available:
                 print('WARNING: failed to free conviqt sky: "{}"'.format(e), flush=True)
 
         def lmax(self):
-            return _conviqt.conviqt_sky_lmax(self._sky)
+            lmax = _conviqt.conviqt_sky_lmax(self._sky)
+            if lmax < 0:
+                raise RuntimeError("Failed to query sky lmax")
+            return lmax
 
         def remove_monopole(self):
             err = _conviqt.conviqt_sky_remove_monopole(self._sky)
+            if err != 0:
+                raise RuntimeError("Failed to remove the monopole")
 
         def remove_dipole(self):
             err = _conviqt.conviqt_sky_remove_dipole(self._sky)
+            if err != 0:
+                raise RuntimeError("Failed to remove the dipole")
 
         def num_alms(self):
             lmax = self.lmax()
@@ -255,15 +277,15 @@ if available:
         def get_data(self):
             """Return a list of NDArrays with copies of the s_lm"""
             nelem = self.num_alms() * 2
-            arr = ct.cast(_conviqt.conviqt_sky_Tdata(self._sky), ct.POINTER(ct.c_float))
+            arr = ct.cast(check_data(_conviqt.conviqt_sky_Tdata(self._sky)), ct.POINTER(ct.c_float))
             result = [np.array(arr[0:nelem:2]) + 1j * np.array(arr[1:nelem:2])]
             if self._pol:
                 arr = ct.cast(
-                    _conviqt.conviqt_sky_Gdata(self._sky), ct.POINTER(ct.c_float)
+                    check_data(_conviqt.conviqt_sky_Gdata(self._sky)), ct.POINTER(ct.c_float)
                 )
                 result.append(np.array(arr[0:nelem:2]) + 1j * np.array(arr[1:nelem:2]))
                 arr = ct.cast(
-                    _conviqt.conviqt_sky_Cdata(self._sky), ct.POINTER(ct.c_float)
+                    check_data(_conviqt.conviqt_sky_Cdata(self._sky)), ct.POINTER(ct.c_float)
                 )
                 result.append(np.array(arr[0:nelem:2]) + 1j * np.array(arr[1:nelem:2]))
             return result
@@ -274,7 +296,7 @@ if available:
             nelem_in = slm[0].size
             if nelem_in != nelem:
                 raise RuntimeError(f"Cannot set {nelem} s_lm with {nelem_in} values")
-            arr = ct.cast(_conviqt.conviqt_sky_Tdata(self._sky), ct.POINTER(ct.c_float))
+            arr = ct.cast(check_data(_conviqt.conviqt_sky_Tdata(self._sky)), ct.POINTER(ct.c_float))
             nelem *= 2  # Count real and imaginary parts separately
             ReplaceType = ct.c_float * (nelem)
             replace = ReplaceType()
@@ -283,13 +305,13 @@ if available:
             ct.memmove(arr, replace, nelem * ct.sizeof(ct.c_float))
             if self._pol:
                 arr = ct.cast(
-                    _conviqt.conviqt_sky_Gdata(self._sky), ct.POINTER(ct.c_float)
+                    check_data(_conviqt.conviqt_sky_Gdata(self._sky)), ct.POINTER(ct.c_float)
                 )
                 replace[0:nelem:2] = np.real(slm[1])
                 replace[1:nelem:2] = np.imag(slm[1])
                 ct.memmove(arr, replace, nelem * ct.sizeof(ct.c_float))
                 arr = ct.cast(
-                    _conviqt.conviqt_sky_Cdata(self._sky), ct.POINTER(ct.c_float)
+                    check_data(_conviqt.conviqt_sky_Cdata(self._sky)), ct.POINTER(ct.c_float)
                 )
                 replace[0:nelem:2] = np.real(slm[2])
                 replace[1:nelem:2] = np.imag(slm[2])
@@ -329,6 +351,8 @@ if available:
                 self._det = _conviqt.conviqt_detector_new()
             else:
                 self._det = _conviqt.conviqt_detector_new_with_id(name.encode())
+            if self._det is None:
+                raise RuntimeError("Failed to instantiate detector")
             if epsilon is not None:
                 self.set_epsilon(epsilon)
 
@@ -357,7 +381,9 @@ if available:
 
         def get_id(self):
             s = ct.create_string_buffer(1024)
-            _conviqt.conviqt_detector_get_id(self._det, s)
+            err = _conviqt.conviqt_detector_get_id(self._det, s)
+            if err != 0:
+                raise RuntimeError("Failed to get detector ID")
             return s.value
 
     # Pointing functions
@@ -384,6 +410,8 @@ if available:
 
         def __init__(self, nrow=None):
             self._pnt = _conviqt.conviqt_pointing_new()
+            if self._pnt is None:
+                raise RuntimeError("Failed to instantiate pointing")
             if nrow is not None:
                 self.alloc(nrow)
 
@@ -399,15 +427,19 @@ if available:
                 )
 
         def alloc(self, nrow):
-            self._nrow = nrow
-            err = _conviqt.conviqt_pointing_alloc(self._pnt, self._nrow * self._ncol)
+            err = _conviqt.conviqt_pointing_alloc(self._pnt, nrow * self._ncol)
             if err != 0:
                 raise RuntimeError(
                     "Failed to allocate {} rows to pointing".format(nrow)
                 )
+            self._nrow = nrow
 
         def data(self):
+            if self._nrow == 0:
+                return np.zeros((0, self._ncol))
             buf = _conviqt.conviqt_pointing_data(self._pnt)
+            if not buf:
+                raise RuntimeError("Failed to access the pointing")
             arr = np.ctypeslib.as_array(buf, shape=(self._nrow, self._ncol))
             return arr
 
@@ -440,6 +472,8 @@ if available:
         def __init__(
             self, sky, beam, detector, pol, lmax, mmax, order, verbosity, comm
         ):
+            # The C object only holds pointers to its inputs
+            self._inputs = (sky, beam, detector)
             self._conv = _conviqt.conviqt_convolver_new(
                 sky._sky,
                 beam._beam,
@@ -451,7 +485,7 @@ if available:
                 verbosity,
                 encode_comm(comm),
             )
-            if self._conv == 0:
+            if self._conv is None:
                 raise RuntimeError("Failed to instantiate convolver")
 
         def __del__(self):
-- 
2.43.0


From ad102924814e4695ff345e9c53d6e42c38205352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 12/21] fix: refuse FITS names that do not fit into their
 buffers

---
 levels/cxxsupport/fitshandle.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index bf770f7..745f5c9 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -306,6 +306,7 @@ void fitshandle::open (const string &fname)
   fitsfile *ptr=NULL;
   // Fixed a Valgrind error by using a fixed length char array for the file name
   char fn[FLEN_FILENAME];
+  levels_assert(fname.length()<FLEN_FILENAME,"FITS file name too long");
   std::copy(fname.begin(), fname.end(), fn);
   fn[ fname.length() ] = '\0';
   //fits_open_file(&ptr, fname.c_str(), READONLY, &status);
@@ -383,6 +384,8 @@ void fitshandle::insert_bintab (const vector<fitscolumn> &cols,
 
   for (long m=0; m<ncol; ++m)
     {
+    levels_assert((cols[m].name().length()<81)&&(cols[m].unit().length()<81),
+      "FITS column name or unit too long");
     strcpy (ttype[m], cols[m].name().c_str());
     strcpy (tunit[m], cols[m].unit().c_str());
     ostringstream x;
@@ -404,6 +407,8 @@ void fitshandle::insert_asctab (const vector<fitscolumn> &cols,
 
   for (long m=0; m<ncol; ++m)
     {
+    levels_assert((cols[m].name().length()<81)&&(cols[m].unit().length()<81),
+      "FITS column name or unit too long");
     strcpy (ttype[m], cols[m].name().c_str());
     strcpy (tunit[m], cols[m].unit().c_str());
     ostringstream x;
-- 
2.43.0


From 5301c26fc090639494eb0a3d73ceabd9b4f8f604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 13/21] fix: a failure to close a FITS file neither terminates
 nor closes twice

---
 levels/cxxsupport/fitshandle.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index 745f5c9..137f665 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -180,8 +180,8 @@ void fitshandle::clean_all()
   if (!fptr) return;
   clean_data();
   fits_close_file (FPTR, &status);
-  check_errors();
   fptr=0;
+  check_errors();
   }
 
 bool fitshandle::table_hdu (tsize col) const
@@ -298,7 +298,10 @@ fitshandle::fitshandle ()
   : status(0), fptr(0), hdutype_(INVALID), bitpix_(INVALID), nrows_(0) {}
 
 fitshandle::~fitshandle()
-  { clean_all(); }
+  {
+  // a destructor must not throw; check_errors() has already reported the error
+  try { clean_all(); } catch (...) {}
+  }
 
 void fitshandle::open (const string &fname)
   {
-- 
2.43.0


From 7df50ead40bec7bdb019c91ba1aab4013fe0ba42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 14/21] fix: check the FITS status before using what the call
 returned

---
 levels/cxxsupport/fitshandle.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index 137f665..4640a6d 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -512,8 +512,8 @@ int64 fitshandle::efficientChunkSize(int i) const
   levels_assert(table_hdu(1),"incorrect FITS table access");
   long int res;
   fits_get_rowsize(FPTR, &res, &status);
-  levels_assert(res>=1,"bad recommended FITS chunk size");
   check_errors();
+  levels_assert(res>=1,"bad recommended FITS chunk size");
   return res*columns_[i-1].repcount();
   }
 
@@ -681,6 +681,7 @@ void fitshandle::read_column_raw_void
                         safe_cast<tsize>(columns_[colnum-1].repcount()+1));
       int dispwidth;
       fits_get_col_display_width(FPTR, colnum, &dispwidth, &status);
+      check_errors();
       levels_assert(dispwidth<=columns_[colnum-1].repcount(),"column too wide");
       fits_read_col (FPTR, TSTRING, colnum, offset+1, 1, num,
         0, tdata.p0(), 0, &status);
-- 
2.43.0


From 05d3656303fb9f8a3ce429ce694c4c91bf68c592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 15/21] fix: do not leak the name buffer when
 fitshandle::fileName fails

---
 levels/cxxsupport/fitshandle.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index 4640a6d..7b69d97 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -350,12 +350,10 @@ void fitshandle::delete_file (const string &name)
 string fitshandle::fileName() const
   {
   levels_assert(connected(),"handle not connected to a file");
-  char *fname = new char[2048];
+  char fname[FLEN_FILENAME];
   fits_file_name(FPTR, fname, &status);
   check_errors();
-  string result(fname);
-  delete[] fname;
-  return result;
+  return string(fname);
   }
 
 void fitshandle::goto_hdu (int hdu)
-- 
2.43.0


From 2c010f63c8a2ccc1cf6579c44d123a52b449589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 16/21] fix: gather all elements, not just the first of every
 rank

---
 levels/cxxsupport/mpi_support.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/levels/cxxsupport/mpi_support.cc b/levels/cxxsupport/mpi_support.cc
index 117052e..77f2859 100644
--- a/levels/cxxsupport/mpi_support.cc
+++ b/levels/cxxsupport/mpi_support.cc
@@ -233,7 +233,7 @@ void MPI_Manager::gatherRawVoid (const void *in, tsize num, void *out, NDT type,
   {
   assert_unequal(in,out);
   MPI_Datatype dtype = ndt2mpi(type);
-  MPI_Gather(const_cast<void *>(in),1,dtype,out,num,dtype,root,LS_COMM);
+  MPI_Gather(const_cast<void *>(in),num,dtype,out,num,dtype,root,LS_COMM);
   }
 void MPI_Manager::gathervRawVoid (const void *in, tsize num, void *out,
   const int *nval, const int *offset, NDT type) const
-- 
2.43.0


From 4eeec7202ef32a121a7d0c1288d179aa75e2eb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 17/21] fix: reject a_lm indices that denote no (l,m) before
 decoding them

---
 levels/Healpix_cxx/alm_fitsio.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/levels/Healpix_cxx/alm_fitsio.cc b/levels/Healpix_cxx/alm_fitsio.cc
index efc8fc5..ab25553 100644
--- a/levels/Healpix_cxx/alm_fitsio.cc
+++ b/levels/Healpix_cxx/alm_fitsio.cc
@@ -62,6 +62,7 @@ void get_almsize(fitshandle &inp, int &lmax, int &mmax)
 
     for (tsize i=0; i<ppix; ++i)
       {
+      levels_assert(index[i]>0,"illegal a_lm index encountered");
       int l = isqrt(index[i]-1);
       int m = index[i] - l*l - l - 1;
       if (l>lmax) lmax=l;
@@ -117,6 +118,7 @@ template<typename T> void read_Alm_from_fits
       {
       if (index[i]>max_index) continue;
 
+      levels_assert(index[i]>0,"illegal a_lm index encountered");
       int l = isqrt(index[i]-1);
       int m = index[i] - l*l - l - 1;
       levels_assert(m>=0,"negative m encountered");
-- 
2.43.0


From af688d2b8a5d64753ec243a3d1631e94a96087be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 18/21] fix: declare conviqt_detector_set_id, which the library
 exports

---
 src/cconviqt.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cconviqt.h b/src/cconviqt.h
index 7016b11..ff6bf09 100644
--- a/src/cconviqt.h
+++ b/src/cconviqt.h
@@ -60,6 +60,8 @@ extern "C" {
 
   int conviqt_detector_get_epsilon(void *ptr, double *epsilon);
 
+  int conviqt_detector_set_id(void *ptr, char *det_id);
+
   int conviqt_detector_get_id(void *ptr, char *det_id);
 
   // Pointing
-- 
2.43.0


From b65f90342973bec8f9b369725e13f92cb042556d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 19/21] fix: an unloaded beam has defined coefficients and
 nothing to normalize

---
 levels/Healpix_cxx/ls_alm.h | 3 ++-
 src/conviqt_math.cpp        | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/levels/Healpix_cxx/ls_alm.h b/levels/Healpix_cxx/ls_alm.h
index d3b6ad8..98b98ed 100644
--- a/levels/Healpix_cxx/ls_alm.h
+++ b/levels/Healpix_cxx/ls_alm.h
@@ -94,7 +94,8 @@ template<typename T> class Alm: public Alm_Base
   public:
     /*! Constructs an Alm object with given \a lmax and \a mmax. */
     Alm (int lmax_=0, int mmax_=0)
-      : Alm_Base(lmax_,mmax_), alm (Num_Alms(lmax,mmax)) {}
+      : Alm_Base(lmax_,mmax_), alm (Num_Alms(lmax,mmax))
+      { SetToZero(); }
 
     /*! Deletes the old coefficients and allocates storage according to
         \a lmax and \a mmax. */
diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index fd0b16f..a818b48 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -71,7 +71,7 @@ double beam::normalize() {
         return 1.0;
     }
     double scale = 0;
-    if (blmT_.Lmax() >= 0) {
+    if (lmax >= 0) {
         double b00 = blmT_(0, 0).re;
         double current_norm = 2 * sqrt(pi) * b00;
         scale = 1.0 / current_norm;
-- 
2.43.0


From 28d1e561bd02596df7d35d7a49d30c84b7c81fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:36 +0000
Subject: [PATCH 20/21] fix: an array whose reallocation fails does not free
 its memory twice

---
 levels/cxxsupport/ls_arr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/levels/cxxsupport/ls_arr.h b/levels/cxxsupport/ls_arr.h
index 1caf44a..1f41fb3 100644
--- a/levels/cxxsupport/ls_arr.h
+++ b/levels/cxxsupport/ls_arr.h
@@ -220,9 +220,9 @@ template <typename T, typename storageManager> class arrT: public arr_ref<T>
       {
       if (sz==this->s) return;
       if (own) stm.dealloc(this->d);
-      this->s = sz;
+      reset();
       this->d = stm.alloc(sz);
-      own = true;
+      this->s = sz;
       }
     /*! Allocates space for \a sz elements. If \a sz is the
         same as the current size, no reallocation is performed.
-- 
2.43.0


From 2ea1ccc5919f053c75fc25199c334d32ab4ff4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:44 +0000
Subject: [PATCH 21/21] fix: fitshandle objects must not be copied: a copy
 closed the same file again

---
 levels/cxxsupport/ls_fitshandle.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/levels/cxxsupport/ls_fitshandle.h b/levels/cxxsupport/ls_fitshandle.h
index 509c601..06f7a0d 100644
--- a/levels/cxxsupport/ls_fitshandle.h
+++ b/levels/cxxsupport/ls_fitshandle.h
@@ -81,6 +81,10 @@ class fitshandle
     std::vector<fitscolumn> columns_;
     int64 nrows_;
 
+    // the open file belongs to one object; not implemented
+    fitshandle (const fitshandle &);
+    fitshandle &operator= (const fitshandle &);
+
     void check_errors() const;
 
     void clean_data();
-- 
2.43.0

