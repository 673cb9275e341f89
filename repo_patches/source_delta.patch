From cc3be3aca8d6bec62927877dbcdde79a767985d3 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 01/33] fix: overwritten stack when the distribution function
 throws an exception in phase-space integration

---
 src/galaxymodel_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/galaxymodel_base.cpp b/src/galaxymodel_base.cpp
index 5439d05..0c67cc2 100644
--- a/src/galaxymodel_base.cpp
+++ b/src/galaxymodel_base.cpp
@@ -276,7 +276,7 @@ public:
         }
         catch(std::exception& e) {
             FILTERMSG(utils::VL_WARNING, "DFIntegrandNdim", std::string(e.what()));
-            std::fill(sf, df + npoints * dflen, 0);  // quietly replace output with zeroes
+            std::fill(df, df + npoints * dflen, 0);  // quietly replace output with zeroes
         }
 
         // 5. perform actual calculation of output values for each [valid and selected] input point
-- 
2.43.0


From f00763914a47154adafa8e0052ec02b54120a27a Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 02/33] fix: raise an exception instead of an assertion failure
 when constructing Density/Potential from an invalid user function

---
 src/interface_python.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index 72ee59c..da6079d 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -1781,7 +1781,9 @@ int Density_init(DensityObject* self, PyObject* args, PyObject* namedArgs)
             {   // then create a C++ wrapper for this Python function with the prescribed symmetry
                 self->dens = potential::PtrDensity(new DensityWrapper(arg,
                     potential::getSymmetryTypeByName(toString(namedArg))));
-            }
+            } else if(!PyErr_Occurred())
+                PyErr_SetString(PyExc_TypeError, "Invalid arguments passed to the constructor "
+                    "(should be a user-defined function and symmetry), type help(Density) for details");
         } else
             PyErr_SetString(PyExc_TypeError, "Invalid arguments passed to the constructor "
                 "(cannot mix positional and named arguments), type help(Density) for details");
@@ -2718,7 +2720,9 @@ int Potential_init(PotentialObject* self, PyObject* args, PyObject* namedArgs)
             {   // then create a C++ wrapper for this Python function with the prescribed symmetry
                 self->pot = potential::PtrPotential(new PotentialWrapper(arg,
                     potential::getSymmetryTypeByName(toString(namedArg))));
-            }
+            } else if(!PyErr_Occurred())
+                PyErr_SetString(PyExc_TypeError, "Invalid arguments passed to the constructor "
+                    "(should be a user-defined function and symmetry), type help(Potential) for details");
         } else
             PyErr_SetString(PyExc_TypeError, "Invalid arguments passed to the constructor "
                 "(cannot mix positional and named arguments), type help(Potential) for details");
-- 
2.43.0


From 045d962d153b1284de3e1e6ad9e57af664ee2a1b Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 03/33] fix: unsynchronized assignment of the error message by
 several threads

---
 src/actions_spherical.cpp   |  6 ++++++
 src/actions_staeckel.cpp    |  6 ++++++
 src/galaxymodel_base.cpp    |  3 +++
 src/interface_python.cpp    | 24 ++++++++++++++++++++++++
 src/math_sample.cpp         |  3 +++
 src/potential_cylspline.cpp |  6 ++++++
 src/potential_multipole.cpp |  9 +++++++++
 src/potential_utils.cpp     |  3 +++
 8 files changed, 60 insertions(+)

diff --git a/src/actions_spherical.cpp b/src/actions_spherical.cpp
index 45ccb13..2461850 100644
--- a/src/actions_spherical.cpp
+++ b/src/actions_spherical.cpp
@@ -394,6 +394,9 @@ math::QuinticSpline2d createActionInterpolator(const potential::Interpolator2d&
             // derivative w.r.t. X will be obtained from 1d spline after all W values are computed
         }
         catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMessage = e.what();
         }
     }
@@ -507,6 +510,9 @@ math::QuinticSpline2d createEnergyInterpolator(const potential::Interpolator2d&
             }
         }
         catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMessage = e.what();
         }
     }
diff --git a/src/actions_staeckel.cpp b/src/actions_staeckel.cpp
index ccaa2f8..1b62a42 100644
--- a/src/actions_staeckel.cpp
+++ b/src/actions_staeckel.cpp
@@ -725,6 +725,9 @@ void createGridFocalDistance(
             grid2dR(iE, iL) = Rsh / Rc;
         }
         catch(std::exception& ex) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMessage = ex.what();
         }
     }
@@ -874,6 +877,9 @@ ActionFinderAxisymFudge::ActionFinderAxisymFudge(
             }
         }
         catch(std::exception& ex) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMessage = ex.what();
         }
     }
diff --git a/src/galaxymodel_base.cpp b/src/galaxymodel_base.cpp
index 0c67cc2..d558ba0 100644
--- a/src/galaxymodel_base.cpp
+++ b/src/galaxymodel_base.cpp
@@ -40,6 +40,9 @@ void computeDensityParallel(const potential::BaseDensity& density,
             values[i] = density.density(pos[i]);
         }
         catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMsg = e.what();
             stop = true;
         }
diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index da6079d..0e6eca8 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -1256,6 +1256,9 @@ public:
                         }
                         catch(std::exception& ex)
                         {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
                             errorMessage = ex.what();
                             stop = true;
                         }
@@ -1271,6 +1274,9 @@ public:
                         }
                         catch(std::exception& ex)
                         {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
                             errorMessage = ex.what();
                             stop = true;
                         }
@@ -6193,6 +6199,9 @@ PyObject* Target_value(TargetObject* self, PyObject* args, PyObject* namedArgs)
             }
         }
         catch(std::exception& ex) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMessage = ex.what();
         }
     }
@@ -6413,10 +6422,16 @@ PyObject* ghMoments(PyObject* /*self*/, PyObject* args, PyObject* namedArgs)
                 }
             }
             catch(std::exception& ex) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
                 errorMessage = ex.what();
                 fail = true;
             }
             if(cbrk.triggered()) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
                 errorMessage = cbrk.message();
                 fail = true;
             }
@@ -6466,10 +6481,16 @@ PyObject* ghMoments(PyObject* /*self*/, PyObject* args, PyObject* namedArgs)
                         static_cast<galaxymodel::StorageNumT>(dstrow[m]);
             }
             catch(std::exception& ex) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
                 errorMessage = ex.what();
                 fail = true;
             }
             if(cbrk.triggered()) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
                 errorMessage = cbrk.message();
                 fail = true;
             }
@@ -7861,6 +7882,9 @@ PyObject* orbit(PyObject* /*self*/, PyObject* args, PyObject* namedArgs)
                 // performing any necessary procedures before going out of scope
             }
             catch(std::exception& ex) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
                 errorMessage = ex.what();
                 fail = true;
             }
diff --git a/src/math_sample.cpp b/src/math_sample.cpp
index bd59fdd..e7434cb 100644
--- a/src/math_sample.cpp
+++ b/src/math_sample.cpp
@@ -300,6 +300,9 @@ void Sampler::evalFncLoop(PointEnum firstPointIndex, PointEnum lastPointIndex)
         }
         // guard against possible exceptions, since they must not leave the OpenMP parallel section
         catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMsg = e.what();
             badValueOccured = true;
         }
diff --git a/src/potential_cylspline.cpp b/src/potential_cylspline.cpp
index 4035940..7a4ae77 100644
--- a/src/potential_cylspline.cpp
+++ b/src/potential_cylspline.cpp
@@ -415,6 +415,9 @@ void computePotentialCoefsFromDensity(const BaseDensity &dens,
             }
         }
         catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMsg = e.what();
             stop = true;
         }
@@ -536,6 +539,9 @@ void computePotentialCoefsFromParticles(
                 }
             }
             catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
                 errorMsg = e.what();
                 stop = true;
             }
diff --git a/src/potential_multipole.cpp b/src/potential_multipole.cpp
index 720179e..dbe8d4e 100644
--- a/src/potential_multipole.cpp
+++ b/src/potential_multipole.cpp
@@ -305,6 +305,9 @@ void computeSphericalHarmonicsFromParticles(
                 }
             }
             catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
                 errorMsg = e.what();
                 stop = true;
             }
@@ -889,6 +892,9 @@ void computeDensityCoefsFromParticles(
                 coefs[nonzeroCoefs[h]][k] = splc(gridLogRadii[k]) * coefs[0][k];
         }
         catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMsg = e.what();
             stop = true;
         }
@@ -2097,6 +2103,9 @@ void computePotentialCoefsBSE(
                 }
             }
             catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
                 errorMsg = e.what();
                 stop = true;
             }
diff --git a/src/potential_utils.cpp b/src/potential_utils.cpp
index efbe0e9..5b75e72 100644
--- a/src/potential_utils.cpp
+++ b/src/potential_utils.cpp
@@ -1123,6 +1123,9 @@ Interpolator2d::Interpolator2d(const BasePotential& potential) :
             gridW1dY(iE, sizeL-1) = gridW2dY(iE, sizeL-1) = -2*Om2kap2;
         }
         catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMessage = e.what();
         }
     }
-- 
2.43.0


From bd325d69bf5692f71756d133a68f5286a6e3941e Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 04/33] fix: process terminated when an exception was thrown
 inside parallel loops of Target, JeansAxi and velocity sampler

---
 src/galaxymodel_jeans.cpp           | 28 +++++++++++++++++++
 src/galaxymodel_losvd.cpp           | 42 +++++++++++++++++++++++++++++
 src/galaxymodel_velocitysampler.cpp | 42 +++++++++++++++++++++++++++++
 3 files changed, 112 insertions(+)

diff --git a/src/galaxymodel_jeans.cpp b/src/galaxymodel_jeans.cpp
index 8e7236d..3b6800b 100644
--- a/src/galaxymodel_jeans.cpp
+++ b/src/galaxymodel_jeans.cpp
@@ -131,10 +131,14 @@ JeansAxi::JeansAxi(const potential::BaseDensity &dens, const potential::BasePote
     // perform the integration in z direction at each point of the radial grid
     const int GLORDER = 6;  // order of Gauss-Legendre integration
     const double *glnodes = math::GLPOINTS[GLORDER], *glweights = math::GLWEIGHTS[GLORDER];
+    std::string errorMsg;  // store the error text in case of an exception in the OpenMP block
+    bool stop = false;
 #ifdef _OPENMP
 #pragma omp parallel for schedule(static)
 #endif
     for(int iR=0; iR<gridRsize; iR++) {
+        if(stop) continue;
+        try{
         double R = gridR[iR];
         double result = 0.;
         // sum up integrals over the segments of the grid in z, starting from the outermost one
@@ -157,7 +161,17 @@ JeansAxi::JeansAxi(const potential::BaseDensity &dens, const potential::BasePote
             rhosigmaz2(iR, iz) = result;
             rhoval(iR, iz)     = axiDens.density(coord::PosCyl(R, gridz[iz], 0));
         }
+        }
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMsg = e.what();
+            stop = true;
+        }
     }
+    if(!errorMsg.empty())
+        throw std::runtime_error("JeansAxi: "+errorMsg);
 
 #else
 
@@ -186,10 +200,14 @@ JeansAxi::JeansAxi(const potential::BaseDensity &dens, const potential::BasePote
     // this will represent the integral of r.h.s.
     const math::BsplineInterpolator1d<3> fint(gridfemz);
 
+    std::string errorMsg;  // store the error text in case of an exception in the OpenMP block
+    bool stop = false;
 #ifdef _OPENMP
 #pragma omp parallel for schedule(static)
 #endif
     for(int iR=0; iR<gridRsize; iR++) {
+        if(stop) continue;
+        try{
         double R = gridR[iR];
         std::vector<double> pointrho(femzsize), pointrhs(femzsize);
         // collect values of two functions at integration points
@@ -247,7 +265,17 @@ JeansAxi::JeansAxi(const potential::BaseDensity &dens, const potential::BasePote
             // we wish that sigma_z^2 drops as 1/r in absense of more reliable information
             rhosigmaz2(iR, ez) = rhosigmaz2(iR, iz-1) * pow(gridz[ez] / gridz[iz-1], OUTER_GAMMA-1);
         }
+        }
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMsg = e.what();
+            stop = true;
+        }
     }
+    if(!errorMsg.empty())
+        throw std::runtime_error("JeansAxi: "+errorMsg);
 #endif
 
     for(int iz=0; iz<gridzsize; iz++) {
diff --git a/src/galaxymodel_losvd.cpp b/src/galaxymodel_losvd.cpp
index a7b1701..bc2ecd7 100644
--- a/src/galaxymodel_losvd.cpp
+++ b/src/galaxymodel_losvd.cpp
@@ -462,10 +462,14 @@ void TargetLOSVD<N>::computeDFProjection(const GalaxyModel& model, StorageNumT*
     double* cubedata = datacube.data();
     int numPixels = (bsplx.xvalues().size()-1) * (bsply.xvalues().size()-1);
     // loop over pixels of the 2d B-spline grid in the image plane
+    std::string errorMsg;  // store the error text in case of an exception in the OpenMP block
+    bool stop = false;
 #ifdef _OPENMP
 #pragma omp parallel for schedule(static)
 #endif
     for(int p=0; p<numPixels; p++) {
+        if(stop) continue;
+        try{
         const int indx = p % (bsplx.xvalues().size()-1), indy = p / (bsplx.xvalues().size()-1),
         nx = bsplx.numValues(), nv = bsplv.numValues();
         // integration in a 2d rectangular pixel: X, Y are projected coords in the image plane
@@ -485,7 +489,17 @@ void TargetLOSVD<N>::computeDFProjection(const GalaxyModel& model, StorageNumT*
                         cubedata[ ((indy + ky) * nx + indx + kx) * nv + iv ] +=
                             result[ (ky * (N+1) + kx) * nv + iv ];
         }
+        }
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMsg = e.what();
+            stop = true;
+        }
     }
+    if(!errorMsg.empty())
+        throw std::runtime_error("TargetLOSVD: "+errorMsg);
 
     // 2nd stage: convert the collected datacube into the output array of LOSVDs in each aperture
     finalizeDatacube(datacube, output);
@@ -500,10 +514,14 @@ std::vector<double> TargetLOSVD<N>::computeDensityProjection(const potential::Ba
     std::vector<double> pixelMasses(bsplx.numValues() * bsply.numValues());
     int numPixels = (bsplx.xvalues().size()-1) * (bsply.xvalues().size()-1);
     // loop over pixels of the 2d B-spline grid in the image plane
+    std::string errorMsg;  // store the error text in case of an exception in the OpenMP block
+    bool stop = false;
 #ifdef _OPENMP
 #pragma omp parallel for schedule(static)
 #endif
     for(int p=0; p<numPixels; p++) {
+        if(stop) continue;
+        try{
         int ix = p % (bsplx.xvalues().size()-1), iy = p / (bsplx.xvalues().size()-1);
         // integration in a 3d slab: X, Y are projected coords in the image plane
         // (inside the current pixel), and w is the scaled Z coordinate (mapped onto the interval [0:1])
@@ -528,7 +546,17 @@ std::vector<double> TargetLOSVD<N>::computeDensityProjection(const potential::Ba
                 for(int ky=0; ky<=N; ky++)
                     pixelMasses[(iy + ky) * nx + ix + kx] += result[ky * (N+1) + kx];
         }
+        }
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMsg = e.what();
+            stop = true;
+        }
     }
+    if(!errorMsg.empty())
+        throw std::runtime_error("TargetLOSVD: "+errorMsg);
 
     // 2nd stage: convert these projections to the aperture masses (simultaneously convolving with PSF)
     std::vector<double> result(apertureConvolutionMatrix.rows());
@@ -583,10 +611,14 @@ void TargetKinemShell<N>::computeDFProjection(const GalaxyModel& model, StorageN
     const double *glnodes = math::GLPOINTS[GLORDER], *glweights = math::GLWEIGHTS[GLORDER];
     math::Matrix<double> datacube = newDatacube();
     const int size = (bspl.xvalues().size()-1) * GLORDER;
+    std::string errorMsg;  // store the error text in case of an exception in the OpenMP block
+    bool stop = false;
 #ifdef _OPENMP
 #pragma omp parallel for schedule(static)
 #endif
     for(int n=0; n<size; n++) {
+        if(stop) continue;
+        try{
         int i=n/GLORDER, k=n%GLORDER;  // decompose the combined index into the grid segment and offset
         double r = bspl.xvalues()[i] * (1-glnodes[k]) + bspl.xvalues()[i+1] * glnodes[k];
         double dens;
@@ -600,7 +632,17 @@ void TargetKinemShell<N>::computeDFProjection(const GalaxyModel& model, StorageN
             bspl.addPoint(&r, mult *  vel2.vx2, datacube.data());
             bspl.addPoint(&r, mult * (vel2.vy2 + vel2.vz2), datacube.data() + bspl.numValues());
         }
+        }
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMsg = e.what();
+            stop = true;
+        }
     }
+    if(!errorMsg.empty())
+        throw std::runtime_error("TargetKinemShell: "+errorMsg);
     finalizeDatacube(datacube, output);
 }
 
diff --git a/src/galaxymodel_velocitysampler.cpp b/src/galaxymodel_velocitysampler.cpp
index a72a020..397ef4e 100644
--- a/src/galaxymodel_velocitysampler.cpp
+++ b/src/galaxymodel_velocitysampler.cpp
@@ -22,10 +22,14 @@ particles::ParticleArrayCar assignVelocityEdd(
     ptrdiff_t npoints = pointCoords.size();
     particles::ParticleArrayCar result;
     result.data.resize(npoints);
+    std::string errorMsg;  // store the error text in case of an exception in the OpenMP block
+    bool stop = false;
 #ifdef _OPENMP
 #pragma omp parallel for
 #endif
     for(ptrdiff_t i=0; i<npoints; i++) {
+        if(stop) continue;
+        try{
         const coord::PosCyl& point = pointCoords.point(i);
         math::PRNGState state = math::hash(/*position is the source of randomness*/ &point, 3, /*seed*/ i);
         double Phi = pot.value(point);
@@ -43,7 +47,17 @@ particles::ParticleArrayCar assignVelocityEdd(
             point.R * cosphi, point.R * sinphi, point.z,
             v * vec[0], v * vec[1], v * vec[2]),
             pointCoords.mass(i));
+        }
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMsg = e.what();
+            stop = true;
+        }
     }
+    if(!errorMsg.empty())
+        throw std::runtime_error("Error in assigning velocity: "+errorMsg);
     return result;
 }
 
@@ -55,10 +69,14 @@ particles::ParticleArrayCar assignVelocityJeansSph(
     ptrdiff_t npoints = pointCoords.size();
     particles::ParticleArrayCar result;
     result.data.resize(npoints);
+    std::string errorMsg;  // store the error text in case of an exception in the OpenMP block
+    bool stop = false;
 #ifdef _OPENMP
 #pragma omp parallel for
 #endif
     for(ptrdiff_t i=0; i<npoints; i++) {
+        if(stop) continue;
+        try{
         const coord::PosCyl& point = pointCoords.point(i);
         math::PRNGState state = math::hash(/*position is the source of randomness*/ &point, 3, /*seed*/ i);
         double r = hypot(point.R, point.z);
@@ -84,7 +102,17 @@ particles::ParticleArrayCar assignVelocityJeansSph(
             vr * xyz[1] / r + vt * vper[1],
             vr * xyz[2] / r + vt * vper[2]),
             pointCoords.mass(i));
+        }
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMsg = e.what();
+            stop = true;
+        }
     }
+    if(!errorMsg.empty())
+        throw std::runtime_error("Error in assigning velocity: "+errorMsg);
     return result;
 }
 
@@ -96,10 +124,14 @@ particles::ParticleArrayCar assignVelocityJeansAxi(
     ptrdiff_t npoints = pointCoords.size();
     particles::ParticleArrayCar result;
     result.data.resize(npoints);
+    std::string errorMsg;  // store the error text in case of an exception in the OpenMP block
+    bool stop = false;
 #ifdef _OPENMP
 #pragma omp parallel for
 #endif
     for(ptrdiff_t i=0; i<npoints; i++) {
+        if(stop) continue;
+        try{
         const coord::PosCyl& point = pointCoords.point(i);
         math::PRNGState state = math::hash(/*position is the source of randomness*/ &point, 3, /*seed*/ i);
         coord::VelCyl  vel;
@@ -121,7 +153,17 @@ particles::ParticleArrayCar assignVelocityJeansAxi(
         result[i] = particles::ParticleArrayCar::ElemType(
             toPosVelCar(coord::PosVelCyl(point, coord::VelCyl(vR, vz, vphi))),
             pointCoords.mass(i));
+        }
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMsg = e.what();
+            stop = true;
+        }
     }
+    if(!errorMsg.empty())
+        throw std::runtime_error("Error in assigning velocity: "+errorMsg);
     return result;
 }
 
-- 
2.43.0


From 9cde25f99338d6c053eef3c7d8664af9e6f87992 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:39 +0000
Subject: [PATCH 05/33] fix: invalid value returned by a user-defined function
 silently replaced by -1 (or SystemError) in single-point evaluation

---
 src/interface_python.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index 0e6eca8..3ec6686 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -1607,6 +1607,10 @@ public:
         else if(npoints==1 && PyNumber_Check(result)) {
             // in case of a single input point, the user function might return a single number
             values[0] = PyFloat_AsDouble(result) * mult;
+            if(PyErr_Occurred()) {  // the returned object could not be converted to a number
+                PyErr_Clear();
+                typeerror = true;
+            }
         }
         else {
             typeerror = true;
@@ -2527,9 +2531,13 @@ public:
                     }
                 }
             }
-            else if(PyNumber_Check(result) && dims[0]==1)
+            else if(PyNumber_Check(result) && dims[0]==1) {
                 val[0] = PyFloat_AsDouble(result);
-            else
+                if(PyErr_Occurred()) {  // the returned object could not be converted to a number
+                    PyErr_Clear();
+                    typeerror = true;
+                }
+            } else
                 typeerror = true;
             Py_XDECREF(result);
         }
@@ -3948,6 +3956,10 @@ public:
         else if(npoints==1 && PyNumber_Check(result)) {
             // in case of a single input point, the user function might return a single number
             values[0] = PyFloat_AsDouble(result) * mult;
+            if(PyErr_Occurred()) {  // the returned object could not be converted to a number
+                PyErr_Clear();
+                typeerror = true;
+            }
         }
         else {
             typeerror = true;
@@ -4455,6 +4467,10 @@ public:
         else if(npoints==1 && PyNumber_Check(result)) {
             // in case of a single input point, the user function might return a single number
             values[0] = PyFloat_AsDouble(result);
+            if(PyErr_Occurred()) {  // the returned object could not be converted to a number
+                PyErr_Clear();
+                typeerror = true;
+            }
         }
         else {
             typeerror = true;
@@ -8334,10 +8350,14 @@ public:
                     default: values[p] = NAN; typeerror = true;
                 }
             }
-        } else if(PyNumber_Check(result) && npoints==1)
+        } else if(PyNumber_Check(result) && npoints==1) {
             // in case of a single input point, may return a single number
             values[0] = PyFloat_AsDouble(result);
-        else
+            if(PyErr_Occurred()) {  // the returned object could not be converted to a number
+                PyErr_Clear();
+                typeerror = true;
+            }
+        } else
             typeerror = true;
         Py_XDECREF(result);
         if(result == NULL)
-- 
2.43.0


From a011cc7a675c0b8ba4a1bf01fe3beb716d13f5f5 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:39 +0000
Subject: [PATCH 06/33] fix: memory leak in integrateAdaptive when the
 integrand throws an exception

---
 src/math_core.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/math_core.cpp b/src/math_core.cpp
index 7fdad13..2b772d2 100644
--- a/src/math_core.cpp
+++ b/src/math_core.cpp
@@ -1097,9 +1097,10 @@ double integrateAdaptive(const IFunction& fnc, double x1, double x2, double relt
     double result, dummy;
     size_t neval;
     gsl_integration_cquad_workspace* ws=gsl_integration_cquad_workspace_alloc(MAX_INTEGR_POINTS);
-    CALL_FUNCTION_OR_THROW(
-    gsl_integration_cquad(&F, x1, x2, 0, reltoler, ws, &result, error!=NULL ? error : &dummy, &neval))
+    exceptionFlag = false;
+    gsl_integration_cquad(&F, x1, x2, 0, reltoler, ws, &result, error!=NULL ? error : &dummy, &neval);
     gsl_integration_cquad_workspace_free(ws);
+    if(exceptionFlag) throw std::runtime_error(exceptionText);
     if(numEval!=NULL)
         *numEval = neval;
     return flipSign ? -result : result;
-- 
2.43.0


From 7de8053a1ca456ba1b1b4252d196eace3199f7fa Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 07/33] fix: error in one thread inside a GSL routine spoiled
 unrelated computations in other threads

---
 src/math_base.h       | 7 +++++++
 src/math_core.cpp     | 8 ++++----
 src/math_linalg.cpp   | 4 ++--
 src/math_specfunc.cpp | 2 +-
 4 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/math_base.h b/src/math_base.h
index 769c7d8..334678a 100644
--- a/src/math_base.h
+++ b/src/math_base.h
@@ -60,6 +60,13 @@ inline bool isFinite(double x) { return x>-INFINITY && x<INFINITY; }
 inline double nan2num(double x) { return isFinite(x) ? x : 0; }
 
 
+// storage specifier for variables that have a separate instance for each thread (if supported by the compiler)
+#if __cplusplus >= 201103L
+#define THREAD_LOCAL thread_local
+#else
+#define THREAD_LOCAL
+#endif
+
 /** Functions and classes for basic and advanced math operations */
 namespace math{
 
diff --git a/src/math_core.cpp b/src/math_core.cpp
index 2b772d2..a67a85b 100644
--- a/src/math_core.cpp
+++ b/src/math_core.cpp
@@ -38,9 +38,10 @@ static const int MAX_INTEGR_POINTS = 1000;
 // ------ error handling ------ //
 
 /// stores the exception text to be propagated through external C code that does not support exceptions
-std::string exceptionText;
+/// (separately for each thread, since these routines may be used concurrently)
+THREAD_LOCAL std::string exceptionText;
 /// when an exception occurs, this flag is set and the text is stored in exceptionText
-bool exceptionFlag = false;
+THREAD_LOCAL bool exceptionFlag = false;
 
 #define CALL_FUNCTION_OR_THROW(x) { \
     exceptionFlag = false; \
@@ -48,8 +49,7 @@ bool exceptionFlag = false;
     if(exceptionFlag) throw std::runtime_error(exceptionText); \
 }
 
-/// callback function invoked by GSL in case of error; stores the error text in a global variable
-/// (not thread-safe! assumed that these events don't occur often)
+/// callback function invoked by GSL in case of error; stores the error text in a thread-local variable
 static void GSLerrorHandler(const char *reason, const char* file, int line, int gsl_errno)
 {
     if( // list error codes that are non-critical and don't need to be reported
diff --git a/src/math_linalg.cpp b/src/math_linalg.cpp
index 243ce96..1241ac6 100644
--- a/src/math_linalg.cpp
+++ b/src/math_linalg.cpp
@@ -906,8 +906,8 @@ inline NumT* xnew(size_t size) {
 }
 
 // if any GSL function triggers an error, it will be stored in these variables (defined in math_core.cpp)
-extern bool exceptionFlag;
-extern std::string exceptionText;
+extern THREAD_LOCAL bool exceptionFlag;
+extern THREAD_LOCAL std::string exceptionText;
 
 #define CALL_FUNCTION_OR_THROW(x) { \
     exceptionFlag = false; \
diff --git a/src/math_specfunc.cpp b/src/math_specfunc.cpp
index f787da0..2e1a962 100644
--- a/src/math_specfunc.cpp
+++ b/src/math_specfunc.cpp
@@ -19,7 +19,7 @@
 namespace math {
 
 // if any GSL function triggers an error, it will be stored in this variable (defined in math_core.cpp)
-extern bool exceptionFlag;
+extern THREAD_LOCAL bool exceptionFlag;
 
 // call a GSL function and return NAN in case of an error;
 // the error message is recorded in math::exceptionText and may be later examined by the caller
-- 
2.43.0


From 7d504826fcb74c204d047a0d7a4057b5d581de59 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:51 +0000
Subject: [PATCH 08/33] fix: Rcirc, Tcirc, Rmax of a large array: a failure to
 construct the interpolator must not terminate the program

---
 src/interface_python.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index 3ec6686..921316c 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -3089,6 +3089,23 @@ PyObject* Potential_projectedEval(PyObject* self, PyObject* args, PyObject* name
     return FncPotentialProjectedEval(args, namedArgs, *((PotentialObject*)self)->pot).run(/*chunk*/64);
 }
 
+/// construct an interpolator for the given potential if the number of input points is large enough;
+/// it is only an optimization and may fail for some potentials (in particular, user-defined ones):
+/// in this case the quantities are computed directly, and any errors are reported by BatchFunction::run()
+inline const potential::Interpolator* createInterpolator(
+    const potential::BasePotential& pot, npy_intp numPoints)
+{
+    if(numPoints < 256)
+        return NULL;
+    try{
+        return new potential::Interpolator(pot);
+    }
+    catch(std::exception& ex) {
+        FILTERMSG(utils::VL_WARNING, "Agama", std::string("Cannot create interpolator: ") + ex.what());
+        return NULL;
+    }
+}
+
 /// compute the radius of a circular orbit as a function of energy or Lz;
 /// optimization: if the input array is greater than a certain threshold,
 /// construct a potential interpolator for faster root-finding, augmenting it with a polishing step
@@ -3101,7 +3118,7 @@ public:
     shared_ptr<const potential::Interpolator> interp;
     FncPotentialRcirc(PyObject* input, const potential::BasePotential& _pot) :
         BatchFunction(input, /*input length*/ 1), pot(_pot), axipot(pot),
-        interp(numPoints >= 256 ? new potential::Interpolator(pot) : NULL)
+        interp(createInterpolator(pot, numPoints))
     {
         outputObject = allocateOutput<1>(numPoints, &outputBuffer);
     }
@@ -3168,7 +3185,7 @@ public:
     FncPotentialTcirc(PyObject* input, const potential::BasePotential& _pot) :
         BatchFunction(input, /*input length - two choices*/ 1, 6, /*custom error message*/
             "Input must be a 1d array of energy values or a 2d Nx6 array of position/velocity values"),
-        pot(_pot), axipot(pot), interp(numPoints >= 256 ? new potential::Interpolator(pot) : NULL)
+        pot(_pot), axipot(pot), interp(createInterpolator(pot, numPoints))
     {
         outputObject = allocateOutput<1>(numPoints, &outputBuffer);
     }
@@ -3211,7 +3228,7 @@ public:
     shared_ptr<const potential::Interpolator> interp;
     FncPotentialRmax(PyObject* input, const potential::BasePotential& _pot) :
         BatchFunction(input, /*input length*/ 1), pot(_pot), axipot(pot),
-        interp(numPoints >= 256 ? new potential::Interpolator(pot) : NULL)
+        interp(createInterpolator(pot, numPoints))
     {
         outputObject = allocateOutput<1>(numPoints, &outputBuffer);
     }
-- 
2.43.0


From 429a0d34c9ce937e606c918591470f18011d6dac Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:41 +0000
Subject: [PATCH 09/33] fix: a keyboard interrupt inside a user-defined Python
 function was reported as RuntimeError or ignored

---
 src/galaxymodel_base.cpp |   8 ++-
 src/interface_python.cpp | 138 ++++++++++++++++++++++++++++-----------
 src/utils.h              |   3 +
 3 files changed, 110 insertions(+), 39 deletions(-)

diff --git a/src/galaxymodel_base.cpp b/src/galaxymodel_base.cpp
index d558ba0..d2fd620 100644
--- a/src/galaxymodel_base.cpp
+++ b/src/galaxymodel_base.cpp
@@ -243,6 +243,8 @@ public:
             model.selFunc.evalmany(npoints, posvel, /*output*/ sf);
         }
         catch(std::exception& e) {
+            if(utils::CtrlBreakHandler::matches(e.what()))
+                throw;
             FILTERMSG(utils::VL_WARNING, "DFIntegrandNdim", std::string(e.what()));
             std::fill(sf, sf+npoints, 0);
         }
@@ -278,6 +280,8 @@ public:
             model.distrFunc.evalmany(nselected, act, /*separate*/ dflen!=1, /*output*/ df);
         }
         catch(std::exception& e) {
+            if(utils::CtrlBreakHandler::matches(e.what()))
+                throw;
             FILTERMSG(utils::VL_WARNING, "DFIntegrandNdim", std::string(e.what()));
             std::fill(df, df + npoints * dflen, 0);  // quietly replace output with zeroes
         }
@@ -870,7 +874,9 @@ public:
             for(unsigned int i=0, count=fnc.numValues(); i<count; i++)
                 values[i] += dfval * fncval[i];
         }
-        catch(std::exception&) {
+        catch(std::exception& e) {
+            if(utils::CtrlBreakHandler::matches(e.what()))
+                throw;
             for(unsigned int i=0, count=fnc.numValues(); i<count; i++)
                 values[i] = 0;
         }
diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index 921316c..d57451c 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -294,6 +294,18 @@ struct PyAcquireGIL {
 //  ------------------------------------------------------------------
 ///@{
 
+/// check if the last Python error is a keyboard interrupt, and if yes, postpone it:
+/// clear the error, but arrange that it will be raised again upon return to the Python interpreter
+/// (or in the next call to a user-defined Python function)
+bool postponeInterrupt()
+{
+    if(!PyErr_Occurred() || !PyErr_ExceptionMatches(PyExc_KeyboardInterrupt))
+        return false;
+    PyErr_Clear();
+    PyErr_SetInterrupt();
+    return true;
+}
+
 /// check that a Python object is a callable function that accepts a 2d NxD array and returns
 /// a 1d array of length N with a valid numerical type, but is *not* any of the agama classes
 bool checkCallable(PyObject* fnc, int dim)
@@ -312,7 +324,8 @@ bool checkCallable(PyObject* fnc, int dim)
         PyObject* result = PyObject_CallFunctionObjArgs(fnc, args, NULL);
         Py_DECREF(args);
         if(result == NULL) {
-            PyErr_Print();
+            if(!postponeInterrupt())
+                PyErr_Print();
             return false;
         }
         bool success = false;
@@ -366,10 +379,17 @@ std::string toString(PyObject* obj)
         return str;
     }
     PyObject* s = PyObject_Str(obj);
-    if(!s)
-        return "";
-    std::string str = PyString_AsString(s);
-    Py_DECREF(s);
+    bool interrupted = !s && PyErr_Occurred() && PyErr_ExceptionMatches(PyExc_KeyboardInterrupt);
+    if(interrupted) {  // this function also handles pending signals: do not lose the interrupt
+        PyErr_Clear();
+        s = PyObject_Str(obj);
+    }
+    std::string str;
+    if(s)
+        str = PyString_AsString(s);
+    Py_XDECREF(s);
+    if(interrupted && !PyErr_Occurred())
+        PyErr_SetInterrupt();
     return str;
 }
 
@@ -699,12 +719,43 @@ public:
     }
 };
 
+/// handle an exception that occurred inside a user-defined Python function:
+/// it is printed out and cleared, and then the C++ code that called this function throws its own exception.
+/// \return true if this was a keyboard interrupt, which should not be printed or ignored,
+/// but passed on to the caller as a C++ exception with the standardized message.
+bool callbackInterrupted()
+{
+    if(PyErr_ExceptionMatches(PyExc_KeyboardInterrupt)) {
+        PyErr_Clear();
+        return true;
+    }
+    PyErr_Print();
+    return false;
+}
+
+/// report a failure in computing one element of the output array as a Python warning.
+/// If the failure is caused by a keyboard interrupt, or if the user requested to turn warnings
+/// into errors, throw a C++ exception instead (no Python exception should be set by the routines
+/// that may be called from a parallel loop). The GIL need not be held on entry.
+void issueWarning(const std::string& prefix, const std::exception& ex)
+{
+    if(utils::CtrlBreakHandler::matches(ex.what()))
+        throw std::runtime_error(utils::CtrlBreakHandler::message());
+    const std::string message = prefix + ex.what();
+    PyAcquireGIL lock;  // need to get hold of GIL to issue the following warning
+    if(PyErr_WarnEx(NULL, message.c_str(), 1) < 0) {
+        bool interrupted = PyErr_ExceptionMatches(PyExc_KeyboardInterrupt);
+        PyErr_Clear();
+        throw std::runtime_error(interrupted ? utils::CtrlBreakHandler::message() : message);
+    }
+}
+
 /// convert a C++ exception message to a Python exception
 /// (either a KeyboardInterrupt or a generic RuntimeError)
 void raisePythonException(const char* message, const char* prefix=NULL)
 {
     PyErr_SetString(
-        message == utils::CtrlBreakHandler::message() ? PyExc_KeyboardInterrupt : PyExc_RuntimeError,
+        utils::CtrlBreakHandler::matches(message) ? PyExc_KeyboardInterrupt : PyExc_RuntimeError,
         prefix ? (std::string(prefix) + message).c_str() : message);
 }
 
@@ -1584,13 +1635,13 @@ public:
             unconvertPos(pos[p], xyz + p*3);
         double mult = conv->massUnit / pow_3(conv->lengthUnit);
         PyAcquireGIL lock;
-        bool typeerror   = false;
+        bool typeerror = false, interrupted = false;
         npy_intp dims[]  = { (npy_intp)npoints, 3};
         PyObject* args   = PyArray_SimpleNewFromData(2, dims, NPY_DOUBLE, xyz);
         PyObject* result = PyObject_CallFunctionObjArgs(fnc, args, NULL);
         Py_DECREF(args);
         if(result == NULL) {
-            PyErr_Print();
+            interrupted = callbackInterrupted();
         } else if(PyArray_Check(result) &&
             PyArray_NDIM((PyArrayObject*)result) == 1 &&
             PyArray_DIM ((PyArrayObject*)result, 0) == (npy_intp)npoints)
@@ -1617,7 +1668,8 @@ public:
         }
         Py_XDECREF(result);
         if(result == NULL)
-            throw std::runtime_error("Call to user-defined density function failed");
+            throw std::runtime_error(interrupted ? utils::CtrlBreakHandler::message() :
+                "Call to user-defined density function failed");
         else if(typeerror)
             throw std::runtime_error("Invalid data type returned by user-defined density function");
     }
@@ -1950,10 +2002,8 @@ public:
                 dens.enclosedMass(inputBuffer[indexPoint] * conv->lengthUnit) / conv->massUnit;
         }
         catch(std::exception& ex) {
-            PyAcquireGIL lock;  // need to get hold of GIL to issue the following warning
-            PyErr_WarnEx(NULL, ("Error in enclosedMass(r=" +
-                utils::toString(inputBuffer[indexPoint]) + "): " + ex.what()).c_str(), 1);
             outputBuffer[indexPoint] = NAN;
+            issueWarning("Error in enclosedMass(r=" + utils::toString(inputBuffer[indexPoint]) + "): ", ex);
         }
     }
 };
@@ -1992,11 +2042,9 @@ public:
                 &outputBuffer[0][indexPoint*3], &outputBuffer[1][indexPoint*3]);
         }
         catch(std::exception& ex) {
-            PyAcquireGIL lock;  // need to get hold of GIL to issue the following warning
-            PyErr_WarnEx(NULL, ("Error in principalAxes(r=" +
-                utils::toString(inputBuffer[indexPoint]) + "): " + ex.what()).c_str(), 1);
             for(int i=0; i<3; i++)
                 outputBuffer[0][indexPoint*3+i] = outputBuffer[1][indexPoint*3+i] = NAN;
+            issueWarning("Error in principalAxes(r=" + utils::toString(inputBuffer[indexPoint]) + "): ", ex);
         }
     }
 };
@@ -2511,7 +2559,7 @@ public:
         }
         npy_intp dims[]  = {npoints, 3};
         PyObject *result = NULL;
-        bool typeerror   = false;
+        bool typeerror = false, interrupted = false;
         // open a critical section for accessing Python C API
         {
             PyAcquireGIL lock;
@@ -2519,7 +2567,7 @@ public:
             result = PyObject_CallFunctionObjArgs(fnc, args, NULL);
             Py_DECREF(args);
             if(result == NULL) {
-                PyErr_Print();
+                interrupted = callbackInterrupted();
             } else if(PyArray_Check(result) && PyArray_NDIM((PyArrayObject*)result)==1 &&
                 PyArray_DIM((PyArrayObject*)result, 0)==dims[0])
             {
@@ -2542,7 +2590,8 @@ public:
             Py_XDECREF(result);
         }
         if(result == NULL)
-            throw std::runtime_error("Call to user-defined potential function failed");
+            throw std::runtime_error(interrupted ? utils::CtrlBreakHandler::message() :
+                "Call to user-defined potential function failed");
         else if(typeerror)
             throw std::runtime_error("Invalid data type returned by user-defined potential function");
         if(potential)
@@ -3101,7 +3150,10 @@ inline const potential::Interpolator* createInterpolator(
         return new potential::Interpolator(pot);
     }
     catch(std::exception& ex) {
-        FILTERMSG(utils::VL_WARNING, "Agama", std::string("Cannot create interpolator: ") + ex.what());
+        if(utils::CtrlBreakHandler::matches(ex.what()))
+            raisePythonException(ex);  // in this case the output array will not be allocated
+        else
+            FILTERMSG(utils::VL_WARNING, "Agama", std::string("Cannot create interpolator: ") + ex.what());
         return NULL;
     }
 }
@@ -3120,7 +3172,8 @@ public:
         BatchFunction(input, /*input length*/ 1), pot(_pot), axipot(pot),
         interp(createInterpolator(pot, numPoints))
     {
-        outputObject = allocateOutput<1>(numPoints, &outputBuffer);
+        if(!PyErr_Occurred())
+            outputObject = allocateOutput<1>(numPoints, &outputBuffer);
     }
     virtual void processPoint(npy_intp indexPoint)
     {
@@ -3187,7 +3240,8 @@ public:
             "Input must be a 1d array of energy values or a 2d Nx6 array of position/velocity values"),
         pot(_pot), axipot(pot), interp(createInterpolator(pot, numPoints))
     {
-        outputObject = allocateOutput<1>(numPoints, &outputBuffer);
+        if(!PyErr_Occurred())
+            outputObject = allocateOutput<1>(numPoints, &outputBuffer);
     }
     virtual void processPoint(npy_intp indexPoint)
     {
@@ -3230,7 +3284,8 @@ public:
         BatchFunction(input, /*input length*/ 1), pot(_pot), axipot(pot),
         interp(createInterpolator(pot, numPoints))
     {
-        outputObject = allocateOutput<1>(numPoints, &outputBuffer);
+        if(!PyErr_Occurred())
+            outputObject = allocateOutput<1>(numPoints, &outputBuffer);
     }
     virtual void processPoint(npy_intp indexPoint)
     {
@@ -3926,7 +3981,7 @@ public:
         double mult = conv->massUnit / pow_3(conv->velocityUnit * conv->lengthUnit);
         double mult_der = mult / (conv->velocityUnit * conv->lengthUnit);
         PyAcquireGIL lock;
-        bool typeerror  = false;
+        bool typeerror = false, interrupted = false;
         npy_intp dims[] = { (npy_intp)npoints, 3};
         PyObject *args  = PyArray_SimpleNewFromData(2, dims, NPY_DOUBLE, act);
         PyObject *result = NULL, *result_der = NULL;
@@ -3956,7 +4011,7 @@ public:
 
         // parse and unit-convert the returned array of DF values
         if(result == NULL) {
-            PyErr_Print();
+            interrupted = callbackInterrupted();
         } else if(PyArray_Check(result) &&
             PyArray_NDIM((PyArrayObject*)result) == 1 &&
             PyArray_DIM ((PyArrayObject*)result, 0) == (npy_intp)npoints)
@@ -4011,7 +4066,8 @@ public:
                 typeerror = true;
         }
         if(result == NULL)
-            throw std::runtime_error("Call to user-defined distribution function failed");
+            throw std::runtime_error(interrupted ? utils::CtrlBreakHandler::message() :
+                "Call to user-defined distribution function failed");
         else if(typeerror)
             throw std::runtime_error(
                 "Invalid data type returned from user-defined distribution function");
@@ -4460,13 +4516,13 @@ public:
         for(size_t p=0; p<npoints; p++)
             unconvertPosVel(points[p], posvel + p*6);
         PyAcquireGIL lock;
-        bool typeerror   = false;
+        bool typeerror = false, interrupted = false;
         npy_intp dims[]  = { (npy_intp)npoints, 6};
         PyObject* args   = PyArray_SimpleNewFromData(2, dims, NPY_DOUBLE, posvel);
         PyObject* result = PyObject_CallFunctionObjArgs(fnc, args, NULL);
         Py_DECREF(args);
         if(result == NULL) {
-            PyErr_Print();
+            interrupted = callbackInterrupted();
         } else if(PyArray_Check(result) &&
             PyArray_NDIM((PyArrayObject*)result) == 1 &&
             PyArray_DIM ((PyArrayObject*)result, 0) == (npy_intp)npoints)
@@ -4494,7 +4550,8 @@ public:
         }
         Py_XDECREF(result);
         if(result == NULL)
-            throw std::runtime_error("Call to user-defined selection function failed");
+            throw std::runtime_error(interrupted ? utils::CtrlBreakHandler::message() :
+                "Call to user-defined selection function failed");
         else if(typeerror)
             throw std::runtime_error("Invalid data type returned from user-defined selection function");
         // otherwise return the result in values[]
@@ -4856,8 +4913,7 @@ public:
                 std::fill(vel,  vel  + numComponents * 3, NAN);
             if(vel2)
                 std::fill(vel2, vel2 + numComponents * 6, NAN);
-            PyAcquireGIL lock;  // need to get hold of GIL to issue the following warning
-            PyErr_WarnEx(NULL, (std::string("GalaxyModel.moments: ")+ex.what()).c_str(), 1);
+            issueWarning("GalaxyModel.moments: ", ex);
         }
     }
 };
@@ -4925,8 +4981,7 @@ public:
         catch(std::exception& ex) {
             for(unsigned int ic=0; ic<numComponents; ic++)
                 outputBuffer[ip * numComponents + ic] = NAN;
-            PyAcquireGIL lock;  // need to get hold of GIL to issue the following warning
-            PyErr_WarnEx(NULL, (std::string("GalaxyModel.projectedDF: ")+ex.what()).c_str(), 1);
+            issueWarning("GalaxyModel.projectedDF: ", ex);
         }
     }
 };
@@ -5124,8 +5179,7 @@ public:
         }
         catch(std::exception& ex) {
             // leave PyNone as the elements of output arrays and issue a warning
-            PyAcquireGIL lock;  // need to get hold of GIL before calling this function
-            PyErr_WarnEx(NULL, (std::string("GalaxyModel.vdf: ")+ex.what()).c_str(), 1);
+            issueWarning("GalaxyModel.vdf: ", ex);
         }
     }
 };
@@ -7847,9 +7901,12 @@ PyObject* orbit(PyObject* /*self*/, PyObject* args, PyObject* namedArgs)
         Py_DECREF(count);
         Py_DECREF(unit);
     }
-    if(numOrbits>1 && verbose && !tqdm_instance)
+    bool interrupted = false;  // whether the keyboard interrupt occurred while importing the tqdm module
+    if(numOrbits>1 && verbose && !tqdm_instance && PyErr_Occurred()) {
         // failure to import tqdm module or create an instance of progress bar is not critical,
+        interrupted = PyErr_ExceptionMatches(PyExc_KeyboardInterrupt);
         PyErr_Clear();  // suppress the error
+    }
 
     // set up signal handler to stop the integration on a keyboard interrupt
     utils::CtrlBreakHandler cbrk;
@@ -7859,6 +7916,10 @@ PyObject* orbit(PyObject* /*self*/, PyObject* args, PyObject* namedArgs)
     utils::Timer timer;
     double tprint = 0;
     std::string errorMessage;
+    if(interrupted) {
+        fail = true;
+        errorMessage = cbrk.message();
+    }
     if(!fail) {
         // the GIL must be released when running an OpenMP-parallelized loop
         // in which we may call Python C API functions from different threads;
@@ -8347,13 +8408,13 @@ public:
     virtual void evalmany(const size_t npoints, const double vars[], double values[]) const
     {
         PyAcquireGIL lock;
-        bool typeerror   = false;
+        bool typeerror = false, interrupted = false;
         npy_intp dims[]  = { (npy_intp)npoints, nvars};
         PyObject* args   = PyArray_SimpleNewFromData(2, dims, NPY_DOUBLE, const_cast<double*>(vars));
         PyObject* result = PyObject_CallFunctionObjArgs(fnc, args, NULL);
         Py_DECREF(args);
         if(result == NULL) {
-            PyErr_Print();
+            interrupted = callbackInterrupted();
         } else if(PyArray_Check(result) &&
             PyArray_NDIM((PyArrayObject*)result) == 1 &&
             PyArray_DIM ((PyArrayObject*)result, 0) == (npy_intp)npoints)
@@ -8378,7 +8439,8 @@ public:
             typeerror = true;
         Py_XDECREF(result);
         if(result == NULL)
-            throw std::runtime_error("Exception occurred inside integrand");
+            throw std::runtime_error(interrupted ? utils::CtrlBreakHandler::message() :
+                "Exception occurred inside integrand");
         else if(typeerror)
             throw std::runtime_error("Invalid data type returned from user-defined function");
     }
diff --git a/src/utils.h b/src/utils.h
index dbbb36b..dcbb8af 100644
--- a/src/utils.h
+++ b/src/utils.h
@@ -93,6 +93,9 @@ public:
     ~CtrlBreakHandler();     ///< restores the previous signal handler
     static bool triggered(); ///< returns true if the Ctrl-Break signal was received, false otherwise
     static std::string message() { return "Keyboard interrupt"; }  ///< standardized exception message
+    /// check if an exception with the given text was caused by a keyboard interrupt (the standardized
+    /// message may have been augmented on its way by the intermediate exception handlers)
+    static bool matches(const std::string& text) { return text.find(message()) != std::string::npos; }
 };
 
 
-- 
2.43.0


From dfb97453a3b065805402a5ecd753d93a74b395df Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:45 +0000
Subject: [PATCH 10/33] fix: write errors showing up only when flushing or
 closing a file were not reported

---
 src/galaxymodel_spherical.cpp | 3 +++
 src/particles_io.cpp          | 6 +++++-
 src/potential_factory.cpp     | 4 +++-
 src/raga_potential.cpp        | 9 +++++++--
 4 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/galaxymodel_spherical.cpp b/src/galaxymodel_spherical.cpp
index bc7a1b5..f5c1819 100644
--- a/src/galaxymodel_spherical.cpp
+++ b/src/galaxymodel_spherical.cpp
@@ -892,6 +892,9 @@ void writeSphericalIsotropicModel(
     // last line provides the totals
     strm << "# Total mass: " << model.totalMass << ", total energy: " << model.totalEnergy <<
         ", kinetic energy: " << model.totalEkin << "\n";
+    strm.close();  // flush the data still residing in the buffer, so that possible errors are detected
+    if(!strm.good())
+        throw std::runtime_error("writeSphericalIsotropicModel: cannot write to file "+fileName);
 }
 
 }  // namespace galaxymodel
diff --git a/src/particles_io.cpp b/src/particles_io.cpp
index b1d4d4a..32a62a2 100644
--- a/src/particles_io.cpp
+++ b/src/particles_io.cpp
@@ -88,6 +88,7 @@ void writeSnapshotText(
     strm << formatHeader<ParticleT>();
     for(size_t indx=0; indx<points.size(); indx++)
         strm << formatParticle<ParticleT>(points[indx], conv);
+    strm.close();  // flush the data still residing in the buffer, so that possible errors are detected
     if(!strm.good())
         throw std::runtime_error("writeSnapshotText: cannot write to file "+fileName);
 }
@@ -212,6 +213,9 @@ public:
 
     /// check if any i/o errors occured
     bool ok() const { return snap.good(); }
+
+    /// flush the remaining data, close the file and check if any i/o errors occurred
+    bool close() { snap.close(); return snap.good(); }
 };
 
 template<> char NemoSnapshotWriter::typeLetter<int>()   { return 'i'; }
@@ -303,7 +307,7 @@ void writeSnapshotNEMO(
         snapshotWriter.writeParticles(points, conv);
         snapshotWriter.endLevel();
         snapshotWriter.endLevel();
-        result = snapshotWriter.ok();
+        result = snapshotWriter.close();
     }
     if(!result)
         throw std::runtime_error("writeSnapshotNEMO: cannot write to file "+fileName);
diff --git a/src/potential_factory.cpp b/src/potential_factory.cpp
index 8fa40da..16bd066 100644
--- a/src/potential_factory.cpp
+++ b/src/potential_factory.cpp
@@ -1400,7 +1400,8 @@ PtrPotential createPotentialExpansion(const AllParam& param, const utils::KeyVal
         // store coefficients in a text file,
         // later may load this file instead for faster initialization
         try{
-            writePotential(param.file + ".ini", *pot, param.converter);
+            if(!writePotential(param.file + ".ini", *pot, param.converter))
+                throw std::runtime_error("Error writing file " + param.file + ".ini");
         }
         catch(std::exception& ex) {  // not a critical error, but worth mentioning
             utils::msg(utils::VL_MESSAGE, "createPotential", ex.what());
@@ -1972,6 +1973,7 @@ bool writeDensity(const std::string& fileName, const BaseDensity& dens,
     int counter = 0;
     if(strm.good())
         writeAnyDensityOrPotential(strm, &dens, converter, counter);
+    strm.close();  // flush the data still residing in the buffer, so that possible errors are detected
     return strm.good();
 }
 
diff --git a/src/raga_potential.cpp b/src/raga_potential.cpp
index 0a25da8..b4afbc9 100644
--- a/src/raga_potential.cpp
+++ b/src/raga_potential.cpp
@@ -4,6 +4,7 @@
 #include "utils.h"
 #include "math_core.h"
 #include <cmath>
+#include <stdexcept>
 
 namespace raga {
 
@@ -51,7 +52,9 @@ void RagaTaskPotential::startEpisode(double timeStart, double length)
     // output the potential (if needed) at the start of the first episode
     if(prevOutputTime == -INFINITY && !params.outputFilename.empty()) {
         prevOutputTime = episodeStart;
-        writePotential(params.outputFilename + utils::toString(episodeStart), *ptrPot);
+        std::string filename = params.outputFilename + utils::toString(episodeStart);
+        if(!writePotential(filename, *ptrPot))
+            throw std::runtime_error("RagaTaskPotential: cannot write to file "+filename);
     }
 }
 
@@ -87,7 +90,9 @@ void RagaTaskPotential::finishEpisode()
     double time = episodeStart+episodeLength;
     if(!params.outputFilename.empty() && time >= prevOutputTime + params.outputInterval*0.999999) {
         prevOutputTime = time;
-        writePotential(params.outputFilename + utils::toString(time), *ptrPot);
+        std::string filename = params.outputFilename + utils::toString(time);
+        if(!writePotential(filename, *ptrPot))
+            throw std::runtime_error("RagaTaskPotential: cannot write to file "+filename);
     }
 }
 
-- 
2.43.0


From dd6d356c6e4cd23122882ae9b974f0980528a04b Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:11 +0000
Subject: [PATCH 11/33] fix: an input error in the middle of a file was
 mistaken for the end of file

---
 src/particles_io.cpp      | 4 +++-
 src/potential_factory.cpp | 5 +++++
 src/utils_config.cpp      | 5 +++++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/particles_io.cpp b/src/particles_io.cpp
index 32a62a2..fab1afc 100644
--- a/src/particles_io.cpp
+++ b/src/particles_io.cpp
@@ -128,6 +128,8 @@ ParticleArrayAux readSnapshotText(const std::string& fileName, const units::Exte
             stellarRadius),
             particleMass);
     }
+    if(strm.bad())  // stopped because of an input error, not because of the end of file
+        throw std::runtime_error("readSnapshotText: error while reading file "+fileName);
     return points;
 }
 
@@ -439,7 +441,7 @@ ParticleArrayAux readSnapshot(
     std::ifstream strm(fileName.c_str(), std::ios::in);
     if(!strm)
         throw std::runtime_error("readSnapshot: cannot read from "+fileName);
-    char buffer[8];
+    char buffer[8] = {0};
     strm.read(buffer, 8);
     strm.close();
     if( (buffer[0]==-110 &&  // NEMO signature: open block of a particular type
diff --git a/src/potential_factory.cpp b/src/potential_factory.cpp
index 16bd066..86d3ac5 100644
--- a/src/potential_factory.cpp
+++ b/src/potential_factory.cpp
@@ -1153,6 +1153,9 @@ static void readTimeDependentArray(
                 der[k].push_back(utils::toDouble(fields[k+K+1]) * valueUnit / timeUnit);
         }
     }
+    if(strm.bad())  // stopped because of an input error, not because of the end of file
+        throw std::runtime_error("readTimeDependentArray<" + utils::toString(K) + ">: "
+            "error while reading file \"" + str + "\"");
     if(val[0].size() == 0)
         throw std::runtime_error("readTimeDependentArray<" + utils::toString(K) + ">: "
             "no valid entries in file \"" + str + "\"");
@@ -1592,6 +1595,8 @@ math::LogLogSpline readMassProfile(const std::string& filename)
             mass.push_back(m);
         }
     }
+    if(strm.bad())  // stopped because of an input error, not because of the end of file
+        throw std::runtime_error("readMassProfile: error while reading file " + filename);
     return math::LogLogSpline(radius, densityFromCumulativeMass(radius, mass));
 }
 
diff --git a/src/utils_config.cpp b/src/utils_config.cpp
index eccdc6d..f8251f2 100644
--- a/src/utils_config.cpp
+++ b/src/utils_config.cpp
@@ -258,6 +258,8 @@ ConfigFile::ConfigFile(const std::string& _fileName, bool mustExist) :
             sections[secIndex].second.add(buffer.c_str());
         }
     }
+    if(strm.bad())  // stopped because of an input error, not because of the end of file
+        throw std::runtime_error("Error while reading file: "+_fileName);
     strm.close();
 }
 
@@ -284,6 +286,9 @@ ConfigFile::~ConfigFile()
                     strm << '\n';
             }
         }
+        strm.close();
+        if(!strm)
+            FILTERMSG(VL_WARNING, "ConfigFile", "Error writing file "+fileName);
     }
 }
 
-- 
2.43.0


From f24c6387096c1b2a262740f19b7968399c03bac7 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:35 +0000
Subject: [PATCH 12/33] fix: truncated GalPot file led to out-of-bounds access
 or to silently missing components

---
 src/potential_factory.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/potential_factory.cpp b/src/potential_factory.cpp
index 86d3ac5..c2702fc 100644
--- a/src/potential_factory.cpp
+++ b/src/potential_factory.cpp
@@ -1929,11 +1929,12 @@ PtrPotential readGalaxyPotential(const std::string& filename, const units::Exter
     std::vector<utils::KeyValueMap> kvmap;
     std::string buffer;
     std::vector<std::string> fields;
-    bool ok = std::getline(strm, buffer).good();
+    bool ok = !std::getline(strm, buffer).fail();
     fields  = utils::splitString(buffer, "# \t");
-    int num = utils::toInt(fields[0]);
+    ok &= !fields.empty();
+    int num = ok ? utils::toInt(fields[0]) : 0;
     for(int i=0; i<num && ok; i++) {
-        ok &= std::getline(strm, buffer).good();
+        ok &= !std::getline(strm, buffer).fail();
         fields = utils::splitString(buffer, "# \t");
         if(fields.size() >= 5)
             kvmap.push_back(utils::KeyValueMap(
@@ -1945,13 +1946,14 @@ PtrPotential readGalaxyPotential(const std::string& filename, const units::Exter
                 " modulationAmplitude="+fields[4]));
         else ok=false;
     }
-    ok &= std::getline(strm, buffer).good();
+    ok &= !std::getline(strm, buffer).fail();
     fields = utils::splitString(buffer, "# \t");
-    num = utils::toInt(fields[0]);
+    ok &= !fields.empty();
+    num = ok ? utils::toInt(fields[0]) : 0;
     for(int i=0; i<num && ok; i++) {
-        ok &= std::getline(strm, buffer).good();
+        ok &= !std::getline(strm, buffer).fail();
         fields = utils::splitString(buffer, "# \t");
-        if(fields.size() >= 5)
+        if(fields.size() >= 6)
             kvmap.push_back(utils::KeyValueMap(
                 std::string("type=") + SpheroidDensity::myName() +
                 " densityNorm="      + fields[0]+
@@ -1962,6 +1964,8 @@ PtrPotential readGalaxyPotential(const std::string& filename, const units::Exter
                 (utils::toDouble(fields[5])!=0 ? " outerCutoffRadius=" + fields[5] : "") ));
         else ok=false;
     }
+    if(!ok || strm.bad())
+        throw std::runtime_error("Invalid or incomplete GalPot file "+filename);
     return createPotential(kvmap, conv);
 }
 
-- 
2.43.0


From 5e9b908f57b7acfb60dc97f99f602783b201c1cd Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:05 +0000
Subject: [PATCH 13/33] fix: out-of-bounds access when a blank line follows the
 coefficients in the file

---
 src/potential_factory.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/potential_factory.cpp b/src/potential_factory.cpp
index c2702fc..b98a379 100644
--- a/src/potential_factory.cpp
+++ b/src/potential_factory.cpp
@@ -648,8 +648,10 @@ bool parseAzimuthalHarmonics(std::vector<std::string>& lines, const AllParam& pa
             return false;   // not enough remaining lines
         // 0th line is the index m
         fields = utils::splitString(lines[0], " \t");
+        if(fields.size() != 2 || fields[1] != "#m")
+            return false;
         int m = utils::toInt(fields[0]);  // m (azimuthal harmonic index)
-        if(fields.size() != 2 || fields[1] != "#m" || m < -(int)params.mmax || m > (int)params.mmax)
+        if(m < -(int)params.mmax || m > (int)params.mmax)
             return false;
         // 1st line is the z-grid
         fields = utils::splitString(lines[1], " \t");  // z-values
-- 
2.43.0


From d93f664eb489eba440b60edffe04eabdda4ae6bd Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:20 +0000
Subject: [PATCH 14/33] fix: BasisSet potential with nmax=0 could not be
 exported

---
 src/potential_factory.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/potential_factory.cpp b/src/potential_factory.cpp
index b98a379..d5d74a5 100644
--- a/src/potential_factory.cpp
+++ b/src/potential_factory.cpp
@@ -871,7 +871,11 @@ void writePotentialBasisSet(std::ostream& strm, const BasisSet& pot,
     strm << "r0="   << utils::toString(r0, 15) << "\n";
     strm << "symmetry=" << getSymmetryNameByType(pot.symmetry()) << "\n";
     strm << "Coefficients\n#Phi\n";
-    writeSphericalHarmonics(strm, math::createUniformGrid(coefs[0].size(), 0, coefs[0].size()-1), coefs);
+    // the first column contains the index of the radial basis function (0..nmax, where nmax may be zero)
+    std::vector<double> indices(coefs[0].size());
+    for(unsigned int n=0; n<indices.size(); n++)
+        indices[n] = n;
+    writeSphericalHarmonics(strm, indices, coefs);
 }
 
 void writePotentialMultipole(std::ostream& strm, const Multipole& pot,
-- 
2.43.0


From c9a44a86021e1d25d8c4714a6e54579e3a692cdc Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:07 +0000
Subject: [PATCH 15/33] fix: derivatives of the distribution function for more
 than 1024 points were stored in wrong places

---
 src/interface_python.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index d57451c..2c48a5c 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -4239,7 +4239,7 @@ public:
         for(npy_intp i=0; i<npoints; i++)
             act[i] = convertActions(&inputBuffer[(i + indexStart) * 3]);
         df.evalmany(npoints, act, /*separate*/false, &outputBuffer[0][indexStart],
-            der ? (df::DerivByActions*)(&outputBuffer[1][indexStart]) : NULL);
+            der ? (df::DerivByActions*)(&outputBuffer[1][indexStart*3]) : NULL);
         for(npy_intp indexPoint=indexStart; indexPoint<indexEnd; indexPoint++)
             outputBuffer[0][indexPoint] /=  // DF dimension: M L^-3 V^-3
                 conv->massUnit / pow_3(conv->velocityUnit * conv->lengthUnit);
-- 
2.43.0


From fc8f991b6269bc31fcdefda4e57b29a123ca4736 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:07 +0000
Subject: [PATCH 16/33] fix: memory leak when a user-defined distribution
 function is called with der=True

---
 src/interface_python.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index 2c48a5c..97e8132 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -4065,6 +4065,7 @@ public:
             } else
                 typeerror = true;
         }
+        Py_XDECREF(result_der);
         if(result == NULL)
             throw std::runtime_error(interrupted ? utils::CtrlBreakHandler::message() :
                 "Call to user-defined distribution function failed");
-- 
2.43.0


From 0bb75d17d08564327657d2a03a5e405254c153a7 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:00 +0000
Subject: [PATCH 17/33] fix: a parameter with an empty value in a file with
 Windows line endings is not empty

---
 src/utils_config.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/utils_config.cpp b/src/utils_config.cpp
index f8251f2..bc2b658 100644
--- a/src/utils_config.cpp
+++ b/src/utils_config.cpp
@@ -39,8 +39,7 @@ void KeyValueMap::add(const char* line)
         if(indx!=std::string::npos && indx>0)
             buffer.erase(0, indx);
         indx = buffer.find_last_not_of(" \t\n\r");        // and trailing spaces at the end of the line
-        if(indx!=std::string::npos && indx+1<buffer.size())
-            buffer.erase(indx+1);
+        buffer.erase(indx!=std::string::npos ? indx+1 : 0);
         // do not allow a key to appear twice (there is no way to store and retrieve
         // two separate values, so they are banned outright)
         if(contains(key))
-- 
2.43.0


From 5c7785d1417892f644612f7de9379bdf0c6d13f0 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:38 +0000
Subject: [PATCH 18/33] fix: out-of-bounds write when the interval of output is
 below the roundoff error of time

---
 src/orbit.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/orbit.cpp b/src/orbit.cpp
index 122d984..c0a6550 100644
--- a/src/orbit.cpp
+++ b/src/orbit.cpp
@@ -26,7 +26,8 @@ bool RuntimeTrajectory::processTimestep(const double tbegin, const double tend)
     } else if(samplingInterval > 0) {
         // store trajectory at regular intervals of time
         double sign = tend>=tbegin ? +1 : -1;  // integrating forward or backward in time
-        double dtroundoff = ROUNDOFF * fmax(fmax(fabs(tend), fabs(tbegin)), fabs(t0));
+        double dtroundoff = fmin(0.5 * samplingInterval,
+            ROUNDOFF * fmax(fmax(fabs(tend), fabs(tbegin)), fabs(t0)));
         ptrdiff_t ibegin = static_cast<ptrdiff_t>((sign * (tbegin-t0) - dtroundoff) / samplingInterval);
         ptrdiff_t iend   = static_cast<ptrdiff_t>((sign * (tend-t0)   + dtroundoff) / samplingInterval);
         trajectory.resize(iend + 1);
-- 
2.43.0


From b6d773ed2b8ae9d4ac1b8382bd17e7e7186f2dc4 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:38 +0000
Subject: [PATCH 19/33] fix: crash when an Orbit object cannot be constructed
 (Python error raised without holding the GIL)

---
 src/interface_python.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index 97e8132..01a2413 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -7402,9 +7402,9 @@ static PyTypeObject OrbitType = {
 /// new PyObject* elements per orbit: the numpy array of timestamps (only if outputTime==true)
 /// and another numpy array of phase-space points.
 /// \return  true on success, false if failed to allocate arrays
-/// (in this case, PyErr_SetString is called to report the error)
-bool createOrbit(int dtype, const orbit::Trajectory &traj,
-    double Omega, bool outputTime, double normFactor, /*output*/ PyObject* output[])
+/// (in this case, the reason is stored in errorMessage)
+bool createOrbit(int dtype, const orbit::Trajectory &traj, double Omega, bool outputTime,
+    double normFactor, /*output*/ PyObject* output[], std::string& errorMessage)
 {
     npy_intp size = traj.size();
     if(dtype == NPY_OBJECT) {
@@ -7472,8 +7472,12 @@ bool createOrbit(int dtype, const orbit::Trajectory &traj,
                 ", "  +utils::toString(((SplineObject*)orbit->z)->spl.get()));
         }
         catch(std::exception& ex) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMessage = ex.what();
+            PyAcquireGIL lock;
             Py_DECREF(orbit);
-            raisePythonException(ex);
             return false;
         }
         *output = (PyObject*)orbit;   // place the pointer for the newly created Orbit
@@ -8001,7 +8005,8 @@ PyObject* orbit(PyObject* /*self*/, PyObject* args, PyObject* namedArgs)
                     PyArray_DATA(result_arrays[numTargets])) +
                     orb * result_numCols[numTargets];
                 // store the orbit in the output array in the form depending on dtype
-                if(!createOrbit(dtype, traj, Omega, /*outputTime*/true, /*normFactor*/1, output))
+                if(!createOrbit(dtype, traj, Omega, /*outputTime*/true, /*normFactor*/1, output,
+                    errorMessage))
                     fail = true;
             }
 
@@ -8018,7 +8023,7 @@ PyObject* orbit(PyObject* /*self*/, PyObject* args, PyObject* namedArgs)
                     // their dimensions should be scaled by position (first 3 vectors) or velocity
                     double normFactor = vec<3 ? conv->lengthUnit : conv->velocityUnit;
                     if(!createOrbit(dtype, deviationVectors[vec], Omega,
-                        /*outputTime*/false, normFactor, output))
+                        /*outputTime*/false, normFactor, output, errorMessage))
                         fail = true;
                 }
             }
-- 
2.43.0


From 38eed4d00f6806f247aad90dfcc118474f00a43e Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:38 +0000
Subject: [PATCH 20/33] fix: progress of orbit integration over-counted when
 the progress bar releases the GIL, its failures spoil the result

---
 src/interface_python.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index 01a2413..2605807 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -8040,10 +8040,14 @@ PyObject* orbit(PyObject* /*self*/, PyObject* args, PyObject* namedArgs)
                     PyAcquireGIL lock;
                     PyObject* result = NULL;
                     if(tqdm_instance) {
-                        npy_intp currNumComplete = numComplete;  // copy of the volatile value
+                        // the counter must be updated before calling the Python method,
+                        // since the latter may temporarily release GIL to other threads
+                        int increment = static_cast<int>(numComplete - prevNumComplete);
+                        prevNumComplete += increment;
                         result = PyObject_CallMethod(tqdm_instance, const_cast<char*>("update"),
-                            const_cast<char*>("i"), currNumComplete-prevNumComplete);
-                        prevNumComplete = currNumComplete;
+                            const_cast<char*>("i"), increment);
+                        if(!result)
+                            PyErr_Clear();  // failure of the progress bar is not critical
                     }
                     if(result)  // successfully shown a progress bar using tqdm
                         Py_DECREF(result);
@@ -8058,14 +8062,16 @@ PyObject* orbit(PyObject* /*self*/, PyObject* args, PyObject* namedArgs)
     if(numOrbits > 1 && verbose) {
         if(tqdm_instance) {  // clean up the progress bar
             PyObject* result = PyObject_CallMethod(tqdm_instance, const_cast<char*>("close"), NULL);
+            if(!result)
+                PyErr_Clear();
             Py_XDECREF(result);
-            Py_DECREF(tqdm_instance);
-            Py_DECREF(tqdm_class);
-            Py_DECREF(tqdm_module);
         }
         PySys_WriteStderr("%li orbits complete (%.4g orbits/s)\n",
             (long int)numComplete, numComplete / timer.deltaSeconds());
     }
+    Py_XDECREF(tqdm_instance);
+    Py_XDECREF(tqdm_class);
+    Py_XDECREF(tqdm_module);
     if(cbrk.triggered()) {
         fail = true;
         errorMessage = cbrk.message();
-- 
2.43.0


From 12e16deb49a884746040a03d97a9c315a7670287 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:48 +0000
Subject: [PATCH 21/33] fix: argument of ActionFinder was examined without
 holding the GIL

---
 src/interface_python.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index 2605807..d50feb6 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -3543,8 +3543,9 @@ int ActionFinder_init(ActionFinderObject* self, PyObject* args, PyObject* namedA
     try{
         // ActionFinder constructors have OpenMP-parallelized loops, which might call back a Python
         // function if the potential contains one, so we need to release GIL beforehand
+        bool interp = toBool(interp_flag, false);
         PyReleaseGIL unlock;
-        self->af = actions::createActionFinder(pot, toBool(interp_flag, false));
+        self->af = actions::createActionFinder(pot, interp);
         FILTERMSG(utils::VL_DEBUG, "Agama", "Created " + self->af->name() + " action finder at " +
             utils::toString(self->af.get()));
         return 0;
-- 
2.43.0


From c9f82dc2a3b8371eca5bb5cc43d094ca9c24b9da Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:50 +0000
Subject: [PATCH 22/33] fix: concurrent computations in several threads
 corrupted the stack of interrupt handlers

---
 src/utils.cpp | 37 +++++++++++++++++++++++++------------
 src/utils.h   |  2 +-
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index abeb365..8d53df0 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -207,26 +207,39 @@ namespace {
 volatile bool ctrlBreakTriggered;
 /// signal handler installed during lengthy computations that triggers the flag
 void customCtrlBreakHandler(int) { ctrlBreakTriggered = true; }
-/// a stack of previous signal handlers restored after the computation is finished
-std::vector<void(*)(int)> prevCtrlBreakHandler;
+/// previous signal handler restored after the computation is finished
+void (*prevCtrlBreakHandler)(int);
+/// number of currently existing instances of CtrlBreakHandler (possibly created by different threads)
+int numCtrlBreakHandlers = 0;
 }
 
 CtrlBreakHandler::CtrlBreakHandler()
 {
-    // this class could be instantiated multiple times in nested routines,
-    // but the break flag is cleared only for the outermost one.
-    if(prevCtrlBreakHandler.empty())
-        ctrlBreakTriggered = false;
-    // store the previous signal handler on the stack, and set the new one
-    prevCtrlBreakHandler.push_back(signal(SIGINT, customCtrlBreakHandler));
+    // this class could be instantiated multiple times in nested routines or in different threads,
+    // but the break flag is cleared and the signal handler is installed only for the outermost one.
+#ifdef _OPENMP
+#pragma omp critical(CtrlBreakHandler)
+#endif
+    {
+        if(numCtrlBreakHandlers++ == 0) {
+            ctrlBreakTriggered = false;
+            // store the previous signal handler, and set the new one
+            prevCtrlBreakHandler = signal(SIGINT, customCtrlBreakHandler);
+        }
+    }
 }
 
 CtrlBreakHandler::~CtrlBreakHandler()
 {
-    // restore the previous handler once the instance of the class is destroyed
-    assert(!prevCtrlBreakHandler.empty());       // it must have been set in the constructor
-    signal(SIGINT, prevCtrlBreakHandler.back()); // restore the previous handler
-    prevCtrlBreakHandler.pop_back();             // and eliminate it from the stack
+#ifdef _OPENMP
+#pragma omp critical(CtrlBreakHandler)
+#endif
+    {
+        // restore the previous handler once the last instance of the class is destroyed
+        assert(numCtrlBreakHandlers > 0);
+        if(--numCtrlBreakHandlers == 0)
+            signal(SIGINT, prevCtrlBreakHandler);
+    }
 }
 
 bool CtrlBreakHandler::triggered() { return ctrlBreakTriggered; }
diff --git a/src/utils.h b/src/utils.h
index dcbb8af..a763e0d 100644
--- a/src/utils.h
+++ b/src/utils.h
@@ -85,7 +85,7 @@ std::string stacktrace();
     exception, which then will be dealt within the script (or simply ignored in an interactive
     session).
 
-    It is safe to instantiate this class multiple times, in nested routines.
+    It is safe to instantiate this class multiple times, in nested routines or different threads.
 */
 class CtrlBreakHandler {
 public:
-- 
2.43.0


From 19f5e8713384e12864c831adda0a4046c2c1d06c Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:00 +0000
Subject: [PATCH 23/33] fix: memory leak in multidimensional integration when
 the integrand reports an error

---
 src/cubature.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/cubature.cpp b/src/cubature.cpp
index ffa582d..ff13540 100644
--- a/src/cubature.cpp
+++ b/src/cubature.cpp
@@ -986,6 +986,7 @@ static int rulecubature(rule *r, unsigned fdim,
      unsigned i, j;
      region *R = NULL; /* array of regions to evaluate */
      unsigned int nR_alloc = 0;
+     unsigned int nR = 0; /* number of regions in R that are not stored in the heap */
      esterr *ee = NULL;
 
      if (fdim <= 1) norm = ERROR_INDIVIDUAL; /* norm is irrelevant */
@@ -1001,10 +1002,12 @@ static int rulecubature(rule *r, unsigned fdim,
      R = (region *) malloc(sizeof(region) * nR_alloc);
      if (!R) goto bad;
      R[0] = make_region(h, fdim);
+     nR = 1;
      if (!R[0].ee
 	 || eval_regions(1, R, f, fdata, r)
 	 || heap_push(&regions, R[0]))
 	       goto bad;
+     nR = 0;
      numEval += r->num_points;
      
      while (numEval < maxEval || !maxEval) {
@@ -1042,7 +1045,6 @@ static int rulecubature(rule *r, unsigned fdim,
 		  out of N is only O(K log N), much better than the
 		  O(N) cost of the Bull and Freeman algorithm if K <<
 		  N, and it is also much simpler.] */
-	       unsigned int nR = 0;
 	       for (j = 0; j < fdim; ++j) ee[j] = regions.ee[j];
 	       do {
 		    if (nR + 2 > nR_alloc) {
@@ -1061,13 +1063,18 @@ static int rulecubature(rule *r, unsigned fdim,
 	       if (eval_regions(nR, R, f, fdata, r)
 		   || heap_push_many(&regions, nR, R))
 		    goto bad;
+	       nR = 0;
 	  }
 	  else { /* minimize number of function evaluations */
 	       R[0] = heap_pop(&regions); /* get worst region */
-	       if (cut_region(R, R+1)
-		   || eval_regions(2, R, f, fdata, r)
+	       nR = 1;
+	       if (cut_region(R, R+1))
+		    goto bad;
+	       nR = 2;
+	       if (eval_regions(2, R, f, fdata, r)
 		   || heap_push_many(&regions, 2, R))
 		    goto bad;
+	       nR = 0;
 	       numEval += r->num_points * 2;
 	  }
      }
@@ -1089,6 +1096,11 @@ static int rulecubature(rule *r, unsigned fdim,
      return SUCCESS;
 
 bad:
+     /* deallocate the regions already stored in the heap and the ones being evaluated */
+     for (i = 0; regions.items && i < regions.n; ++i)
+	  destroy_region(&regions.items[i]);
+     for (i = 0; R && i < nR; ++i)
+	  destroy_region(&R[i]);
      free(ee);
      heap_free(&regions);
      free(R);
-- 
2.43.0


From c7e3ced83d41eb81f98b4bbb2514c64b96e32764 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:30 +0000
Subject: [PATCH 24/33] fix: keyboard interrupt during the last iteration of
 N-dimensional sampling was ignored

---
 src/math_sample.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/math_sample.cpp b/src/math_sample.cpp
index e7434cb..a85771e 100644
--- a/src/math_sample.cpp
+++ b/src/math_sample.cpp
@@ -577,14 +577,14 @@ void Sampler::run()
     nextPoint.resize(numInitSamples);
     addPointsToCell(0, 0, numInitSamples);
     evalFncLoop(0, numInitSamples);
+    if(cbrk.triggered())
+        throw std::runtime_error(cbrk.message());
     double refineFactor = computeResult();
     if(refineFactor <= 1)
         return;
 
     int nIter = 1;
     do{
-        if(cbrk.triggered())
-            throw std::runtime_error(cbrk.message());
         // Loop over all cells and check if there are enough sample points in the cell;
         // if not, either split the cell in two halves or schedule this cell for adding more points later.
         // The newly added cells (after splitting) are appended to the end of the cell list,
@@ -614,6 +614,9 @@ void Sampler::run()
             ", #new points=" + utils::toString(cellsQueue.back().second));
         // now compute the function values for the newly added samples (also in parallel)
         evalFncLoop(numPointsExisting, numPointsOverall);
+        // an interrupt is never ignored, even if it arrives when computing the last batch of samples
+        if(cbrk.triggered())
+            throw std::runtime_error(cbrk.message());
         // estimate the integral value and check if we have enough samples
         double refineFactor = computeResult();
         if(refineFactor <= 1)
-- 
2.43.0


From 5df6ad8d8e91cf09ebb6928172cb9812cbde46c7 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:40 +0000
Subject: [PATCH 25/33] fix: failed memory allocation in multidimensional
 integration went unnoticed, giving an undefined result

---
 src/math_core.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/math_core.cpp b/src/math_core.cpp
index a67a85b..48e62f0 100644
--- a/src/math_core.cpp
+++ b/src/math_core.cpp
@@ -7,6 +7,7 @@
 #include <gsl/gsl_integration.h>
 #include <gsl/gsl_version.h>
 #include <gsl/gsl_sf_gamma.h>
+#include <new>
 #include <stdexcept>
 #include <cassert>
 #include <cmath>
@@ -1334,13 +1335,15 @@ void integrateNdim(const IFunctionNdim& F, const double xlower[], const double x
         throw std::runtime_error(param.error);
 #else
     CubatureParams param(F);
-    hcubature_v(numValues, &integrandNdimWrapperCubature, &param,
+    int status = hcubature_v(numValues, &integrandNdimWrapperCubature, &param,
         numVars, xlower, xupper, maxNumEval, absToler, relToler,
         ERROR_INDIVIDUAL, result, error);
     if(numEval!=NULL)
         *numEval = param.numEval;
     if(!param.error.empty())
         throw std::runtime_error(param.error);
+    if(status != 0)  // not caused by an error in the integrand: could only be a failed memory allocation
+        throw std::bad_alloc();
 #endif
 }
 
-- 
2.43.0


From a797d2b2f671a2d3f04c222b87967f6991e85789 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:40 +0000
Subject: [PATCH 26/33] fix: failed memory allocation at the end of orbit
 integration terminated the program

---
 src/galaxymodel_target.h | 11 ++++++++++-
 src/orbit_variational.h  | 10 +++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/galaxymodel_target.h b/src/galaxymodel_target.h
index c55bbdd..99fd0c0 100644
--- a/src/galaxymodel_target.h
+++ b/src/galaxymodel_target.h
@@ -10,6 +10,9 @@
 #include "orbit.h"
 #include "smart.h"
 #include "math_linalg.h"
+#include <algorithm>
+#include <cmath>
+#include <exception>
 
 namespace galaxymodel{
 
@@ -128,7 +131,13 @@ public:
     /// and convert to the numerical type used in the output storage
     virtual ~RuntimeFncTarget()
     {
-        target.finalizeDatacube(datacube, output);  // now output contains un-normalized values
+        try{
+            target.finalizeDatacube(datacube, output);  // now output contains un-normalized values
+        }
+        catch(std::exception&) {  // e.g. not enough memory; an exception must not leave the destructor
+            std::fill(output, output + target.numCoefs(), static_cast<StorageNumT>(NAN));
+            return;
+        }
         if(time==0) return;
         const StorageNumT invtime = static_cast<StorageNumT>(1./time);
         for(size_t i=0, size = target.numCoefs(); i<size; i++)
diff --git a/src/orbit_variational.h b/src/orbit_variational.h
index 8880d9b..0cc01b0 100644
--- a/src/orbit_variational.h
+++ b/src/orbit_variational.h
@@ -7,6 +7,8 @@
 #pragma once
 #include "orbit.h"
 #include "math_linalg.h"
+#include <cmath>
+#include <exception>
 
 namespace orbit {
 
@@ -125,8 +127,14 @@ public:
     /** estimate the Lyapunov exponent from the data stored during orbit integration,
         and store it in the external variable 'outputLyapunovExponent' */
     ~RuntimeVariational() {
-        if(outputLyapunovExponent)
+        if(!outputLyapunovExponent)
+            return;
+        try{
             *outputLyapunovExponent = calcLyapunovExponent(logDeviationVector, orbitalPeriod);
+        }
+        catch(std::exception&) {  // e.g. not enough memory; an exception must not leave the destructor
+            *outputLyapunovExponent = NAN;
+        }
     }
 
     /** follow the evolution of the deviation vector during one timestep and record its magnitude */
-- 
2.43.0


From c5c7776401d2ef6301875529c2e73ceaf6aaa36b Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:40 +0000
Subject: [PATCH 27/33] fix: failed memory allocation in the projection of
 particles or in storing orbits caused a deadlock or terminated the program

---
 src/interface_python.cpp | 104 ++++++++++++++++++++++++---------------
 1 file changed, 65 insertions(+), 39 deletions(-)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index d50feb6..e47e289 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -6256,42 +6256,68 @@ PyObject* Target_value(TargetObject* self, PyObject* args, PyObject* namedArgs)
 #pragma omp parallel
 #endif
     {
+        // thread-local intermediate matrices. Note that even if an error occurs in any of the threads,
+        // it still must participate in both work-sharing loops, otherwise other threads would wait forever
+        math::Matrix<double> datacube;
+        std::vector<galaxymodel::StorageNumT> tmpresult;
+        bool success = true;
         try{
-            // define thread-local intermediate matrices
-            math::Matrix<double> datacube = self->target->newDatacube();
-            std::vector<galaxymodel::StorageNumT> tmpresult(size);
-            const double mult = 1./self->unitDFProjection;
+            datacube = self->target->newDatacube();
+            tmpresult.resize(size);
+        }
+        catch(std::exception& ex) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMessage = ex.what();
+            success = false;
+        }
+        const double mult = 1./self->unitDFProjection;
 #ifdef _OPENMP
 #pragma omp for schedule(static)
 #endif
-            for(int i=0; i<(int)particles.size(); i++) {
+        for(int i=0; i<(int)particles.size(); i++) {
+            if(!success) continue;
+            try{
                 double xv[6];
                 particles.point(i).unpack_to(xv);
                 self->target->addPoint(xv, particles.mass(i), datacube.data());
             }
-            self->target->finalizeDatacube(datacube, &tmpresult[0]);
-            // now sum up the thread-local intermediate matrices elementwise,
-            // but in such a way that the order is always the same, to ensure that
-            // the result is also deterministic (floating-point summation is not commutative)
+            catch(std::exception& ex) {
 #ifdef _OPENMP
-#pragma omp for ordered schedule(static)
-            for(int t=0; t<omp_get_num_threads(); t++)
+#pragma omp critical(ErrorMessage)
 #endif
-            {
+                errorMessage = ex.what();
+                success = false;
+            }
+        }
+        if(success) {
+            try{
+                self->target->finalizeDatacube(datacube, &tmpresult[0]);
+            }
+            catch(std::exception& ex) {
 #ifdef _OPENMP
-#pragma omp ordered
+#pragma omp critical(ErrorMessage)
 #endif
-                {
-                    for(npy_intp i=0; i<size; i++)
-                        pyArrayElem<galaxymodel::StorageNumT>(result, i) += mult * tmpresult[i];
-                }
+                errorMessage = ex.what();
+                success = false;
             }
         }
-        catch(std::exception& ex) {
+        // now sum up the thread-local intermediate matrices elementwise,
+        // but in such a way that the order is always the same, to ensure that
+        // the result is also deterministic (floating-point summation is not commutative)
 #ifdef _OPENMP
-#pragma omp critical(ErrorMessage)
+#pragma omp for ordered schedule(static)
+        for(int t=0; t<omp_get_num_threads(); t++)
 #endif
-            errorMessage = ex.what();
+        {
+#ifdef _OPENMP
+#pragma omp ordered
+#endif
+            {
+                for(npy_intp i=0; success && i<size; i++)
+                    pyArrayElem<galaxymodel::StorageNumT>(result, i) += mult * tmpresult[i];
+            }
         }
     }
 
@@ -7440,26 +7466,26 @@ bool createOrbit(int dtype, const orbit::Trajectory &traj, double Omega, bool ou
         }  // end critical session, the remaining operations are thread-safe
         if(!orbit)
             return false;
-        std::vector<double> t(size), x(size), vx(size), y(size), vy(size), z(size), vz(size);
-        orbit->Omega = Omega * conv->timeUnit;  // frequency is in user units
-        // if the orbit is integrated backward in time, we need to reverse the order of points
-        orbit->reversed = size>1 && traj[1].second < traj[0].second;
-        for(npy_intp index=0; index<size; index++) {
-            double point[6];
-            unconvertPosVel(traj[orbit->reversed ? size-1-index : index].first, point);
-            t [index] = traj[orbit->reversed ? size-1-index : index].second / conv->timeUnit;
-            // if the orbit was provided in the rotating frame, transform it to a non-rotating one
-            // to construct the interpolators, and transform their output back to rotated frame
-            double ca, sa;
-            math::sincos(orbit->Omega * t[index], sa, ca);
-            x [index] = normFactor * (point[0] * ca - point[1] * sa);
-            y [index] = normFactor * (point[1] * ca + point[0] * sa);
-            z [index] = normFactor *  point[2];
-            vx[index] = normFactor * (point[3] * ca - point[4] * sa);
-            vy[index] = normFactor * (point[4] * ca + point[3] * sa);
-            vz[index] = normFactor *  point[5];
-        }
         try{
+            std::vector<double> t(size), x(size), vx(size), y(size), vy(size), z(size), vz(size);
+            orbit->Omega = Omega * conv->timeUnit;  // frequency is in user units
+            // if the orbit is integrated backward in time, we need to reverse the order of points
+            orbit->reversed = size>1 && traj[1].second < traj[0].second;
+            for(npy_intp index=0; index<size; index++) {
+                double point[6];
+                unconvertPosVel(traj[orbit->reversed ? size-1-index : index].first, point);
+                t [index] = traj[orbit->reversed ? size-1-index : index].second / conv->timeUnit;
+                // if the orbit was provided in the rotating frame, transform it to a non-rotating one
+                // to construct the interpolators, and transform their output back to rotated frame
+                double ca, sa;
+                math::sincos(orbit->Omega * t[index], sa, ca);
+                x [index] = normFactor * (point[0] * ca - point[1] * sa);
+                y [index] = normFactor * (point[1] * ca + point[0] * sa);
+                z [index] = normFactor *  point[2];
+                vx[index] = normFactor * (point[3] * ca - point[4] * sa);
+                vy[index] = normFactor * (point[4] * ca + point[3] * sa);
+                vz[index] = normFactor *  point[5];
+            }
             ((SplineObject*)orbit->x)->spl.reset(new math::QuinticSpline(t, x, vx));
             ((SplineObject*)orbit->y)->spl.reset(new math::QuinticSpline(t, y, vy));
             ((SplineObject*)orbit->z)->spl.reset(new math::QuinticSpline(t, z, vz));
-- 
2.43.0


From 2d3859409103551b4e434b52d78e2fe3eca8b76f Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:40 +0000
Subject: [PATCH 28/33] fix: failed allocation of thread-local temporary arrays
 terminated the program

---
 src/galaxymodel_losvd.cpp   | 34 ++++++++++++++++++++++++++++++----
 src/potential_cylspline.cpp | 12 +++++++++++-
 src/potential_multipole.cpp | 32 +++++++++++++++++++++++++++-----
 3 files changed, 68 insertions(+), 10 deletions(-)

diff --git a/src/galaxymodel_losvd.cpp b/src/galaxymodel_losvd.cpp
index bc2ecd7..0120c00 100644
--- a/src/galaxymodel_losvd.cpp
+++ b/src/galaxymodel_losvd.cpp
@@ -204,14 +204,25 @@ TargetLOSVD<N>::TargetLOSVD(const LOSVDParams& params) :
     // construct the spatial rebinning matrix
     math::Matrix<double> apertureMatrix(numApertures, numBasisFnc, 0.);
     volatile bool outOfBounds = false;
+    std::string errorMsg;  // store the error text in case of an exception in the OpenMP blocks
 #ifdef _OPENMP
 #pragma omp parallel for schedule(static)
 #endif
     for(int i = 0; i < (int)numApertures; i++) {
-        bool apOutOfBounds = math::computeBsplineIntegralsOverPolygon(
-            params.apertures[i], bsplx, bsply, &apertureMatrix(i, 0));
-        outOfBounds |= apOutOfBounds;
+        try{
+            bool apOutOfBounds = math::computeBsplineIntegralsOverPolygon(
+                params.apertures[i], bsplx, bsply, &apertureMatrix(i, 0));
+            outOfBounds |= apOutOfBounds;
+        }
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMsg = e.what();
+        }
     }
+    if(!errorMsg.empty())
+        throw std::runtime_error("TargetLOSVD: " + errorMsg);
     if(outOfBounds)
         throw std::invalid_argument("TargetLOSVD: datacube does not cover all apertures");
 
@@ -227,7 +238,19 @@ TargetLOSVD<N>::TargetLOSVD(const LOSVDParams& params) :
 #pragma omp parallel
 #endif
         {   // define thread-local intermediate matrices
-            math::Matrix<double> block(numBasisFnc, numBasisFncX), tmpprod(numApertures, numBasisFncX);
+            math::Matrix<double> block, tmpprod;
+            bool success = true;  // whether there was enough memory for this thread
+            try{
+                block = math::Matrix<double>(numBasisFnc, numBasisFncX);
+                tmpprod = math::Matrix<double>(numApertures, numBasisFncX);
+            }
+            catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+                errorMsg = e.what();
+                success = false;
+            }
             // faster access to matrix elements in row-major order through pointers to flattened data
             const double *dconvx = convx.data(), *dprod = tmpprod.data();
             double *dconva = apertureConvolutionMatrix.data(), *dblock = block.data();
@@ -246,6 +269,7 @@ TargetLOSVD<N>::TargetLOSVD(const LOSVDParams& params) :
 #pragma omp for schedule(static)
 #endif
             for(int i = 0; i < (int)numBasisFncY; i++) {
+                if(!success) continue;
                 // assemble the sub-block with index i of the matrix L:
                 // it consists of Ny copies of matrix Lx, stacked vertically,
                 // each one multiplied by one element of matrix Ly from j-th row, i-th column
@@ -271,6 +295,8 @@ TargetLOSVD<N>::TargetLOSVD(const LOSVDParams& params) :
                 }
             }
         }
+        if(!errorMsg.empty())
+            throw std::runtime_error("TargetLOSVD: " + errorMsg);
     }
 
     // construct the velocity convolution matrix
diff --git a/src/potential_cylspline.cpp b/src/potential_cylspline.cpp
index 7a4ae77..e8b991a 100644
--- a/src/potential_cylspline.cpp
+++ b/src/potential_cylspline.cpp
@@ -507,7 +507,17 @@ void computePotentialCoefsFromParticles(
 #endif
     {
         // thread-local temp storage for all harmonic terms at a single point in the (R,z) plane
-        std::vector<double> temp(indices.size() * numQuantitiesOutput);
+        std::vector<double> temp;
+        try{
+            temp.resize(indices.size() * numQuantitiesOutput);
+        }
+        catch(std::exception& e) {  // not enough memory
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMsg = e.what();
+            stop = true;
+        }
 #ifdef _OPENMP
 #pragma omp for schedule(dynamic)
 #endif
diff --git a/src/potential_multipole.cpp b/src/potential_multipole.cpp
index dbe8d4e..b593491 100644
--- a/src/potential_multipole.cpp
+++ b/src/potential_multipole.cpp
@@ -278,9 +278,21 @@ void computeSphericalHarmonicsFromParticles(
 #endif
     {
         // thread-local temporary arrays for Legendre and trigonometric functions
-        std::vector<double> tmp(ind.lmax+2+2*ind.mmax);
-        double *leg = &tmp[0], *trig = leg + ind.lmax+1;
-        trig[0] = 1.;  // stores cos(0*phi), which is not computed by trigMultiAngle
+        std::vector<double> tmp;
+        double *leg = NULL, *trig = NULL;
+        try{
+            tmp.resize(ind.lmax+2+2*ind.mmax);
+            leg = &tmp[0];
+            trig = leg + ind.lmax+1;
+            trig[0] = 1.;  // stores cos(0*phi), which is not computed by trigMultiAngle
+        }
+        catch(std::exception& e) {  // not enough memory
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMsg = e.what();
+            stop = true;
+        }
 #ifdef _OPENMP
 #pragma omp for schedule(static)
 #endif
@@ -2066,7 +2078,17 @@ void computePotentialCoefsBSE(
 #endif
     {
         // thread-local temporary arrays for expansion coefs
-        std::vector<std::vector<double> > thread_coefs(ind.size(), std::vector<double>(nmax+1, 0.));
+        std::vector<std::vector<double> > thread_coefs;
+        try{
+            thread_coefs.assign(ind.size(), std::vector<double>(nmax+1, 0.));
+        }
+        catch(std::exception& e) {  // not enough memory
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            errorMsg = e.what();
+            stop = true;
+        }
 #ifdef _OPENMP
 #pragma omp for schedule(static)
 #endif
@@ -2115,7 +2137,7 @@ void computePotentialCoefsBSE(
 #pragma omp critical
 #endif
         {
-            for(int m=ind.mmin(); m<=ind.mmax; m++)
+            for(int m=ind.mmin(); m<=ind.mmax && !thread_coefs.empty(); m++)
                 for(int l=ind.lmin(m); l<=ind.lmax; l+=ind.step)
                     math::blas_daxpy(1, thread_coefs[ind.index(l, m)], coefs[ind.index(l, m)]);
         }
-- 
2.43.0


From afc76a93812eebca82d137db6c571ba13116052d Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:57 +0000
Subject: [PATCH 29/33] fix: previous list of components of SelfConsistentModel
 was not released when replaced; deleting it crashed

---
 src/interface_python.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index e47e289..3db313f 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -5734,12 +5734,14 @@ PyObject* SelfConsistentModel_getComponents(SelfConsistentModelObject* self, voi
 
 int SelfConsistentModel_setComponents(SelfConsistentModelObject* self, PyObject* comp_obj, void*)
 {
-    if(!PyList_Check(comp_obj)) {
+    if(!comp_obj || !PyList_Check(comp_obj)) {
         PyErr_SetString(PyExc_TypeError, "SelfConsistentModel.components must be a list");
         return -1;
     }
+    Py_INCREF(comp_obj);
+    PyObject* prev = self->components;
     self->components = comp_obj;
-    Py_INCREF(self->components);
+    Py_XDECREF(prev);
     return 0;
 }
 
-- 
2.43.0


From 39c0e52df11859b4d983a40cbcc665b8af5c52a9 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:16 +0000
Subject: [PATCH 30/33] fix: name of a Spline object was never released (memory
 leak)

---
 src/interface_python.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index 3db313f..76e30e9 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -6719,6 +6719,8 @@ void Spline_dealloc(SplineObject* self)
         self->spl.get() ? "Deleted a " + self->name + " at " + utils::toString(self->spl.get()) :
         "Deleted an empty spline");
     self->spl.reset();
+    typedef std::string String;
+    self->name.~String();
     Py_TYPE(self)->tp_free(self);
 }
 
-- 
2.43.0


From 13dc7f0f12c6c772a44a53682804ddd2b207f9ec Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:23 +0000
Subject: [PATCH 31/33] fix: references to arrays leaked when other arguments
 are invalid, or when arrays are given as strings

---
 src/interface_python.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index 76e30e9..be3cf3b 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -494,8 +494,11 @@ std::vector<double> toDoubleArray(PyObject* obj)
             PyErr_Print();
             return std::vector<double>();
         }
+    } else {
+        Py_INCREF(obj);  // in both cases obj is now a new reference
     }
     PyObject *arr = PyArray_FROM_OTF(obj, NPY_DOUBLE, 0/*no special requirements*/);
+    Py_DECREF(obj);
     if(!arr || PyArray_NDIM((PyArrayObject*)arr) != 1) {
         Py_XDECREF(arr);
         if(PyErr_Occurred())
@@ -7774,6 +7777,7 @@ PyObject* orbit(PyObject* /*self*/, PyObject* args, PyObject* namedArgs)
          (PyArray_NDIM(timestart_arr) == 1 && (int)PyArray_DIM(timestart_arr, 0) == numOrbits) ) )
     {
         Py_DECREF(timestart_arr);
+        Py_DECREF(time_arr);
         PyErr_SetString(PyExc_ValueError,
             "Argument 'timestart' must either be a scalar or have the same length "
             "as the number of points in the initial conditions");
@@ -8531,12 +8535,14 @@ bool parseLowerUpperBounds(PyObject* lower_obj, PyObject* upper_obj,
     }
     ndim = PyArray_DIM(lower_arr, 0);
     if(!upper_obj) {
+        Py_DECREF(lower_arr);
         PyErr_SetString(PyExc_TypeError, "Must provide both 'lower' and 'upper' arguments if both are arrays");
         return false;
     }
     PyArrayObject *upper_arr = (PyArrayObject*) PyArray_FROM_OTF(upper_obj, NPY_DOUBLE, 0);
     if(upper_arr == NULL || PyArray_NDIM(upper_arr) != 1 || PyArray_DIM(upper_arr, 0) != ndim) {
         Py_XDECREF(upper_arr);
+        Py_DECREF(lower_arr);
         PyErr_Format(PyExc_TypeError,
             "Argument 'upper' does not contain a valid array of length %i", ndim);
         return false;
-- 
2.43.0


From f107871b963b49f3207f789d929386437981dc1c Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:23 +0000
Subject: [PATCH 32/33] fix: scalar argument 'matrix' of ghMoments crashed the
 program

---
 src/interface_python.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index be3cf3b..697df7a 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -6469,7 +6469,7 @@ PyObject* ghMoments(PyObject* /*self*/, PyObject* args, PyObject* namedArgs)
     npy_intp numApertures = -1;
     if(mat_arr && (PyArray_NDIM(mat_arr) == 1 || PyArray_NDIM(mat_arr) == 2))
         numApertures = PyArray_DIM(mat_arr, PyArray_NDIM(mat_arr)-1) / numBasisFnc;
-    if(!mat_arr || numApertures * numBasisFnc != PyArray_DIM(mat_arr, PyArray_NDIM(mat_arr)-1)) {
+    if(numApertures < 0 || numApertures * numBasisFnc != PyArray_DIM(mat_arr, PyArray_NDIM(mat_arr)-1)) {
         Py_XDECREF(mat_arr);
         PyErr_SetString(PyExc_ValueError, ("Argument 'matrix' should be a 1d array "
             "of length numApertures * numBasisFnc (the latter is " + utils::toString(numBasisFnc) +
-- 
2.43.0


From 835501dd6a4341fd90279a414707d7e3949a30cc Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:10 +0000
Subject: [PATCH 33/33] fix: memory leaked when the Cholesky decomposition
 fails

---
 src/math_linalg.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/math_linalg.cpp b/src/math_linalg.cpp
index 1241ac6..a86ff8e 100644
--- a/src/math_linalg.cpp
+++ b/src/math_linalg.cpp
@@ -795,8 +795,10 @@ CholeskyDecomp::CholeskyDecomp(const Matrix<double>& M) :
     if(M.rows() != M.cols())
         throw std::runtime_error("CholeskyDecomp needs a square matrix");
     impl = new CholeskyDecompImpl(mat(M));
-    if(static_cast<const CholeskyDecompImpl*>(impl)->info() != Eigen::Success)
+    if(static_cast<const CholeskyDecompImpl*>(impl)->info() != Eigen::Success) {
+        delete static_cast<const CholeskyDecompImpl*>(impl);
         throw std::domain_error("CholeskyDecomp failed");
+    }
 }
 
 CholeskyDecomp::~CholeskyDecomp() { delete static_cast<const CholeskyDecompImpl*>(impl); }
-- 
2.43.0

