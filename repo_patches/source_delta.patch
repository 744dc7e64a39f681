From 3b8eb05e0c36b0942e71af5a4559a88415aef478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:17 +0000
Subject: [PATCH 01/51] fix: back-extrapolated retarded field for trajectories
 not starting at t=0

ChargedParticle::RetardedField(time,position) solved the light cone for the
observation time instead of the time elapsed since the first trajectory point.
---
 src/particle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/particle.cpp b/src/particle.cpp
index ce0afd5..8b0e16e 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -648,8 +648,8 @@ ElMagField ChargedParticle::RetardedField(double obs_time, Vector obs_pos)
             gamma = sqrt(gamma2);
             SourceBeta/=gamma;
             // compute the time t at emission of the signal (field)
-            // t is always negative
-            double t0 = obs_time;
+            // t is always negative, it is counted from the first trajectory point
+            double t0 = obs_time - Time[0];
             double bR = dot(SourceBeta,Rc);
             double bb = dot(SourceBeta,SourceBeta);
             double RR = dot(Rc,Rc);
-- 
2.43.0


From fdb930e87a54fa7c752f7016d09b6023432f6a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:17 +0000
Subject: [PATCH 02/51] fix: radiation of longitudinally accelerated particles

The stored acceleration is d/dt(beta*gamma). Dividing it by gamma gives d/dt(beta)
only for transverse acceleration; the longitudinal part was too large by gamma^2.
---
 src/particle.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/particle.cpp b/src/particle.cpp
index 8b0e16e..a4ca5cb 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -577,6 +577,8 @@ ElMagField ChargedParticle::RetardedField(int index,
     double gamma2 = betagamma2 + 1.0;
     double gamma = sqrt(gamma2);
     SourceBeta /= gamma;
+    // the trajectory stores d/dt(beta*gamma), convert to d/dt(beta)
+    SourceBetaPrime -= SourceBeta * dot(SourceBeta,SourceBetaPrime);
     SourceBetaPrime /= gamma;
     // now compute the distance and direction to the observer
     Vector RVec = ObservationPoint - SourceX;
@@ -746,6 +748,8 @@ ElMagField ChargedParticle::RetardedField(double obs_time, Vector obs_pos)
             gamma = sqrt(gamma2);
             SourceBeta/=gamma;
             SourceBetaPrime = A[i1]*(1.0-frac) + A[i2]*frac;
+            // the trajectory stores d/dt(beta*gamma), convert to d/dt(beta)
+            SourceBetaPrime -= SourceBeta * dot(SourceBeta,SourceBetaPrime);
             SourceBetaPrime/=gamma;
         }
         // printf("ChargedParticle::RetardedField - SourceX = (%9.6g, %9.6g, %9.6g)\n",SourceX.x,SourceX.y,SourceX.z);
-- 
2.43.0


From cd68515b0a11fb5416222dfcc594e6595b44f781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:06 +0000
Subject: [PATCH 03/51] fix: signals arriving at the very edge of the
 observation window

Rounding of (time-t0)/dt could yield a bin index just outside the trace for a time
inside the observation range, FieldTrace::add() then aborted the computation.
---
 src/particle.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/particle.cpp b/src/particle.cpp
index a4ca5cb..1038aa1 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -807,6 +807,7 @@ void ChargedParticle::integrateFieldTrace(
 	        {
 		        // observation bucket in which the step end falls
 		        int idx2 = round((ts2-t0)/dt);
+		        if (idx2<0) idx2=0;
 		        if (idx2>nots) idx2=nots;
 		        // handle all fully covered buckets
 		        for (int idx=0; idx<idx2; idx++)
@@ -833,8 +834,12 @@ void ChargedParticle::integrateFieldTrace(
 	        {
 		        // observation bucket in which the step start falls
 		        int idx1 = round((ts1-t0)/dt);
+		        // rounding at the very edges must not leave the observation range
+		        if (idx1<0) idx1=0;
+		        if (idx1>nots-1) idx1=nots-1;
 		        // observation bucket in which the step end falls
 		        int idx2 = round((ts2-t0)/dt);
+		        if (idx2<0) idx2=0;
 		        if (idx2>nots) idx2=nots;
 		        if (idx1==idx2)
 		        // time step if fully within one bucket
-- 
2.43.0


From 1e5637108453eca519f225228bffb260fdcc9f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:05 +0000
Subject: [PATCH 04/51] fix: FieldTrace::get_field(time) integer overflow for
 times far outside the trace

---
 src/fieldtrace.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fieldtrace.cpp b/src/fieldtrace.cpp
index 9f8b816..1e693f4 100644
--- a/src/fieldtrace.cpp
+++ b/src/fieldtrace.cpp
@@ -173,6 +173,8 @@ void FieldTrace::set_field(std::size_t index, ElMagField f)
 ElMagField FieldTrace::get_field(double time)
 {
     double ref = (time-t0)/dt;
+    // outside the trace (also prevents overflow of the integer index for remote times)
+    if (!(ref>-1.0 && ref<(double)N)) return ElMagFieldZero;
     int index = (int)floor(ref);
     double frac = ref-(double)index;
     ElMagField f1=ElMagFieldZero;
-- 
2.43.0


From 003976fe6b396d86a30398146d46a6b95e330231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:39 +0000
Subject: [PATCH 05/51] fix: FieldTrace::derivative reads out of bounds for
 traces shorter than 2 samples

---
 src/fieldtrace.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fieldtrace.cpp b/src/fieldtrace.cpp
index 1e693f4..fbf953d 100644
--- a/src/fieldtrace.cpp
+++ b/src/fieldtrace.cpp
@@ -201,6 +201,8 @@ Vector FieldTrace::Poynting()
 
 FieldTrace* FieldTrace::derivative()
 {
+    // finite differences are not defined for less than 2 samples
+    if (N<2) throw(IOexception("FieldTrace::derivative() - trace needs at least 2 samples."));
     // create a new field trace as a copy
     FieldTrace* temp = new FieldTrace(*this);
     if (temp==0) throw(IOexception("FieldTrace::derivative() - error allocating memory."));
-- 
2.43.0


From 03519c82a7b0af0a2988ce9fb406806a337b2b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:08 +0000
Subject: [PATCH 06/51] fix: Shift and Mirror left out the last trajectory
 point

---
 src/particle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/particle.cpp b/src/particle.cpp
index 1038aa1..fbf2d45 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -343,7 +343,7 @@ void ChargedParticle::initTrajectory(double t, Vector x, Vector p, Vector a)
 void ChargedParticle::Shift(Vector delta, double f_charge)
 {
     X_current += delta;
-    for (int i=0; i<NP-1; i++)
+    for (int i=0; i<NP; i++)
     {
         Vector position = X[i];
         X[i] = position + delta;
@@ -366,7 +366,7 @@ void ChargedParticle::Mirror(Vector origin, Vector normal, double f_charge)
     // normal acceleration is reversed
     Vector da = normal*dot(A_current,normal);
     A_current -= da*2.0;
-    for (int i=0; i<NP-1; i++)
+    for (int i=0; i<NP; i++)
     {
         // normal distance to mirror plane is added 2x to position
         Vector position = X[i];
-- 
2.43.0


From aa6419d3a5208d43a06b3ac05547d64b65dd20e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 07/51] fix: a mirrored particle continues tracking with the
 mirrored momentum

---
 src/particle.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/particle.cpp b/src/particle.cpp
index fbf2d45..5b1a8ca 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -366,6 +366,8 @@ void ChargedParticle::Mirror(Vector origin, Vector normal, double f_charge)
     // normal acceleration is reversed
     Vector da = normal*dot(A_current,normal);
     A_current -= da*2.0;
+    // the momentum at the end of the step, which the tracking continues from, is reversed as well
+    VY_p_i1 -= normal*(dot(VY_p_i1,normal)*2.0);
     for (int i=0; i<NP; i++)
     {
         // normal distance to mirror plane is added 2x to position
-- 
2.43.0


From 703908c2092f9e315d2f1a7b4e1a45d7db724405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:11 +0000
Subject: [PATCH 08/51] fix: restoring a serialized particle without trajectory
 or pre-allocation used undefined values

---
 src/particle.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/particle.cpp b/src/particle.cpp
index 5b1a8ca..7fb4bda 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -141,6 +141,7 @@ ChargedParticle::ChargedParticle(double *buffer, int nTraj, int nPre)
     VY_gamma_i1 = *b++;
     // now restore the trajectory data
     clearTrajectory();
+    Npre = 0;
     if (nPre > 0) preAllocate(nPre);
     for (int n=0; n<nTraj; n++)
     {
@@ -160,10 +161,18 @@ ChargedParticle::ChargedParticle(double *buffer, int nTraj, int nPre)
         double az = *b++;
         A.push_back(Vector(ax,ay,az));
     }
-    t_current = Time.back();
-    X_current = X.back();
-    P_current = P.back();
-    A_current = A.back();
+    if (nTraj > 0)
+    {
+        t_current = Time.back();
+        X_current = X.back();
+        P_current = P.back();
+        A_current = A.back();
+    } else {
+        t_current = 0.0;
+        X_current = VectorZero;
+        P_current = VectorZero;
+        A_current = VectorZero;
+    }
 }
 
 ChargedParticle::~ChargedParticle()
-- 
2.43.0


From 4c5dd632d40c8090122d53f0fecf2eed297fd4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:11 +0000
Subject: [PATCH 09/51] fix: copying a particle lost the fields it perceives

---
 src/particle.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/particle.cpp b/src/particle.cpp
index 7fb4bda..10af454 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -90,6 +90,8 @@ ChargedParticle::ChargedParticle(const ChargedParticle *origin)
     X_current = origin->X_current;
     P_current = origin->P_current;
     A_current = origin->A_current;
+    E_current = origin->E_current;
+    B_current = origin->B_current;
     if (NP > 0)
     {
         Time = origin->Time;
-- 
2.43.0


From 2d772dd01ffed1f611fcfc77d400da818adbdfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:10 +0000
Subject: [PATCH 10/51] fix: soft-edge dipole delivered reversed field beyond
 the limiting planes

---
 src/dipole.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dipole.cpp b/src/dipole.cpp
index cda844e..ccd1bb8 100644
--- a/src/dipole.cpp
+++ b/src/dipole.cpp
@@ -224,6 +224,8 @@ ElMagField SoftEdgeDipole::LocalField(double t, Vector X)
     double at1 = atan(2.0*d1/t_1);
     double at2 = atan(2.0*d2/t_2);
     double scal = 1.0 - (at1/Pi+0.5) - (at2/Pi+0.5);
+    // the field never reverses outside of both limiting planes
+    if (scal<0.0) scal = 0.0;
     B = B_val * scal;
     return ElMagField(E, B);
 }
-- 
2.43.0


From f2b7bcc3d3298a29b7c9feca411e53e1c5d51981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:07 +0000
Subject: [PATCH 11/51] fix: FEL_1D default polarisation had no magnetic field

---
 src/fel1d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index ce405a3..5671abf 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -38,7 +38,7 @@ FEL_1D::FEL_1D(
     step_Output = 1;
     prop = Vector(0.0, 0.0, 1.0);
     e_x = Vector(1.0, 0.0, 0.0);
-    e_x = Vector(0.0, 1.0, 0.0);
+    e_y = Vector(0.0, 1.0, 0.0);
     head = Vector(0.0, 0.0, 0.0);
     origin = head;
     createOutput = false;
-- 
2.43.0


From 5f634706290e5fdc371fe9c4662d117c34f732a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:07 +0000
Subject: [PATCH 12/51] fix: FEL_1D source term for longitudinally accelerated
 particles

---
 src/fel1d.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index 5671abf..0aa8449 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -274,7 +274,9 @@ void FEL_1D::step(Beam *beam)
             Vector BetaGamma = P->getMomentum();
             double bg2 = BetaGamma.abs2nd();
             double gamma = sqrt(bg2 + 1.0);
-            Vector Beta_prime = P->getAccel()/gamma;
+            Vector Beta = BetaGamma/gamma;
+            Vector Accel = P->getAccel();
+            Vector Beta_prime = (Accel - Beta*dot(Beta,Accel))/gamma;
             double Q = P->getCharge();
             double j_x = dot(Beta_prime,e_x)*Q/A_opt/dt*MuNull*SpeedOfLight*SpeedOfLight;
             // Every particle gives a gaussian pulse with sigma=2*ds.
-- 
2.43.0


From 96baec0c8df3c10cb10985e5daa9c90ef32ac0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:07 +0000
Subject: [PATCH 13/51] fix: FEL_1D rejects too small grids and invalid logging
 intervals

---
 src/fel1d.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index 0aa8449..1389732 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -107,6 +107,8 @@ FEL_1D::FEL_1D(
         step_Output = 1;
         pugi::xml_attribute st = lognode.attribute("step");
         if (st) step_Output = st.as_int();
+        if (step_Output < 1)
+            throw(IOexception("InputParser::FEL1D - <log> step must be positive."));
         createOutput = true;
     } else {
         createOutput = false;
@@ -137,6 +139,8 @@ FEL_1D::FEL_1D(
 
 void FEL_1D::setup(double ZR, double w0, double z_w)
 {
+    if (N_field < 2)
+        throw(IOexception("FEL1D - the field must have at least 2 grid cells."));
     // proper orthonormalization of (e_x, e_y, prop) is assumed
     dz = prop * (-dt*SpeedOfLight);
     field_E = std::vector<double>(N_field, 0.0);
-- 
2.43.0


From 3dd7d164b64127940d941c896b809a916e7cd026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:35 +0000
Subject: [PATCH 14/51] fix: FEL_1D log left out the first step when logging
 every step

---
 src/fel1d.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index 1389732..4a3d4cd 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -222,6 +222,13 @@ void FEL_1D::init(Beam *beam)
     head += prop*ds;
     previous_E = field_E;
     field_E = next_E;
+
+    // this step is recorded like all following ones (with no current driving the field)
+    if (0 == N_steps % step_Output)
+    {
+        field_storage.push_back(field_E);
+        J_storage.push_back(std::vector<double>(N_field, 0.0));
+    }
 }
 
 void FEL_1D::step(Beam *beam)
-- 
2.43.0


From 1b7a8ce8d9f169083d97a433883396eae4b896f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:26 +0000
Subject: [PATCH 15/51] fix: arrays allocated with new[] were released with
 scalar delete

---
 src/mesh.cpp          | 20 ++++++++++----------
 src/screen.cpp        |  4 ++--
 src/snapshot.cpp      |  2 +-
 src/source_screen.cpp |  6 +++---
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index 9a696a6..36ec8e5 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -61,7 +61,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     triangle_points = std::vector<Vector>(Ncp);
     for (int icp=0; icp<Ncp; icp++)
         triangle_points[icp] = pos[icp];
-    delete pos;
+    delete[] pos;
     
     // read the position dataset
     dataset = H5Dopen2(file, "ObservationPosition", H5P_DEFAULT);
@@ -87,7 +87,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     field_points = std::vector<Vector>(Np);
     for (int ip=0; ip<Np; ip++)
         field_points[ip] = pos[ip];
-    delete pos;
+    delete[] pos;
 
     // read the mesh triangles
     dataset = H5Dopen2(file, "MeshTriangles", H5P_DEFAULT);
@@ -113,7 +113,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
         tri.p3 = *bt++;
         triangles[ip] = tri;
     }
-    delete buf;
+    delete[] buf;
     
     // read the trace timing dataset
     // it is not an error if there are no data available
@@ -173,7 +173,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
             if (tr==0) throw(IOexception("MeshedScreen - error allocating memory."));
             A[ip] = tr;
         }
-        delete t0_buf;
+        delete[] t0_buf;
     }
 
     // read the field dataset
@@ -206,7 +206,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
             trace->set_buffer(buf,Nt);
             buf += Nt;
         }
-        delete field;
+        delete[] field;
     }
         
     status = H5Fclose (file);
@@ -494,7 +494,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error closing dataset for MeshCornerPoints"));
     status = H5Sclose (dataspace);
     if (status<0) throw(IOexception("MeshedScreen - error closing dataspace for MeshCornerPoints"));
-    delete cbuffer;
+    delete[] cbuffer;
 
     // write the position dataset
     if (DEBUGLEVEL>=2) cout << "writing mesh center points" << endl;
@@ -552,7 +552,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error closing dataset for ObservationPosition"));
     status = H5Sclose (dataspace);
     if (status<0) throw(IOexception("MeshedScreen - error closing dataspace for ObservationPosition"));
-    delete pbuffer;
+    delete[] pbuffer;
 
     // write the mesh triangles
     if (DEBUGLEVEL>=2) cout << "writing mesh triangles" << endl;
@@ -610,7 +610,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error closing dataset for MeshTriangles"));
     status = H5Sclose (dataspace);
     if (status<0) throw(IOexception("MeshedScreen - error closing dataspace for MeshTriangles"));
-    delete tribuffer;
+    delete[] tribuffer;
 
     // write the timing dataset
     if (DEBUGLEVEL>=2) cout << "writing timing" << endl;
@@ -669,7 +669,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error closing dataset for ObservationTime"));
     status = H5Sclose (dataspace);
     if (status<0) throw(IOexception("MeshedScreen - error closing dataspace for ObservationTime"));
-    delete t0buffer;
+    delete[] t0buffer;
 
     // write the fields dataset
     if (DEBUGLEVEL>=2) cout << "writing fields" << endl;
@@ -724,7 +724,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error closing dataset for ElMagField"));
     status = H5Sclose (dataspace);
     if (status<0) throw(IOexception("MeshedScreen - error closing dataspace for ElMagField"));
-    delete fbuffer;
+    delete[] fbuffer;
 
     // we are done with the file
     status = H5Fclose (file);
diff --git a/src/screen.cpp b/src/screen.cpp
index 7d00ab7..609bb5b 100644
--- a/src/screen.cpp
+++ b/src/screen.cpp
@@ -483,7 +483,7 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Dclose(s_dset)"));
     status = H5Sclose (s_space);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Dclose(s_space)"));
-    delete s_buffer;
+    delete[] s_buffer;
 
 // end NEW
 
@@ -548,7 +548,7 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Dclose(dset)"));
     status = H5Sclose (space);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(space)"));
-    delete buffer;
+    delete[] buffer;
 
     status = H5Fclose (file);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Fclose()"));
diff --git a/src/snapshot.cpp b/src/snapshot.cpp
index be9ec7e..b4199dc 100644
--- a/src/snapshot.cpp
+++ b/src/snapshot.cpp
@@ -65,7 +65,7 @@ SnapshotObserver<SourceT>::SnapshotObserver(
 template <typename SourceT>
 SnapshotObserver<SourceT>::~SnapshotObserver()
 {
-    if (particlesStored>0) delete particleBuffer;
+    delete[] particleBuffer;
 }
 
 template <>
diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index 77e6c53..2cabeeb 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -192,7 +192,7 @@ SourceScreen::SourceScreen(
     }
     
     // done with the field data
-    delete field_buf;
+    delete[] field_buf;
         
     // done with the file
     status = H5Fclose (file);
@@ -410,7 +410,7 @@ void SourceScreen::WriteField(
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Dclose(s_dset)"));
     status = H5Sclose (s_space);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Dclose(s_space)"));
-    delete s_buffer;
+    delete[] s_buffer;
 
     // Create dataspace for the field data.
     // Setting maximum size to NULL sets the maximum size to be the current size.
@@ -473,7 +473,7 @@ void SourceScreen::WriteField(
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Dclose(dset)"));
     status = H5Sclose (space);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(space)"));
-    delete buffer;
+    delete[] buffer;
 
     status = H5Fclose (file);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Fclose()"));
-- 
2.43.0


From bf88a4fea8432b1381534a3f0bf84ccd5708b5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:18 +0000
Subject: [PATCH 16/51] fix: HDF5 attributes were never closed, keeping written
 files open

---
 src/fel1d.cpp         |  4 ++++
 src/logger.cpp        | 10 ++++++++++
 src/screen.cpp        | 24 ++++++++++++++++++++++++
 src/snapshot.cpp      |  8 ++++++++
 src/source_screen.cpp | 20 ++++++++++++++++++++
 5 files changed, 66 insertions(+)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index 4a3d4cd..f1f234e 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -426,6 +426,8 @@ void FEL_1D::write_output()
             if (attr<0) throw(IOexception(("FEL1D::write_output - error in H5Acreate2("+name+")").c_str()));
             herr_t status = H5Awrite(attr, H5T_NATIVE_INT, data);
             if (status<0) throw(IOexception(("FEL1D::write_output - error in H5Awrite("+name+")").c_str()));
+            status = H5Aclose (attr);
+            if (status<0) throw(IOexception(("FEL1D::write_output - error in H5Aclose("+name+")").c_str()));
             status = H5Sclose (atts);
             if (status<0) throw(IOexception(("FEL1D::write_output - error in H5Sclose("+name+")").c_str()));
         };
@@ -437,6 +439,8 @@ void FEL_1D::write_output()
             if (attr<0) throw(IOexception(("FEL1D::write_output - error in H5Acreate2("+name+")").c_str()));
             herr_t status = H5Awrite(attr, H5T_NATIVE_DOUBLE, data);
             if (status<0) throw(IOexception(("FEL1D::write_output - error in H5Awrite("+name+")").c_str()));
+            status = H5Aclose (attr);
+            if (status<0) throw(IOexception(("FEL1D::write_output - error in H5Aclose("+name+")").c_str()));
             status = H5Sclose (atts);
             if (status<0) throw(IOexception(("FEL1D::write_output - error in H5Sclose("+name+")").c_str()));
         };
diff --git a/src/logger.cpp b/src/logger.cpp
index fd43482..71e6e89 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -299,6 +299,8 @@ int TrajectoryLogger<objectT>::WriteData()
     if (attr<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Acreate2(NOTS)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Awrite(NOTS)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Aclose(NOTS)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Sclose(NOTS)"));
     
@@ -308,6 +310,8 @@ int TrajectoryLogger<objectT>::WriteData()
     if (attr<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Acreate2(NOP)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOP);
     if (status<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Awrite(NOP)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Aclose(NOP)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("TrajectoryLogger::WriteData() - error in H5Sclose(NOP)"));
     
@@ -419,6 +423,8 @@ int ProbeLogger<objectT>::WriteData()
     if (attr<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Acreate2(NOTS)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Awrite(NOTS)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Aclose(NOTS)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Sclose(NOTS)"));
     
@@ -428,6 +434,8 @@ int ProbeLogger<objectT>::WriteData()
     if (attr<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Acreate2(NOP)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOP);
     if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Awrite(NOP)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Aclose(NOP)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Sclose(NOP)"));
     
@@ -437,6 +445,8 @@ int ProbeLogger<objectT>::WriteData()
     if (attr<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Acreate2(NOD)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOD);
     if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Awrite(NOD)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Aclose(NOD)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ProbeLogger::WriteData() - error in H5Sclose(NOD)"));
     
diff --git a/src/screen.cpp b/src/screen.cpp
index 609bb5b..6db9f3f 100644
--- a/src/screen.cpp
+++ b/src/screen.cpp
@@ -350,6 +350,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(Nx) - old"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &Nx);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(Nx) - old"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(Nx) - old"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(Nx) - old"));
     // attach scalar attribute Nx
@@ -359,6 +361,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(Ny) - old"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &Ny);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(Ny) - old"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(Ny) - old"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(Ny) - old"));
     // Close and release resources.
@@ -420,6 +424,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(Nx)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &Nx);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(Nx)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(Nx)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(Nx)"));
     // attach scalar attribute Nx
@@ -429,6 +435,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(Ny)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &Ny);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(Ny)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(Ny)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(Ny)"));
     // attach scalar attribute NOTS
@@ -438,6 +446,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(NOTS)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(NOTS)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(NOTS)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(NOTS)"));
     // attach scalar attribute t0
@@ -447,6 +457,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(t0)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &t0_obs);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(t0)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(t0)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(t0)"));
     // attach scalar attribute dt
@@ -456,6 +468,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(dt)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dt_obs);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(dt)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(dt)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(dt)"));
     // attach scalar attribute dtx
@@ -465,6 +479,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(dtx)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dtx_obs);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(dtx)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(dtx)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(dtx)"));
     // attach scalar attribute dty
@@ -474,6 +490,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(dty)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dty_obs);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(dty)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(dty)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(dty)"));
     // Close and release resources.
@@ -523,6 +541,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(t0)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &t0_obs);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(t0)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(t0)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(t0)"));
     atts  = H5Screate(H5S_SCALAR);
@@ -531,6 +551,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(dt)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dt_obs);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(dt)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(dt)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(dt)"));
     atts  = H5Screate(H5S_SCALAR);
@@ -539,6 +561,8 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     if (attr<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Acreate2(NOTS)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Awrite(NOTS)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Aclose(NOTS)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Sclose(NOTS)"));
     // Close and release resources.
diff --git a/src/snapshot.cpp b/src/snapshot.cpp
index b4199dc..809086c 100644
--- a/src/snapshot.cpp
+++ b/src/snapshot.cpp
@@ -275,6 +275,8 @@ void SnapshotObserver<SourceT>::WriteFieldHDF5()
     if (attr1<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Acreate2(attr1)"));
     status = H5Awrite(attr1, H5T_NATIVE_INT, &Nx);
     if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Awrite(attr1)"));
+    status = H5Aclose (attr1);
+    if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Aclose(attr1)"));
     status = H5Sclose (atts1);
     if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Sclose(atts1)"));
     hid_t atts2  = H5Screate(H5S_SCALAR);
@@ -283,6 +285,8 @@ void SnapshotObserver<SourceT>::WriteFieldHDF5()
     if (attr2<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Acreate2(attr2)"));
     status = H5Awrite(attr2, H5T_NATIVE_INT, &Ny);
     if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Awrite(attr2)"));
+    status = H5Aclose (attr2);
+    if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Aclose(attr2)"));
     status = H5Sclose (atts2);
     if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Sclose(atts2)"));
     // Close and release resources.
@@ -329,6 +333,8 @@ void SnapshotObserver<SourceT>::WriteFieldHDF5()
     if (attr<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Acreate2(t0)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &t_obs);
     if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Awrite(t0)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Aclose(t0)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Sclose(t0)"));
     // Close and release resources.
@@ -376,6 +382,8 @@ void SnapshotObserver<SourceT>::WriteFieldHDF5()
         if (attr<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Acreate2(N_particles)"));
         status = H5Awrite(attr, H5T_NATIVE_INT, &particlesStored);
         if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Awrite(N_particles)"));
+        status = H5Aclose (attr);
+        if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Aclose(N_particles)"));
         status = H5Sclose (atts);
         if (status<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Sclose(N_particles)"));
         // Close and release resources.
diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index 2cabeeb..3520d23 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -346,6 +346,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(Nx)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &Nx);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(Nx)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(Nx)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(Nx)"));
     // attach scalar attribute Nx
@@ -355,6 +357,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(Ny)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &Ny);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(Ny)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(Ny)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(Ny)"));
     // attach scalar attribute NOTS
@@ -364,6 +368,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(NOTS)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(NOTS)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(NOTS)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(NOTS)"));
     // attach scalar attribute t0
@@ -374,6 +380,8 @@ void SourceScreen::WriteField(
     double t0_src = 0.0;
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &t0_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(t0)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(t0)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(t0)"));
     // attach scalar attribute dt
@@ -383,6 +391,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(dt)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dt_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(dt)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(dt)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(dt)"));
     // attach scalar attribute dtx
@@ -392,6 +402,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(dtx)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dtx_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(dtx)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(dtx)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(dtx)"));
     // attach scalar attribute dty
@@ -401,6 +413,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(dty)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dty_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(dty)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(dty)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(dty)"));
     // Close and release resources.
@@ -448,6 +462,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(t0)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &t0_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(t0)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(t0)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(t0)"));
     atts  = H5Screate(H5S_SCALAR);
@@ -456,6 +472,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(dt)"));
     status = H5Awrite(attr, H5T_NATIVE_DOUBLE, &dt_src);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(dt)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(dt)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(dt)"));
     atts  = H5Screate(H5S_SCALAR);
@@ -464,6 +482,8 @@ void SourceScreen::WriteField(
     if (attr<0) throw(IOexception("SourceScreen::WriteField - error in H5Acreate2(NOTS)"));
     status = H5Awrite(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Awrite(NOTS)"));
+    status = H5Aclose (attr);
+    if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Aclose(NOTS)"));
     status = H5Sclose (atts);
     if (status<0) throw(IOexception("SourceScreen::WriteField - error in H5Sclose(NOTS)"));
     // Close and release resources.
-- 
2.43.0


From 0fcb50dd5e05296bbe14838c81ebfae57899fb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:20 +0000
Subject: [PATCH 17/51] fix: MeshedScreen::get_dt() truncated the time step to
 an integer

---
 src/mesh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.h b/src/mesh.h
index 9d5673c..4c50044 100644
--- a/src/mesh.h
+++ b/src/mesh.h
@@ -124,7 +124,7 @@ public:
     int get_Nt() { return Nt; }
 
     /* Get the length of the time steps */
-    int get_dt() { return dt; }
+    double get_dt() { return dt; }
 
     //! @todo all index operations should be range-checked
     /*! Get the position of one grid cell */
-- 
2.43.0


From 902024948a066c08c48b4e4e52e1d09d96670ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:20 +0000
Subject: [PATCH 18/51] fix: local coordinate systems of meshed screens facing
 the negative y direction

---
 src/mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index 36ec8e5..815533d 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -253,7 +253,7 @@ void MeshedScreen<SourceT>::init()
             if (DEBUGLEVEL>=1) cout << "WARNING: MeshedScreen normals are not aligned well enough" << std::endl;
     };
     // setup the cell-local coordinate systems
-    if (avg_normal.y < 0.7)
+    if (fabs(avg_normal.y) < 0.7)
     {
         // if the average normal vector is sufficiently far off the y direction
         // xi is confined to lay in the x-z-plane
-- 
2.43.0


From 406289a1482f4c99c8bceff2e3533f35b6fc7246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:51 +0000
Subject: [PATCH 19/51] fix: MeshedScreen read beyond its buffers when datasets
 did not match the attributes

---
 src/mesh.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index 815533d..e9b1146 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -27,6 +27,16 @@
 #include <omp.h>
 #include "hdf5.h"
 
+/*! Check that a dataset holds exactly the number of values that will be read from it. */
+static void checkDatasetSize(hid_t dataset, std::size_t size)
+{
+    hid_t space = H5Dget_space(dataset);
+    hssize_t npoints = H5Sget_simple_extent_npoints(space);
+    H5Sclose(space);
+    if (npoints<0 || (std::size_t)npoints!=size)
+        throw(IOexception("MeshedScreen - dataset size does not match the attributes"));
+}
+
 template <typename SourceT>
 MeshedScreen<SourceT>::MeshedScreen(std::string filename)
 {
@@ -47,6 +57,8 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error reading dataset MeshCornerPoints attribute Ncp"));
     status = H5Aclose(attr);
     if (status<0) throw(IOexception("MeshedScreen - error reading dataset MeshCornerPoints attribute Ncp"));
+    if (Ncp<0) throw(IOexception("MeshedScreen - illegal number of corner points"));
+    checkDatasetSize(dataset, 3*(std::size_t)Ncp);
     Vector *pos = new Vector[Ncp];
     if (pos==0) throw(IOexception("MeshedScreen - error allocating memory."));
     status = H5Dread (dataset,
@@ -72,6 +84,8 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     if (status<0) throw(IOexception("MeshedScreen - error reading dataset ObservationPosition attribute Np"));
     status = H5Aclose(attr);
     if (status<0) throw(IOexception("MeshedScreen - error reading dataset ObservationPosition attribute Np"));
+    if (Np<0) throw(IOexception("MeshedScreen - illegal number of mesh cells"));
+    checkDatasetSize(dataset, 3*(std::size_t)Np);
     // create and fill a buffer
     pos = new Vector[Np];
     if (pos==0) throw(IOexception("MeshedScreen - error allocating memory."));
@@ -92,6 +106,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     // read the mesh triangles
     dataset = H5Dopen2(file, "MeshTriangles", H5P_DEFAULT);
     if (dataset<0) throw(IOexception("MeshedScreen - error opening dataset MeshTriangles"));
+    checkDatasetSize(dataset, 3*(std::size_t)Np);
     int* buf = new int[3*Np];
     if (buf==0) throw(IOexception("MeshedScreen - error allocating memory."));
     status = H5Dread (dataset,
@@ -111,6 +126,8 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
         tri.p1 = *bt++;
         tri.p2 = *bt++;
         tri.p3 = *bt++;
+        if (tri.p1<0 || tri.p1>=Ncp || tri.p2<0 || tri.p2>=Ncp || tri.p3<0 || tri.p3>=Ncp)
+            throw(IOexception("MeshedScreen - triangle refers to a non-existing corner point"));
         triangles[ip] = tri;
     }
     delete[] buf;
@@ -149,6 +166,8 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
         if (status<0) throw(IOexception("MeshedScreen - error reading dataset ObservationTime attribute dt"));
         status = H5Aclose(attr);
         if (status<0) throw(IOexception("MeshedScreen - error reading dataset ObservationTime attribute dt"));
+        if (Nt<0) throw(IOexception("MeshedScreen - illegal number of time steps"));
+        checkDatasetSize(dataset, Np);
         double* t0_buf = new double[Np];
         if (t0_buf==0) throw(IOexception("MeshedScreen - error allocating memory."));
         status = H5Dread (dataset,
@@ -187,6 +206,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     {
         dataset = H5Dopen2(file, "ElMagField", H5P_DEFAULT);
         if (dataset<0) throw(IOexception("MeshedScreen - error opening dataset ElMagField"));
+        checkDatasetSize(dataset, 6*(std::size_t)Np*(std::size_t)Nt);
         ElMagField* field = new ElMagField[Np*Nt];
         if (field==0) throw(IOexception("MeshedScreen - error allocating memory."));
         status = H5Dread (dataset,
-- 
2.43.0


From dff2833bc16928a3a3d5e4e5e66ba5df953bd0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:30 +0000
Subject: [PATCH 20/51] fix: source screen returned its fields in a
 screen-local coordinate system

---
 src/source_screen.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index 3520d23..4d6f6c7 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -181,11 +181,9 @@ SourceScreen::SourceScreen(
     	    FieldTrace* tr = new FieldTrace(CellTimeZero(ix,iy),dt_src,NOTS);
     	    if (tr==0) throw(IOexception("SourceScreen - error allocating memory."));
     	    tr -> set_buffer(b, NOTS);
-    	    // the field data are expressed in screen-local coordinates
-    	    tr -> transform(ex,ey,normal);
-    	    // coax the fields to be purely transversal
-    	    // (cancel the z component in the screen-local frame)
-    	    tr -> cancel_long_fields(Vector(0.0,0.0,1.0));
+    	    // coax the fields to be purely transversal (cancel the component
+    	    // along the screen normal), all in the coordinate system of the file
+    	    tr -> cancel_long_fields(normal);
     	    Traces[ix][iy] = tr;
     	    b+=NOTS;
     	};
-- 
2.43.0


From df05faca043d36f1a34d4fba305b379e0d03cb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:30 +0000
Subject: [PATCH 21/51] fix: source screen did not check the size of the Screen
 dataset

---
 src/source_screen.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index 4d6f6c7..7ae4841 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -96,6 +96,10 @@ SourceScreen::SourceScreen(
         }
         
     // read the vectors
+    hid_t sspace = H5Dget_space(dataset);
+    hssize_t ssize = H5Sget_simple_extent_npoints(sspace);
+    H5Sclose(sspace);
+    if (ssize != 4*3) throw(IOexception("SourceScreen - error reading dataset Screen - size != 4x3"));
     double* buf = new double[4*3];
     if (buf==0) throw(IOexception("SourceScreen - error allocating memory."));
     status = H5Dread (dataset,
-- 
2.43.0


From 4e5b73c261940e49b378f52b1004775b97cb24f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:21 +0000
Subject: [PATCH 22/51] fix: propagate accepted a call without output file name

---
 src/propagate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/propagate.cpp b/src/propagate.cpp
index ab8b79d..f9bcc0f 100644
--- a/src/propagate.cpp
+++ b/src/propagate.cpp
@@ -62,7 +62,7 @@ int main(int argc, char* argv[])
     std::cout << std::endl;
     std::cout << "Propagate Radiation from Screen to Screen" << std::endl << std::endl;
     
-    if (argc<3)
+    if (argc<4)
     {
         std::cout << "Usage: propagate sourcefile targetfile outfile" << std::endl;
         return 1;
-- 
2.43.0


From c1d48071f68f11ffcf77ddd0d973ea4a725b86cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:21 +0000
Subject: [PATCH 23/51] fix: propagate and reflection overflowed a buffer for
 cells with more than 24 neighbours

---
 src/propagate.cpp  | 6 +++---
 src/reflection.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/propagate.cpp b/src/propagate.cpp
index f9bcc0f..a1d82bc 100644
--- a/src/propagate.cpp
+++ b/src/propagate.cpp
@@ -152,8 +152,8 @@ int main(int argc, char* argv[])
         for (int index=0; index<source->get_Np(); index++)
         {    
             // determine the neighbourhood of this cell
-            int nbh[24];
-            int count = source->get_Neighbourhood(index,nbh);
+            std::vector<int> nbh(source->get_Np());
+            int count = source->get_Neighbourhood(index,nbh.data());
             // std::cout << "neighbourhood size = " << count << std::endl;
             // std::cout << "[";
             // for (int i=0; i<count; i++) std::cout << nbh[i] << " ";
@@ -187,7 +187,7 @@ int main(int argc, char* argv[])
             
             // get the field traces of the neighbourhood in the local coordinate system
             FieldTrace* local_trace = new FieldTrace(source->get_trace(index));
-            FieldTrace* nbh_trace[24];
+            std::vector<FieldTrace*> nbh_trace(count);
             for (int i=0; i<count; i++)
             {
                 nbh_trace[i] = new FieldTrace(source->get_trace(nbh[i]));
diff --git a/src/reflection.cpp b/src/reflection.cpp
index 18fa839..3709805 100644
--- a/src/reflection.cpp
+++ b/src/reflection.cpp
@@ -234,8 +234,8 @@ int main(int argc, char* argv[])
         for (int index=0; index<source->get_Np(); index++)
         {    
             // determine the neighbourhood of this cell
-            int nbh[24];
-            int count = source->get_Neighbourhood(index,nbh);
+            std::vector<int> nbh(source->get_Np());
+            int count = source->get_Neighbourhood(index,nbh.data());
             // std::cout << "neighbourhood size = " << count << std::endl;
             // std::cout << "[";
             // for (int i=0; i<count; i++) std::cout << nbh[i] << " ";
@@ -269,7 +269,7 @@ int main(int argc, char* argv[])
             
             // get the field traces of the neighbourhood in the local coordinate system
             FieldTrace* local_trace = new FieldTrace(source->get_trace(index));
-            FieldTrace* nbh_trace[24];
+            std::vector<FieldTrace*> nbh_trace(count);
             for (int i=0; i<count; i++)
             {
                 nbh_trace[i] = new FieldTrace(source->get_trace(nbh[i]));
-- 
2.43.0


From fa97c5234bfe7c67bfd0960eb574242f504ad12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:13 +0000
Subject: [PATCH 24/51] fix: reflection delivered the reflected fields with
 inverted polarity

---
 src/reflection.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/reflection.cpp b/src/reflection.cpp
index 3709805..2d045e6 100644
--- a/src/reflection.cpp
+++ b/src/reflection.cpp
@@ -492,7 +492,7 @@ int main(int argc, char* argv[])
                 try
                 {
                     t1.retard(R/SpeedOfLight, &component);
-                    propagated_trace += component * (-dot(RVec,Normal)/R3) * dA;
+                    propagated_trace += component * (dot(RVec,Normal)/R3) * dA;
                 }
                 catch(IOexception const & exc)
                 {
@@ -513,7 +513,7 @@ int main(int argc, char* argv[])
                 {
                     FieldTrace t2 = *source_dA_dt[isource];
                     t2.retard(R/SpeedOfLight, &component);
-                    propagated_trace += component * (-dot(RVec,Normal)/(R2*SpeedOfLight)) * dA;
+                    propagated_trace += component * (dot(RVec,Normal)/(R2*SpeedOfLight)) * dA;
                 }
                 catch(IOexception const & exc)
                 {
@@ -526,8 +526,8 @@ int main(int argc, char* argv[])
                 {
                     FieldTrace t3 = *source_dA_dn[isource];
                     t3.retard(R/SpeedOfLight, &component);
-                    //! @todo why is this term positive - should be negative
-                    propagated_trace += component * (1.0/R) * dA;
+                    // the reflected light leaves along the normal (propagate: against the normal)
+                    propagated_trace += component * (-1.0/R) * dA;
                 }
                 catch(IOexception const & exc)
                 {
-- 
2.43.0


From 25af3b29d9bb6de320c54265f4494147559e965b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:45 +0000
Subject: [PATCH 25/51] fix: teufel aborted on machines or processes with more
 than 2 TB of (virtual) memory

---
 src/teufel_hybrid.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/teufel_hybrid.cpp b/src/teufel_hybrid.cpp
index db0ee40..1aa7a4b 100644
--- a/src/teufel_hybrid.cpp
+++ b/src/teufel_hybrid.cpp
@@ -102,7 +102,7 @@ int main(int argc, char *argv[])
 
     char processor_name[MPI_MAX_PROCESSOR_NAME];
     int namelen;
-    int mem_size = -1;
+    long mem_size = -1;
     int PID = getpid();
     MPI_Get_processor_name(processor_name, &namelen);
     std::string line;
@@ -119,7 +119,7 @@ int main(int argc, char *argv[])
             std::string name = line.substr(0, pos);
             std::string rest = line.erase(0,pos+1);
             if (name=="MemTotal") {
-                mem_size = std::stoi(rest);
+                mem_size = std::stol(rest);
             }
         }
         myfile.close();
@@ -143,7 +143,7 @@ int main(int argc, char *argv[])
             std::string name = line.substr(0, pos);
             std::string rest = line.erase(0,pos+1);
             if (name=="VmSize") {
-                mem_size = std::stoi(rest);
+                mem_size = std::stol(rest);
             }
         }
         cout << "node " << teufel::rank << " memory usage : " << mem_size/1e3 << " MB" << std::endl;
@@ -285,7 +285,7 @@ int main(int argc, char *argv[])
             std::string name = line.substr(0, pos);
             std::string rest = line.erase(0,pos+1);
             if (name=="VmSize") {
-                mem_size = std::stoi(rest);
+                mem_size = std::stol(rest);
             }
         }
         cout << "node " << teufel::rank << " memory usage : " << mem_size/1e3 << " MB" << std::endl;
@@ -357,7 +357,7 @@ int main(int argc, char *argv[])
             std::string name = line.substr(0, pos);
             std::string rest = line.erase(0,pos+1);
             if (name=="VmSize") {
-                mem_size = std::stoi(rest);
+                mem_size = std::stol(rest);
             }
         }
         cout << "node " << teufel::rank << " memory usage : " << mem_size/1e3 << " MB" << std::endl;
@@ -447,7 +447,7 @@ int main(int argc, char *argv[])
             std::string name = line.substr(0, pos);
             std::string rest = line.erase(0,pos+1);
             if (name=="VmSize") {
-                mem_size = std::stoi(rest);
+                mem_size = std::stol(rest);
             }
         }
         cout << "node " << teufel::rank << " memory usage : " << mem_size/1e3 << " MB" << std::endl;
@@ -601,7 +601,7 @@ int main(int argc, char *argv[])
                     std::string name = line.substr(0, pos);
                     std::string rest = line.erase(0,pos+1);
                     if (name=="VmSize") {
-                        mem_size = std::stoi(rest);
+                        mem_size = std::stol(rest);
                     }
                 }
                 cout << "node " << teufel::rank << " memory usage : " << mem_size/1e3 << " MB" << std::endl;
@@ -631,7 +631,7 @@ int main(int argc, char *argv[])
             std::string name = line.substr(0, pos);
             std::string rest = line.erase(0,pos+1);
             if (name=="VmSize") {
-                mem_size = std::stoi(rest);
+                mem_size = std::stol(rest);
             }
         }
         cout << "node " << teufel::rank << " memory usage : " << mem_size/1e3 << " MB" << std::endl;
-- 
2.43.0


From 87a4dfcb761fb5eeba9f40bb44d8b541f6488370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:42 +0000
Subject: [PATCH 26/51] fix: charge in the SDDS watch point was multiplied
 twice with the elementary charge

---
 src/beam.cpp | 2 +-
 src/beam.h   | 2 +-
 src/bunch.h  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/beam.cpp b/src/beam.cpp
index c673b6e..a65306f 100644
--- a/src/beam.cpp
+++ b/src/beam.cpp
@@ -372,7 +372,7 @@ int Beam::WriteWatchPointSDDS(std::string filename)
         return 6;
     }
     if( SDDS_SetParameters(&data,SDDS_SET_BY_NAME|SDDS_PASS_BY_VALUE,
-        "Charge", ElementaryCharge*getTotalCharge(), NULL ) !=1
+        "Charge", getTotalCharge(), NULL ) !=1
         )
     {
         std::cout << "Bunch::WriteWatchPointSDDS - error setting parameters" << std::endl;
diff --git a/src/beam.h b/src/beam.h
index c35e428..f70dbb8 100644
--- a/src/beam.h
+++ b/src/beam.h
@@ -95,7 +95,7 @@ public:
     int getNOP();
     
     /*! Report the total charge of the particles contained in the beam
-     *  in units of elementary charge (i.e. simulated number of electrons)
+     *  [C]
      */
     double getTotalCharge();
     
diff --git a/src/bunch.h b/src/bunch.h
index c8b4129..19715fc 100644
--- a/src/bunch.h
+++ b/src/bunch.h
@@ -241,7 +241,7 @@ public:
     int getNOP();	
 
     /*! Report the total charge of the particles contained in the bunch
-     *  in units of elementary charge (i.e. simulated number of electrons)
+     *  [C]
      */
     double getTotalCharge();
 
-- 
2.43.0


From ef02e75ab4e780d9b35f771950d31f649615ecf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:00 +0000
Subject: [PATCH 27/51] fix: file name buffer overflow when importing a bunch
 from an SDDS file

---
 src/bunch.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bunch.cpp b/src/bunch.cpp
index 55444f2..cbee397 100644
--- a/src/bunch.cpp
+++ b/src/bunch.cpp
@@ -192,11 +192,10 @@ Bunch::Bunch(const char *filename, Vector dir)
     NOP = 0;
     std::cout << "reading particles from SDDS file " << filename << std::endl;
     // make a copy of the filename to make it changable
-    char fn[100];
-    strncpy (fn, filename, sizeof(fn)-1);
+    std::string fn(filename);
     SDDS_DATASET SDDS_dataset;
     // SDDS_InitializeInput - returns 1 on success, 0 on failure 
-    if (SDDS_InitializeInput(&SDDS_dataset, fn ) != 1)
+    if (SDDS_InitializeInput(&SDDS_dataset, &fn[0] ) != 1)
     {
         std::cout << "cannot read SDDS file " << filename;
         std::cout << " : creating empty bunch." << std::endl;
-- 
2.43.0


From a6870cf0a34f0106f11564d94826e966c011f954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:00 +0000
Subject: [PATCH 28/51] fix: SDDS import read beyond the data when the file
 holds less rows than particles

---
 src/bunch.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bunch.cpp b/src/bunch.cpp
index cbee397..4de8ead 100644
--- a/src/bunch.cpp
+++ b/src/bunch.cpp
@@ -228,6 +228,14 @@ Bunch::Bunch(const char *filename, Vector dir)
     // we only assign a local variable here, so NOP stays zero
     // just in case there may be further errors
     int file_NOP = *nopData;
+    // sampled files hold less rows than the number of particles in the bunch
+    int64_t rows = SDDS_CountRowsOfInterest(&SDDS_dataset);
+    if (file_NOP < 0 || rows < 0)
+    {
+        std::cout << "invalid number of particles" << std::endl;
+        return;
+    };
+    if (file_NOP > rows) file_NOP = rows;
 
     // the file value is the total charge [C] unsigned value
     char chName[] = "Charge";
-- 
2.43.0


From ce79b94f352448f04d175dd8127c341f4919123d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:19 +0000
Subject: [PATCH 29/51] fix: progress messages read the cell counters without
 synchronisation

---
 src/mesh.cpp       | 15 ++++++++++++---
 src/propagate.cpp  | 15 ++++++++++++---
 src/reflection.cpp | 15 ++++++++++++---
 src/screen.cpp     | 15 ++++++++++++---
 4 files changed, 48 insertions(+), 12 deletions(-)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index e9b1146..87df829 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -325,8 +325,11 @@ void MeshedScreen<Beam>::integrate()
             if (now-print_time>60.0)
             {
                 print_time = now;
+                int computed;
+                #pragma omp atomic read
+                computed = counter;
                 std::cout << "node " << teufel::rank << " : computed ";
-                std::cout << counter << " of " << Np << " cells";
+                std::cout << computed << " of " << Np << " cells";
                 std::cout << " using " << omp_get_num_threads() << " threads." << std::endl;
             };
         };
@@ -353,8 +356,11 @@ void MeshedScreen<Bunch>::integrate()
             if (now-print_time>60.0)
             {
                 print_time = now;
+                int computed;
+                #pragma omp atomic read
+                computed = counter;
                 std::cout << "node " << teufel::rank << " : computed ";
-                std::cout << counter << " of " << Np << " cells";
+                std::cout << computed << " of " << Np << " cells";
                 std::cout << " using " << omp_get_num_threads() << " threads." << std::endl;
             };
         };
@@ -384,8 +390,11 @@ void MeshedScreen<Lattice>::integrate()
             if (now-print_time>60.0)
             {
                 print_time = now;
+                int computed;
+                #pragma omp atomic read
+                computed = counter;
                 std::cout << "node " << teufel::rank << " : computed ";
-                std::cout << counter << " of " << Np << " cells";
+                std::cout << computed << " of " << Np << " cells";
                 std::cout << " using " << omp_get_num_threads() << " threads." << std::endl;
             };
         };
diff --git a/src/propagate.cpp b/src/propagate.cpp
index a1d82bc..7d3d146 100644
--- a/src/propagate.cpp
+++ b/src/propagate.cpp
@@ -284,7 +284,10 @@ int main(int argc, char* argv[])
                     print_time = now_time;
                     elapsed = now_time.tv_sec-start_time.tv_sec +
                     1e-9*(now_time.tv_nsec-start_time.tv_nsec);
-                    std::cout << "completed " << std::setprecision(4) << 100.0*(double)counter/(double)(source->get_Np()) << "%";
+                    int completed;
+                    #pragma omp atomic read
+                    completed = counter;
+                    std::cout << "completed " << std::setprecision(4) << 100.0*(double)completed/(double)(source->get_Np()) << "%";
                     std::cout << "   after " << elapsed << " seconds" << std::endl;
                 };
             };
@@ -436,9 +439,15 @@ int main(int argc, char* argv[])
                     print_time = now_time;
                     elapsed = now_time.tv_sec-start_time.tv_sec +
                     1e-9*(now_time.tv_nsec-start_time.tv_nsec);
-                    std::cout << "completed " << std::setprecision(4) << 100.0*(double)counter/(double)(target->get_Np()) << "%";
+                    int completed;
+                    #pragma omp atomic read
+                    completed = counter;
+                    std::cout << "completed " << std::setprecision(4) << 100.0*(double)completed/(double)(target->get_Np()) << "%";
                     std::cout << "   after " << elapsed << " seconds";
-                    if (warnings_counter>0) std::cout << "   received " << warnings_counter << " 'zero field' warnings";
+                    int warnings;
+                    #pragma omp atomic read
+                    warnings = warnings_counter;
+                    if (warnings>0) std::cout << "   received " << warnings << " 'zero field' warnings";
                     std::cout << std::endl;
                 };
             };
diff --git a/src/reflection.cpp b/src/reflection.cpp
index 2d045e6..fa22ed2 100644
--- a/src/reflection.cpp
+++ b/src/reflection.cpp
@@ -366,7 +366,10 @@ int main(int argc, char* argv[])
                     print_time = now_time;
                     elapsed = now_time.tv_sec-start_time.tv_sec +
                     1e-9*(now_time.tv_nsec-start_time.tv_nsec);
-                    std::cout << "completed " << std::setprecision(4) << 100.0*(double)counter/(double)(source->get_Np()) << "%";
+                    int completed;
+                    #pragma omp atomic read
+                    completed = counter;
+                    std::cout << "completed " << std::setprecision(4) << 100.0*(double)completed/(double)(source->get_Np()) << "%";
                     std::cout << "   after " << elapsed << " seconds" << std::endl;
                 };
             };
@@ -555,9 +558,15 @@ int main(int argc, char* argv[])
                     print_time = now_time;
                     elapsed = now_time.tv_sec-start_time.tv_sec +
                     1e-9*(now_time.tv_nsec-start_time.tv_nsec);
-                    std::cout << "completed " << std::setprecision(4) << 100.0*(double)counter/(double)(target->get_Np()) << "%";
+                    int completed;
+                    #pragma omp atomic read
+                    completed = counter;
+                    std::cout << "completed " << std::setprecision(4) << 100.0*(double)completed/(double)(target->get_Np()) << "%";
                     std::cout << "   after " << elapsed << " seconds";
-                    if (warnings_counter>0) std::cout << "   received " << warnings_counter << " 'zero field' warnings";
+                    int warnings;
+                    #pragma omp atomic read
+                    warnings = warnings_counter;
+                    if (warnings>0) std::cout << "   received " << warnings << " 'zero field' warnings";
                     std::cout << std::endl;
                 };
             };
diff --git a/src/screen.cpp b/src/screen.cpp
index 6db9f3f..4555d01 100644
--- a/src/screen.cpp
+++ b/src/screen.cpp
@@ -134,8 +134,11 @@ void ScreenObserver<Beam>::integrate()
                 if (now-print_time>60.0)
                 {
                     print_time = now;
+                    int computed;
+                    #pragma omp atomic read
+                    computed = counter;
                     std::cout << "node " << teufel::rank << " : computed ";
-                    std::cout << counter << " of " << Nx*Ny << " cells ";
+                    std::cout << computed << " of " << Nx*Ny << " cells ";
                     std::cout << " in " << now-start_time << " s ";
                     std::cout << " using " << omp_get_num_threads() << " threads." << std::endl;
                 };
@@ -169,8 +172,11 @@ void ScreenObserver<Bunch>::integrate()
                 if (now-print_time>60.0)
                 {
                     print_time = now;
+                    int computed;
+                    #pragma omp atomic read
+                    computed = counter;
                     std::cout << "node " << teufel::rank << " : computed ";
-                    std::cout << counter << " of " << Nx*Ny << " cells ";
+                    std::cout << computed << " of " << Nx*Ny << " cells ";
                     std::cout << " in " << now-start_time << " s ";
                     std::cout << " using " << omp_get_num_threads() << " threads." << std::endl;
                 };
@@ -206,8 +212,11 @@ void ScreenObserver<Lattice>::integrate()
                     if (now-print_time>60.0)
                     {
                         print_time = now;
+                        int computed;
+                        #pragma omp atomic read
+                        computed = counter;
                         std::cout << "node " << teufel::rank << " : computed ";
-                        std::cout << counter << " of " << Nx*Ny << " cells ";
+                        std::cout << computed << " of " << Nx*Ny << " cells ";
                         std::cout << " in " << now-start_time << " s ";
                         std::cout << " using " << omp_get_num_threads() << " threads." << std::endl;
                     };
-- 
2.43.0


From dade6b7409be26d34d8cad5aefb450e794f74236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 30/51] fix: fields observed from the lattice were multiplied
 by the number of nodes

---
 src/teufel_hybrid.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/teufel_hybrid.cpp b/src/teufel_hybrid.cpp
index 1aa7a4b..cb5427c 100644
--- a/src/teufel_hybrid.cpp
+++ b/src/teufel_hybrid.cpp
@@ -710,7 +710,9 @@ int main(int argc, char *argv[])
         if (auto obs = dynamic_cast<Observer<Lattice>*>(observer))
         {
             obs->setSource(lattice);
-            obs->integrate();
+            // every node holds the complete lattice, so only one of them
+            // may contribute to the sum of the fields over all nodes
+            if (teufel::rank == 0) obs->integrate();
         }
         double stop_time = MPI_Wtime();
         MPI_Barrier(MPI_COMM_WORLD);
-- 
2.43.0


From c92eb8f4fde75e10fdc7aea767d3bd993022ae85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 31/51] fix: runs with a source screen failed on more than one
 node

---
 src/source_screen.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index 7ae4841..c9e9395 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -222,8 +222,12 @@ SourceScreen::SourceScreen(
     // when we are done we write the field to files
     // for debugging purpose only
     //! @todo remove this
-    WriteField("SourceScreenTraces_DEBUG.h5", Traces);
-    WriteField("SourceScreenTimeDerivative_DEBUG.h5", dt_Traces);
+    // (by one node only - concurrent writing of the same file fails)
+    if (teufel::rank==0)
+    {
+        WriteField("SourceScreenTraces_DEBUG.h5", Traces);
+        WriteField("SourceScreenTimeDerivative_DEBUG.h5", dt_Traces);
+    }
   
 }
 
-- 
2.43.0


From 91ddaabb2b8b0f6962278eae154326fd0aba5dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 32/51] fix: the documented calculator constant _mu0 was not
 defined

---
 src/parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser.cpp b/src/parser.cpp
index 5b87dfd..d10d1d6 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -48,6 +48,7 @@ InputParser::InputParser(const pugi::xml_node node)
     calc->DefineConst("_h", (double)PlanckH);
     calc->DefineConst("_mec2", (double)mecsquared);
     calc->DefineConst("_eps0", (double)EpsNull);
+    calc->DefineConst("_mu0", (double)MuNull);
     calc->DefineConst("_pi", (double)Pi);
     // evaluate all <calc> nodes present as children of root
     parseCalcChildren(root);
-- 
2.43.0


From c50c4b266863b12d7e4935b538b4cf00b3ee6865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 33/51] fix: integer input attributes ignored computed terms
 and variables

---
 src/fel1d.cpp     |  2 +-
 src/parser.cpp    | 57 ++++++++++++++++++++++++-----------------------
 src/parser.h      |  2 +-
 src/undulator.cpp |  4 ++--
 4 files changed, 33 insertions(+), 32 deletions(-)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index f1f234e..e9dcaa4 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -106,7 +106,7 @@ FEL_1D::FEL_1D(
         FileName = fn.as_string();
         step_Output = 1;
         pugi::xml_attribute st = lognode.attribute("step");
-        if (st) step_Output = st.as_int();
+        if (st) step_Output = parser->parseInt(st);
         if (step_Output < 1)
             throw(IOexception("InputParser::FEL1D - <log> step must be positive."));
         createOutput = true;
diff --git a/src/parser.cpp b/src/parser.cpp
index d10d1d6..bdb9c50 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -130,8 +130,7 @@ double InputParser::parseDouble(const pugi::xml_attribute attr)
     return retval;
 }
 
-//! @todo use parseInt for all integer inputs
-double InputParser::parseInt(const pugi::xml_attribute attr)
+int InputParser::parseInt(const pugi::xml_attribute attr)
 {
     int retval = 0;
     try
@@ -356,7 +355,7 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                     if (!fn) throw(IOexception("InputParser::parseBeam - <particle> filename for log not found."));
                     int step = 1;
                     pugi::xml_attribute st = lognode.attribute("step");
-                    if (st) step = st.as_int();
+                    if (st) step = parseInt(st);
                     ParameterLogger<Bunch>* logger = new ParameterLogger<Bunch>(single, fn.as_string(), step);
                     logs->push_back(logger);
                 }
@@ -370,7 +369,9 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                 double betagamma = sqrt(gamma * gamma - 1.0);
                 double charge = parseDouble(entry.attribute("charge"))/ElementaryCharge;
                 double cmr = parseDouble(entry.attribute("cmr"));
-                int NoP = entry.attribute("n").as_int(1);
+                int NoP = 1;
+                pugi::xml_attribute natt = entry.attribute("n");
+                if (natt) NoP = parseInt(natt);
                 parseCalcChildren(entry);
                 double t0 = 0.0;
                 double x, y, z;
@@ -487,7 +488,7 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                     int step = 1;
                     //! @todo if step is not given it becomes 0 and leads to divide-by-zero errors
                     pugi::xml_attribute st = lognode.attribute("step");
-                    if (st) step = st.as_int();
+                    if (st) step = parseInt(st);
                     ParameterLogger<Bunch>* logger = new ParameterLogger<Bunch>(bunch, fn.as_string(), step);
                     pugi::xml_attribute bf = lognode.attribute("bunching-freq");
                     if (bf)
@@ -505,10 +506,10 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                     if (!fn) throw(IOexception("InputParser::parseBeam - <bunch> filename for trajectories not found."));
                     int step = 1;
                     pugi::xml_attribute st = trajnode.attribute("step");
-                    if (st) step = st.as_int();
+                    if (st) step = parseInt(st);
                     int particles = 1000000;
                     pugi::xml_attribute np = trajnode.attribute("particles");
-                    if (np) particles = np.as_int();
+                    if (np) particles = parseInt(np);
                     TrajectoryLogger<Bunch>* traj_logger = new TrajectoryLogger<Bunch>(bunch, fn.as_string(), step, particles);
                     logs->push_back(traj_logger);
                 };
@@ -581,7 +582,7 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                     if (!fn) throw(IOexception("InputParser::parseBeam - <bunch> filename for log not found."));
                     int step = 1;
                     pugi::xml_attribute st = lognode.attribute("step");
-                    if (st) step = st.as_int();
+                    if (st) step = parseInt(st);
                     ParameterLogger<Bunch>* logger = new ParameterLogger<Bunch>(bunch, fn.as_string(), step);
                     pugi::xml_attribute bf = lognode.attribute("bunching-freq");
                     if (bf)
@@ -604,10 +605,10 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                 probe->filename = filename.as_string();
                 probe->step = 1;
                 pugi::xml_attribute st = entry.attribute("step");
-                if (st) probe->step = st.as_int();
+                if (st) probe->step = parseInt(st);
                 probe->number = 1;
                 pugi::xml_attribute nm = entry.attribute("number");
-                if (nm) probe->number = nm.as_int();
+                if (nm) probe->number = parseInt(nm);
             }
             else
                 throw(IOexception("InputParser::parseBeam - unknown type of beam entry."));
@@ -751,8 +752,8 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                         snapObs = new SnapshotObserver<Beam>(
                             fn.as_string(),
                             pos, h, v,
-                            nh.as_int(),
-                            nv.as_int(),
+                            parseInt(nh),
+                            parseInt(nv),
                             t0 );
                         snapObs->setSourceType(BeamObservation);
                     }
@@ -761,8 +762,8 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                         snapObs = new SnapshotObserver<Lattice>(
                             fn.as_string(),
                             pos, h, v,
-                            nh.as_int(),
-                            nv.as_int(),
+                            parseInt(nh),
+                            parseInt(nv),
                             t0 );
                         snapObs->setSourceType(LatticeObservation);
                     }
@@ -773,8 +774,8 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                     snapObs = new SnapshotObserver<Beam>(
                         fn.as_string(),
                         pos, h, v,
-                        nh.as_int(),
-                        nv.as_int(),
+                        parseInt(nh),
+                        parseInt(nv),
                         t0 );
                     snapObs->setSourceType(BeamObservation);
                 }
@@ -842,9 +843,9 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                         screenObs = new ScreenObserver<Beam>(
                             fn.as_string(),
                             pos, dx, dy,
-                            nh.as_int(),
-                            nv.as_int(),
-                            t0, dt, dtx, dty, nt.as_int() );
+                            parseInt(nh),
+                            parseInt(nv),
+                            t0, dt, dtx, dty, parseInt(nt) );
                         screenObs->setSourceType(BeamObservation);
                     }
                     else if (std::string(src.value()) == "lattice")
@@ -852,9 +853,9 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                         screenObs = new ScreenObserver<Lattice>(
                             fn.as_string(),
                             pos, dx, dy,
-                            nh.as_int(),
-                            nv.as_int(),
-                            t0, dt, dtx, dty, nt.as_int() );
+                            parseInt(nh),
+                            parseInt(nv),
+                            t0, dt, dtx, dty, parseInt(nt) );
                         screenObs->setSourceType(LatticeObservation);
                     }
                     else throw(IOexception("InputParser::parseObservers - <screen> illegal source attribute."));
@@ -864,9 +865,9 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                     screenObs = new ScreenObserver<Beam>(
                         fn.as_string(),
                         pos, dx, dy,
-                        nh.as_int(),
-                        nv.as_int(),
-                        t0, dt, dtx, dty, nt.as_int() );
+                        parseInt(nh),
+                        parseInt(nv),
+                        t0, dt, dtx, dty, parseInt(nt) );
                     screenObs->setSourceType(BeamObservation);
                 }
                 listObservers->push_back(screenObs);
@@ -941,7 +942,7 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                         PointObserver<Beam> *pointObs = new PointObserver<Beam>(
                             fn.as_string(),
                             pos,
-                            t0, dt, nt.as_int() );
+                            t0, dt, parseInt(nt) );
                         pointObs->setSourceType(BeamObservation);
                         listObservers->push_back(pointObs);
                     }
@@ -950,7 +951,7 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                         PointObserver<Lattice> *pointObs = new PointObserver<Lattice>(
                             fn.as_string(),
                             pos,
-                            t0, dt, nt.as_int() );
+                            t0, dt, parseInt(nt) );
                         pointObs->setSourceType(LatticeObservation);
                         listObservers->push_back(pointObs);
                     }
@@ -961,7 +962,7 @@ void InputParser::parseObservers(std::vector<BaseObserver*> *listObservers)
                     PointObserver<Beam> *pointObs = new PointObserver<Beam>(
                         fn.as_string(),
                         pos,
-                        t0, dt, nt.as_int() );
+                        t0, dt, parseInt(nt) );
                     pointObs->setSourceType(BeamObservation);
                     listObservers->push_back(pointObs);
                 }
diff --git a/src/parser.h b/src/parser.h
index 4c6208e..f4fd801 100644
--- a/src/parser.h
+++ b/src/parser.h
@@ -94,7 +94,7 @@ public:
      /*! Convert a node attribute into an int value using the calculator.
      *  In case of an error 0 is returned.
      */
-    double parseInt(const pugi::xml_attribute att);
+    int parseInt(const pugi::xml_attribute att);
     
     /*! Parse the input file and create all described lattice elements.
      *  Each one is added to the given lattice object.
diff --git a/src/undulator.cpp b/src/undulator.cpp
index 88851c8..1d7ad30 100644
--- a/src/undulator.cpp
+++ b/src/undulator.cpp
@@ -58,7 +58,7 @@ PlanarUndulator::PlanarUndulator(const pugi::xml_node node, InputParser *parser)
     {
         double B = parser->parseDouble(field.attribute("B"));
         double period = parser->parseDouble(field.attribute("period"));
-        int N = field.attribute("N").as_int(0);
+        int N = parser->parseInt(field.attribute("N"));
         Setup(B, period, N);
     }
 }
@@ -163,7 +163,7 @@ TransverseGradientUndulator::TransverseGradientUndulator(const pugi::xml_node no
         pugi::xml_attribute modatt = field.attribute("modulation");
         if (modatt) mod=parser->parseDouble(modatt);
         double period = parser->parseDouble(field.attribute("period"));
-        int N = field.attribute("N").as_int(0);
+        int N = parser->parseInt(field.attribute("N"));
         Setup(B, kx, mod, period, N);
     }
 }
-- 
2.43.0


From 0d2c49270dd2d8ef352271c59f2c5ed84474d73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 34/51] fix: loggers with a step below one crashed the tracking
 (division by zero)

---
 src/parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.cpp b/src/parser.cpp
index bdb9c50..8bcd7e6 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -356,6 +356,7 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                     int step = 1;
                     pugi::xml_attribute st = lognode.attribute("step");
                     if (st) step = parseInt(st);
+                    if (step < 1) throw(IOexception("InputParser::parseBeam - <particle> <log> step must be positive."));
                     ParameterLogger<Bunch>* logger = new ParameterLogger<Bunch>(single, fn.as_string(), step);
                     logs->push_back(logger);
                 }
@@ -486,9 +487,9 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                     pugi::xml_attribute fn = lognode.attribute("file");
                     if (!fn) throw(IOexception("InputParser::parseBeam - <bunch> filename for log not found."));
                     int step = 1;
-                    //! @todo if step is not given it becomes 0 and leads to divide-by-zero errors
                     pugi::xml_attribute st = lognode.attribute("step");
                     if (st) step = parseInt(st);
+                    if (step < 1) throw(IOexception("InputParser::parseBeam - <bunch> <log> step must be positive."));
                     ParameterLogger<Bunch>* logger = new ParameterLogger<Bunch>(bunch, fn.as_string(), step);
                     pugi::xml_attribute bf = lognode.attribute("bunching-freq");
                     if (bf)
@@ -507,6 +508,7 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                     int step = 1;
                     pugi::xml_attribute st = trajnode.attribute("step");
                     if (st) step = parseInt(st);
+                    if (step < 1) throw(IOexception("InputParser::parseBeam - <bunch> <trajectories> step must be positive."));
                     int particles = 1000000;
                     pugi::xml_attribute np = trajnode.attribute("particles");
                     if (np) particles = parseInt(np);
@@ -583,6 +585,7 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                     int step = 1;
                     pugi::xml_attribute st = lognode.attribute("step");
                     if (st) step = parseInt(st);
+                    if (step < 1) throw(IOexception("InputParser::parseBeam - <SDDS> <log> step must be positive."));
                     ParameterLogger<Bunch>* logger = new ParameterLogger<Bunch>(bunch, fn.as_string(), step);
                     pugi::xml_attribute bf = lognode.attribute("bunching-freq");
                     if (bf)
@@ -606,6 +609,7 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                 probe->step = 1;
                 pugi::xml_attribute st = entry.attribute("step");
                 if (st) probe->step = parseInt(st);
+                if (probe->step < 1) throw(IOexception("InputParser::parseBeam - <probe> step must be positive."));
                 probe->number = 1;
                 pugi::xml_attribute nm = entry.attribute("number");
                 if (nm) probe->number = parseInt(nm);
-- 
2.43.0


From 5d064816fd3c3e8023899598587cee3ee020cb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 35/51] fix: calc definitions inside undulators and dipoles
 were evaluated twice

---
 src/dipole.cpp    | 2 --
 src/undulator.cpp | 2 --
 2 files changed, 4 deletions(-)

diff --git a/src/dipole.cpp b/src/dipole.cpp
index ccd1bb8..2744133 100644
--- a/src/dipole.cpp
+++ b/src/dipole.cpp
@@ -47,7 +47,6 @@ HardEdgeDipole::HardEdgeDipole(Vector B, Vector p1, Vector n1, Vector p2, Vector
 HardEdgeDipole::HardEdgeDipole(const pugi::xml_node node, InputParser *parser) :
     LocalizedField()
 {
-    parser->parseCalcChildren(node);
     pugi::xml_node field = node.child("B");
     if (!field)
         throw(IOexception("InputParser::HardEdgeDipole - <B> not found."));
@@ -147,7 +146,6 @@ SoftEdgeDipole::SoftEdgeDipole(Vector B, Vector p1, Vector n1, double t1, Vector
 SoftEdgeDipole::SoftEdgeDipole(const pugi::xml_node node, InputParser *parser) :
     LocalizedField()
 {
-    parser->parseCalcChildren(node);
     pugi::xml_node field = node.child("B");
     if (!field)
         throw(IOexception("InputParser::SoftEdgeDipole - <B> not found."));
diff --git a/src/undulator.cpp b/src/undulator.cpp
index 1d7ad30..37773a5 100644
--- a/src/undulator.cpp
+++ b/src/undulator.cpp
@@ -39,7 +39,6 @@ PlanarUndulator::PlanarUndulator(Vector pos) :
 PlanarUndulator::PlanarUndulator(const pugi::xml_node node, InputParser *parser) :
     LocalizedField()
 {
-    parser->parseCalcChildren(node);
     pugi::xml_node position = node.child("position");
     if (!position)
         throw(IOexception("InputParser::PlanarUndulator - undulator <position> not found."));
@@ -140,7 +139,6 @@ TransverseGradientUndulator::TransverseGradientUndulator(Vector pos) :
 TransverseGradientUndulator::TransverseGradientUndulator(const pugi::xml_node node, InputParser *parser) :
     LocalizedField()
 {
-    parser->parseCalcChildren(node);
     pugi::xml_node position = node.child("position");
     if (!position)
         throw(IOexception("InputParser::TransverseGradientUndulator - undulator <position> not found."));
-- 
2.43.0


From f17bc6dacd6bd52b32e08299f6d8b913dc7cbd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:26 +0000
Subject: [PATCH 36/51] fix: negative step of the probe was not rejected

---
 src/parser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser.cpp b/src/parser.cpp
index 8bcd7e6..b6ff515 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -608,8 +608,12 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                 probe->filename = filename.as_string();
                 probe->step = 1;
                 pugi::xml_attribute st = entry.attribute("step");
-                if (st) probe->step = parseInt(st);
-                if (probe->step < 1) throw(IOexception("InputParser::parseBeam - <probe> step must be positive."));
+                if (st)
+                {
+                    int step = parseInt(st);
+                    if (step < 1) throw(IOexception("InputParser::parseBeam - <probe> step must be positive."));
+                    probe->step = step;
+                }
                 probe->number = 1;
                 pugi::xml_attribute nm = entry.attribute("number");
                 if (nm) probe->number = parseInt(nm);
-- 
2.43.0


From b3a44a9d7b5a95fb7843c278adcaa8174f782671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:26 +0000
Subject: [PATCH 37/51] fix: correlations containing definitions were rejected

---
 src/parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser.cpp b/src/parser.cpp
index b6ff515..d9a6f2c 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -451,6 +451,8 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                     {
                         pugi::xml_node cn = *cit;
                         std::string ctype = cn.name();
+                        if (ctype == "calc")
+                            continue;
                         if (ctype == "linear")
                         {
                             int ind = 0;
@@ -549,6 +551,8 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                     {
                         pugi::xml_node cn = *cit;
                         std::string ctype = cn.name();
+                        if (ctype == "calc")
+                            continue;
                         if (ctype == "linear")
                         {
                             int ind = 0;
-- 
2.43.0


From 9d6dce257e668fdf0bc01ce70668c3ac02c86128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:26 +0000
Subject: [PATCH 38/51] fix: computed coordinate indices of correlations were
 truncated instead of rounded

---
 src/parser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser.cpp b/src/parser.cpp
index d9a6f2c..cf5d2ac 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -460,12 +460,12 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                             double fac = 0.0;
                             pugi::xml_attribute indatt = cn.attribute("indep");
                             if (indatt)
-                                ind = int(parseDouble(indatt));
+                                ind = parseInt(indatt);
                             else
                                 throw(IOexception("InputParser::parseBeam - correlation indep not found."));
                             pugi::xml_attribute depatt = cn.attribute("dep");
                             if (depatt)
-                                dep = int(parseDouble(depatt));
+                                dep = parseInt(depatt);
                             else
                                 throw(IOexception("InputParser::parseBeam - correlation dep not found."));
                             pugi::xml_attribute facatt = cn.attribute("factor");
@@ -560,12 +560,12 @@ int InputParser::parseBeam(Beam *beam, std::vector<Logger*> *logs, ProbeInfo *pr
                             double fac = 0.0;
                             pugi::xml_attribute indatt = cn.attribute("indep");
                             if (indatt)
-                                ind = int(parseDouble(indatt));
+                                ind = parseInt(indatt);
                             else
                                 throw(IOexception("InputParser::parseBeam <SDDS> - correlation indep not found."));
                             pugi::xml_attribute depatt = cn.attribute("dep");
                             if (depatt)
-                                dep = int(parseDouble(depatt));
+                                dep = parseInt(depatt);
                             else
                                 throw(IOexception("InputParser::parseBeam <SDDS> - correlation dep not found."));
                             pugi::xml_attribute facatt = cn.attribute("factor");
-- 
2.43.0


From 93423b1960cbb2317376cd43d7823c66505c346c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:51 +0000
Subject: [PATCH 39/51] fix: logging interval of FEL interactions without log
 was not initialised (random division by zero)

---
 src/fel1d.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index e9dcaa4..a34d66b 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -55,6 +55,7 @@ FEL_1D::FEL_1D(
     ds = time_step * SpeedOfLight;
     time = 0.0;
     N_steps = 0;
+    step_Output = 1;
     pugi::xml_attribute att = node.attribute("N");
     if (!att)
         throw(IOexception("InputParser::FEL1D - attribute N not found."));
-- 
2.43.0


From 83ed5bb2371d0c85e0907ac2d599fdd69a9551dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 40/51] fix: FEL grid range was checked after the conversion to
 integer (overflow far away from the grid)

---
 src/fel1d.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index a34d66b..694c5f5 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -277,7 +277,7 @@ void FEL_1D::step(Beam *beam)
             Vector X = P->getPosition();
             // find the interaction field (slice) index from the longitudinal particle position
             double delta_z = dot(head-X,prop);
-            if ((delta_z<0.0) || (delta_z>N_field*ds))
+            if (!((delta_z>=0.0) && (delta_z<=N_field*ds)))
             {
                 std::cout << "FEL1D::step() - particle out off grid bounds" << std::endl;
                 std::cout << "  step=" << N_steps << "  delta_z=" << delta_z << std::endl;
@@ -353,13 +353,15 @@ ElMagField FEL_1D::Field(double t, Vector X)
 
     // small time deviations in time are ignored in the field computation (no interpolation)
     double delta_z = dot(head-X,prop);
-    int index = rint(delta_z/ds);
-    if ((index<0) || (index>=N_field))
+    double index_dbl = rint(delta_z/ds);
+    // this is also true for invalid positions (NaN)
+    if (!((index_dbl>=0) && (index_dbl<N_field)))
     {
         std::cout << "FEL1D::Field() - particle out off grid bounds" << std::endl;
-        std::cout << "  step=" << N_steps << "  delta_z=" << delta_z << "   index=" << index << std::endl;
+        std::cout << "  step=" << N_steps << "  delta_z=" << delta_z << "   index=" << index_dbl << std::endl;
         throw(IOexception("FEL1D::Field() - particle out off grid bounds"));
     }
+    int index = index_dbl;
     
     //! todo the transverse shape of the field is not yet included
     
-- 
2.43.0


From 3cda8063fdb2993485537de9f20159bf6ec52546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 41/51] fix: integer overflow of the bucket index for time
 steps much longer than the buckets

---
 src/particle.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/particle.cpp b/src/particle.cpp
index 10af454..abbf1fd 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -819,9 +819,8 @@ void ChargedParticle::integrateFieldTrace(
 		    // both cases are handled with the same code
 	        {
 		        // observation bucket in which the step end falls
-		        int idx2 = round((ts2-t0)/dt);
-		        if (idx2<0) idx2=0;
-		        if (idx2>nots) idx2=nots;
+		        // (limited to the range before conversion, steps can be long compared to the buckets)
+		        int idx2 = fmax(0.0, fmin(nots, round((ts2-t0)/dt)));
 		        // handle all fully covered buckets
 		        for (int idx=0; idx<idx2; idx++)
 		        {
@@ -851,9 +850,8 @@ void ChargedParticle::integrateFieldTrace(
 		        if (idx1<0) idx1=0;
 		        if (idx1>nots-1) idx1=nots-1;
 		        // observation bucket in which the step end falls
-		        int idx2 = round((ts2-t0)/dt);
-		        if (idx2<0) idx2=0;
-		        if (idx2>nots) idx2=nots;
+		        // (limited to the range before conversion, steps can be long compared to the buckets)
+		        int idx2 = fmax(0.0, fmin(nots, round((ts2-t0)/dt)));
 		        if (idx1==idx2)
 		        // time step if fully within one bucket
 		        {
-- 
2.43.0


From 7cb251c55016b734ef9e50d6afda9e580efc96f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 42/51] fix: integer input values beyond the integer range were
 not rejected

---
 src/parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.cpp b/src/parser.cpp
index cf5d2ac..df0627a 100644
--- a/src/parser.cpp
+++ b/src/parser.cpp
@@ -21,6 +21,7 @@
 
 #include <iostream>
 #include <iomanip>
+#include <limits>
 #include <math.h>
 
 #include "dipole.h"
@@ -136,7 +137,10 @@ int InputParser::parseInt(const pugi::xml_attribute attr)
     try
     {
         calc->SetExpr(attr.value());
-        retval = rint(calc->Eval());
+        double val = rint(calc->Eval());
+        if (!(fabs(val) <= std::numeric_limits<int>::max()))
+            throw(IOexception("InputParser::parseInt - value exceeds the range of integer numbers."));
+        retval = val;
     }
     catch (mu::Parser::exception_type &e)
     {
-- 
2.43.0


From 80e998d99771f56ee0ddb67abdfc4082437efe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 43/51] fix: array attributes in screen files overflowed the
 scalar variables they are read into

---
 src/mesh.cpp          | 18 ++++++++++++++----
 src/source_screen.cpp | 22 ++++++++++++++++------
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index 87df829..70d3b34 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -27,6 +27,16 @@
 #include <omp.h>
 #include "hdf5.h"
 
+/*! Read an attribute that must hold exactly one value. */
+static herr_t readScalarAttribute(hid_t attr, hid_t type, void *value)
+{
+    hid_t space = H5Aget_space(attr);
+    hssize_t npoints = H5Sget_simple_extent_npoints(space);
+    H5Sclose(space);
+    if (npoints!=1) return -1;
+    return H5Aread(attr, type, value);
+}
+
 /*! Check that a dataset holds exactly the number of values that will be read from it. */
 static void checkDatasetSize(hid_t dataset, std::size_t size)
 {
@@ -53,7 +63,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     if (dataset<0) throw(IOexception("MeshedScreen - error opening dataset MeshCornerPoints"));
     attr = H5Aopen_name(dataset, "Ncp");
     if (attr<0) throw(IOexception("MeshedScreen - error reading dataset MeshCornerPoints attribute Ncp"));
-    status =  H5Aread(attr, H5T_NATIVE_INT, &Ncp);
+    status =  readScalarAttribute(attr, H5T_NATIVE_INT, &Ncp);
     if (status<0) throw(IOexception("MeshedScreen - error reading dataset MeshCornerPoints attribute Ncp"));
     status = H5Aclose(attr);
     if (status<0) throw(IOexception("MeshedScreen - error reading dataset MeshCornerPoints attribute Ncp"));
@@ -80,7 +90,7 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
     if (dataset<0) throw(IOexception("MeshedScreen - error opening dataset ObservationPosition"));
     attr = H5Aopen_name(dataset, "Np");
     if (attr<0) throw(IOexception("MeshedScreen - error reading dataset ObservationPosition attribute Np"));
-    status =  H5Aread(attr, H5T_NATIVE_INT, &Np);
+    status =  readScalarAttribute(attr, H5T_NATIVE_INT, &Np);
     if (status<0) throw(IOexception("MeshedScreen - error reading dataset ObservationPosition attribute Np"));
     status = H5Aclose(attr);
     if (status<0) throw(IOexception("MeshedScreen - error reading dataset ObservationPosition attribute Np"));
@@ -156,13 +166,13 @@ MeshedScreen<SourceT>::MeshedScreen(std::string filename)
         if (dataset<0) throw(IOexception("MeshedScreen - error opening dataset ObservationTime"));
         attr = H5Aopen_name(dataset, "Nt");
         if (attr<0) throw(IOexception("MeshedScreen - error reading dataset ObservationTime attribute Nt"));
-        status =  H5Aread(attr, H5T_NATIVE_INT, &Nt);
+        status =  readScalarAttribute(attr, H5T_NATIVE_INT, &Nt);
         if (status<0) throw(IOexception("MeshedScreen - error reading dataset ObservationTime attribute Nt"));
         status = H5Aclose(attr);
         if (status<0) throw(IOexception("MeshedScreen - error reading dataset ObservationTime attribute Nt"));
         attr = H5Aopen_name(dataset, "dt");
         if (attr<0) throw(IOexception("MeshedScreen - error reading dataset ObservationTime attribute dt"));
-        status =  H5Aread(attr, H5T_NATIVE_DOUBLE, &dt);
+        status =  readScalarAttribute(attr, H5T_NATIVE_DOUBLE, &dt);
         if (status<0) throw(IOexception("MeshedScreen - error reading dataset ObservationTime attribute dt"));
         status = H5Aclose(attr);
         if (status<0) throw(IOexception("MeshedScreen - error reading dataset ObservationTime attribute dt"));
diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index c9e9395..04f51d2 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -27,6 +27,16 @@
 #include <omp.h>
 #include "hdf5.h"
 
+/*! Read an attribute that must hold exactly one value. */
+static herr_t readScalarAttribute(hid_t attr, hid_t type, void *value)
+{
+    hid_t space = H5Aget_space(attr);
+    hssize_t npoints = H5Sget_simple_extent_npoints(space);
+    H5Sclose(space);
+    if (npoints!=1) return -1;
+    return H5Aread(attr, type, value);
+}
+
 SourceScreen::SourceScreen(
         std::string filename,
         Vector position,
@@ -46,19 +56,19 @@ SourceScreen::SourceScreen(
     if (dataset<0) throw(IOexception("SourceScreen - error opening dataset Screen"));
     attr = H5Aopen_name(dataset, "Nx");
     if (attr<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute Nx"));
-    status =  H5Aread(attr, H5T_NATIVE_INT, &Nx);
+    status =  readScalarAttribute(attr, H5T_NATIVE_INT, &Nx);
     if (status<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute Nx"));
     status = H5Aclose(attr);
     if (status<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute Nx"));
     attr = H5Aopen_name(dataset, "Ny");
     if (attr<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute Ny"));
-    status =  H5Aread(attr, H5T_NATIVE_INT, &Ny);
+    status =  readScalarAttribute(attr, H5T_NATIVE_INT, &Ny);
     if (status<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute Ny"));
     status = H5Aclose(attr);
     if (status<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute Ny"));
     attr = H5Aopen_name(dataset, "NOTS");
     if (attr<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute NOTS"));
-    status =  H5Aread(attr, H5T_NATIVE_INT, &NOTS);
+    status =  readScalarAttribute(attr, H5T_NATIVE_INT, &NOTS);
     if (status<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute NOTS"));
     status = H5Aclose(attr);
     if (status<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute NOTS"));
@@ -66,7 +76,7 @@ SourceScreen::SourceScreen(
     // read the timing information
     attr = H5Aopen_name(dataset, "dt");
     if (attr<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute dt"));
-    status =  H5Aread(attr, H5T_NATIVE_DOUBLE, &dt_src);
+    status =  readScalarAttribute(attr, H5T_NATIVE_DOUBLE, &dt_src);
     if (status<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute dt"));
     status = H5Aclose(attr);
     if (status<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute dt"));
@@ -77,7 +87,7 @@ SourceScreen::SourceScreen(
         }
     else
         {
-            status =  H5Aread(attr, H5T_NATIVE_DOUBLE, &dtx_src);
+            status =  readScalarAttribute(attr, H5T_NATIVE_DOUBLE, &dtx_src);
             if (status<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute dtx"));
             status = H5Aclose(attr);
             if (status<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute dtx"));
@@ -89,7 +99,7 @@ SourceScreen::SourceScreen(
         }
     else
         {
-            status =  H5Aread(attr, H5T_NATIVE_DOUBLE, &dty_src);
+            status =  readScalarAttribute(attr, H5T_NATIVE_DOUBLE, &dty_src);
             if (status<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute dty"));
             status = H5Aclose(attr);
             if (status<0) throw(IOexception("SourceScreen - error reading dataset Screen attribute dty"));
-- 
2.43.0


From 385f45990174b613d0836dfd499d9068b778ded4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 44/51] fix: degenerate source screen cells made the field fit
 access memory out of bounds

---
 src/propagate.cpp  | 11 +++++++++++
 src/reflection.cpp | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/propagate.cpp b/src/propagate.cpp
index 7d3d146..3223bc0 100644
--- a/src/propagate.cpp
+++ b/src/propagate.cpp
@@ -138,6 +138,7 @@ int main(int argc, char* argv[])
     std::size_t NOTS = source->get_Nt();
     
     counter = 0;
+    bool geometry_error = false;
     // parallel domain
     // optional parameter :  num_threads(32)
     // all variables declared outside this block are shared, e.g. source
@@ -184,6 +185,13 @@ int main(int argc, char* argv[])
             A.col(3) << xi2;
             A.col(4) << eta2;
             A.col(5) << xieta;
+            // a degenerate cell has no local coordinate system, the fit is not defined there
+            if (!A.allFinite())
+            {
+                #pragma omp atomic write
+                geometry_error = true;
+                continue;
+            }
             
             // get the field traces of the neighbourhood in the local coordinate system
             FieldTrace* local_trace = new FieldTrace(source->get_trace(index));
@@ -295,6 +303,9 @@ int main(int argc, char* argv[])
     };
     // end parallel domain
     
+    if (geometry_error)
+        throw(IOexception("propagate - error : source screen contains degenerate cells"));
+
     // record the finish time
     clock_gettime(CLOCK_REALTIME, &stop_time);
     elapsed = stop_time.tv_sec-start_time.tv_sec +
diff --git a/src/reflection.cpp b/src/reflection.cpp
index fa22ed2..3a6b723 100644
--- a/src/reflection.cpp
+++ b/src/reflection.cpp
@@ -220,6 +220,7 @@ int main(int argc, char* argv[])
     std::size_t NOTS = source->get_Nt();
     
     counter = 0;
+    bool geometry_error = false;
     // parallel domain
     // optional parameter :  num_threads(32)
     // all variables declared outside this block are shared, e.g. source
@@ -266,6 +267,13 @@ int main(int argc, char* argv[])
             A.col(3) << xi2;
             A.col(4) << eta2;
             A.col(5) << xieta;
+            // a degenerate cell has no local coordinate system, the fit is not defined there
+            if (!A.allFinite())
+            {
+                #pragma omp atomic write
+                geometry_error = true;
+                continue;
+            }
             
             // get the field traces of the neighbourhood in the local coordinate system
             FieldTrace* local_trace = new FieldTrace(source->get_trace(index));
@@ -377,6 +385,9 @@ int main(int argc, char* argv[])
     };
     // end parallel domain
     
+    if (geometry_error)
+        throw(IOexception("reflection - error : source screen contains degenerate cells"));
+
     // record the finish time
     clock_gettime(CLOCK_REALTIME, &stop_time);
     elapsed = stop_time.tv_sec-start_time.tv_sec +
-- 
2.43.0


From 1d02de6694607571ae2d4c2e461f40bed71cacbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:41 +0000
Subject: [PATCH 45/51] fix: TeufelWatch.read() of SDDS watch points

The momentum components were computed with an undefined variable (NameError)
and with the approximation bgz = p*sqrt(1-xp^2-yp^2), while TEUFEL writes
xp=bgx/bgz. The file holds the components itself, use them.
---
 scripts/teufel.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/scripts/teufel.py b/scripts/teufel.py
index 53d9666..b7014dd 100644
--- a/scripts/teufel.py
+++ b/scripts/teufel.py
@@ -274,14 +274,11 @@ class TeufelWatch():
             data = sdds.SDDS(0)
             data.load(filename)
             watch.x = np.array(data.getColumnData("x"))
-            xp = np.array(data.getColumnData("xp"))
             watch.y = np.array(data.getColumnData("y"))
-            yp = np.array(data.getColumnData("yp"))
-            p = np.array(data.getColumnData("p"))
             watch.z = np.array(data.getColumnData("z"))
-            watch.bgz = p*np.sqrt(1.0-np.square(xp)-np.square(yp))
-            watch.bgx = bgz*xp
-            watch.bgy = bgz*yp
+            watch.bgx = np.array(data.getColumnData("px"))
+            watch.bgy = np.array(data.getColumnData("py"))
+            watch.bgz = np.array(data.getColumnData("pz"))
         watch.NOP = watch.x.shape[0]
         print(f'have read {watch.NOP} particles.')
         # compute more particle properties
-- 
2.43.0


From cecbf35191900e15dd3baa280dab9b459da0fe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:41 +0000
Subject: [PATCH 46/51] fix: plot_Watch.py momenta of SDDS watch points

bgz = p*sqrt(1-xp^2-yp^2) is wrong with the xp=bgx/bgz written by TEUFEL, it
is not even a number when the beam is inclined by more than 45 degrees. Use
the momentum components of the file, as it is done for HDF5.
---
 scripts/plot_Watch.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/scripts/plot_Watch.py b/scripts/plot_Watch.py
index 4b668a3..68bc631 100755
--- a/scripts/plot_Watch.py
+++ b/scripts/plot_Watch.py
@@ -96,14 +96,11 @@ if is_sdds:
     data.load(bunfile)
 
     x = np.array(data.getColumnData("x"))
-    xp = np.array(data.getColumnData("xp"))
     y = np.array(data.getColumnData("y"))
-    yp = np.array(data.getColumnData("yp"))
-    p = np.array(data.getColumnData("p"))
     z = np.array(data.getColumnData("z"))
-    bgz = p*np.sqrt(1.0-np.square(xp)-np.square(yp))
-    bgx = bgz*xp
-    bgy = bgz*yp
+    bgx = np.array(data.getColumnData("px"))
+    bgy = np.array(data.getColumnData("py"))
+    bgz = np.array(data.getColumnData("pz"))
     print(f'have read {x.shape} particles.')
 
 xmean = np.mean(x)
-- 
2.43.0


From aeea08adaaa1f44334f85e48ac1c1565f4807502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:55 +0000
Subject: [PATCH 47/51] fix: InterpolateTrace() at the time of the last sample

The sample following the last one was read, which is an IndexError.
---
 scripts/MeshedFields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/MeshedFields.py b/scripts/MeshedFields.py
index 813f2c9..35436a6 100644
--- a/scripts/MeshedFields.py
+++ b/scripts/MeshedFields.py
@@ -392,7 +392,7 @@ def InterpolateTrace(trace,t0,dt,t):
     else:
         index = int(math.floor((t-t0)/dt))
         frac = (t-t0)/dt-index
-        field = trace[index]*(1.0-frac) + trace[index+1]*frac
+        field = trace[index]*(1.0-frac) + trace[min(index+1,NOTS-1)]*frac
     return field
     
 def ShowTrace(trace,t0,dt):
-- 
2.43.0


From ccf889eda90f3d95e52e9b3574368e7adb4ee4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:55 +0000
Subject: [PATCH 48/51] fix: frequency axis of the spectra in the scripts

The channels of the FFT are spaced by 1/(nots*dt), as returned by df() and
frequency(). The axis was stretched by nots/(nots-1).
---
 scripts/plot_MeshedField.py      | 2 +-
 scripts/plot_PointObservation.py | 2 +-
 scripts/plot_Screen_Cross.py     | 2 +-
 scripts/screen.py                | 4 ++--
 scripts/teufel.py                | 4 ++--
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/scripts/plot_MeshedField.py b/scripts/plot_MeshedField.py
index 750b97a..5aafc75 100755
--- a/scripts/plot_MeshedField.py
+++ b/scripts/plot_MeshedField.py
@@ -61,7 +61,7 @@ print("total pulse energy = %.6g µJ" % (1e6*np.dot(area,Pz)))
 
 nf = screen.Nt
 fmax = 1.0/screen.dt
-f = np.linspace(0.0,fmax,nf)[:nf//2]
+f = np.linspace(0.0,fmax,nf,endpoint=False)[:nf//2]
 df=1.0/screen.dt/nf
 print()
 print("trace length = %d" % screen.Nt)
diff --git a/scripts/plot_PointObservation.py b/scripts/plot_PointObservation.py
index 9e0e5a2..e496aba 100755
--- a/scripts/plot_PointObservation.py
+++ b/scripts/plot_PointObservation.py
@@ -103,7 +103,7 @@ for file in args.files:
     if args.spectrum:
         nf = nots
         fmax = 1.0/dt
-        f = np.linspace(0.0,fmax,nf)[:nf//2]
+        f = np.linspace(0.0,fmax,nf,endpoint=False)[:nf//2]
         df=1.0/dt/nf
         spectE = np.fft.fft(Ex)[:nf//2]
         spectB = np.fft.fft(By)[:nf//2]
diff --git a/scripts/plot_Screen_Cross.py b/scripts/plot_Screen_Cross.py
index 0692215..038afe6 100755
--- a/scripts/plot_Screen_Cross.py
+++ b/scripts/plot_Screen_Cross.py
@@ -78,7 +78,7 @@ Bz = BVec[:,2]
 nf = screen.nots
 dt = screen.dt
 fmax = 1.0/dt
-f = np.linspace(0.0,fmax,nf)[:nots//2]
+f = np.linspace(0.0,fmax,nf,endpoint=False)[:nots//2]
 df=1.0/screen.dt/nf
 spectE = np.fft.fft(Ex)[:nots//2]
 # print spectE[:30]
diff --git a/scripts/screen.py b/scripts/screen.py
index ff0e537..0c2c557 100644
--- a/scripts/screen.py
+++ b/scripts/screen.py
@@ -190,7 +190,7 @@ class TeufelScreen():
         """  
         nf = self.nots
         fmax = 1.0/self.dt
-        f = np.linspace(0.0,fmax,nf)[:nf//2]
+        f = np.linspace(0.0,fmax,nf,endpoint=False)[:nf//2]
         df=1.0/self.dt/nf
         (EH, EV, BH, BV) = self.getInPlaneFields(ix,iy)
         spectE = np.fft.fft(EH)[:nf//2]
@@ -204,7 +204,7 @@ class TeufelScreen():
         """  
         nf = self.nots
         fmax = 1.0/self.dt
-        f = np.linspace(0.0,fmax,nf)[:nf//2]
+        f = np.linspace(0.0,fmax,nf,endpoint=False)[:nf//2]
         df=1.0/self.dt/nf
         (EH, EV, BH, BV) = self.getInPlaneFields(ix,iy)
         spectE = np.fft.fft(EV)[:nf//2]
diff --git a/scripts/teufel.py b/scripts/teufel.py
index b7014dd..2b33449 100644
--- a/scripts/teufel.py
+++ b/scripts/teufel.py
@@ -203,7 +203,7 @@ class TeufelScreen():
         """  
         nf = self.nots
         fmax = 1.0/self.dt
-        f = np.linspace(0.0,fmax,nf)[:nf//2]
+        f = np.linspace(0.0,fmax,nf,endpoint=False)[:nf//2]
         df=1.0/self.dt/nf
         (EH, EV, BH, BV) = self.getInPlaneFields(ix,iy)
         spectE = np.fft.fft(EH)[:nf//2]
@@ -217,7 +217,7 @@ class TeufelScreen():
         """  
         nf = self.nots
         fmax = 1.0/self.dt
-        f = np.linspace(0.0,fmax,nf)[:nf//2]
+        f = np.linspace(0.0,fmax,nf,endpoint=False)[:nf//2]
         df=1.0/self.dt/nf
         (EH, EV, BH, BV) = self.getInPlaneFields(ix,iy)
         spectE = np.fft.fft(EV)[:nf//2]
-- 
2.43.0


From e574f2ce6331fc614ac05fbabcb91fa3b542a8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:55 +0000
Subject: [PATCH 49/51] fix: plot_PointObservation.py time axis

The samples are recorded at t0+i*dt (as given in column t of the file), the
plot was shifted by dt/2 and stretched by nots/(nots-1).
---
 scripts/plot_PointObservation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/plot_PointObservation.py b/scripts/plot_PointObservation.py
index e496aba..a9accff 100755
--- a/scripts/plot_PointObservation.py
+++ b/scripts/plot_PointObservation.py
@@ -57,7 +57,7 @@ for file in args.files:
         dt = data.getParameterValue("dt")
         nots = data.getParameterValue("NumberTimeSteps")
         print(r'%d steps starting at t0=%12.3g s step dt=%12.3g s' % (nots,t0,dt))
-        t = (np.linspace(t0, t0+nots*dt, num=nots)+0.5*dt)*1e9
+        t = np.linspace(t0, t0+(nots-1)*dt, num=nots)*1e9
     else:
         print("unable to read the timing")
         sys.exit()
-- 
2.43.0


From 12ba288ca46e973b533cfb5532cd776bc3936dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:47 +0000
Subject: [PATCH 50/51] fix: plot_Screen_Cross.py frequency axis of the
 spectral map

np.arange(0.0,df*Nf,df) yields Nf or Nf+1 values, depending on rounding, and
the plot fails for the latter. The axis is labeled in THz but was in Hz.
---
 scripts/plot_Screen_Cross.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/plot_Screen_Cross.py b/scripts/plot_Screen_Cross.py
index 038afe6..637d98c 100755
--- a/scripts/plot_Screen_Cross.py
+++ b/scripts/plot_Screen_Cross.py
@@ -151,7 +151,7 @@ else:
 totamp = np.zeros(Np)
 roiamp = np.zeros(Np)
 Nf = nots//2
-fp = np.arange(0.0,df*Nf,df)
+fp = 1e-12*df*np.arange(Nf)
 if args.fmax != None:
     Nf = np.ceil(args.fmax/df).astype('int')
     fp = fp[0:Nf]
-- 
2.43.0


From d9cdecae60241af9a0fb742d6ce56e5c89f2f339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:24 +0000
Subject: [PATCH 51/51] fix: retardation of purely electric or purely magnetic
 traces is not an error

FieldTrace::retard() judged the presence of signal by the energy flow, so the propagate and
reflection programs dropped every contribution with only an electric or only a magnetic part.
---
 src/fieldtrace.cpp | 8 ++++++--
 src/fieldtrace.h   | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fieldtrace.cpp b/src/fieldtrace.cpp
index fbf953d..5b3104f 100644
--- a/src/fieldtrace.cpp
+++ b/src/fieldtrace.cpp
@@ -229,12 +229,16 @@ void FieldTrace::cancel_long_fields(Vector normal)
 
 void FieldTrace::retard(double delta_t, FieldTrace *target)
 {
+    bool zero = true;
     for (std::size_t i=0; i<target->get_N(); i++)
     {
         double t = target->get_time(i) - delta_t;
-        target->trace[i] = get_field(t);
+        ElMagField f = get_field(t);
+        target->trace[i] = f;
+        // purely electric or purely magnetic fields carry no power but are not zero
+        if (f.E().norm()!=0.0 || f.B().norm()!=0.0) zero = false;
     };
-    if (target->Poynting().norm()==0.0)
+    if (zero)
     {
         if (DEBUGLEVEL>=2)
         { 
diff --git a/src/fieldtrace.h b/src/fieldtrace.h
index 198d49a..9c72b7d 100644
--- a/src/fieldtrace.h
+++ b/src/fieldtrace.h
@@ -152,7 +152,7 @@ public:
      *  @param delta_t - the amount of retardation in seconds
      *  @param target - the new trace (fields will be overwritten)
      *  The target trace timing will be retained.
-     *  This method throws an exception if the returned field trace has zero radiation intensity.
+     *  This method throws an exception if the returned field trace is zero at all samples.
      *  This is usually an indication for the time frame of the retarded trace
      *  not overlaping with the retarded source fields.
      */
-- 
2.43.0

