From c3174700109b798b22c01655437cb662b724d588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:28 +0000
Subject: [PATCH 01/23] fix: variable_manager must throw when a variable does
 not exist

The exceptions were constructed but never thrown, so end() was dereferenced.
---
 src/variable/variable_manager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/variable/variable_manager.cpp b/src/variable/variable_manager.cpp
index 3be3c21..566326c 100644
--- a/src/variable/variable_manager.cpp
+++ b/src/variable/variable_manager.cpp
@@ -35,7 +35,7 @@ variable_manager::output_variable(const qk::variable::variable_id & var)
        add_variable(var);
        itr = _variables.find(var);
        if (itr == _variables.end()) {
-           qk::exception("qk::variable::variable_manager::output_variable : Couldn't allocate variable.");
+           throw qk::exception("qk::variable::variable_manager::output_variable : Couldn't allocate variable.");
        }
     }
     return *(itr->second);
@@ -46,7 +46,7 @@ variable_manager::input_variable(const qk::variable::variable_id & var) const
 {
     const auto & itr = _variables.find(var);
     if (itr == _variables.end()) {
-       qk::exception("qk::variable::variable_manager::input_variable : Variable '"+var.name()+"' does not exist.");
+       throw qk::exception("qk::variable::variable_manager::input_variable : Variable '"+var.name()+"' does not exist.");
     }
     return *(itr->second);
 }
-- 
2.43.0


From 3711e2f52245fac174e9f85fafb9cf91a5f2f85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:28 +0000
Subject: [PATCH 02/23] fix: make the ordering of bases a strict weak order

Two bases could each compare less than the other (names one way, points the other).
---
 src/basis/basis.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/basis/basis.h b/src/basis/basis.h
index 639920c..6b24bcd 100644
--- a/src/basis/basis.h
+++ b/src/basis/basis.h
@@ -47,6 +47,8 @@ public:
         // Test if they have the same name
         if (a._name < b._name) {
             return true;
+        } else if (b._name < a._name) {
+            return false;
         }
 
         return a._num_points < b._num_points;
-- 
2.43.0


From 442423778254b4302bb03b261e0eeb3c1f7a4dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:28 +0000
Subject: [PATCH 03/23] fix: reject dimension == num_dims in the indexer range
 checks

---
 src/lib/indexer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/indexer.cpp b/src/lib/indexer.cpp
index d3253f7..bc54292 100644
--- a/src/lib/indexer.cpp
+++ b/src/lib/indexer.cpp
@@ -46,7 +46,7 @@ const int &
 indexer::operator[](const int & dim) const
 {
 #if _QK_RANGE_CHECK_
-    if(dim < 0 or dim > _num_dims){
+    if(dim < 0 or dim >= _num_dims){
         throw qk::exception("qk::indexer::operator[] : Dimension out of range.");
     }
 #endif
@@ -56,7 +56,7 @@ indexer::operator[](const int & dim) const
 int indexer::index(const int dim) const
 {
 #if _QK_RANGE_CHECK_
-    if(dim < 0 or dim > _num_dims){
+    if(dim < 0 or dim >= _num_dims){
         throw qk::exception("qk::indexer::index : Dimension out of range.");
     }
 #endif
@@ -87,7 +87,7 @@ indexer::operator++()
 void indexer::increment(const int dim)
 {
 #if _QK_RANGE_CHECK_
-    if(dim < 0 or dim > _num_dims){
+    if(dim < 0 or dim >= _num_dims){
         throw qk::exception("qk::indexer::increment : Dimension out of range.");
     }
 #endif
@@ -98,7 +98,7 @@ void indexer::increment(const int dim)
 void indexer::decrement(const int dim)
 {
 #if _QK_RANGE_CHECK_
-    if(dim < 0 or dim > _num_dims){
+    if(dim < 0 or dim >= _num_dims){
         throw qk::exception("qk::indexer::decrement : Dimension out of range.");
     }
 #endif
-- 
2.43.0


From 767f0163923caf953c894c753f5e820101dde3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:28 +0000
Subject: [PATCH 04/23] fix: an indexer over a sub range without points does
 not exist

It used to report a first point and then walk out of the sub range.
---
 src/lib/indexer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/indexer.cpp b/src/lib/indexer.cpp
index bc54292..0bdbd38 100644
--- a/src/lib/indexer.cpp
+++ b/src/lib/indexer.cpp
@@ -25,6 +25,10 @@ indexer::indexer(const qk::range & sub_range, const qk::range & sup_range) :
 
     if (_num_dims > 0) {
         _exists = this->includes(_sub_range);
+        for(int i = 0; _exists and i < _num_dims; i++){
+            // A sub range without points has nothing to visit
+            _exists = _sub_range.length(i) > 0;
+        }
         if(_exists){
             for(int i = 0; i < _num_dims; i++){
                 _index[i] = sub_range.lower(i);
-- 
2.43.0


From 49c69774f2fff7ee4882c2e7eed78f468e726ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:24 +0000
Subject: [PATCH 05/23] fix: copy_to of an empty or outside range must not
 touch the chunk

The first element was copied before testing for existence, and ranges outside of
the chunks were silently accepted.
---
 src/data/functions.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/data/functions.h b/src/data/functions.h
index 37fc657..9da4cdf 100644
--- a/src/data/functions.h
+++ b/src/data/functions.h
@@ -22,19 +22,19 @@ namespace data
             throw qk::exception("qk::data::copy_to : Array mismatch.");
         }
 
+        if(!from_chunk.includes(from_range) or !to_chunk.includes(to_range)){
+            throw qk::exception("qk::data::copy_to : Requested range extends outside of chunk bounds.");
+        }
+
         qk::indexer from_idx = from_chunk.indexer(from_range);
         qk::indexer to_idx = to_chunk.indexer(to_range);
 
-        while(true){
+        while(from_idx.exists() and to_idx.exists()){
 
             to_chunk[to_idx] = from_chunk[from_idx];
 
             to_idx.next();
             from_idx.next();
-
-            if(!to_idx.exists()){
-                break;
-            }
         }
     }
 
-- 
2.43.0


From 265015f766ca7825374e5bd7c56f72f500deac7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:24 +0000
Subject: [PATCH 06/23] fix: pull between interfaces of different ranges

The whole-interface pull passed its ranges swapped, and ranges outside of either
interface made the copy run outside of the destination.
---
 src/lib/indexer_interface.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/indexer_interface.h b/src/lib/indexer_interface.h
index d847a64..babe311 100644
--- a/src/lib/indexer_interface.h
+++ b/src/lib/indexer_interface.h
@@ -43,10 +43,14 @@ public:
             throw qk::exception("qk::indexer_interface::pull : Volume mismatch.");
         }
 
+        if (!interface.includes(from_range) or !includes(to_range)) {
+            throw qk::exception("qk::indexer_interface::pull : Requested range extends outside of interface bounds.");
+        }
+
         // TODO: this needs to be sped up
         qk::indexer src_indexer = interface.indexer(from_range);
         qk::indexer dst_indexer = indexer(to_range);
-        while (src_indexer.exists()) {
+        while (src_indexer.exists() and dst_indexer.exists()) {
             (*this)[dst_indexer] = interface[src_indexer];
             dst_indexer.next();
             src_indexer.next();
@@ -55,7 +59,7 @@ public:
 
     void pull(const indexer_interface<T> & interface)
     {
-        pull(interface, this->range(), interface.range());
+        pull(interface, interface.range(), this->range());
     }
 
     void fill(const T & value)
-- 
2.43.0


From d536b5f7b04f1c7810021933e4f8ac7119d52147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:24 +0000
Subject: [PATCH 07/23] fix: copy the elements in the indexer_interface copy
 constructor

---
 src/lib/indexer_interface.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/indexer_interface.h b/src/lib/indexer_interface.h
index babe311..42c3e4f 100644
--- a/src/lib/indexer_interface.h
+++ b/src/lib/indexer_interface.h
@@ -21,6 +21,7 @@ public:
     indexer_interface(const indexer_interface & interface)
     {
         resize(interface.range());
+        _data = interface._data;
     }
 
     virtual ~indexer_interface()
-- 
2.43.0


From eb187cf0d6ecab693b960dd2c186e9de824c8895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:24 +0000
Subject: [PATCH 08/23] fix: range_set tiles must stay inside of the divided
 range

Trailing tiles had lower > upper when the length does not divide, and the float
division lost precision for long ranges.
---
 src/lib/range_set.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/range_set.cpp b/src/lib/range_set.cpp
index fe618f7..e6d6580 100644
--- a/src/lib/range_set.cpp
+++ b/src/lib/range_set.cpp
@@ -1,7 +1,7 @@
 #include "range_set.h"
 
 // STL includes
-#include <cmath>
+#include <algorithm>
 
 namespace qk
 {
@@ -30,7 +30,7 @@ range_set::setup(const qk::range &superRange, const int *numSubdivisions)
 
     int subRangeSizePerDivision[_num_dims];
     for(int i = 0; i < _num_dims; i++){
-        subRangeSizePerDivision[i] = int(std::ceil(float(superRange.length(i)) / float(numSubdivisions[i])));
+        subRangeSizePerDivision[i] = (superRange.length(i) + numSubdivisions[i] - 1) / numSubdivisions[i];
     }
 
     int lowers[_num_dims];
@@ -38,7 +38,7 @@ range_set::setup(const qk::range &superRange, const int *numSubdivisions)
 
     for(qk::indexer indexer = this->indexer(); indexer.exists(); indexer.next()){
         for(int i = 0; i < _num_dims; i++){
-            lowers[i] = _superRange.lower(i) + indexer[i] * subRangeSizePerDivision[i];
+            lowers[i] = std::min(_superRange.lower(i) + indexer[i] * subRangeSizePerDivision[i], _superRange.upper(i));
             uppers[i] = std::min(lowers[i] + subRangeSizePerDivision[i], _superRange.upper(i));
         }
 
-- 
2.43.0


From e59d53c500eb32fc29c0bec22564feca4ec57448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:24 +0000
Subject: [PATCH 09/23] fix: exception::what returned a dangling pointer,
 operator= appended

---
 src/lib/exception.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/exception.h b/src/lib/exception.h
index 295c9b6..d69ea61 100644
--- a/src/lib/exception.h
+++ b/src/lib/exception.h
@@ -40,13 +40,16 @@ public:
 
     const char* what() const noexcept
     {
-        return _what.str().c_str();
+        _message = _what.str();
+        return _message.c_str();
     }
 
     exception& operator=(const qk::exception & other)
     {
+        const std::string message = other._what.str();
         this->_what.clear();
-        *this << std::string(other.what());
+        this->_what.str("");
+        *this << message;
         return *this;
     }
 
@@ -66,6 +69,7 @@ public:
 protected:
 
     std::stringstream _what;
+    mutable std::string _message;
 };
 
 }
-- 
2.43.0


From 902bf134dd21ead93df9a9d2bdfd0a357023bf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:24 +0000
Subject: [PATCH 10/23] fix: return the stream from the range output operator

---
 src/lib/range.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/range.h b/src/lib/range.h
index 2c58532..9892c5a 100644
--- a/src/lib/range.h
+++ b/src/lib/range.h
@@ -61,6 +61,7 @@ public:
             }
         }
         os<<"]";
+        return os;
     }
 
 protected:
-- 
2.43.0


From 0d9cd82c237448d01ef902bc967e54f7ef0af349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:24 +0000
Subject: [PATCH 11/23] fix: assigning a range to itself cleared its bounds

---
 src/lib/range.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/range.cpp b/src/lib/range.cpp
index f495daa..20a1301 100644
--- a/src/lib/range.cpp
+++ b/src/lib/range.cpp
@@ -73,6 +73,10 @@ range::includes(const qk::range & rng) const
 void
 range::setup(const int num_dims, const int *lower, const int *upper)
 {
+    // lower and upper may belong to this range
+    const std::vector<int> new_lower(lower, lower + (num_dims > 0 ? num_dims : 0));
+    const std::vector<int> new_upper(upper, upper + (num_dims > 0 ? num_dims : 0));
+
     // initialize
     _num_dims = num_dims;
     _lower.clear();
@@ -86,8 +90,8 @@ range::setup(const int num_dims, const int *lower, const int *upper)
         _upper.resize(_num_dims,0);
         _stride.resize(_num_dims,0);
         for(int i = 0; i < _num_dims; ++i){
-            _lower[i] = lower[i];
-            _upper[i] = upper[i];
+            _lower[i] = new_lower[i];
+            _upper[i] = new_upper[i];
         }
         _stride[_num_dims-1] = 1;
         for(int i = _num_dims-2; i >= 0; --i){
-- 
2.43.0


From d1ee8ac1887eef288497618d94bbbd62758b490b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:24 +0000
Subject: [PATCH 12/23] fix: distance in the radial shock tube used y in place
 of z

---
 src/solver/radial_shock_tube.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/radial_shock_tube.cpp b/src/solver/radial_shock_tube.cpp
index 53e3784..bd2a348 100644
--- a/src/solver/radial_shock_tube.cpp
+++ b/src/solver/radial_shock_tube.cpp
@@ -54,7 +54,7 @@ void radial_shock_tube::solve(qk::variable::variable_manager & variable_manager,
 
                 double r2 = (x[0]-_center[0])*(x[0]-_center[0]);
                 r2 += (x[1]-_center[1])*(x[1]-_center[1]);
-                r2 += (x[2]-_center[2])*(x[1]-_center[2]);
+                r2 += (x[2]-_center[2])*(x[2]-_center[2]);
 
                 const double rho = (r2 < R2) ? rho0 : rho0 * _rho_jump;
                 const double e = (r2 < R2) ? e0 : e0 * _P_jump;
-- 
2.43.0


From 96a471e686d4fcd117b4f0b406400e25344dc75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:24 +0000
Subject: [PATCH 13/23] fix: initial conditions read uninitialised coordinates
 on 1D and 2D grids

---
 src/solver/electromagnetic_wave_1D.cpp | 2 +-
 src/solver/gaussian.cpp                | 2 +-
 src/solver/magnetic_pulse.cpp          | 2 +-
 src/solver/radial_shock_tube.cpp       | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/solver/electromagnetic_wave_1D.cpp b/src/solver/electromagnetic_wave_1D.cpp
index 8d68a0b..9da7935 100644
--- a/src/solver/electromagnetic_wave_1D.cpp
+++ b/src/solver/electromagnetic_wave_1D.cpp
@@ -17,7 +17,7 @@ void electromagnetic_wave_1D::solve(qk::variable::variable_manager & variable_ma
 
     const qk::grid::grid & grid = variable_manager.grid();
 
-    double x[3];
+    double x[3] = {0};
     double * __restrict__ f;
 
     for (const qk::variable::variable_id var_id : _output_variable_ids) {
diff --git a/src/solver/gaussian.cpp b/src/solver/gaussian.cpp
index d16c2a9..18a9ae0 100644
--- a/src/solver/gaussian.cpp
+++ b/src/solver/gaussian.cpp
@@ -38,7 +38,7 @@ gaussian::solve(qk::variable::variable_manager & variable_manager, const int tag
 
     const qk::grid::grid & grid = variable_manager.grid();
 
-    double x[3];
+    double x[3] = {0};
     double w[3];
 
     for(int i = 0; i < _output_variable_ids.size(); i++){
diff --git a/src/solver/magnetic_pulse.cpp b/src/solver/magnetic_pulse.cpp
index 05cb095..090a534 100644
--- a/src/solver/magnetic_pulse.cpp
+++ b/src/solver/magnetic_pulse.cpp
@@ -17,7 +17,7 @@ void magnetic_pulse::solve(qk::variable::variable_manager & variable_manager, co
 
     const qk::grid::grid & grid = variable_manager.grid();
 
-    double x[3];
+    double x[3] = {0};
     const double Bz = _amplitude;
 
     for (int i = 0; i < _output_variable_ids.size(); i++) {
diff --git a/src/solver/radial_shock_tube.cpp b/src/solver/radial_shock_tube.cpp
index bd2a348..cbc0e0f 100644
--- a/src/solver/radial_shock_tube.cpp
+++ b/src/solver/radial_shock_tube.cpp
@@ -32,7 +32,7 @@ void radial_shock_tube::solve(qk::variable::variable_manager & variable_manager,
 
     const qk::grid::grid & grid = variable_manager.grid();
 
-    double x[3];
+    double x[3] = {0};
     const double R2 = _radius*_radius;
     const double rho0 = 1.;
     const double e0 = 1. / (_gamma-1.);
-- 
2.43.0


From 8e6c45b9c7e7514a78f2c3ec3066220b5c9b59fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:24 +0000
Subject: [PATCH 14/23] fix: write the lower corner of the grid as the VTK
 origin

STRUCTURED_POINTS places its first point at ORIGIN: the centre of the domain
shifted every exported field by half of the domain.
---
 src/grid/rectilinear.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/grid/rectilinear.cpp b/src/grid/rectilinear.cpp
index 126e13f..23385fe 100644
--- a/src/grid/rectilinear.cpp
+++ b/src/grid/rectilinear.cpp
@@ -47,9 +47,9 @@ rectilinear::write_vtk(std::ofstream & file, const qk::basis::basis & basis) con
         if(_num_dims > 2){nz = length(2)+1;}
 
         double cx=0, cy=0, cz=0;
-        if(_num_dims > 0){cx = _startxs[0] + _widths[0] / 2.;}
-        if(_num_dims > 1){cy = _startxs[1] + _widths[1] / 2.;}
-        if(_num_dims > 2){cz = _startxs[2] + _widths[2] / 2.;}
+        if(_num_dims > 0){cx = _startxs[0] + lower(0) * _dxs[0];}
+        if(_num_dims > 1){cy = _startxs[1] + lower(1) * _dxs[1];}
+        if(_num_dims > 2){cz = _startxs[2] + lower(2) * _dxs[2];}
 
         double sx=0, sy=0, sz=0;
         if(_num_dims > 0){sx = _dxs[0];}
-- 
2.43.0


From 39fcaa5a1b05015bb7e7f91584c37eda4ad399df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:24 +0000
Subject: [PATCH 15/23] fix: remove parallel loops whose iterations depend on
 each other

---
 src/solver/current_source.cpp   | 1 -
 src/solver/lorentz_force.cpp    | 1 -
 src/solver/ssprk2_advection.cpp | 3 +--
 3 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/solver/current_source.cpp b/src/solver/current_source.cpp
index 49f75ad..ac73b36 100644
--- a/src/solver/current_source.cpp
+++ b/src/solver/current_source.cpp
@@ -59,7 +59,6 @@ fv_solve(const double multiplier, const qk::data::extended_datachunk & fluid_dat
 
     const double * __restrict__ p = fluid_data.data(p_idx) + 1;
     double * __restrict__ rhs = rhs_data.data(E_idx);
-#pragma omp parallel for
     for(int i=imin;i<imax;++i){
 
         rhs[0] += multiplier*p[0];
diff --git a/src/solver/lorentz_force.cpp b/src/solver/lorentz_force.cpp
index 91ba978..8f9ee60 100644
--- a/src/solver/lorentz_force.cpp
+++ b/src/solver/lorentz_force.cpp
@@ -90,7 +90,6 @@ low_order_solve(const double com, const qk::data::extended_datachunk & fluid_dat
     const int imin = fluid_idx.linear_index() / 5;
     const int imax = (fluid_idx.final_linear_index()+1) / 5;
 
-#pragma omp parallel for
     for(int i = imin; i<imax;++i){
 
         // We are solving
diff --git a/src/solver/ssprk2_advection.cpp b/src/solver/ssprk2_advection.cpp
index 82fbcba..0ecee64 100644
--- a/src/solver/ssprk2_advection.cpp
+++ b/src/solver/ssprk2_advection.cpp
@@ -38,8 +38,7 @@ void advection_iterate(const int start,
     const double * __restrict__ a = n;        //(const double *) __builtin_assume_aligned((const void *) n, 32);
     double * __restrict__ b = np;        //(double *) __builtin_assume_aligned((void *) np, 32);
 
-    // Iterate - should autovectorize
-#pragma omp parallel for
+    // Iterate - neighbouring iterations update the same element, so this can not run in parallel
     for (int i = start; i < end; i++) {
         // Center cell value
         const double vc = a[i - downstream_stride];
-- 
2.43.0


From 3cdd5e8155816ead5199e7fac54eb70f4fd3f7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:24 +0000
Subject: [PATCH 16/23] fix: structured grid truncated widths and powers,
 ignored the lower bound

---
 src/grid/structured.cpp | 10 +++++-----
 src/grid/structured.h   |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/grid/structured.cpp b/src/grid/structured.cpp
index eb6a532..e2e57f8 100644
--- a/src/grid/structured.cpp
+++ b/src/grid/structured.cpp
@@ -41,7 +41,7 @@ structured::~structured()
 }
 
 void
-structured::bias_array(double * dxs, const int size, const int pow)
+structured::bias_array(double * dxs, const int size, const double pow)
 {
     // Thi
     double xs[size+1];
@@ -62,7 +62,7 @@ structured::apply_bias_symmetric(const int dim, const double pow)
         throw qk::exception("qk::grid::structured::apply_bias_symmetric : Requested dimension out of range.");
     }
 #endif
-    const int L = width(dim)/2.;
+    const double L = width(dim)/2.;
     const int N = length(dim);
 
     if(N %2 == 1){
@@ -89,7 +89,7 @@ structured::apply_bias_linear(const int dim, const double pow)
         throw qk::exception("qk::grid::structured::apply_bias_linear : Requested dimension out of range.");
     }
 #endif
-    const int L = width(dim);
+    const double L = width(dim);
     const int N = length(dim);
     double n_dxs[N];
     bias_array(n_dxs,N,pow);
@@ -113,7 +113,7 @@ structured::centroid(const int dim, const int index) const
         throw qk::exception("qk::grid::structured::centroid : Requested index out of range.");
     }
 #endif
-    return _xcs[dim][index];
+    return _xcs[dim][index - lower(dim)];
 }
 
 double
@@ -127,7 +127,7 @@ structured::dx(const int dim, const int index) const
         throw qk::exception("qk::grid::structured::dx : Requested index out of range.");
     }
 #endif
-    return _dxs[dim][index];
+    return _dxs[dim][index - lower(dim)];
 }
 
 void
diff --git a/src/grid/structured.h b/src/grid/structured.h
index 6450af6..26d9400 100644
--- a/src/grid/structured.h
+++ b/src/grid/structured.h
@@ -32,7 +32,7 @@ public:
 
 protected:
 
-    void bias_array(double * dxs, const int size, const int pow);
+    void bias_array(double * dxs, const int size, const double pow);
     void recalculate_xcs(const int dim);
 
     std::vector<std::vector<double> > _dxs;
-- 
2.43.0


From 70d526cb3bef30ae7a6a0872c62f57653c04f709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:24 +0000
Subject: [PATCH 17/23] fix: the free slip wall must only reverse the normal
 momentum

It reversed all three components, which is the no slip wall.
---
 src/solver/bc_free_slip.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/bc_free_slip.cpp b/src/solver/bc_free_slip.cpp
index 7292f03..483293e 100644
--- a/src/solver/bc_free_slip.cpp
+++ b/src/solver/bc_free_slip.cpp
@@ -66,14 +66,14 @@ bc_free_slip::solve(qk::variable::variable_manager & variable_manager, const int
                 // Lower boundary
                 {
                     qk::range efield_rng(lower_external_range);
-                    efield_rng.set(lower_external_range.num_dims()-1, 1,4);
+                    efield_rng.set(lower_external_range.num_dims()-1, i+1,i+2);
                     chunk.multiply_by_scalar(efield_rng, -1.);
                 }
 
                 // Upper boundary
                 {
                     qk::range efield_rng(upper_external_range);
-                    efield_rng.set(upper_external_range.num_dims()-1, 1,4);
+                    efield_rng.set(upper_external_range.num_dims()-1, i+1,i+2);
                     chunk.multiply_by_scalar(efield_rng, -1.);
                 }
             }
-- 
2.43.0


From 1350fd0ed3b0e522464f33ae09e2701e05939dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:24 +0000
Subject: [PATCH 18/23] fix: the Brio-Wu magnetic field does not scale with the
 adiabatic index

---
 src/solver/brio_wu_shock_tube.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/brio_wu_shock_tube.cpp b/src/solver/brio_wu_shock_tube.cpp
index f2e3cd3..d1a76f5 100644
--- a/src/solver/brio_wu_shock_tube.cpp
+++ b/src/solver/brio_wu_shock_tube.cpp
@@ -79,7 +79,7 @@ void brio_wu_shock_tube::solve(qk::variable::variable_manager & variable_manager
         for (qk::indexer idx = field.indexer(By_range); idx.exists(); idx.next()) {
             grid.xc(idx, x);
 
-            const double By = _By * ((x[0] < 0.) ? 1. : -1.) * P_mult;
+            const double By = _By * ((x[0] < 0.) ? 1. : -1.);
             field[idx] = By;
         }
 
-- 
2.43.0


From ba535001779a575fe6bb7657c3272ff2ed3578c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:24 +0000
Subject: [PATCH 19/23] fix: gem_challenge must check its number of output
 variables

---
 src/solver/gem_challenge.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/gem_challenge.cpp b/src/solver/gem_challenge.cpp
index 8a74c48..e8da458 100644
--- a/src/solver/gem_challenge.cpp
+++ b/src/solver/gem_challenge.cpp
@@ -26,6 +26,10 @@ gem_challenge::~gem_challenge()
 void gem_challenge::solve(qk::variable::variable_manager & variable_manager, const int tag) const
 {
 
+    if (_output_variable_ids.size() != 3) {
+        throw qk::exception("qk::solver::gem_challenge::solve : Must have three output variables (electrons, ions, field).");
+    }
+
     double * __restrict__ e;
     double * __restrict__ i;
     double * __restrict__ f;
-- 
2.43.0


From 7dfd1f80dc5b8a873ac52cbe93b063597e8a025a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:32 +0000
Subject: [PATCH 20/23] fix: a second exception::what() invalidated the text of
 the first

---
 src/lib/exception.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/exception.h b/src/lib/exception.h
index d69ea61..a2f1b04 100644
--- a/src/lib/exception.h
+++ b/src/lib/exception.h
@@ -40,7 +40,11 @@ public:
 
     const char* what() const noexcept
     {
-        _message = _what.str();
+        // Texts returned earlier stay valid while the message is the same
+        const std::string message = _what.str();
+        if(message != _message){
+            _message = message;
+        }
         return _message.c_str();
     }
 
-- 
2.43.0


From 840a4dcdbb43e938d7cabc20b88f2cd6a7126cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:22 +0000
Subject: [PATCH 21/23] fix: structured::xc left the position it is asked for
 unset

---
 src/grid/structured.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/grid/structured.h b/src/grid/structured.h
index 26d9400..1ebc7d1 100644
--- a/src/grid/structured.h
+++ b/src/grid/structured.h
@@ -24,7 +24,9 @@ public:
 
     void xc(const qk::indexer & idx, double * x) const
     {
-
+        for (int i = 0; i < num_dims(); ++i) {
+            x[i] = centroid(i, idx[i]);
+        }
     }
 
     double centroid(const int dim, const int index) const;
-- 
2.43.0


From d87a10c6fa4bc5be6550f800a1722c6fd45725a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:56 +0000
Subject: [PATCH 22/23] fix: a radial shock tube without setup read past its
 empty center

---
 src/solver/radial_shock_tube.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/radial_shock_tube.cpp b/src/solver/radial_shock_tube.cpp
index cbc0e0f..4e9bb88 100644
--- a/src/solver/radial_shock_tube.cpp
+++ b/src/solver/radial_shock_tube.cpp
@@ -13,6 +13,7 @@ namespace solver
 {
 
 radial_shock_tube::radial_shock_tube():
+    _center(3,0.),
     _radius(0.125),
     _rho_jump(0.125),
     _P_jump(0.1),
-- 
2.43.0


From 062a5bd804468fc5b18fb7aa508e91707f96ce67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:39 +0000
Subject: [PATCH 23/23] fix: range_set::setup read the range to divide after
 releasing it when it was one of its own tiles

---
 src/lib/range_set.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/range_set.cpp b/src/lib/range_set.cpp
index e6d6580..6c1f029 100644
--- a/src/lib/range_set.cpp
+++ b/src/lib/range_set.cpp
@@ -30,7 +30,7 @@ range_set::setup(const qk::range &superRange, const int *numSubdivisions)
 
     int subRangeSizePerDivision[_num_dims];
     for(int i = 0; i < _num_dims; i++){
-        subRangeSizePerDivision[i] = (superRange.length(i) + numSubdivisions[i] - 1) / numSubdivisions[i];
+        subRangeSizePerDivision[i] = (_superRange.length(i) + numSubdivisions[i] - 1) / numSubdivisions[i];
     }
 
     int lowers[_num_dims];
-- 
2.43.0

