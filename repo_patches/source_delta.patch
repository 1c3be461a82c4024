From dbc8d2682d0910597e88260f2c1ed968974cd856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 01/23] fix: positions with NaN coordinates are not inside a
 system

---
 src/system_mod/cont_circ.rs  | 7 +------
 src/system_mod/cont_cubic.rs | 2 +-
 src/system_mod/cont_cyl.rs   | 4 ++--
 3 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/system_mod/cont_circ.rs b/src/system_mod/cont_circ.rs
index 8b3f5ef..5786fd6 100644
--- a/src/system_mod/cont_circ.rs
+++ b/src/system_mod/cont_circ.rs
@@ -65,12 +65,7 @@ impl SystemCore<f64> for ContCircSystem{
 
         let r : f64 = pos.norm();   // distance between center and position
 
-        if r > self.sys_size{
-            return Ok(false);
-        }
-        else{
-            return Ok(true);
-        }
+        return Ok(r <= self.sys_size);  // false for a position with NaN coordinate
     }
 
     fn check_bc(&self, pos: &mut Position<f64>, dp: &mut Position<f64>) -> Result<(), Error>{
diff --git a/src/system_mod/cont_cubic.rs b/src/system_mod/cont_cubic.rs
index 1ae66dd..d81d3c8 100644
--- a/src/system_mod/cont_cubic.rs
+++ b/src/system_mod/cont_cubic.rs
@@ -77,7 +77,7 @@ impl SystemCore<f64> for ContCubicSystem{
 
         let length = self.sys_size;
         for x in &pos.coordinate{
-            if x.abs() > length{
+            if !(x.abs() <= length){        // NaN coordinate is not in the system
                 return Ok(false);
             }
         }
diff --git a/src/system_mod/cont_cyl.rs b/src/system_mod/cont_cyl.rs
index ab01119..2955c4c 100644
--- a/src/system_mod/cont_cyl.rs
+++ b/src/system_mod/cont_cyl.rs
@@ -91,13 +91,13 @@ impl SystemCore<f64> for ContCylindricalSystem{
             r += *x * *x;
         }
         r = r.sqrt();
-        if r > sys_radius{
+        if !(r <= sys_radius){              // NaN coordinate is not in the system
             return Ok(false);
         }
 
         let sys_length = self.sys_length;
         for x in &pos[d..]{
-            if x.abs() > sys_length{
+            if !(x.abs() <= sys_length){
                 return Ok(false);
             }
         }
-- 
2.43.0


From 4578e67dacb43f0388e6d13f0f77c13d00a20451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 02/23] fix: draw in-place random position of cylinder from the
 system's own bounding box

---
 src/system_mod/cont_cyl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/system_mod/cont_cyl.rs b/src/system_mod/cont_cyl.rs
index 2955c4c..f163ca3 100644
--- a/src/system_mod/cont_cyl.rs
+++ b/src/system_mod/cont_cyl.rs
@@ -228,11 +228,11 @@ impl SystemCore<f64> for ContCylindricalSystem{
 
             let mut r : f64 = 0f64;
             for i in 0..d{
-                vec[i] *= 2f64 * sys_radius;
+                vec[i] *= sys_radius;
                 r += vec[i] * vec[i];
             }
             for i in d..dim{
-                vec[i] *= 2f64 * sys_length;
+                vec[i] *= sys_length;
             }
 
             r = r.sqrt();
-- 
2.43.0


From c1358bf4998320cedec8656ae0ac48d535adb91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 03/23] fix: out-of-system position of a cylinder without
 rectangular coordinates

---
 src/system_mod/cont_cyl.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/system_mod/cont_cyl.rs b/src/system_mod/cont_cyl.rs
index f163ca3..65ffdf8 100644
--- a/src/system_mod/cont_cyl.rs
+++ b/src/system_mod/cont_cyl.rs
@@ -248,9 +248,13 @@ impl SystemCore<f64> for ContCylindricalSystem{
         // system 밖의 점을 하나 출력해주는 함수
         // searcher를 새로 정의할 때, 맨 처음 위치를 시스템 밖에 두면 편리해서 생긴 기능
 
-        let sys_length : f64 = self.sys_length;
-        let dim : usize = self.dim;
-        return Position::new(vec![2f64 * sys_length; dim]);   // circular domain에선 아니더라도 rectangular domain에서 밖으로 나감
+        let mut pos = Position::new(vec![2f64 * self.sys_length; self.dim]);
+        if let SystemType::ContinuousCylindrical(d) = self.sys_type{
+            for x in &mut pos.coordinate[..d]{
+                *x = 2f64 * self.sys_radius;    // rectangular domain이 없는 경우에도 circular domain에서 밖으로 나감
+            }
+        }
+        return pos;
     }
 
     fn position_out_of_system_to_vec(&self, vec: &mut Position<f64>) -> Result<(), Error>{
@@ -264,6 +268,11 @@ impl SystemCore<f64> for ContCylindricalSystem{
         for x in vec.iter_mut(){
             *x = 2f64 * sys_length;
         }
+        if let SystemType::ContinuousCylindrical(d) = self.sys_type{
+            for x in &mut vec.coordinate[..d]{
+                *x = 2f64 * self.sys_radius;
+            }
+        }
         Ok(())
     }
 }
-- 
2.43.0


From 923613672006b7854a032c331f8cac55e551b849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 04/23] fix: reject zero and NaN system sizes when constructing
 systems

---
 src/system_mod/cont_circ.rs  | 4 ++--
 src/system_mod/cont_cubic.rs | 4 ++--
 src/system_mod/cont_cyl.rs   | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/system_mod/cont_circ.rs b/src/system_mod/cont_circ.rs
index 5786fd6..43afab9 100644
--- a/src/system_mod/cont_circ.rs
+++ b/src/system_mod/cont_circ.rs
@@ -16,7 +16,7 @@ impl ContCircSystem{
         // r : radius of system
         // dim : dimension of system
 
-        if r <= 0f64 || dim == 0{
+        if !(r > 0f64) || dim == 0{
             panic!("{:?}", ErrorCode::InvalidArgumentInput);
         }
 
@@ -39,7 +39,7 @@ impl ContCircSystem{
     #[allow(dead_code)]
     pub fn convert_from(argument : &ContCircSystemArguments) -> Self{
 
-        if argument.sys_size <= 0f64 || argument.dim == 0{
+        if !(argument.sys_size > 0f64) || argument.dim == 0{
             panic!("{:?}", ErrorCode::InvalidArgumentInput);
         }
 
diff --git a/src/system_mod/cont_cubic.rs b/src/system_mod/cont_cubic.rs
index d81d3c8..9bc5152 100644
--- a/src/system_mod/cont_cubic.rs
+++ b/src/system_mod/cont_cubic.rs
@@ -16,7 +16,7 @@ impl ContCubicSystem{
         // length : length, width, height of system
         // dim : dimension of system
 
-        if length <= 0f64 || dim ==0 {
+        if !(length > 0f64) || dim ==0 {
             panic!("{:?}", ErrorCode::InvalidArgumentInput);
         }
 
@@ -45,7 +45,7 @@ impl ContCubicSystem{
     #[allow(dead_code)]
     pub fn convert_from(argument : &ContCubicSystemArguments) -> Self{
 
-        if argument.sys_size <= 0f64 || argument.dim == 0{
+        if !(argument.sys_size > 0f64) || argument.dim == 0{
             panic!("{:?}", ErrorCode::InvalidArgumentInput);
         }
 
diff --git a/src/system_mod/cont_cyl.rs b/src/system_mod/cont_cyl.rs
index 65ffdf8..569b763 100644
--- a/src/system_mod/cont_cyl.rs
+++ b/src/system_mod/cont_cyl.rs
@@ -17,7 +17,7 @@ impl ContCylindricalSystem{
         // length : length, width, height of system
         // dim : dimension of system
 
-        if cyl_dim > dim || sys_radius <= 0f64 || sys_length <= 0f64 || dim == 0{
+        if cyl_dim > dim || !(sys_radius > 0f64) || !(sys_length > 0f64) || dim == 0{
             panic!("{}", ErrorCode::InvalidArgumentInput);
         }
 
@@ -53,8 +53,8 @@ impl ContCylindricalSystem{
                 panic!("{:?}", ErrorCode::InvalidArgumentInput);
             },
         };
-        if cyl_dim1 != cyl_dim2 || cyl_dim1 > argument.dim || argument.sys_radius < 0f64 ||
-                argument.sys_length <= 0f64 || argument.dim == 0{
+        if cyl_dim1 != cyl_dim2 || cyl_dim1 > argument.dim || !(argument.sys_radius > 0f64) ||
+                !(argument.sys_length > 0f64) || argument.dim == 0{
             panic!("{:?}", ErrorCode::InvalidArgumentInput);
         }
 
-- 
2.43.0


From 26986723899609d0c8769d536f2604da54bcd0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 05/23] fix: histogram bin index at the upper end of the range
 and unbinnable configurations

---
 src/analysis.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index b23c025..0cefe27 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -153,7 +153,7 @@ macro_rules! construct_trait_bin {
 () => {
         #[allow(dead_code)]
         fn update_from_bin_size(&mut self, min_time : f64, max_time : f64, bin_size : f64, lbin_size : f64) -> Result<(), Error>{
-            if min_time < 0f64 || max_time < min_time || bin_size < 0f64 || lbin_size < 0f64{
+            if !(min_time >= 0f64) || !(bin_size > 0f64) || !(lbin_size > 1f64) || !max_time.is_finite(){
                 return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
             }
 
@@ -165,6 +165,10 @@ macro_rules! construct_trait_bin {
                 time = min_time;
             }
 
+            if !(max_time > time){
+                return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
+            }
+
             let num_bin : usize = ((max_time - time) / bin_size + 0.5f64).ceil() as usize;
             let num_lbin : usize = ((max_time / time).log2() / lbin_size.log2() + 0.5f64).ceil() as usize;
 
@@ -179,7 +183,7 @@ macro_rules! construct_trait_bin {
 
         #[allow(dead_code)]
         fn update_from_num_bin(&mut self, min_time : f64, max_time : f64, num_bin : usize) -> Result<(), Error>{
-            if min_time < 0f64 || max_time < min_time || num_bin < 10{
+            if !(min_time >= 0f64) || num_bin < 10 || !max_time.is_finite(){
                 return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
             }
 
@@ -191,6 +195,10 @@ macro_rules! construct_trait_bin {
                 time = min_time;
             }
 
+            if !(max_time > time){
+                return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
+            }
+
             let (bin_size, lbin_size) : (f64, f64) = Self::convert_num_bin_to_bin_size(time, max_time, num_bin)?;
 
             self.min_time = time;
@@ -203,7 +211,7 @@ macro_rules! construct_trait_bin {
         }
 
         fn convert_num_bin_to_bin_size(min_time : f64, max_time : f64, num_bin : usize) -> Result<(f64, f64), Error>{
-            if min_time < 0f64 || max_time < min_time || num_bin < 10{
+            if !(min_time >= 0f64) || num_bin < 10 || !max_time.is_finite(){
                 return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
             }
 
@@ -215,6 +223,10 @@ macro_rules! construct_trait_bin {
                 time = min_time;
             }
 
+            if !(max_time > time){
+                return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
+            }
+
             let bin_size : f64 = (max_time - time) / (num_bin as f64);
             let lbin_size : f64 = (max_time / time).powf(1f64 / (num_bin as f64));
             return Ok((bin_size, lbin_size));
@@ -226,7 +238,8 @@ macro_rules! construct_trait_bin {
                 return None;
             }
             else{
-                return Some(((fpt - self.min_time) / self.bin_size).floor() as usize);
+                let idx = ((fpt - self.min_time) / self.bin_size).floor() as usize;
+                return Some(idx.min(self.num_bin - 1));     // max_time belongs to the last bin
             }
         }
 
@@ -236,7 +249,8 @@ macro_rules! construct_trait_bin {
                 return None;
             }
             else{
-                return Some(((fpt / self.min_time).log2() / self.lbin_size.log2()).floor() as usize);
+                let idx = ((fpt / self.min_time).log2() / self.lbin_size.log2()).floor() as usize;
+                return Some(idx.min(self.num_lbin - 1));    // max_time belongs to the last bin
             }
         }
     }
-- 
2.43.0


From 555280a63eaf291e291dedd064fade0e62ae4c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 06/23] fix: standard deviation of nearly identical samples is
 not NaN

---
 src/analysis.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 0cefe27..0eb6765 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -319,6 +319,16 @@ pub trait Analysis{
     fn analyze<H : Hash + Eq + Copy + DataSet>(args : &[String], width : usize, prefix : &str) -> Result<(), Error>;
 }
 
+// Standard deviation from mean square and mean.
+// Rounding can make the difference slightly negative for (almost) identical samples.
+fn stddev_from_moments(mean_square : f64, mean : f64) -> f64{
+    let var = mean_square - mean.powi(2);
+    if var < 0f64{
+        return 0f64;
+    }
+    return var.sqrt();
+}
+
 // =====================================================================================
 // ===  Implement TimeAnalysis =========================================================
 // =====================================================================================
@@ -417,7 +427,7 @@ impl Var1 for TimeAnalysis{
         let en : f64= self.ensemble as f64;
 
         self.mean = self.mean / en;
-        self.stddev = ((self.stddev / en) - self.mean.powi(2)).sqrt();
+        self.stddev = stddev_from_moments(self.stddev / en, self.mean);
 
         let d_bin : f64 = en * (self.bin_size as f64);
         let lbin : f64 = self.lbin_size;
@@ -740,7 +750,7 @@ impl VarN for TimeVecAnalysis{
 
         for idx in 0..self.num_var{
             self.means[idx] = self.means[idx] / en;
-            self.stddevs[idx] = ((self.stddevs[idx] / en) - self.means[idx].powi(2)).sqrt();
+            self.stddevs[idx] = stddev_from_moments(self.stddevs[idx] / en, self.means[idx]);
 
             let mut d_lbin : f64 = self.min_time * en * (lbin - 1f64);
 
@@ -1138,14 +1148,14 @@ impl VarTime for ProcessAnalysis{
         let en = self.tot_point as f64;
 
         self.long_term_mean = self.long_term_mean / en;
-        self.long_term_stddev = ((self.long_term_stddev / en) - self.long_term_mean.powi(2)).sqrt();
+        self.long_term_stddev = stddev_from_moments(self.long_term_stddev / en, self.long_term_mean);
 
         let count = &self.count;
         let mean = &mut self.mean;
         let stddev = &mut self.stddev;
         for (i, &x) in count.iter().enumerate(){
             mean[i] = mean[i] / (x as f64);
-            stddev[i] = (stddev[i] / (x as f64) - mean[i].powi(2)).sqrt();
+            stddev[i] = stddev_from_moments(stddev[i] / (x as f64), mean[i]);
         }
 
         let lcount = &self.lcount;
@@ -1153,7 +1163,7 @@ impl VarTime for ProcessAnalysis{
         let log_stddev = &mut self.log_stddev;
         for (i, &x) in lcount.iter().enumerate(){
             log_mean[i] = log_mean[i] / (x as f64);
-            log_stddev[i] = (log_stddev[i] / (x as f64) - log_mean[i].powi(2)).sqrt();
+            log_stddev[i] = stddev_from_moments(log_stddev[i] / (x as f64), log_mean[i]);
         }
     }
 }
-- 
2.43.0


From a996e54d4f9790b457f7d1139b4e106a8852fa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 07/23] fix: clear the number of points of a process analysis

---
 src/analysis.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/analysis.rs b/src/analysis.rs
index 0eb6765..0f2af2a 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -1175,6 +1175,7 @@ impl Analysis for ProcessAnalysis{
     fn clear(&mut self){
         self.long_term_mean = 0f64;
         self.long_term_stddev = 0f64;
+        self.tot_point = 0;
         self.ensemble = 0;
 
         self.mean = vec![0f64; self.num_bin];
-- 
2.43.0


From a13a0357799e079513c055b052107b1236a7c509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 08/23] fix: export every bin that received samples, whatever
 its drawn value

---
 src/analysis.rs | 37 ++++++++++++-------------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 0f2af2a..f5ea153 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -478,10 +478,10 @@ impl Analysis for TimeAnalysis{
         let mut time = self.min_time - bin_size / 2f64;
         for (i, &x) in self.hist.iter().enumerate(){
             time += bin_size;
-            if x.abs() < 1e-15{
+            let n = self.count[i];
+            if n == 0{
                 continue;
             }
-            let n = self.count[i];
             writer.write_fmt(format_args!("{1:0$e}\t{2:0$}\t{3:0$e}\n", prec, time, n, x)).map_err(Error::make_error_io)?;
         }
         Ok(())
@@ -494,10 +494,10 @@ impl Analysis for TimeAnalysis{
 
         for (i, &x) in self.lhist.iter().enumerate(){
             time *= r;
-            if x.abs() < 1e-15{
+            let n = self.lcount[i];
+            if n == 0{
                 continue;
             }
-            let n = self.lcount[i];
             writer.write_fmt(format_args!("{1:0$e}\t{2:0$}\t{3:0$e}\n", prec, time, n, x)).map_err(Error::make_error_io)?;
         }
         Ok(())
@@ -807,9 +807,7 @@ impl Analysis for TimeVecAnalysis{
     fn export_distribution<W: Write>(&self, prec : usize, writer : &mut W) -> Result<(), Error>{
         let bin_size = self.bin_size;
         let mut time = self.min_time + bin_size / 2f64;
-        let mut i : usize = 0;
-
-        while time <= self.max_time{
+        for i in 0..self.num_bin{
             let mut string = String::new();
             let mut check = false;
 
@@ -818,7 +816,7 @@ impl Analysis for TimeVecAnalysis{
                 let n = self.count[idx][i];
                 let x = self.hist[idx][i];
 
-                if x > 1e-15{
+                if n > 0{
                     check = true;
                 }
                 string.push_str(format!("{}", format_args!("{1:0$}\t{2:0$e}\t", prec, n, x)).as_str());
@@ -828,8 +826,6 @@ impl Analysis for TimeVecAnalysis{
             }
 
             time += bin_size;
-            i += 1;
-
         }
         Ok(())
     }
@@ -838,9 +834,7 @@ impl Analysis for TimeVecAnalysis{
     fn export_log_scaled_distribution<W: Write>(&self, prec : usize, writer: &mut W) -> Result<(), Error>{
         let lbin_size = self.lbin_size;
         let mut time = self.min_time * lbin_size.sqrt();
-        let mut i : usize = 0;
-
-        while time <= self.max_time{
+        for i in 0..self.num_lbin{
             let mut string = String::new();
             let mut check = false;
 
@@ -849,7 +843,7 @@ impl Analysis for TimeVecAnalysis{
                 let n = self.lcount[idx][i];
                 let x = self.lhist[idx][i];
 
-                if x > 1e-15{
+                if n > 0{
                     check = true;
                 }
                 string.push_str(format!("{}", format_args!("{1:0$}\t{2:0$e}\t", prec, n, x)).as_str());
@@ -859,7 +853,6 @@ impl Analysis for TimeVecAnalysis{
             }
 
             time *= lbin_size;
-            i += 1;
         }
         Ok(())
     }
@@ -1208,20 +1201,17 @@ impl Analysis for ProcessAnalysis{
     fn export_distribution<W: Write>(&self, prec : usize, writer : &mut W) -> Result<(), Error>{
         let bin_size = self.bin_size;
         let mut time = self.min_time + bin_size / 2f64;
-        let mut i : usize = 0;
-
-        while time <= self.max_time{
+        for i in 0..self.num_bin{
 
             let n = self.count[i];
             let x = self.mean[i];
             let dx = self.stddev[i];
 
-            if x > 1e-15{
+            if n > 0{
                 writer.write_fmt(format_args!("{1:0$e}\t{2:0$}\t{3:0$e}\t{4:0$e}\n", prec, time, n, x, dx)).map_err(Error::make_error_io)?;
             }
 
             time += bin_size;
-            i += 1;
         }
         Ok(())
     }
@@ -1230,19 +1220,16 @@ impl Analysis for ProcessAnalysis{
     fn export_log_scaled_distribution<W: Write>(&self, prec : usize, writer: &mut W) -> Result<(), Error>{
         let lbin_size = self.lbin_size;
         let mut time = self.min_time * lbin_size.sqrt();
-        let mut i : usize = 0;
-
-        while time <= self.max_time{
+        for i in 0..self.num_lbin{
             let n = self.lcount[i];
             let x = self.log_mean[i];
             let dx = self.log_stddev[i];
 
-            if x > 1e-15{
+            if n > 0{
                 writer.write_fmt(format_args!("{1:0$e}\t{2:0$}\t{3:0$e}\t{4:0$e}\n", prec, time, n, x, dx)).map_err(Error::make_error_io)?;
             }
 
             time *= lbin_size;
-            i += 1;
         }
         Ok(())
     }
-- 
2.43.0


From 7b2596a6668e179e34ea3d73ae03ca02c85cf4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 09/23] fix: distance between integer positions does not
 overflow

---
 src/position.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/position.rs b/src/position.rs
index 85b01e0..bcc356d 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -185,7 +185,8 @@ impl Position<i32>{
 
         let mut r : f64 = 0.0f64;
         for (&x, &y) in self.iter().zip(other.iter()){
-            r += ((x - y) *  (x - y)) as f64;
+            let d = x as f64 - y as f64;        // i32 could overflow
+            r += d * d;
         }
         return Ok(r.sqrt());
     }
-- 
2.43.0


From d8f2e1ec2edaed12aba40854eb8afc7c88e1131d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 10/23] fix: in-place addition and subtraction panic on
 different dimensions instead of truncating

---
 src/position.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/position.rs b/src/position.rs
index bcc356d..8b08c13 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -325,6 +325,10 @@ impl<T> Numerics<T> for Position<T>
     }
 
     fn mut_add(&mut self, other: &Self){
+        if self.dim() != other.dim(){
+            panic!("panic! {}", Error::make_error_syntax(ErrorCode::InvalidDimension));
+        }
+
         for idx in 0..self.dim(){
             let x = &mut self.coordinate[idx];
             let y = other.coordinate[idx];
@@ -333,6 +337,10 @@ impl<T> Numerics<T> for Position<T>
     }
 
     fn mut_sub(&mut self, other: &Self){
+        if self.dim() != other.dim(){
+            panic!("panic! {}", Error::make_error_syntax(ErrorCode::InvalidDimension));
+        }
+
         for idx in 0..self.dim(){
             let x = &mut self.coordinate[idx];
             let y = other.coordinate[idx];
@@ -347,6 +355,10 @@ impl<T> Position<T>
                 + Mul<Output = T> + Clone + Copy + Default{
     #[allow(dead_code)]
     pub fn mut_add_bench(&mut self, other : &Self){
+        if self.dim() != other.dim(){
+            panic!("panic! {}", Error::make_error_syntax(ErrorCode::InvalidDimension));
+        }
+
         for (x, &y) in self.iter_mut().zip(other.iter()){
             *x += y;
         }
-- 
2.43.0


From b8db2fa32a998adcda934a2c6caa679e15984f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 11/23] fix: reject zero and NaN time steps and NaN limits

---
 src/time_mod/mod.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/time_mod/mod.rs b/src/time_mod/mod.rs
index ef4d950..72854e3 100644
--- a/src/time_mod/mod.rs
+++ b/src/time_mod/mod.rs
@@ -103,7 +103,7 @@ pub struct ConstStep{
 impl ConstStep{
     #[allow(dead_code)]
     pub fn new(dt : f64) -> Result<Self, Error>{
-        if dt < 1e-15{
+        if !(dt >= 1e-15){
             return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
         }
         Ok(Self{
@@ -129,7 +129,7 @@ impl TimeIterator for ConstStep{
     }
 
     fn set_tmax(&mut self, tmax : f64) -> Result<(), Error>{
-        if tmax < 0f64{
+        if !(tmax >= 0f64){
             return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
         }
         else if tmax < 1e-10{
@@ -173,7 +173,7 @@ impl ConstStep{
     pub fn convert_from(argument : &ConstStepArguments) -> Self{
         let tmax : f64;
 
-        if argument.tmax < 0f64 || argument.dt < 0f64{
+        if !(argument.tmax >= 0f64) || !(argument.dt >= 1e-15){
             panic!("{}", ErrorCode::InvalidArgumentInput);
         }
         else if argument.tmax < 1e-10{
@@ -208,7 +208,7 @@ pub struct ExponentialStep{
 impl ExponentialStep{
     #[allow(dead_code)]
     pub fn new(dt_min : f64, dt_max : f64, length : usize) -> Result<Self, Error>{
-        if dt_min < 1e-15 || dt_min > dt_max || length == 0{
+        if !(dt_min >= 1e-15) || !(dt_min <= dt_max) || length == 0{
             return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
         }
 
@@ -281,7 +281,7 @@ impl TimeIterator for ExponentialStep{
     }
 
     fn set_tmax(&mut self, tmax : f64) -> Result<(), Error>{
-        if tmax < 0f64{
+        if !(tmax >= 0f64){
             return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
         }
         else if tmax < 1e-15{
@@ -346,8 +346,8 @@ impl ExponentialStep{
         let length : usize = argument.length;
         let mut tmax : f64 = argument.tmax;
 
-        if tmax < 0f64 || dt_min < 0f64
-            || dt_min > dt_max || length < 10{
+        if !(tmax >= 0f64) || !(dt_min >= 1e-15)
+            || !(dt_min <= dt_max) || length < 10{
             panic!("{}", ErrorCode::InvalidArgumentInput);
         }
         else if tmax < 1e-15{
-- 
2.43.0


From d7956530e7b7380f38033ec16e497cff1734da58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 12/23] fix: increase ratio of exponential steps stays above
 one for short lengths

---
 src/time_mod/mod.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/time_mod/mod.rs b/src/time_mod/mod.rs
index 72854e3..fc68236 100644
--- a/src/time_mod/mod.rs
+++ b/src/time_mod/mod.rs
@@ -213,8 +213,8 @@ impl ExponentialStep{
         }
 
         let inc : f64;
-        if length == 1{
-            inc = 1.2f64;
+        if length <= 2{
+            inc = 1.2f64;           // length / 2 would not increase the step
         }
         else if length < 10{
             inc = (length as f64) / 2f64;
@@ -235,13 +235,15 @@ impl ExponentialStep{
 
     #[allow(dead_code)]
     pub fn set_inc(&mut self, inc : f64) -> Result<(), Error>{
-        if inc <= 1f64{
+        if !(inc > 1f64){
             return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
         }
         match self.titype{
             TimeType::Exponential(_min, _max, length) =>{
-                if inc * 2f64 > length as f64{
-                    self.inc = (length as f64) / 2f64;
+                // length / 2 would not increase the step for length <= 2
+                let inc_max : f64 = if length <= 2 {1.2f64} else {(length as f64) / 2f64};
+                if inc > inc_max{
+                    self.inc = inc_max;
                 }
                 else{
                     self.inc = inc;
-- 
2.43.0


From 3072d81f9f42037d6fc1d635755f4aa161f6b584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 13/23] fix: read header values that contain a colon

---
 src/argument.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/argument.rs b/src/argument.rs
index b35d5d4..f4801d5 100644
--- a/src/argument.rs
+++ b/src/argument.rs
@@ -144,7 +144,7 @@ macro_rules! impl_fn_read_args_from_lines{
                                 Some(x) => x.map_err(Error::make_error_io)?,
                                 None => {return Err(Error::make_error_syntax(ErrorCode::InvalidFile));}
                             };
-                            let split : Vec<String> = list.split(":")
+                            let split : Vec<String> = list.splitn(2, ":")       // value itself can contain ":"
                                                           .map(|s| s.to_string())
                                                           .collect();
                             if split.len() != 2{
-- 
2.43.0


From c37e63dd94806772998c6c8e4b1f0afb22036e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 14/23] fix: report malformed arguments as errors instead of
 panicking

---
 src/argument.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/argument.rs b/src/argument.rs
index f4801d5..deb84df 100644
--- a/src/argument.rs
+++ b/src/argument.rs
@@ -111,7 +111,7 @@ macro_rules! impl_fn_read_args_from_vec{
                     )*
                 $($var : {
                         let word : &str = iter.next().unwrap().trim();
-                        word.parse().expect("Failed to parse\n")
+                        word.parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?
                     },
                     )*
             })
@@ -151,7 +151,7 @@ macro_rules! impl_fn_read_args_from_lines{
                                 return Err(Error::make_error_syntax(ErrorCode::InvalidFormat));
                             }
                             let val_string : &str = &split[1].trim();
-                            val_string.parse().expect("Failed to parse\n")},
+                            val_string.parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?},
                     )*
             })
         }
-- 
2.43.0


From f998ce5bcaf3a3176e9770445ebd89b63d6bbdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:05 +0000
Subject: [PATCH 15/23] fix: malformed type descriptions are errors instead of
 panics

---
 src/agent_mod/types.rs | 16 +++++++++-------
 src/argument.rs        |  5 +++++
 src/system_mod/mod.rs  | 11 ++++++-----
 src/time_mod/mod.rs    | 12 +++++++-----
 4 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/agent_mod/types.rs b/src/agent_mod/types.rs
index 3213635..97bed01 100644
--- a/src/agent_mod/types.rs
+++ b/src/agent_mod/types.rs
@@ -1,4 +1,5 @@
 use crate::prelude::*;
+use crate::argument::nth_word;
 use std::default::Default;
 use std::convert::From;
 
@@ -171,8 +172,9 @@ impl FromStr for MoveType{
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let split : Vec<&str> = s.split_whitespace().collect();
-        match split[0]{
-            "Brownian" => Ok(MoveType::Brownian(split[4].parse::<f64>().expect("Failed to parse"))),
+        match nth_word(&split, 0){
+            "Brownian" => nth_word(&split, 4).parse::<f64>().map(|c| MoveType::Brownian(c))
+                                   .map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput)),
             "Levy" => Ok(MoveType::Levy),
             _ => {
                 if split.len() == 1{
@@ -232,8 +234,8 @@ impl<T : FromStr + Default + Clone> FromStr for InitType<T>{
             }
         }
         else{
-            match split[1]{
-                "all" => Ok(InitType::<T>::SpecificPosition(split[4].parse::<Position<T>>().expect("Failed to parse"))),
+            match nth_word(&split, 1){
+                "all" => nth_word(&split, 4).parse::<Position<T>>().map(|pos| InitType::<T>::SpecificPosition(pos)),
                 "agents" => Ok(InitType::<T>::Uniform),
                 _ => Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput)),
             }
@@ -300,7 +302,7 @@ impl FromStr for InteractType{
             let name = split[0];
             match name{
                 "Exponential" => {
-                    let args : Vec<&str> = split[1].split(',').collect();
+                    let args : Vec<&str> = nth_word(&split, 1).split(',').collect();
                     if args.len() != 2{
                         return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
                     }
@@ -315,7 +317,7 @@ impl FromStr for InteractType{
                     return Ok(InteractType::Coulomb3D);
                 },
                 "LennardJones" => {
-                    let ptl_size : f64 = split[1].parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                    let ptl_size : f64 = nth_word(&split, 1).parse().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
                     return Ok(InteractType::LennardJones(ptl_size));
                 }
                 _ => {
@@ -323,7 +325,7 @@ impl FromStr for InteractType{
                 }
             }
         } else {
-            match split[0]{
+            match nth_word(&split, 0){
                 "Exponential" => {
                     if split.len() != 10{
                         return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
diff --git a/src/argument.rs b/src/argument.rs
index deb84df..cc42581 100644
--- a/src/argument.rs
+++ b/src/argument.rs
@@ -16,6 +16,11 @@ use crate::prelude::*;
     // width는 변수명이 담기는 영역의 길이를 말한다. align을 위한 장치
     // fn print_configuration(&self, width : usize) -> String;
 
+// n-th word of splitted description. empty if there is no such word
+pub(crate) fn nth_word<'a>(split : &[&'a str], n : usize) -> &'a str{
+    split.get(n).copied().unwrap_or("")
+}
+
 // Argument Trait
 pub trait Argument<T>{
     const NUM_ARGS : usize;
diff --git a/src/system_mod/mod.rs b/src/system_mod/mod.rs
index c0bac70..d41c518 100644
--- a/src/system_mod/mod.rs
+++ b/src/system_mod/mod.rs
@@ -5,6 +5,7 @@
 //
 
 use crate::prelude::*;
+use crate::argument::nth_word;
 
 // =====================================================================================
 // ===  Implement System ===============================================================
@@ -70,13 +71,13 @@ impl FromStr for SystemType{
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let split : Vec<&str> = s.split_whitespace().collect();
-        match split[0]{
+        match nth_word(&split, 0){
             "Continuous" => {
-                match split[1]{
+                match nth_word(&split, 1){
                     "Circular" => Ok(SystemType::ContinuousCircular),
                     "Rectangular" => Ok(SystemType::ContinuousRectangular),
                     "Cylindrical" => {
-                        let d = split[3][3..].parse::<usize>().map_err(|_y| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                        let d = nth_word(&split, 3).get(3..).unwrap_or("").parse::<usize>().map_err(|_y| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
                         Ok(SystemType::ContinuousCylindrical(d))
                     }
                     _ => Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput)),
@@ -136,11 +137,11 @@ impl FromStr for BoundaryCond{
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let split : Vec<&str> = s.split_whitespace().collect();
-        match split[0]{
+        match nth_word(&split, 0){
             "Reflective"    => Ok(BoundaryCond::Reflection),
             "Periodic"      => Ok(BoundaryCond::Periodic),
             "Mixed"         => {
-                let x = split[3][3..].parse::<usize>().map_err(|_y| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                let x = nth_word(&split, 3).get(3..).unwrap_or("").parse::<usize>().map_err(|_y| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
                 Ok(BoundaryCond::Mixed(x))
             },
             string => {
diff --git a/src/time_mod/mod.rs b/src/time_mod/mod.rs
index fc68236..a919c1e 100644
--- a/src/time_mod/mod.rs
+++ b/src/time_mod/mod.rs
@@ -2,6 +2,7 @@
 // 이 모듈에서는 여러 가능한 time scale variation들을 제공할 예정이다.
 
 use crate::prelude::*;
+use crate::argument::nth_word;
 
 // To do
 // Time trait 구성
@@ -62,12 +63,13 @@ impl FromStr for TimeType{
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let split : Vec<&str> = s.split_whitespace().collect();
-        match split[0]{
-            "Constant" => Ok(TimeType::Constant(split[5].parse::<f64>().expect("Failed to parse"))),
+        match nth_word(&split, 0){
+            "Constant" => nth_word(&split, 5).parse::<f64>().map(|c| TimeType::Constant(c))
+                                   .map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput)),
             "Exponential" => {
-                let dt_min = split[5].parse::<f64>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
-                let dt_max = split[7].parse::<f64>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
-                let length = split[13].parse::<usize>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                let dt_min = nth_word(&split, 5).parse::<f64>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                let dt_max = nth_word(&split, 7).parse::<f64>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
+                let length = nth_word(&split, 13).parse::<usize>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput))?;
                 Ok(TimeType::Exponential(dt_min, dt_max, length))
             },
             _ => {
-- 
2.43.0


From e5c5f76168a74521be8a9e9565a9383c78f875d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:05 +0000
Subject: [PATCH 16/23] fix: malformed coordinates are errors instead of zeros

---
 src/position.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index 8b08c13..78f2a56 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -123,8 +123,8 @@ impl<T : FromStr + Default + Clone> FromStr for Position<T>{
                                  .split(|c| c == ',' || c == ':')
                                  .collect();
         let coords: Vec<T> = coords.iter()
-                                     .map(|x| x.parse::<T>().map_or(Default::default(), |v| v))
-                                     .collect();
+                                     .map(|x| x.trim().parse::<T>().map_err(|_e| Error::make_error_syntax(ErrorCode::InvalidArgumentInput)))
+                                     .collect::<Result<Vec<T>, Error>>()?;
         return Ok(Position::<T>::new(coords));
     }
 }
-- 
2.43.0


From 7d6a0d9b091060806f2a8e0ca7c1cf4d9c4b7ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 17/23] fix: merging dead, missing or identical list entries is
 an error without effect

---
 src/iterator.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/iterator.rs b/src/iterator.rs
index 88c25e9..51fbdd7 100644
--- a/src/iterator.rs
+++ b/src/iterator.rs
@@ -314,6 +314,15 @@ impl<T> LinkedList<T>{
 impl<M : Merge> LinkedList<M>{
     #[allow(dead_code)]
     pub fn merge(&mut self, idx1 : usize, idx2 : usize) -> Result<(), Error>{
+        for &idx in &[idx1, idx2]{
+            if self.links.len() <= idx || self.links[idx].alive == false{
+                return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
+            }
+        }
+        if idx1 == idx2{
+            return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
+        }
+
         let size : usize = self.contents[idx2].size();
         self.contents[idx1].add_size(size)?;
         self.del(idx2)?;
-- 
2.43.0


From a23c58c1b53be768662ceb18bfd4ead526d7fecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 18/23] fix: failed merge does not change size of agent

---
 src/agent_mod/cont_passive_merge.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/agent_mod/cont_passive_merge.rs b/src/agent_mod/cont_passive_merge.rs
index 74157e0..6c6e687 100644
--- a/src/agent_mod/cont_passive_merge.rs
+++ b/src/agent_mod/cont_passive_merge.rs
@@ -225,9 +225,9 @@ impl Passive<f64, f64> for ContPassiveMergeAgent{
 
 impl Merge for ContPassiveMergeAgent{
     fn merge(&mut self, other : &Self) -> Result<(), Error>{
-        self.size = self.size + other.size;
         match self.mtype{
             MoveType::Brownian(_c) =>{
+                self.size = self.size + other.size;
                 let coeff = (self.size as f64).powf(-self.alpha);
                 self.mtype = MoveType::Brownian(coeff);
                 Ok(())
@@ -243,9 +243,9 @@ impl Merge for ContPassiveMergeAgent{
     }
 
     fn add_size(&mut self, size : usize) -> Result<(), Error>{
-        self.size = self.size + size;
         match self.mtype{
             MoveType::Brownian(_c) =>{
+                self.size = self.size + size;
                 let coeff = (self.size as f64).powf(-self.alpha);
                 self.mtype = MoveType::Brownian(coeff);
                 Ok(())
-- 
2.43.0


From 04df5a596de0130f9e52f80f975d15294cfc7d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 19/23] fix: data sets with different parameters do not share
 hash input

---
 src/macros.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 9f05ce1..cb17b1e 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -136,14 +136,8 @@ macro_rules! derive_hash{
         impl Hash for $name{
             fn hash<H: Hasher>(&self, state: &mut H){
                 $(
-                    let mut c = self.$var as f64 * 1e10;
-                    let mut b : f64 = 0.0;
-
-                    if c < 0.0 {
-                        c = - c;
-                        b = 1.0;
-                    }
-                    ((c + b) as usize).hash(state);
+                    (self.$var as f64 + 0.0).to_bits().hash(state);     // + 0.0 identifies -0.0 and 0.0
+                    (self.$var as u128).hash(state);                    // integers larger than 2^53
                     )*
             }
         }
-- 
2.43.0


From 766bff69ee8bf293a83119a82c695b98d980b5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:04 +0000
Subject: [PATCH 20/23] fix: analysis of a fixed setup gets the arguments after
 the skipped ones

---
 src/setup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/setup.rs b/src/setup.rs
index a451711..1f3e928 100644
--- a/src/setup.rs
+++ b/src/setup.rs
@@ -103,7 +103,7 @@ macro_rules! setup_simulation_fixed{
         define_total_num_args!($($struct_type),*);
 
         if $args.len() - NUM_SKIP == <$analysis>::NUM_ARGS || $args.len() - NUM_SKIP == <$analysis>::NUM_ARGS + 1{
-                return <$analysis>::analyze::<$dataset>(&$args, WIDTH, $prefix);
+                return <$analysis>::analyze::<$dataset>(&$args[NUM_SKIP..], WIDTH, $prefix);
         }
         else if $args.len() - NUM_SKIP != TOTAL_NUM_ARGS{
             export_simulation_item!($args, $analysis $(, $struct_type)*);
-- 
2.43.0


From ad9ef8da6895b972ddf823ef2dfc65467097b297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:04 +0000
Subject: [PATCH 21/23] fix: number of arguments of time vector analysis

---
 src/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index f5ea153..bf7ce2b 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -771,7 +771,7 @@ impl VarN for TimeVecAnalysis{
 }
 
 impl Analysis for TimeVecAnalysis{
-    const NUM_ARGS : usize = 4;
+    const NUM_ARGS : usize = 5;
 
     // Clear data
     fn clear(&mut self){
-- 
2.43.0


From 16eb140c604298a4afa07a538ec9be2ed3bfa544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:54 +0000
Subject: [PATCH 22/23] fix: infinite bin widths are rejected

---
 src/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index bf7ce2b..4809256 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -153,7 +153,7 @@ macro_rules! construct_trait_bin {
 () => {
         #[allow(dead_code)]
         fn update_from_bin_size(&mut self, min_time : f64, max_time : f64, bin_size : f64, lbin_size : f64) -> Result<(), Error>{
-            if !(min_time >= 0f64) || !(bin_size > 0f64) || !(lbin_size > 1f64) || !max_time.is_finite(){
+            if !(min_time >= 0f64) || !(bin_size > 0f64) || !(lbin_size > 1f64) || !max_time.is_finite() || !bin_size.is_finite() || !lbin_size.is_finite(){
                 return Err(Error::make_error_syntax(ErrorCode::InvalidArgumentInput));
             }
 
-- 
2.43.0


From e8b35fc9299a45926c7da9954d66ea58e00a25be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:45 +0000
Subject: [PATCH 23/23] fix: compare data sets by their parameters, not by a
 hash that can collide

---
 src/analysis.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 4809256..7fe63e5 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -107,12 +107,11 @@ macro_rules! construct_dataset {
 
         impl PartialEq for $name{
             fn eq(&self, other: &Self) -> bool {
-                fn calculate_hash<T: Hash>(t: &T) -> u64 {
-                    let mut s = std::collections::hash_map::DefaultHasher::new();
-                    t.hash(&mut s);
-                    s.finish()
-                }
-                calculate_hash(&self) == calculate_hash(other)
+                // the parameters themselves, as derive_hash! feeds them: different sets can have the same hash
+                true $($(
+                    && (self.$var as f64 + 0.0).to_bits() == (other.$var as f64 + 0.0).to_bits()
+                    && self.$var as u128 == other.$var as u128
+                )*)*
             }
         }
 
-- 
2.43.0

