From 589b5c173678d4392c3ddfd4d7eabfdf1a367d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 01/14] fix: Mat3::inverse returned entries that are not the
 adjugate over the determinant

---
 lib/mat.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/mat.rs b/lib/mat.rs
index b524338..6fc00be 100644
--- a/lib/mat.rs
+++ b/lib/mat.rs
@@ -1155,23 +1155,23 @@ macro_rules! define_mat3 {
                 let t = self.transpose();
                 let mut out = *self;
                 *out.index_mut(0, 0) =
-                    t.index(1, 1) * t.index(2, 2) - t.index(2, 1) * t.index(1, 2) / determinant;
+                    (t.index(1, 1) * t.index(2, 2) - t.index(2, 1) * t.index(1, 2)) / determinant;
                 *out.index_mut(1, 0) =
                     -(t.index(0, 1) * t.index(2, 2) - t.index(2, 1) * t.index(0, 2)) / determinant;
                 *out.index_mut(2, 0) =
-                    t.index(0, 1) * t.index(1, 2) - t.index(1, 1) * t.index(0, 2) / determinant;
+                    (t.index(0, 1) * t.index(1, 2) - t.index(1, 1) * t.index(0, 2)) / determinant;
                 *out.index_mut(0, 1) =
-                    t.index(1, 0) * t.index(2, 2) - t.index(2, 0) * t.index(1, 2) / determinant;
+                    -(t.index(1, 0) * t.index(2, 2) - t.index(2, 0) * t.index(1, 2)) / determinant;
                 *out.index_mut(1, 1) =
-                    -(t.index(0, 0) * t.index(2, 2) - t.index(2, 0) * t.index(0, 2)) / determinant;
+                    (t.index(0, 0) * t.index(2, 2) - t.index(2, 0) * t.index(0, 2)) / determinant;
                 *out.index_mut(2, 1) =
-                    t.index(0, 0) * t.index(1, 2) - t.index(1, 0) * t.index(0, 2) / determinant;
+                    -(t.index(0, 0) * t.index(1, 2) - t.index(1, 0) * t.index(0, 2)) / determinant;
                 *out.index_mut(0, 2) =
-                    t.index(1, 0) * t.index(2, 1) - t.index(2, 0) * t.index(1, 1) / determinant;
+                    (t.index(1, 0) * t.index(2, 1) - t.index(2, 0) * t.index(1, 1)) / determinant;
                 *out.index_mut(1, 2) =
                     -(t.index(0, 0) * t.index(2, 1) - t.index(2, 0) * t.index(0, 1)) / determinant;
                 *out.index_mut(2, 2) =
-                    t.index(0, 0) * t.index(1, 1) - t.index(1, 0) * t.index(0, 1) / determinant;
+                    (t.index(0, 0) * t.index(1, 1) - t.index(1, 0) * t.index(0, 1)) / determinant;
 
                 Some(out)
             }
-- 
2.43.0


From 9292d754632a452cc3a2b44470b3f1e8f7c60716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:13 +0000
Subject: [PATCH 02/14] fix: Mat4::inverse returned the transpose of the
 inverse and lost the layout

---
 lib/mat.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/mat.rs b/lib/mat.rs
index 6fc00be..45bdb54 100644
--- a/lib/mat.rs
+++ b/lib/mat.rs
@@ -1524,6 +1524,7 @@ macro_rules! define_mat4 {
             }
             pub fn inverse(&self) -> Option<Mat4<$v_type>> {
                 let mut inv: Mat4<$v_type> = Default::default();
+                inv._is_row_major = self._is_row_major;
 
                 *inv.index_mut(0, 0) = self.index(1, 1) * self.index(2, 2) * self.index(3, 3)
                     - self.index(1, 1) * self.index(3, 2) * self.index(2, 3)
@@ -1652,7 +1653,7 @@ macro_rules! define_mat4 {
                     inv._val[i] = inv._val[i] * det_inv;
                 }
 
-                Some(inv.transpose())
+                Some(inv)
             }
         }
         impl i_comparable::IComparableError<$v_type> for Mat4<$v_type> {
-- 
2.43.0


From b4d0550b13ff51cff2ab2fee2d41459fcdd29c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:14 +0000
Subject: [PATCH 03/14] fix: Quat::to_rotation_matrix gave the transposed
 rotation in column-major layout

---
 lib/quat.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index 64dd8c5..2484dad 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -174,16 +174,16 @@ macro_rules! define_quat {
                     ), //last row
                     _ => Mat4::<$v_type>::init(
                         [
-                            1 as $v_type - 2 as $v_type * (self._y * self._y + self._z * self._z), //first column
-                            2 as $v_type * (self._x * self._y + self._z * self._w),
-                            2 as $v_type * (self._x * self._z - self._y * self._w),
+                            1 as $v_type - 2 as $v_type * (self._y * self._y + self._z * self._z), //first row
+                            2 as $v_type * (self._x * self._y - self._z * self._w),
+                            2 as $v_type * (self._x * self._z + self._y * self._w),
                             0 as $v_type,
-                            2 as $v_type * (self._x * self._y - self._z * self._w), //second column
+                            2 as $v_type * (self._x * self._y + self._z * self._w), //second row
                             1 as $v_type - 2 as $v_type * (self._x * self._x + self._z * self._z),
-                            2 as $v_type * (self._z * self._y + self._x * self._w),
-                            0 as $v_type,
-                            2 as $v_type * (self._x * self._z + self._y * self._w), //third column
                             2 as $v_type * (self._y * self._z - self._x * self._w),
+                            0 as $v_type,
+                            2 as $v_type * (self._x * self._z - self._y * self._w), //third row
+                            2 as $v_type * (self._z * self._y + self._x * self._w),
                             1 as $v_type - 2 as $v_type * (self._x * self._x + self._y * self._y),
                             0 as $v_type,
                             0 as $v_type,
@@ -192,7 +192,7 @@ macro_rules! define_quat {
                             1 as $v_type,
                         ],
                         false,
-                    ), //last column
+                    ), //last row
                 }
             }
             #[allow(dead_code)]
-- 
2.43.0


From 9b34c3d487680c37a94aed2b06e257f6ef15f524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:15 +0000
Subject: [PATCH 04/14] fix: Quat::to_translation_matrix had a zero diagonal
 and a misplaced column-major translation

---
 lib/quat.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index 2484dad..b74d25e 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -105,17 +105,17 @@ macro_rules! define_quat {
                 match row_major {
                     true => Mat4::<$v_type>::init(
                         [
-                            0 as $v_type,
+                            1 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
                             self._x,
                             0 as $v_type,
-                            0 as $v_type,
+                            1 as $v_type,
                             0 as $v_type,
                             self._y,
                             0 as $v_type,
                             0 as $v_type,
-                            0 as $v_type,
+                            1 as $v_type,
                             self._z,
                             0 as $v_type,
                             0 as $v_type,
@@ -126,21 +126,21 @@ macro_rules! define_quat {
                     ),
                     _ => Mat4::<$v_type>::init(
                         [
+                            1 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
+                            self._x,
                             0 as $v_type,
+                            1 as $v_type,
                             0 as $v_type,
+                            self._y,
                             0 as $v_type,
                             0 as $v_type,
+                            1 as $v_type,
+                            self._z,
                             0 as $v_type,
                             0 as $v_type,
                             0 as $v_type,
-                            0 as $v_type,
-                            0 as $v_type,
-                            0 as $v_type,
-                            self._x,
-                            self._y,
-                            self._z,
                             1 as $v_type,
                         ],
                         false,
-- 
2.43.0


From 37af3a80a870d2d2623bd66fdf413d624db5328f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:16 +0000
Subject: [PATCH 05/14] fix: Quat::ln took the logarithm of the scalar part
 instead of the length

---
 lib/quat.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index b74d25e..6785148 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -362,7 +362,7 @@ macro_rules! define_quat {
             #[allow(dead_code)]
             pub fn ln(&self) -> Quat<$v_type> {
                 let l = self.length();
-                let w_ln = self._w.ln();
+                let l_ln = l.ln();
                 //normalize x,y,z vector -> v/||v||
                 let vec_length = (self._x * self._x + self._y * self._y + self._z * self._z).sqrt();
                 assert!(vec_length != 0 as $v_type);
@@ -370,12 +370,12 @@ macro_rules! define_quat {
                 let vec_y = self._y / vec_length;
                 let vec_z = self._z / vec_length;
                 //scale x,y,z by acos( w/l )
-                let s = (w_ln / l).acos();
+                let s = (self._w / l).acos();
                 Quat {
                     _x: vec_x * s,
                     _y: vec_y * s,
                     _z: vec_z * s,
-                    _w: w_ln,
+                    _w: l_ln,
                 }
             }
             #[allow(dead_code)]
-- 
2.43.0


From 72375d9b51e11c529b16ae68bed5dc42afcf400c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:17 +0000
Subject: [PATCH 06/14] fix: Quat::interpolate_slerp used the long-arc angle
 after inverting the end

---
 lib/quat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/quat.rs b/lib/quat.rs
index 6785148..5afbb23 100644
--- a/lib/quat.rs
+++ b/lib/quat.rs
@@ -493,7 +493,7 @@ macro_rules! define_quat {
                     (1 as $v_type - t_clamp, t_clamp)
                 } else {
                     let sin_omega = (1 as $v_type - cos_omega * cos_omega).sqrt();
-                    let omega = sin_omega.atan2(cos_omega);
+                    let omega = sin_omega.atan2(cos_omega_adjust);
                     let inv_sin_omega = 1 as $v_type / sin_omega;
 
                     (
-- 
2.43.0


From 3219f889da3bd9dc8c3b6a7d76745cb0a2bece2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:46 +0000
Subject: [PATCH 07/14] fix: AxisAlignedBBox::get_longest_axis never saw an
 earlier axis as the longer one

---
 lib/bound.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bound.rs b/lib/bound.rs
index 5a3e473..7bfe3ca 100644
--- a/lib/bound.rs
+++ b/lib/bound.rs
@@ -92,7 +92,7 @@ impl AxisAlignedBBox {
             .max_by(|x, y| {
                 if x.1 < y.1 {
                     cmp::Ordering::Less
-                } else if x.1 < y.1 {
+                } else if x.1 > y.1 {
                     cmp::Ordering::Greater
                 } else {
                     cmp::Ordering::Equal
-- 
2.43.0


From 3a9b5af22f7941b1b226c02ad498a73bc3872760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:47 +0000
Subject: [PATCH 08/14] fix: Ray3 against a point divided by zero direction
 components

---
 lib/ray.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/lib/ray.rs b/lib/ray.rs
index 188d8a8..250f07b 100644
--- a/lib/ray.rs
+++ b/lib/ray.rs
@@ -149,19 +149,20 @@ impl IShape for Ray3 {
                     };
                     let a_dir = self._dir;
                     let a_off = self._ori;
-                    //a_dir * t + a_off = b_off
-                    //t = (b_off - a_off) / a_dir
-                    let t = b_off.minus(&a_off).unwrap().div(&a_dir).unwrap();
-                    if !self.within_vicinity(t[0], t[1]) || !self.within_vicinity(t[1], t[2]) {
+                    //closest point on the line: a_dir * t + a_off
+                    //t = dot( b_off - a_off, a_dir ), a_dir is a unit vector
+                    let t = b_off.minus(&a_off).unwrap().dot(&a_dir).unwrap();
+                    if t < 0f64 {
+                        //the point is behind the ray origin and direction
                         return (false, None);
-                    } else {
-                        if t[0] >= 0f64 {
-                            return (true, Some(a_dir.scale(t[0]).unwrap().plus(&a_off).unwrap()));
-                        } else {
-                            //the point is behind the ray origin and direction
+                    }
+                    let p = a_dir.scale(t).unwrap().plus(&a_off).unwrap();
+                    for i in 0..3 {
+                        if !self.within_vicinity(p[i], b_off[i]) {
                             return (false, None);
                         }
                     }
+                    return (true, Some(p));
                 }
                 ShapeType::Sphere => {
                     let other_shape_data = other.get_shape_data();
-- 
2.43.0


From 809d95cd198807f3f100afd75579c3d101abc1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:47 +0000
Subject: [PATCH 09/14] fix: Ray3 against a ray compared directions instead of
 origins and ignored the sign of the parameters

---
 lib/ray.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/ray.rs b/lib/ray.rs
index 250f07b..c546db5 100644
--- a/lib/ray.rs
+++ b/lib/ray.rs
@@ -75,7 +75,7 @@ impl IShape for Ray3 {
                         ],
                     };
 
-                    let c = b_dir.minus(&a_dir).unwrap();
+                    let c = b_off.minus(&a_off).unwrap();
                     let v = a_dir.cross(&b_dir).unwrap();
 
                     let dot_v_c = v.dot(&c).unwrap();
@@ -126,9 +126,11 @@ impl IShape for Ray3 {
                         }
                     } else {
                         //solvable intersection exists
-                        let numerator = d.cross(&b_dir).unwrap();
-                        let t = numerator.magnitude().unwrap() / v.magnitude().unwrap();
-                        if t < 0f64 {
+                        //a_off + a_dir * t = b_off + b_dir * s
+                        let v_sq = v.dot(&v).unwrap();
+                        let t = d.cross(&b_dir).unwrap().dot(&v).unwrap() / v_sq;
+                        let s = d.cross(&a_dir).unwrap().dot(&v).unwrap() / v_sq;
+                        if t < 0f64 || s < 0f64 {
                             return (false, None);
                         } else {
                             return (
-- 
2.43.0


From 8266d16b57ec2d32e944845e02115fee5f14a73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:48 +0000
Subject: [PATCH 10/14] fix: Sphere against a point tested one side of a cube
 instead of the distance

---
 lib/sphere.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/sphere.rs b/lib/sphere.rs
index 70073e1..702ab81 100644
--- a/lib/sphere.rs
+++ b/lib/sphere.rs
@@ -81,10 +81,8 @@ impl IShape for Sphere {
                         ],
                     };
                     let d = b_off.minus(&self._ori).unwrap();
-                    for i in 0..3 {
-                        if d[i] > self._radius {
-                            return (false, None);
-                        }
+                    if d.magnitude().unwrap() > self._radius {
+                        return (false, None);
                     }
                     return (true, Some(b_off));
                 }
-- 
2.43.0


From c3650348503dfeb59f26855659772138b4ba3805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:49 +0000
Subject: [PATCH 11/14] fix: Sphere against a plane only looked at the front
 side

---
 lib/sphere.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sphere.rs b/lib/sphere.rs
index 702ab81..69ab8ce 100644
--- a/lib/sphere.rs
+++ b/lib/sphere.rs
@@ -111,7 +111,7 @@ impl IShape for Sphere {
 
                     let k = b_nor.dot(&b_off).unwrap();
                     let t = b_nor.dot(&self._ori).unwrap() - k;
-                    if t > self._radius {
+                    if t.abs() > self._radius {
                         return (false, None);
                     } else {
                         return (
-- 
2.43.0


From 0de48be733f30e2bc5d1fd1164aa765b98922e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:50 +0000
Subject: [PATCH 12/14] fix: TriPrism against a segment of zero length outside
 it panicked

---
 lib/triprism.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/triprism.rs b/lib/triprism.rs
index 2a1f81c..460f929 100644
--- a/lib/triprism.rs
+++ b/lib/triprism.rs
@@ -271,6 +271,11 @@ impl IShape for TriPrism {
                     let v = b.minus(&a).unwrap();
                     let mag = v.magnitude().unwrap();
 
+                    //a segment of zero length has no direction and its only point is not inside
+                    if mag == 0f64 {
+                        return (false, None);
+                    }
+
                     let r = Ray3::init(&[a[0], a[1], a[2]], &[v[0], v[1], v[2]]);
 
                     let n1 = self._normal_height;
-- 
2.43.0


From ce6ad56ee91572b744eb5781dac863a6641957eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:50 +0000
Subject: [PATCH 13/14] fix: query_intersect reported spheres separated along x
 as intersecting

---
 lib/intersect_gjk.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/intersect_gjk.rs b/lib/intersect_gjk.rs
index 2959cff..c6a3b33 100644
--- a/lib/intersect_gjk.rs
+++ b/lib/intersect_gjk.rs
@@ -79,6 +79,10 @@ pub fn query_intersect(a: &dyn IShape, b: &dyn IShape) -> Option<bool> {
     let mut simplex = vec![];
     {
         let sup = support(a, b, &d).unwrap();
+        //the origin lies beyond or on the boundary of the minkowski difference in this direction
+        if !pass_minkowski_origin(&sup, &d) {
+            return Some(false);
+        }
         simplex.push(sup);
     }
 
-- 
2.43.0


From 2ceb70a982883920f625ae66f42e21d718214de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:31 +0000
Subject: [PATCH 14/14] fix: TriPrism missed segments whose entry point rounded
 to the outside of the facet it was computed on

---
 lib/triprism.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/triprism.rs b/lib/triprism.rs
index 460f929..3ccc94e 100644
--- a/lib/triprism.rs
+++ b/lib/triprism.rs
@@ -341,16 +341,20 @@ impl IShape for TriPrism {
 
                     let mut intersect_point = None;
                     let mut is_inside = false;
-                    for i in facets.iter() {
+                    for (k, i) in facets.iter().enumerate() {
                         let res = r.get_intersect(i);
                         if res.0 {
                             let collide_point = res.1.unwrap();
                             let mag2 = collide_point.minus(&a).unwrap().magnitude().unwrap();
 
                             //one more check necesary for the candidate collision point
-                            let is_point_inside = tests.iter().all(|(vert, normal)| {
-                                !(collide_point.minus(vert).unwrap().dot(normal).unwrap() > 0.)
-                            });
+                            //the point is on facet k by construction, rounding must not exclude it there
+                            let is_point_inside =
+                                tests.iter().enumerate().all(|(j, (vert, normal))| {
+                                    j == k
+                                        || !(collide_point.minus(vert).unwrap().dot(normal).unwrap()
+                                            > 0.)
+                                });
 
                             if !is_point_inside || mag2 > mag {
                                 continue;
-- 
2.43.0

