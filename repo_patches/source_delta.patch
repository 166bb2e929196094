From 194976b09aaec7ca7a2ff04dab50c9e249f91efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:50 +0000
Subject: [PATCH 01/22] fix: classify lattices whose metric has accidental
 equalities

get_lattice_character only tried the one set of lattice characters selected by
the equalities among A, B and C. A lattice with A=B (or B=C, or A=B=C) that
matches no entry of that set belongs to a later set with weaker conditions, for
example a hexagonal lattice with c=a or a triclinic lattice with a=b. Such
lattices made every analysis panic. Fall through to the later sets instead.
---
 src/analyzer.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/analyzer.rs b/src/analyzer.rs
index 9cb31b5..c38ebb2 100644
--- a/src/analyzer.rs
+++ b/src/analyzer.rs
@@ -384,17 +384,20 @@ impl SymmetryAnalyzer {
 
         let mut char_num = 0;
 
-        let vecs: Vec<(Vector3<f64>, u8)>;
+        // A lattice that meets the conditions on A, B, C of a set but none of its entries is
+        // described by one of the later sets, whose conditions on A, B, C are weaker.
+        let mut vecs: Vec<(Vector3<f64>, u8)> = Vec::new();
 
         if cust_eq(&a, &b, &epsilon) && cust_eq(&a, &c, &epsilon) {
-            vecs = Self::get_first_set(type_i, a, b, d, e, f, epsilon);
-        } else if cust_eq(&a, &b, &epsilon) {
-            vecs = Self::get_second_set(type_i, a, b, d, e, f, epsilon);
-        } else if cust_eq(&b, &c, &epsilon) {
-            vecs = Self::get_third_set(type_i, a, b, d, e, f, epsilon);
-        } else {
-            vecs = Self::get_fourth_set(type_i, a, b, d, e, f);
+            vecs.extend(Self::get_first_set(type_i, a, b, d, e, f, epsilon));
+        }
+        if cust_eq(&a, &b, &epsilon) {
+            vecs.extend(Self::get_second_set(type_i, a, b, d, e, f, epsilon));
+        }
+        if cust_eq(&b, &c, &epsilon) {
+            vecs.extend(Self::get_third_set(type_i, a, b, d, e, f, epsilon));
         }
+        vecs.extend(Self::get_fourth_set(type_i, a, b, d, e, f));
 
         for (vec, num) in vecs {
             if vec
-- 
2.43.0


From 8f4329af4d538b6b10478c982722d8f7d7fe6e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:25 +0000
Subject: [PATCH 02/22] fix: report the rhombohedral lattice system for hR
 lattices

BravaisType::lattice_system took the first letter of the Pearson symbol, so hR
was reported as Hexagonal and the space groups of rhombohedral crystals were
looked up in the wrong table. The analysis panicked for all of them.
---
 src/data/core.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/data/core.rs b/src/data/core.rs
index 9f38019..a466685 100644
--- a/src/data/core.rs
+++ b/src/data/core.rs
@@ -127,6 +127,11 @@ impl BravaisType {
     }
 
     pub fn lattice_system(&self) -> LatticeSystem {
+        // The Pearson symbol of the rhombohedral lattice starts with its crystal family (h)
+        if *self == BravaisType::hR {
+            return LatticeSystem::Rhombohedral;
+        }
+
         let system: String = self.to_string().chars().next().unwrap().to_string();
 
         LatticeSystem::from_str(&system).expect("Problem determining lattice system.")
-- 
2.43.0


From e5eab9a4cda67bc231f3242ef14f40134dbab224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:09:13 +0000
Subject: [PATCH 03/22] fix: return a positive volume for left-handed lattices

volume() returned the signed determinant. For a left-handed lattice its cube
root is NaN, so the tolerance used by the Niggli reduction and by the lattice
classification was NaN and a left-handed cell was returned unreduced.
---
 src/structure.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structure.rs b/src/structure.rs
index 7d765df..d15f540 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -121,7 +121,7 @@ impl Structure {
 
     /// Volume of the unit cell in angstroms
     pub fn volume(&self) -> f64 {
-        self.lattice.determinant()
+        self.lattice.determinant().abs()
     }
 
     /// Metric tensor of lattice matrix
-- 
2.43.0


From 446e65557ed5e55e7c1b7e3a0a8e59907b2c3e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:30 +0000
Subject: [PATCH 04/22] fix: never pick linearly dependent primitive
 translation vectors

get_shortest_translation_vecs looked for a third vector forming a right-handed
triple and silently fell back to a fixed index when the candidates only offered
left-handed ones. The primitive lattice could then be singular, and later steps
looped forever. Accept either hand and flip the third vector if needed.
---
 src/reduce.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index e6aff14..d46fa37 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -527,13 +527,18 @@ impl Reducer {
         }
 
         for (vec_num, cart_vec) in cart_vecs[(second_ind + 1)..].iter().enumerate() {
-            if cross_vec.dot(cart_vec) > self.dtol {
+            if cross_vec.dot(cart_vec).abs() > self.dtol {
                 third_ind = vec_num + second_ind + 1;
                 break;
             }
         }
 
-        let final_vecs = vec![cart_vecs[0], cart_vecs[second_ind], cart_vecs[third_ind]];
+        let mut third = cart_vecs[third_ind];
+        if cross_vec.dot(&third) < 0.0 {
+            third *= -1.0;
+        }
+
+        let final_vecs = vec![cart_vecs[0], cart_vecs[second_ind], third];
 
         final_vecs
     }
-- 
2.43.0


From 4cf5c1e03f96ebcf3a0998fc9d86fa1314c6f26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:42 +0000
Subject: [PATCH 05/22] fix: make find_primitive_cell span every translation it
 found

The three shortest candidate translations do not always generate the lattice of
all translations, because each candidate is only known by its representative in
the input cell. For skewed supercells the result was still a supercell. Refine
the chosen vectors with the remainders of the other translations until the cell
has the expected volume.
---
 src/reduce.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index d46fa37..6d23b57 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -127,7 +127,32 @@ impl Reducer {
         let smallest_frac_vecs =
             Structure::get_frac_coords(&temp_structure.lattice, &frac_translation_vecs);
 
-        let frac_matrix = Matrix3::from_columns(&smallest_frac_vecs);
+        let mut frac_matrix = Matrix3::from_columns(&smallest_frac_vecs);
+
+        // The vectors may only span a sublattice of all translations found. While they do, some
+        // translation leaves a remainder which replaces one of them and shrinks the cell.
+        let num_translations = (translation_vecs.len() - 2) as f64;
+
+        while frac_matrix.determinant().abs() * num_translations > 1.5 {
+            let inv_frac_matrix = frac_matrix
+                .try_inverse()
+                .expect("Translation vectors are linearly dependent!");
+
+            let (col, remainder) = translation_vecs
+                .iter()
+                .map(|vec| inv_frac_matrix * vec)
+                .map(|vec| vec - vec.map(|x| x.round()))
+                .map(|vec| (vec.iamax(), vec))
+                .max_by(|a, b| a.1.amax().total_cmp(&b.1.amax()))
+                .unwrap();
+
+            if remainder.amax() < 0.5 / num_translations {
+                break;
+            }
+
+            let new_vec = frac_matrix * remainder;
+            frac_matrix.set_column(col, &new_vec);
+        }
 
         let base_comb_vecs: Vec<Vector3<f64>> = vec![
             Vector3::new(1.0, 0.0, 0.0),
-- 
2.43.0


From a4a4f21432711d655f5db51654a4ffb76cc1783d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:14 +0000
Subject: [PATCH 06/22] fix: invert lattices accurately

The singular value decomposition behind the pseudo-inverse can stop early.
Fractional coordinates were then off by up to 1e-3 for some lattices.
---
 src/structure.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/structure.rs b/src/structure.rs
index d15f540..aa95f35 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -281,9 +281,7 @@ impl Structure {
         lattice: &Matrix3<f64>,
         cart_coords: &[Vector3<f64>],
     ) -> Vec<Vector3<f64>> {
-        let inverted_lattice = (*lattice)
-            .pseudo_inverse(ZERO_TOL)
-            .expect("Crystal lattice is not invertible!");
+        let inverted_lattice = Self::invert_lattice(lattice);
 
         let mut new_coords = cart_coords.to_owned();
 
@@ -293,6 +291,22 @@ impl Structure {
         new_coords
     }
 
+    /// Inverse of a lattice matrix. The singular value decomposition behind the pseudo-inverse
+    /// is inaccurate for some lattices, which are inverted directly instead.
+    fn invert_lattice(lattice: &Matrix3<f64>) -> Matrix3<f64> {
+        let inverted_lattice = (*lattice)
+            .pseudo_inverse(ZERO_TOL)
+            .expect("Crystal lattice is not invertible!");
+
+        if (inverted_lattice * lattice - Matrix3::identity()).amax() < 1e-12 {
+            inverted_lattice
+        } else {
+            lattice
+                .try_inverse()
+                .expect("Crystal lattice is not invertible!")
+        }
+    }
+
     /// Reciprocal lattice of the structure
     pub fn reciprocal_lattice(&self) -> Matrix3<f64> {
         let mut reciprocal_lattice = Matrix3::identity();
@@ -383,10 +397,7 @@ impl Structure {
     ///
     /// * `structure` - A transformed structure
     pub fn get_transformation_matrix(&self, structure: &Structure) -> Matrix3<f64> {
-        let inv_lattice: Matrix3<f64> = self
-            .lattice
-            .pseudo_inverse(ZERO_TOL)
-            .expect("Crystal lattice is not invertible!");
+        let inv_lattice = Self::invert_lattice(&self.lattice);
 
         inv_lattice * structure.lattice
     }
-- 
2.43.0


From fb6182dfbbec72b9ba04c2cef957c4f291c54dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:23 +0000
Subject: [PATCH 07/22] fix: compose operations affinely when closing a group

The product used before, {R1 R2 | R2 t1 + t2}, is not a composition of maps.
Generators with translations could give a set that is not a group, or never
close.
---
 src/spacegroup.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spacegroup.rs b/src/spacegroup.rs
index e77a627..8b342b7 100644
--- a/src/spacegroup.rs
+++ b/src/spacegroup.rs
@@ -139,7 +139,11 @@ impl SpaceGroup {
             let mut generated: Vec<SymmOp> = Vec::new();
 
             for (m1, m2) in iproduct!(symm_ops.clone(), new_ops) {
-                let mut op = m1 * m2;
+                // Apply m2, then m1
+                let mut op = SymmOp {
+                    rotation: m1.rotation * m2.rotation,
+                    translation: m1.rotation.cast::<f64>() * m2.translation + m1.translation,
+                };
 
                 if !(symm_ops
                     .iter()
-- 
2.43.0


From 78594651986246aff0ff6dc9abebf74172ffa7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:07 +0000
Subject: [PATCH 08/22] fix: keep exactly the operations a new cell is
 compatible with

A rotation was kept when any of its entries was an integer in the new basis,
so incompatible operations survived with rounded matrices. Dropped operations
were also subtracted again in every pass of the search.
---
 src/spacegroup.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/spacegroup.rs b/src/spacegroup.rs
index 8b342b7..29026f7 100644
--- a/src/spacegroup.rs
+++ b/src/spacegroup.rs
@@ -57,7 +57,18 @@ impl SpaceGroup {
         // Set up found vector mapping
         let mut found_vectors_mapping: HashMap<Matrix3<i8>, Vec<Vector3<f64>>> = HashMap::new();
 
-        let mut initial_num_ops = self.operations.len() as f64;
+        // Throw out operations whose rotation matrix is not an integer one in the new basis
+        let trans_rotations: Vec<(&SymmOp, Matrix3<f64>)> = self
+            .operations
+            .iter()
+            .map(|op| {
+                let float_rot = op.rotation.cast::<f64>();
+                (op, inv_trans_mat * float_rot * transformation_matrix)
+            })
+            .filter(|(_, rot)| rot.iter().all(|val| (val - val.round()).abs() < ZERO_TOL))
+            .collect();
+
+        let initial_num_ops = trans_rotations.len() as f64;
 
         let mut mult = 2;
         while (new_operations.len() as f64 / initial_num_ops) < volume_ratio {
@@ -68,20 +79,7 @@ impl SpaceGroup {
                 translation_vecs.push(Vector3::new(i as f64, j as f64, k as f64))
             }
 
-            for op in self.operations.iter() {
-                // Calculate transformed rotation matrix
-                let mut float_rot = op.rotation.cast::<f64>();
-                float_rot = inv_trans_mat * float_rot * transformation_matrix;
-
-                // Throw out non-integer rotation matrices
-                if !float_rot
-                    .iter()
-                    .any(|val| (val.abs() < ZERO_TOL) || ((val.abs() - 1.0).abs() < ZERO_TOL))
-                {
-                    initial_num_ops -= 1.0;
-                    continue;
-                }
-
+            for (op, float_rot) in trans_rotations.iter() {
                 let trans_rotation =
                     Matrix3::from_iterator(float_rot.iter().map(|&x| x.round() as i8));
 
@@ -120,7 +118,7 @@ impl SpaceGroup {
                             .push(trans_vec[0]);
 
                         // Add new ops to group
-                        let mut new_op = op.clone();
+                        let mut new_op = (*op).clone();
                         new_op.translation = trans_vec[0];
                         new_op.rotation = trans_rotation;
                         new_operations.push(new_op)
-- 
2.43.0


From 6fb15c9258573ca9928cac6c13a30daa1a2f761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:08 +0000
Subject: [PATCH 09/22] fix: count more than 127 sites in formulas

---
 src/structure.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/structure.rs b/src/structure.rs
index aa95f35..e351c1b 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -347,7 +347,7 @@ impl Structure {
 
     /// Formula and reduced formula of the structure.
     pub fn formulas(&self) -> (String, String) {
-        let mut species_tally = HashMap::<&String, i8>::new();
+        let mut species_tally = HashMap::<&String, usize>::new();
 
         let mut max_count = 0;
 
@@ -359,7 +359,7 @@ impl Structure {
                 max_count = *count;
             }
         }
-        let mut gcf: i8 = 1;
+        let mut gcf: usize = 1;
 
         for div in 2..(max_count + 1) {
             if species_tally.values().all(|&tally| (tally % div) == 0) {
-- 
2.43.0


From 71b05c86757ffa8907b6af26bdb210b56a97c6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:08 +0000
Subject: [PATCH 10/22] fix: transform operations to the input cell exactly

Noise in the primitive lattice made the basis change slightly non-integer.
Translations are compared with the tolerance of the input cell, not with the
one of the primitive cell.
---
 src/analyzer.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/analyzer.rs b/src/analyzer.rs
index c38ebb2..43b4113 100644
--- a/src/analyzer.rs
+++ b/src/analyzer.rs
@@ -76,10 +76,19 @@ impl SymmetryAnalyzer {
             .try_inverse()
             .expect("Conventional transformation is not invertible.");
 
-        let total_transformation =
-            inv_prim_trans_mat * inv_conv_trans_mat * niggli_trans_mat * initial_trans_mat;
+        // The input lattice is an integer combination of the primitive one
+        let total_transformation: Matrix3<f64> =
+            (inv_prim_trans_mat * inv_conv_trans_mat * niggli_trans_mat * initial_trans_mat)
+                .map(|val: f64| val.round());
 
-        sg.apply_transformation(&total_transformation, &frac_tols);
+        let input_frac_tols = Vector3::from_iterator(
+            structure
+                .lattice
+                .column_iter()
+                .map(|col| self.dtol / col.magnitude()),
+        );
+
+        sg.apply_transformation(&total_transformation, &input_frac_tols);
 
         (int_num, sg_symbol, sg)
     }
-- 
2.43.0


From 1ed3e99e6483363fe5119507e887f25ef3072d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:43 +0000
Subject: [PATCH 11/22] fix: keep the conventional cell of lattice character 17
 right-handed

---
 src/data/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/core.rs b/src/data/core.rs
index a466685..67b24d6 100644
--- a/src/data/core.rs
+++ b/src/data/core.rs
@@ -239,7 +239,7 @@ lazy_static! {
             (15, Matrix3::new(1,0,0,0,1,0,1,1,2)),
             (16, Matrix3::new(-1,-1,0,1,-1,0,1,1,2)),
             (14, Matrix3::new(1,1,0,-1,1,0,0,0,1)),
-            (17, Matrix3::new(1,-1,0,1,1,0,-1,0,-1)),
+            (17, Matrix3::new(1,-1,0,-1,-1,0,-1,0,-1)),
             // Third set, B=C
             (18, Matrix3::new(0,-1,1,1,-1,-1,1,0,0)),
             (19, Matrix3::new(-1,0,0,0,-1,1,-1,1,1)),
-- 
2.43.0


From 5ded2c9e9d9589e738066f25553350330eb5bba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:44 +0000
Subject: [PATCH 12/22] fix: describe lattice character 43 by a C-centered
 monoclinic cell

Space groups are tabulated for the C-centered setting only, so every
structure with this lattice character failed to be identified.
---
 src/data/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/core.rs b/src/data/core.rs
index 67b24d6..c96cb89 100644
--- a/src/data/core.rs
+++ b/src/data/core.rs
@@ -210,7 +210,7 @@ lazy_static! {
             (41, BravaisType::mC),
             (37, BravaisType::mC),
             (39, BravaisType::mC),
-            (43, BravaisType::mI),
+            (43, BravaisType::mC),
             (44, BravaisType::aP),
         ])
     };
@@ -267,7 +267,7 @@ lazy_static! {
             (41, Matrix3::new(0,-1,-2,0,-1,0,-1,0,0)),
             (37, Matrix3::new(1,0,2,1,0,0,0,1,0)),
             (39, Matrix3::new(-1,-2,0,-1,0,0,0,0,-1)),
-            (43, Matrix3::new(-1,0,0,-1,-1,-2,0,-1,0)),
+            (43, Matrix3::new(-1,-1,0,-1,-1,-2,1,0,0)),
             (44, Matrix3::identity()),
         ])
     };
-- 
2.43.0


From baef6613d3224a2683404c07e3d82f152bf74ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:45 +0000
Subject: [PATCH 13/22] fix: report Delaunay reductions that hit the iteration
 limit

The limit was checked one step too early, so unreduced cells were returned
and a cell reduced in exactly 100 steps was refused.
---
 src/reduce.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index 6d23b57..e339166 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -480,7 +480,7 @@ impl Reducer {
             count += 1;
         }
 
-        if count == 100 {
+        if count > 100 {
             panic!("Reached max number of iterations without reduction!")
         }
 
-- 
2.43.0


From 1bf6b7099a609e22db3fb82373157026ff4efc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:46 +0000
Subject: [PATCH 14/22] fix: compare sites of a transformed cell in the new
 lattice

Differences of new fractional coordinates were measured with the old
lattice, so sites of large supercells were merged.
---
 src/structure.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/structure.rs b/src/structure.rs
index e351c1b..056982a 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -139,12 +139,6 @@ impl Structure {
     /// * `transformation_matrix` - A 3x3 matrix representing the transformation.
     /// * `pos_tol` - Position tolerance in angstroms to use when comparing atomic sites.
     pub fn apply_transformation(&mut self, transformation_matrix: &Matrix3<f64>, pos_tol: &f64) {
-        let frac_tols = Vector3::from_iterator(
-            self.lattice
-                .column_iter()
-                .map(|col| pos_tol / col.magnitude()),
-        );
-
         let mut inv_trans_mat: Matrix3<f64> = Matrix3::identity();
 
         let inverted = try_invert_to(*transformation_matrix, &mut inv_trans_mat);
@@ -155,6 +149,12 @@ impl Structure {
 
         let new_lattice = self.lattice * transformation_matrix;
 
+        let frac_tols = Vector3::from_iterator(
+            new_lattice
+                .column_iter()
+                .map(|col| pos_tol / col.magnitude()),
+        );
+
         let mut new_frac_coords: Vec<Vector3<f64>> = Vec::new();
         let mut new_species: Vec<String> = Vec::new();
 
@@ -179,7 +179,7 @@ impl Structure {
                     for new_coord in new_frac_coords.iter() {
                         let mut coord_diff = vec![frac_coord - new_coord];
                         normalize_frac_vectors(&mut coord_diff, &frac_tols);
-                        let cart_coord_delta = Self::get_cart_coords(&self.lattice, &coord_diff);
+                        let cart_coord_delta = Self::get_cart_coords(&new_lattice, &coord_diff);
 
                         if cart_coord_delta[0].magnitude().abs() <= (pos_tol * 2.0) {
                             eq = true;
-- 
2.43.0


From c09be01193c1c59d71964f4bce8f359be9001722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:47 +0000
Subject: [PATCH 15/22] fix: compare folded sites in the primitive lattice

Differences of fractional coordinates of the primitive cell were measured
with the lattice of the input cell.
---
 src/reduce.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index e339166..7a36baa 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -198,6 +198,12 @@ impl Reducer {
 
         let temp_frac_coords = Structure::get_frac_coords(&new_lattice, &temp_structure.coords);
 
+        let frac_tols = Vector3::from_iterator(
+            new_lattice
+                .column_iter()
+                .map(|col| self.dtol / col.magnitude()),
+        );
+
         let mut new_frac_coords: Vec<Vector3<f64>> = Vec::new();
 
         let mut new_species: Vec<String> = Vec::new();
@@ -207,8 +213,7 @@ impl Reducer {
             for new_coord in new_frac_coords.iter() {
                 let mut coord_diff = vec![coord - new_coord];
                 normalize_frac_vectors(&mut coord_diff, &frac_tols);
-                let cart_coord_delta =
-                    Structure::get_cart_coords(&temp_structure.lattice, &coord_diff);
+                let cart_coord_delta = Structure::get_cart_coords(&new_lattice, &coord_diff);
 
                 if cart_coord_delta[0].magnitude().abs() <= (self.dtol * 2.0) {
                     eq = true;
-- 
2.43.0


From 3848a527580ad7430c22bfa595185f4311b3a7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:56 +0000
Subject: [PATCH 16/22] fix: correct the symbols of space groups 19 and 24

---
 src/data/spacegroup.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/spacegroup.rs b/src/data/spacegroup.rs
index 3877fdc..1e8a9bf 100644
--- a/src/data/spacegroup.rs
+++ b/src/data/spacegroup.rs
@@ -24,12 +24,12 @@ lazy_static! {
             (16, "P222"),
             (17, "P222_1"),
             (18, "P2_12_12"),
-            (19, "P2_12_121"),
+            (19, "P2_12_12_1"),
             (20, "C222_1"),
             (21, "C222"),
             (22, "F222"),
             (23, "I222"),
-            (24, "I2_12_121"),
+            (24, "I2_12_12_1"),
             (25, "Pmm2"),
             (26, "Pmc2_1"),
             (27, "Pcc2"),
-- 
2.43.0


From 73d96f1355edc8d0d7cd4978f8c05c4e06c24626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:54 +0000
Subject: [PATCH 17/22] fix: finish transformations whose volume ratio has more
 than two decimals

The expected number of sites or operations was derived from the volume
ratio rounded to two decimals. Ratios such as 2/3 or 1/6 were rounded up,
the expected number was never reached and the search never ended.
---
 src/spacegroup.rs | 6 +++---
 src/structure.rs  | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/spacegroup.rs b/src/spacegroup.rs
index 29026f7..46c39bd 100644
--- a/src/spacegroup.rs
+++ b/src/spacegroup.rs
@@ -50,7 +50,7 @@ impl SpaceGroup {
 
         // Find extra unit translations included in new cell if it is bigger
 
-        let volume_ratio = (transformation_matrix.determinant().abs() * 100.0).round() / 100.0;
+        let volume_ratio = transformation_matrix.determinant().abs();
 
         let mut new_operations: Vec<SymmOp> = Vec::new();
 
@@ -68,10 +68,10 @@ impl SpaceGroup {
             .filter(|(_, rot)| rot.iter().all(|val| (val - val.round()).abs() < ZERO_TOL))
             .collect();
 
-        let initial_num_ops = trans_rotations.len() as f64;
+        let num_new_ops = (volume_ratio * trans_rotations.len() as f64).round();
 
         let mut mult = 2;
-        while (new_operations.len() as f64 / initial_num_ops) < volume_ratio {
+        while (new_operations.len() as f64) < num_new_ops {
             let mut translation_vecs: Vec<Vector3<f64>> = Vec::new();
 
             // Generate unit translation vectors
diff --git a/src/structure.rs b/src/structure.rs
index 056982a..f0606a1 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -158,11 +158,12 @@ impl Structure {
         let mut new_frac_coords: Vec<Vector3<f64>> = Vec::new();
         let mut new_species: Vec<String> = Vec::new();
 
-        let volume_ratio = (transformation_matrix.determinant().abs() * 100.0).round() / 100.0;
+        let num_new_sites =
+            (transformation_matrix.determinant().abs() * self.coords.len() as f64).round();
 
         // Search for new sites in transformed cell using volume ratio to determine proper number of sites
         let mut mult = 2;
-        while (new_frac_coords.len() as f64 / self.coords.len() as f64) < volume_ratio {
+        while (new_frac_coords.len() as f64) < num_new_sites {
             let mut translation_vecs: Vec<Vector3<f64>> = Vec::new();
 
             for (i, j, k) in iproduct!(0..mult, 0..mult, 0..mult) {
-- 
2.43.0


From 3d9c13d3d0c96bda0262f088b950e99c800fe390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:56 +0000
Subject: [PATCH 18/22] fix: measure lengths when picking independent
 translations for the primitive cell

The second and third translation vectors were accepted when an area and a
volume exceeded the distance tolerance. In slightly distorted supercells
three nearly coplanar translations could pass, which gave a flat cell.
Compare the distances from the line and from the plane instead.
---
 src/reduce.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index 7a36baa..b2acbd5 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -550,14 +550,16 @@ impl Reducer {
         for (vec_num, cart_vec) in cart_vecs[1..].iter().enumerate() {
             cross_vec = first.cross(cart_vec);
 
-            if cross_vec.magnitude().abs() > self.dtol {
+            // Distance of the vector from the line along the first one
+            if cross_vec.magnitude() > self.dtol * first.magnitude() {
                 second_ind = vec_num + 1;
                 break;
             }
         }
 
         for (vec_num, cart_vec) in cart_vecs[(second_ind + 1)..].iter().enumerate() {
-            if cross_vec.dot(cart_vec).abs() > self.dtol {
+            // Distance of the vector from the plane of the first two
+            if cross_vec.dot(cart_vec).abs() > self.dtol * cross_vec.magnitude() {
                 third_ind = vec_num + second_ind + 1;
                 break;
             }
-- 
2.43.0


From d9ebfa70e3e53fef73b857317718b10571e5a49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:25:22 +0000
Subject: [PATCH 19/22] fix: keep the handedness in the Niggli reduction when
 the tolerance exceeds one square angstrom

The product of the signs of the scalar products was compared with the
tolerance, which is an area. For large cells and coarse tolerances the
mirroring of one vector was not compensated and the result was left-handed.
---
 src/reduce.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index b2acbd5..2e247fe 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -335,7 +335,7 @@ impl Reducer {
                     p = &mut k
                 };
 
-                if prod < -epsilon {
+                if prod < 0.0 {
                     *p = -1.0;
                 };
             };
-- 
2.43.0


From 74c73d6fa08d679a05894b03cf738896e57a5d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:30:21 +0000
Subject: [PATCH 20/22] fix: let the Niggli reduction finish for very skewed
 cells

Each step subtracts one lattice vector from another once, so a cell whose
vectors are long combinations of the reduced ones takes several hundred
steps. The limit of 100 made valid cells panic.
---
 src/reduce.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index 2e247fe..2bdcd15 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -250,8 +250,8 @@ impl Reducer {
 
         let (mut a, mut b, mut c, mut xi, mut eta, mut zeta): (f64, f64, f64, f64, f64, f64);
 
-        for iteration in 0..101 {
-            if iteration == 100 {
+        for iteration in 0..100_001 {
+            if iteration == 100_000 {
                 panic!("Could not find Niggli reduced structure!")
             }
 
-- 
2.43.0


From f78e745d4cbe8e96181d601bda125745d948de7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:30:21 +0000
Subject: [PATCH 21/22] fix: let the Delaunay reduction finish for very skewed
 cells

The limit of 100 steps was below what cells with long skewed vectors need,
and the call panicked on them.
---
 src/reduce.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reduce.rs b/src/reduce.rs
index 2bdcd15..33b1556 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -456,7 +456,7 @@ impl Reducer {
         let mut count = 0;
 
         // Iterate until all scalar prods are <= zero
-        while scalar_prods.iter().any(|val| val > &ZERO_TOL) && count <= 100 {
+        while scalar_prods.iter().any(|val| val > &ZERO_TOL) && count <= 100_000 {
             let mut max_scalar_prod = &0.0;
             let mut max_index = 0_usize;
             for (i, entry) in scalar_prods.iter().enumerate() {
@@ -485,7 +485,7 @@ impl Reducer {
             count += 1;
         }
 
-        if count > 100 {
+        if count > 100_000 {
             panic!("Reached max number of iterations without reduction!")
         }
 
-- 
2.43.0


From e258ae3698a735e31f106c5816c250028c9cc66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:38:07 +0000
Subject: [PATCH 22/22] fix: find the primitive cell of very skewed cells

The vectors of a skewed cell thinner than the tolerance were taken for
linearly dependent ones, which gave a panic or a cell that is not primitive.
Such cells are now reduced before the search.
---
 src/reduce.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/reduce.rs b/src/reduce.rs
index 33b1556..fef82f6 100644
--- a/src/reduce.rs
+++ b/src/reduce.rs
@@ -4,6 +4,7 @@ use crate::structure::Structure;
 use crate::utils::{cust_eq, normalize_frac_vectors, num_negative_zero};
 use nalgebra::{Matrix3, Matrix3x4, Vector3, Vector6};
 use std::collections::HashMap;
+use std::f64::consts::PI;
 use std::string::String;
 
 #[derive(Debug, Clone)]
@@ -26,6 +27,17 @@ impl Reducer {
     pub fn find_primitive_cell(&self, structure: &Structure) -> Structure {
         let mut temp_structure = structure.clone();
 
+        // Vectors of a skewed cell which is not much thicker than the tolerance cannot be told
+        // from linearly dependent ones
+        let thin = structure
+            .reciprocal_lattice()
+            .column_iter()
+            .any(|col| 2.0 * PI / col.magnitude() < 4.0 * self.dtol);
+
+        if thin {
+            temp_structure = self.delaunay_reduce(structure, false);
+        }
+
         let frac_tols = Vector3::from_iterator(
             temp_structure
                 .lattice
-- 
2.43.0

