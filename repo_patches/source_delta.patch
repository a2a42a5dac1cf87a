From 798398fc9600333655e06a13d7bd1b4fb58585d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:01 +0000
Subject: [PATCH 1/3] fix: reject off-curve points when reading the checked raw
 format

SerdeFormat::RawBytes documents that curve elements are checked to lie on the
curve, and from_raw_bytes does so, but read_raw accepted any coordinates.
---
 halo2curves/src/derive/curve.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/halo2curves/src/derive/curve.rs b/halo2curves/src/derive/curve.rs
index d8d6c98..b13ac5f 100644
--- a/halo2curves/src/derive/curve.rs
+++ b/halo2curves/src/derive/curve.rs
@@ -512,7 +512,9 @@ macro_rules! new_curve_impl {
                 let x = $base::read_raw(reader)?;
                 let y = $base::read_raw(reader)?;
                 let z = $base::read_raw(reader)?;
-                Ok(Self { x, y, z })
+                let res = Self { x, y, z };
+                // Check that the point is on the curve.
+                bool::from(res.is_on_curve()).then(|| res).ok_or("input point is not on the curve")
             }
             fn write_raw<W: crate::io::Write>(&self, writer: &mut W) -> crate::io::Result<()> {
                 self.x.write_raw(writer)?;
@@ -677,7 +679,9 @@ macro_rules! new_curve_impl {
             fn read_raw<R: crate::io::Read>(reader: &mut R) -> crate::io::Result<Self> {
                 let x = $base::read_raw(reader)?;
                 let y = $base::read_raw(reader)?;
-                Ok(Self { x, y })
+                let res = Self { x, y };
+                // Check that the point is on the curve.
+                bool::from(res.is_on_curve()).then(|| res).ok_or("input point is not on the curve")
             }
             fn write_raw<W: crate::io::Write>(&self, writer: &mut W) -> crate::io::Result<()> {
                 self.x.write_raw(writer)?;
-- 
2.43.0


From b091630ddb375367417545b5760cfa2aca664f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:52 +0000
Subject: [PATCH 2/3] fix: read selector assignments in the key's own format
 and report errors

VerifyingKey::write stores the selector expressions in the requested format,
but VerifyingKey::read always decoded them as RawBytes, so keys written as
Processed did not read back; malformed entries panicked instead of returning
an error.
---
 halo2_proofs/src/plonk.rs                            | 4 +++-
 halo2_proofs/src/plonk/circuit.rs                    | 2 +-
 halo2_proofs/src/plonk/circuit/compress_selectors.rs | 4 ++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/halo2_proofs/src/plonk.rs b/halo2_proofs/src/plonk.rs
index 764f06b..03f40a1 100644
--- a/halo2_proofs/src/plonk.rs
+++ b/halo2_proofs/src/plonk.rs
@@ -119,7 +119,9 @@ where
         let mut length = [0u8; 4];
         reader.read_exact(&mut length)?;
         let length = u32::from_be_bytes(length) as usize;
-        let selector_assignments = (0..length).map(|_| SelectorAssignment::read(reader).unwrap()).collect::<Vec<_>>();
+        let selector_assignments = (0..length)
+            .map(|_| SelectorAssignment::read(reader, format))
+            .collect::<Result<Vec<_>, _>>()?;
         let cs = cs.ckb_recreate_side_effect(selector_assignments.clone());
 
         Ok(Self::from_parts(
diff --git a/halo2_proofs/src/plonk/circuit.rs b/halo2_proofs/src/plonk/circuit.rs
index 497da2e..275883c 100644
--- a/halo2_proofs/src/plonk/circuit.rs
+++ b/halo2_proofs/src/plonk/circuit.rs
@@ -782,7 +782,7 @@ impl<F: SerdePrimeField> Expression<F> {
         reader.read_exact(&mut typ)?;
         let expression = match typ[0] {
             0x00 => {
-                let scalar = F::read(reader, format).unwrap();
+                let scalar = F::read(reader, format)?;
                 Ok(Expression::Constant(scalar))
             }
             0x01 => {
diff --git a/halo2_proofs/src/plonk/circuit/compress_selectors.rs b/halo2_proofs/src/plonk/circuit/compress_selectors.rs
index d50b391..95f5f0f 100644
--- a/halo2_proofs/src/plonk/circuit/compress_selectors.rs
+++ b/halo2_proofs/src/plonk/circuit/compress_selectors.rs
@@ -42,14 +42,14 @@ impl<F: SerdePrimeField> SelectorAssignment<F> {
         Ok(())
     }
 
-    pub fn read<R: io::Read>(reader: &mut R) -> io::Result<Self> {
+    pub fn read<R: io::Read>(reader: &mut R, format: SerdeFormat) -> io::Result<Self> {
         let mut selector = [0u8; 4];
         reader.read_exact(&mut selector)?;
         let selector = u32::from_be_bytes(selector) as usize;
         let mut combination_index = [0u8; 4];
         reader.read_exact(&mut combination_index)?;
         let combination_index = u32::from_be_bytes(combination_index) as usize;
-        let expression = Expression::read(reader, SerdeFormat::RawBytes).unwrap();
+        let expression = Expression::read(reader, format)?;
         Ok(Self {
             selector,
             combination_index,
-- 
2.43.0


From eb8e5d2fb57121fe2e994748c36022d2768dbee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:56 +0000
Subject: [PATCH 3/3] fix: serialising a key to bytes no longer panics

VerifyingKey::to_bytes and ProvingKey::to_bytes only need the length as a
capacity hint, but computing it always panicked.
---
 halo2_proofs/src/plonk.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/halo2_proofs/src/plonk.rs b/halo2_proofs/src/plonk.rs
index 03f40a1..7fb9ace 100644
--- a/halo2_proofs/src/plonk.rs
+++ b/halo2_proofs/src/plonk.rs
@@ -151,9 +151,8 @@ where
 
 impl<C: CurveAffine> VerifyingKey<C> {
     fn bytes_length(&self) -> usize {
-        // Xiaowen: TODO bytes_length cannot work due to CurveAffine doesn't have a serialization
-        // trait and hence size of selector_assignments cannot be calcualted.
-        panic!("Should not be called");
+        // Only a capacity hint: the size of selector_assignments is not included, because
+        // CurveAffine doesn't have a serialization trait to calculate it.
         8 + (self.fixed_commitments.len() * C::default().to_bytes().as_ref().len())
             + self.permutation.bytes_length()
     }
-- 
2.43.0

