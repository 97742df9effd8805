From 81faf0def2c8f4e608347681322d27641c2c5fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 1/9] fix: row_vector returns a row of N_COLS elements

The return type claimed as many elements as the whole matrix, so the shape
check in Matrix::new panicked for every matrix with more than one row.
---
 poseidon-parameters/src/matrix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poseidon-parameters/src/matrix.rs b/poseidon-parameters/src/matrix.rs
index 45a0517..6584988 100644
--- a/poseidon-parameters/src/matrix.rs
+++ b/poseidon-parameters/src/matrix.rs
@@ -146,7 +146,7 @@ impl<const N_ROWS: usize, const N_COLS: usize, const N_ELEMENTS: usize>
     Matrix<N_ROWS, N_COLS, N_ELEMENTS>
 {
     /// Get row vector at a specified row index
-    pub fn row_vector(&self, i: usize) -> Matrix<1, N_COLS, N_ELEMENTS> {
+    pub fn row_vector(&self, i: usize) -> Matrix<1, N_COLS, N_COLS> {
         let mut row_elements = [Fq::default(); N_COLS];
         for j in 0..N_COLS {
             row_elements[j] = self.get_element(i, j);
@@ -322,7 +322,7 @@ impl<const N_ROWS: usize, const N_ELEMENTS: usize> Mul<Fq> for SquareMatrix<N_RO
 
 impl<const N_ROWS: usize, const N_ELEMENTS: usize> SquareMatrix<N_ROWS, N_ELEMENTS> {
     /// Get row vector at a specified row index.
-    pub fn row_vector(&self, i: usize) -> Matrix<1, N_ROWS, N_ELEMENTS> {
+    pub fn row_vector(&self, i: usize) -> Matrix<1, N_ROWS, N_ROWS> {
         self.0.row_vector(i)
     }
 
-- 
2.43.0


From 435bac3879d5dbc00ac3381ca169843b361346c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 2/9] fix: inverse of a singular 1x1 matrix is an error, not a
 panic

---
 poseidon-parameters/src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poseidon-parameters/src/matrix.rs b/poseidon-parameters/src/matrix.rs
index 6584988..9388214 100644
--- a/poseidon-parameters/src/matrix.rs
+++ b/poseidon-parameters/src/matrix.rs
@@ -214,7 +214,7 @@ impl<const N_ROWS: usize, const N_ELEMENTS: usize> SquareMatrixOperations
             let elements = [self
                 .get_element(0, 0)
                 .inverse()
-                .expect("inverse of single element must exist for 1x1 matrix")];
+                .ok_or(PoseidonParameterError::NoMatrixInverse)?];
             return Ok(Self::new(&elements));
         }
 
-- 
2.43.0


From e7863906c9c7e21e0caaf00095dd1403a54804e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 3/9] fix: the minor of a 1x1 matrix is 1

---
 poseidon-parameters/src/matrix.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/poseidon-parameters/src/matrix.rs b/poseidon-parameters/src/matrix.rs
index 9388214..ebc695b 100644
--- a/poseidon-parameters/src/matrix.rs
+++ b/poseidon-parameters/src/matrix.rs
@@ -252,7 +252,8 @@ impl<const N_ROWS: usize, const N_ELEMENTS: usize> SquareMatrixOperations
     fn minors(&self) -> Self {
         match N_ROWS {
             0 => panic!("matrix has no elements!"),
-            1 => Self::new(&[self.get_element(0, 0)]),
+            // The only minor of a 1x1 matrix is the determinant of the empty matrix.
+            1 => Self::new(&[Fq::from(1u64)]),
             2 => {
                 let a = self.get_element(0, 0);
                 let b = self.get_element(0, 1);
-- 
2.43.0


From 6fd14e849ac878223509d8174b2d0a2787408c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 4/9] fix: inverse S-box maps zero to zero instead of panicking

---
 poseidon-permutation/src/permutation.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/poseidon-permutation/src/permutation.rs b/poseidon-permutation/src/permutation.rs
index a3c1c70..43cd10e 100644
--- a/poseidon-permutation/src/permutation.rs
+++ b/poseidon-permutation/src/permutation.rs
@@ -219,7 +219,10 @@ impl<
     fn partial_sub_words(&mut self) {
         match self.parameters.alpha {
             Alpha::Exponent(exp) => self.state_words[0] = (self.state_words[0]).power([exp as u64]),
-            Alpha::Inverse => self.state_words[0] = Fq::from(1u64) / self.state_words[0],
+            Alpha::Inverse => {
+                // The inverse S-box maps 0 to 0.
+                self.state_words[0] = self.state_words[0].inverse().unwrap_or(Fq::from(0u64))
+            }
         }
     }
 
@@ -233,7 +236,8 @@ impl<
             }
             Alpha::Inverse => {
                 for i in 0..STATE_SIZE {
-                    self.state_words[i] = Fq::from(1u64) / self.state_words[i];
+                    // The inverse S-box maps 0 to 0.
+                    self.state_words[i] = self.state_words[i].inverse().unwrap_or(Fq::from(0u64));
                 }
             }
         }
-- 
2.43.0


From db2f38da9b71d971e8cc3e1a42e8ef35609fa387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 5/9] fix: circuit gadget accepts inputs that are all constants

---
 poseidon-permutation/src/r1cs.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/poseidon-permutation/src/r1cs.rs b/poseidon-permutation/src/r1cs.rs
index 71b3a59..d90c152 100644
--- a/poseidon-permutation/src/r1cs.rs
+++ b/poseidon-permutation/src/r1cs.rs
@@ -173,8 +173,14 @@ impl<
                             * y
                     })
                     .collect();
-                let result = temp_vec.iter().sum();
-                result
+                if temp_vec.is_constant() {
+                    // `FpVar`'s `sum` panics if there is no variable among the terms.
+                    temp_vec
+                        .iter()
+                        .fold(FpVar::zero(), |result, term| result + term)
+                } else {
+                    temp_vec.iter().sum()
+                }
             })
             .collect();
     }
-- 
2.43.0


From 4bc3e74217b12c1aebb82e3ee5501e2aab140150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:32 +0000
Subject: [PATCH 6/9] fix: choose the S-box exponent by a gcd over the integers

---
 poseidon-paramgen/src/alpha.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/poseidon-paramgen/src/alpha.rs b/poseidon-paramgen/src/alpha.rs
index 5dd51c0..c55e849 100644
--- a/poseidon-paramgen/src/alpha.rs
+++ b/poseidon-paramgen/src/alpha.rs
@@ -62,11 +62,11 @@ pub fn generate<F: PrimeField>(p: F::BigInt, allow_inverse: bool) -> Alpha {
 }
 
 fn alpha_coprime_to_p_minus_one<F: PrimeField>(alpha: u32, p: F::BigInt) -> bool {
-    let one: BigUint = F::one().into();
-    let p_minus_one: BigUint = p.into() - one;
-    let alpha_bigint: BigUint = F::from(alpha).into();
-    let computed_gcd = gcd(alpha_bigint, p_minus_one);
-    F::from(computed_gcd) == F::one()
+    // The gcd is taken over the integers: reducing alpha modulo a small p would change it.
+    let one = BigUint::from(1u32);
+    let p: BigUint = p.into();
+    let p_minus_one = p - &one;
+    gcd(BigUint::from(alpha), p_minus_one) == one
 }
 
 #[cfg(test)]
-- 
2.43.0


From 5c689a1d054bff22830019a31c739a097c8b828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:20 +0000
Subject: [PATCH 7/9] fix: log2 keeps the precision of f64, and floor(log2 p)
 is exact

---
 poseidon-paramgen/src/rounds.rs |  6 +++++-
 poseidon-paramgen/src/utils.rs  | 27 +++++++--------------------
 2 files changed, 12 insertions(+), 21 deletions(-)

diff --git a/poseidon-paramgen/src/rounds.rs b/poseidon-paramgen/src/rounds.rs
index f57e80e..6c51c1a 100644
--- a/poseidon-paramgen/src/rounds.rs
+++ b/poseidon-paramgen/src/rounds.rs
@@ -172,10 +172,14 @@ fn statistical_attack_full_rounds<T: BigInteger>(
         Alpha::Exponent(exp) => (*exp as f64 - 1.0).log2(),
     };
 
+    // $\floor{\log_2(p)}$, exactly: `log_2_p` is rounded up to an integer for a modulus
+    // that is close enough to the next power of two.
+    let floor_log_2_p = (input.p.num_bits() - 1) as f64;
+
     // Statistical attacks require at least 6 full rounds.
     // Differential/Linear Distinguishers.
     // Ref: Section 5.5.1.
-    if input.M as f64 <= ((input.log_2_p.floor() - C) * (input.t as f64 + 1.0)) {
+    if input.M as f64 <= ((floor_log_2_p - C) * (input.t as f64 + 1.0)) {
         6
     } else {
         10
diff --git a/poseidon-paramgen/src/utils.rs b/poseidon-paramgen/src/utils.rs
index c010682..c63a0b6 100644
--- a/poseidon-paramgen/src/utils.rs
+++ b/poseidon-paramgen/src/utils.rs
@@ -7,26 +7,13 @@ pub fn log2<P>(x: P) -> f64
 where
     P: BigInteger,
 {
-    let mut p_biguint: BigUint = x.into();
-    let two_to_50: BigUint = 1125899906842624u64.into(); // 2**50
-    let mut log_bit_boundaries = 0;
-    while p_biguint > two_to_50 {
-        p_biguint >>= 48u64;
-        log_bit_boundaries += 48;
-    }
-    let mut p_le_bytes = p_biguint.to_bytes_le();
-    // `u64::from_le_bytes` takes `[u8; 8]` but `p_le_bytes` is a Vec<u8>
-    // so we must pad the vec to the proper size:
-    while p_le_bytes.len() < 8 {
-        p_le_bytes.push(0x00);
-    }
-
-    let x_u64: u64 = u64::from_le_bytes(
-        p_le_bytes
-            .try_into()
-            .expect("we have padded to the expected length"),
-    );
-    log_bit_boundaries as f64 + ((x_u64) as f64).log2()
+    let x_biguint: BigUint = x.into();
+    // Keep the 64 most significant bits, so that no precision of the `f64` is lost.
+    let shift = x_biguint.bits().saturating_sub(64);
+    let x_u64: u64 = (x_biguint >> shift)
+        .try_into()
+        .expect("at most 64 bits are left");
+    shift as f64 + (x_u64 as f64).log2()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 29fb5b66a134835d5e2163a576f2c18c9e6eaaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:20 +0000
Subject: [PATCH 8/9] fix: Groebner-basis bound computes the binomial from its
 smaller side

---
 poseidon-paramgen/src/rounds.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/poseidon-paramgen/src/rounds.rs b/poseidon-paramgen/src/rounds.rs
index 6c51c1a..37b1a18 100644
--- a/poseidon-paramgen/src/rounds.rs
+++ b/poseidon-paramgen/src/rounds.rs
@@ -236,7 +236,9 @@ fn algebraic_attack_grobner_basis_v2_possible<T: BigInteger>(
         + exponent;
     let lower = r * (choice.full() / 2) + choice.partial() + exponent;
 
-    // Start computing the binomial coefficient (upper choose lower).
+    // Start computing the binomial coefficient (upper choose lower), from its smaller side:
+    // on the way up to the middle the partial products never exceed the result.
+    let lower = lower.min(upper - lower);
     let mut acc = BigInt::from(1);
     for i in 0..lower {
         acc = (acc
-- 
2.43.0


From ae813d677ac6f624b26dc6ea2000cc6e5bb9b3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:51 +0000
Subject: [PATCH 9/9] fix: bind the generator's transcript to the same bytes on
 every target

The width and the security level were bound as usize, four bytes on 32-bit
targets, so that the round constants generated there differed.
---
 poseidon-paramgen/src/transcript.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poseidon-paramgen/src/transcript.rs b/poseidon-paramgen/src/transcript.rs
index 80653d8..533e437 100644
--- a/poseidon-paramgen/src/transcript.rs
+++ b/poseidon-paramgen/src/transcript.rs
@@ -23,8 +23,8 @@ impl TranscriptProtocol for Transcript {
     ) {
         self.append_message(b"dom-sep", b"poseidon-paramgen");
         // Bind transcript to input parameter choices
-        self.append_message(b"t", &input.t.to_le_bytes());
-        self.append_message(b"M", &input.M.to_le_bytes());
+        self.append_message(b"t", &(input.t as u64).to_le_bytes());
+        self.append_message(b"M", &(input.M as u64).to_le_bytes());
         self.append_message(b"p", &input.p.to_bytes_le());
 
         // Bind transcript also to specific instance as done with the Grain LFSR
-- 
2.43.0

