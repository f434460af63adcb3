From 4e5c0d4c8f193cbf95cafb196e402f1062757d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:07 +0000
Subject: [PATCH 1/8] fix: report ECDSAInvalidSignature when ecrecover returns
 no data

---
 contracts/src/utils/cryptography/ecdsa.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/src/utils/cryptography/ecdsa.rs b/contracts/src/utils/cryptography/ecdsa.rs
index 89d6d45..f6b8622 100644
--- a/contracts/src/utils/cryptography/ecdsa.rs
+++ b/contracts/src/utils/cryptography/ecdsa.rs
@@ -145,6 +145,11 @@ fn _recover(
         call::static_call(Call::new_in(storage), ECRECOVER_ADDR, &calldata)
             .expect("should call `ecrecover` precompile");
 
+    // The precompile answers with no data when no key can be recovered.
+    if recovered.is_empty() {
+        return Err(ECDSAInvalidSignature {}.into());
+    }
+
     let recovered = Address::from_slice(&recovered[12..]);
 
     if recovered.is_zero() {
-- 
2.43.0


From 23c1178cf2441d88acfe8d8add2d1ddb91026644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:29 +0000
Subject: [PATCH 2/8] fix: keep owner enumeration intact on ERC-721
 self-transfers

---
 contracts/src/token/erc721/extensions/enumerable.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/contracts/src/token/erc721/extensions/enumerable.rs b/contracts/src/token/erc721/extensions/enumerable.rs
index 17eccfe..f0a6f49 100644
--- a/contracts/src/token/erc721/extensions/enumerable.rs
+++ b/contracts/src/token/erc721/extensions/enumerable.rs
@@ -246,7 +246,11 @@ impl Erc721Enumerable {
         // To prevent a gap in from's tokens array,
         // we store the last token in the index of the token to delete,
         // and then delete the last slot (swap and pop).
-        let last_token_index = erc721.balance_of(from)?;
+        let mut last_token_index = erc721.balance_of(from)?;
+        // A self-transfer leaves the balance of `from` unchanged.
+        if erc721.owner_of(token_id).is_ok_and(|owner| owner == from) {
+            last_token_index -= uint!(1_U256);
+        }
         let token_index = self.owned_tokens_index.get(token_id);
 
         let mut owned_tokens_by_owner = self.owned_tokens.setter(from);
-- 
2.43.0


From 7edf9ad04abedeee6402057afb657ed4f63b1066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:46 +0000
Subject: [PATCH 3/8] fix: refuse consecutive ERC-721 batches that exhaust the
 id space

The batch's last id was computed with wrapping arithmetic, and a batch
ending at U96::MAX made the next id wrap to zero, so that burns of batch
tokens were no longer recorded and burned tokens kept their owner.
---
 contracts/src/token/erc721/extensions/consecutive.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/contracts/src/token/erc721/extensions/consecutive.rs b/contracts/src/token/erc721/extensions/consecutive.rs
index 03d1a02..3e02fa4 100644
--- a/contracts/src/token/erc721/extensions/consecutive.rs
+++ b/contracts/src/token/erc721/extensions/consecutive.rs
@@ -316,6 +316,10 @@ impl Erc721Consecutive {
     /// # Events
     ///
     /// * [`ConsecutiveTransfer`].
+    ///
+    /// # Panics
+    ///
+    /// * If the batch would exhaust the `U96` id space.
     pub fn _mint_consecutive(
         &mut self,
         to: Address,
@@ -341,7 +345,10 @@ impl Erc721Consecutive {
             }
 
             // Push an ownership checkpoint & emit event.
-            let last = next + batch_size - uint!(1_U96);
+            let last = next
+                .checked_add(batch_size)
+                .expect("should not exceed `U96::MAX` for consecutive ids")
+                - uint!(1_U96);
             self.sequential_ownership.push(last, to.into())?;
 
             // The invariant required by this function is preserved because the
-- 
2.43.0


From 85e6894381a2e52d28d2bdec59d0131f3f89a21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:18 +0000
Subject: [PATCH 4/8] fix: detect total supply overflow within an ERC-1155
 batch mint

The batch's values were summed with wrapping arithmetic before the checked
addition to the total supply, so a batch such as [MAX, 1] for two ids left
the total supply below the per-id supplies.
---
 contracts/src/token/erc1155/extensions/supply.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/contracts/src/token/erc1155/extensions/supply.rs b/contracts/src/token/erc1155/extensions/supply.rs
index f0323f5..55b0637 100644
--- a/contracts/src/token/erc1155/extensions/supply.rs
+++ b/contracts/src/token/erc1155/extensions/supply.rs
@@ -257,7 +257,10 @@ impl Erc1155Supply {
                 );
             }
 
-            let total_mint_value = values.iter().sum();
+            let total_mint_value = values
+                .iter()
+                .try_fold(U256::ZERO, |total, &value| total.checked_add(value))
+                .expect("should not exceed `U256::MAX` for `total_supply_all`");
             self.total_supply_all.add_assign_checked(
                 total_mint_value,
                 "should not exceed `U256::MAX` for `total_supply_all`",
-- 
2.43.0


From 979f2be7a54984dee3c498a9cf97c27b61f7cf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:21 +0000
Subject: [PATCH 5/8] fix: remainder of a zero wide integer is zero

WideUint::ct_rem computed ct_num_bits() - 1, which underflows for a zero
dividend: a panic with overflow checks on, an endless loop without.
---
 lib/crypto/src/arithmetic/uint.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/crypto/src/arithmetic/uint.rs b/lib/crypto/src/arithmetic/uint.rs
index afe6984..9bc822f 100644
--- a/lib/crypto/src/arithmetic/uint.rs
+++ b/lib/crypto/src/arithmetic/uint.rs
@@ -839,8 +839,14 @@ impl<const N: usize> WideUint<N> {
 
         let mut remainder = Uint::<N>::ZERO;
 
+        let num_bits = self.ct_num_bits();
+        // Zero has no bits to process and its remainder is always zero.
+        if num_bits == 0 {
+            return remainder;
+        }
+
         // Start with the last bit.
-        let mut index = self.ct_num_bits() - 1;
+        let mut index = num_bits - 1;
         loop {
             // Shift the remainder to the left by 1,
             let (result, carry) = remainder.ct_checked_mul2();
-- 
2.43.0


From e19aa5a8b20a60a886149d4aeb9787ea0a54dc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:45 +0000
Subject: [PATCH 6/8] fix: report the modulus bit size, not the width of its
 limbs

PrimeField::MODULUS_BIT_SIZE is documented as the size of the modulus in
bits but held the number of bits of the limbs that store it.
---
 lib/crypto/src/field/fp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/crypto/src/field/fp.rs b/lib/crypto/src/field/fp.rs
index 1332a9d..246ea87 100644
--- a/lib/crypto/src/field/fp.rs
+++ b/lib/crypto/src/field/fp.rs
@@ -555,7 +555,7 @@ impl<P: FpParams<N>, const N: usize> PrimeField for Fp<P, N> {
     type BigInt = Uint<N>;
 
     const MODULUS: Self::BigInt = P::MODULUS;
-    const MODULUS_BIT_SIZE: usize = <Uint<N> as BigInteger>::BITS;
+    const MODULUS_BIT_SIZE: usize = P::MODULUS.ct_num_bits();
 
     #[inline]
     fn from_bigint(repr: Self::BigInt) -> Self {
-- 
2.43.0


From fad9b6577d00f3f7100317a27f25a8c756328e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:23 +0000
Subject: [PATCH 7/8] fix: drop the storage cache around SafeErc20 calls

SafeErc20 only flushed the VM storage cache before calling the token, so a
slot read before the call kept its cached value afterwards. With the
`reentrant` feature, a token that calls back (ERC-777 hooks) makes the outer
frame overwrite what the inner call stored: an ERC-4626 deposit nested in
another one left the total supply below the sum of balances.
---
 contracts/src/token/erc20/utils/safe_erc20.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/src/token/erc20/utils/safe_erc20.rs b/contracts/src/token/erc20/utils/safe_erc20.rs
index 2d493c1..b055db6 100644
--- a/contracts/src/token/erc20/utils/safe_erc20.rs
+++ b/contracts/src/token/erc20/utils/safe_erc20.rs
@@ -341,7 +341,7 @@ impl SafeErc20 {
         unsafe {
             match RawCall::new()
                 .limit_return_data(0, BOOL_TYPE_SIZE)
-                .flush_storage_cache()
+                .clear_storage_cache()
                 .call(token, &call.abi_encode())
             {
                 Ok(data) if data.is_empty() || Self::encodes_true(&data) => {
@@ -375,7 +375,7 @@ impl SafeErc20 {
         let result = unsafe {
             RawCall::new()
                 .limit_return_data(0, BOOL_TYPE_SIZE)
-                .flush_storage_cache()
+                .clear_storage_cache()
                 .call(token, &call.abi_encode())
                 .map_err(|_| {
                     Error::SafeErc20FailedOperation(SafeErc20FailedOperation {
-- 
2.43.0


From ddb67e79621dfd8f3431a356b660164e3aa89a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:03 +0000
Subject: [PATCH 8/8] hook: expose Erc721Wrapper::_recover under --cfg ozverif

---
 .../src/token/erc721/extensions/wrapper.rs      | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/contracts/src/token/erc721/extensions/wrapper.rs b/contracts/src/token/erc721/extensions/wrapper.rs
index 5ba15e6..02a2102 100644
--- a/contracts/src/token/erc721/extensions/wrapper.rs
+++ b/contracts/src/token/erc721/extensions/wrapper.rs
@@ -296,6 +296,23 @@ impl Erc721Wrapper {
     }
 }
 
+/// Access to [`Erc721Wrapper::_recover`] for an external verification harness.
+/// Compiled only with `--cfg ozverif`.
+#[allow(unexpected_cfgs)]
+impl Erc721Wrapper {
+    #[cfg(ozverif)]
+    #[doc(hidden)]
+    #[allow(missing_docs, clippy::missing_errors_doc)]
+    pub fn ozverif_recover(
+        &mut self,
+        account: Address,
+        token_id: U256,
+        erc721: &mut Erc721,
+    ) -> Result<U256, Error> {
+        self._recover(account, token_id, erc721)
+    }
+}
+
 #[cfg(all(test, feature = "std"))]
 mod tests {
     use alloy_primitives::uint;
-- 
2.43.0

