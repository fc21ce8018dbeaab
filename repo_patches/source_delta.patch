From 605936494dc0da7f85e39f8c06f70d64e6dfbd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 1/7] fix: report an approval as expired from its expiry time
 on

Spending, icrc103_get_allowances and pruning all treat an approval with
expires_at == now as expired; icrc2_allowance and the expected_allowance
check still reported it. A refund arriving at exactly that time used the
expired approval as its basis and trapped, losing the refund.
---
 cycles-ledger/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cycles-ledger/src/storage.rs b/cycles-ledger/src/storage.rs
index 9733829..0f2c96d 100644
--- a/cycles-ledger/src/storage.rs
+++ b/cycles-ledger/src/storage.rs
@@ -2164,7 +2164,7 @@ fn reimburse_approval(
 pub fn allowance(account: &Account, spender: &Account, now: u64) -> (u128, u64) {
     let key = (to_account_key(account), to_account_key(spender));
     let allowance = read_state(|s| s.approvals.get(&key).unwrap_or_default());
-    if allowance.1 > 0 && allowance.1 < now {
+    if allowance.1 > 0 && allowance.1 <= now {
         return (0, 0);
     }
     allowance
-- 
2.43.0


From 6739ac0c7d40a70607d2e6e215bcdab272714a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 2/7] fix: icrc3_get_blocks does not overflow with a huge
 max_blocks_per_request

---
 cycles-ledger/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cycles-ledger/src/storage.rs b/cycles-ledger/src/storage.rs
index 0f2c96d..a29d10f 100644
--- a/cycles-ledger/src/storage.rs
+++ b/cycles-ledger/src/storage.rs
@@ -2377,7 +2377,7 @@ pub fn get_blocks(args: GetBlocksArgs) -> GetBlocksResult {
             _ => continue,
         };
         let end_excluded = match length.0.to_u64() {
-            Some(length) => log_length.min(start + remaining_length.min(length)),
+            Some(length) => log_length.min(start.saturating_add(remaining_length.min(length))),
             _ => continue,
         };
         read_state(|state| {
-- 
2.43.0


From 259bb5465329f0e57a3807f06db3a4f06ae5624b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 3/7] fix: icrc3_get_blocks serves a range whose length exceeds
 u64

The length is a nat and is capped by max_blocks_per_request; a length of
2^64 or more returned no blocks instead of the capped range.
---
 cycles-ledger/src/storage.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cycles-ledger/src/storage.rs b/cycles-ledger/src/storage.rs
index a29d10f..7c3caf0 100644
--- a/cycles-ledger/src/storage.rs
+++ b/cycles-ledger/src/storage.rs
@@ -2376,10 +2376,9 @@ pub fn get_blocks(args: GetBlocksArgs) -> GetBlocksResult {
             Some(start) if start < log_length => start,
             _ => continue,
         };
-        let end_excluded = match length.0.to_u64() {
-            Some(length) => log_length.min(start.saturating_add(remaining_length.min(length))),
-            _ => continue,
-        };
+        // a length beyond u64 asks for everything up to the limit
+        let length = length.0.to_u64().unwrap_or(u64::MAX);
+        let end_excluded = log_length.min(start.saturating_add(remaining_length.min(length)));
         read_state(|state| {
             for id in start..end_excluded {
                 let block = state
-- 
2.43.0


From abb8971c97174c7284ba5b9dd6dbcdde12593a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 4/7] fix: refunding an approval keeps the expiry of the
 current approval

A live approval without expiry, given while a withdraw_from or
create_canister_from was in flight, got the expiry of the approval it
had replaced when the refund arrived.
---
 cycles-ledger/src/storage.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cycles-ledger/src/storage.rs b/cycles-ledger/src/storage.rs
index 7c3caf0..043ab94 100644
--- a/cycles-ledger/src/storage.rs
+++ b/cycles-ledger/src/storage.rs
@@ -2142,8 +2142,8 @@ fn reimburse_approval(
     now: u64,
 ) -> Result<Nat, ApproveError> {
     let (current_allowance, current_expiry) = allowance(&from, &spender, now);
-    let expires_at = if current_expiry > 0 {
-        Some(current_expiry)
+    let expires_at = if current_allowance > 0 {
+        (current_expiry > 0).then_some(current_expiry)
     } else {
         old_expires_at
     };
-- 
2.43.0


From 6566e66e6e61c144623c7bebf106e6701620c055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 5/7] fix: BadFee takes precedence for transfer amounts beyond
 u128

storage::transfer gives BadFee precedence over InsufficientFunds, as the
ICRC-1 standard asks; an amount of 2^128 or more with a wrong fee was
answered with InsufficientFunds before the fee was looked at.
---
 cycles-ledger/src/main.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/cycles-ledger/src/main.rs b/cycles-ledger/src/main.rs
index 004b4b9..ff35f37 100644
--- a/cycles-ledger/src/main.rs
+++ b/cycles-ledger/src/main.rs
@@ -216,12 +216,6 @@ fn execute_transfer(
     memo: Option<Memo>,
     created_at_time: Option<u64>,
 ) -> Result<Nat, TransferFromError> {
-    let Some(amount) = amount.0.to_u128() else {
-        return Err(TransferFromError::InsufficientFunds {
-            balance: Nat::from(storage::balance_of(&from)),
-        });
-    };
-
     let suggested_fee = match fee {
         Some(fee) => match fee.0.to_u128() {
             None => {
@@ -234,6 +228,18 @@ fn execute_transfer(
         None => None,
     };
 
+    let Some(amount) = amount.0.to_u128() else {
+        // BadFee takes precedence over InsufficientFunds per ICRC-1 spec
+        if suggested_fee.is_some() && suggested_fee != Some(config::FEE) {
+            return Err(TransferFromError::BadFee {
+                expected_fee: Nat::from(config::FEE),
+            });
+        }
+        return Err(TransferFromError::InsufficientFunds {
+            balance: Nat::from(storage::balance_of(&from)),
+        });
+    };
+
     let now = ic_cdk::api::time();
     let block_index = storage::transfer(
         from,
-- 
2.43.0


From 304392b01f9b3ce32e9001ccbab3bec619a89d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 6/7] fix: icrc3_supported_block_types lists 1xfer

Blocks of transfers without a spender are of the type 1xfer (ICRC-3).
---
 cycles-ledger/src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cycles-ledger/src/main.rs b/cycles-ledger/src/main.rs
index ff35f37..0c09f88 100644
--- a/cycles-ledger/src/main.rs
+++ b/cycles-ledger/src/main.rs
@@ -150,6 +150,11 @@ fn icrc3_supported_block_types() -> Vec<SupportedBlockType> {
             url: "https://github.com/dfinity/ICRC-1/blob/main/standards/ICRC-1/README.md"
                 .to_string(),
         },
+        SupportedBlockType {
+            block_type: "1xfer".to_string(),
+            url: "https://github.com/dfinity/ICRC-1/blob/main/standards/ICRC-1/README.md"
+                .to_string(),
+        },
         SupportedBlockType {
             block_type: "2xfer".to_string(),
             url: "https://github.com/dfinity/ICRC-1/blob/main/standards/ICRC-2/README.md"
-- 
2.43.0


From 9c62c923d6c4dd7a4e53aff26238f5b67cbd5cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:52 +0000
Subject: [PATCH 7/7] fix: create_canister reimburses only the cycles that came
 back with a rejected call

---
 cycles-ledger/src/storage.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cycles-ledger/src/storage.rs b/cycles-ledger/src/storage.rs
index 043ab94..2ee71ec 100644
--- a/cycles-ledger/src/storage.rs
+++ b/cycles-ledger/src/storage.rs
@@ -2011,8 +2011,15 @@ pub async fn create_canister(
             },
         },
         Err(call_error) => {
+            // If the call was made then the CMC may have kept cycles, e.g., when it
+            // traps after having accepted them. Only what came back can be reimbursed.
+            let returned_amount = match &call_error {
+                ic_cdk::call::Error::CallRejected(_)
+                | ic_cdk::call::Error::CandidDecodeFailed(_) => ic_cdk::api::msg_cycles_refunded(),
+                _ => amount,
+            };
             let (rejection_code, rejection_reason) = call_error_to_reject(call_error);
-            Err((rejection_code, amount, rejection_reason))
+            Err((rejection_code, returned_amount, rejection_reason))
         }
     };
 
-- 
2.43.0

