From c7cbd5e2a6990015642bc1f5c0687e2faa7d5230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:58 +0000
Subject: [PATCH 1/3] fix: accept writable accounts where read-only access is
 enough in load_pda

load_pda compared the writable flag for equality, so a program config passed
as writable (which happens to every account of a message that another
instruction of the same transaction uses as writable, e.g. a commit bundled
with whitelist_validator_for_program) made commit_state fail.
---
 src/processor/utils/loaders.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/processor/utils/loaders.rs b/src/processor/utils/loaders.rs
index 980d393..0644e85 100644
--- a/src/processor/utils/loaders.rs
+++ b/src/processor/utils/loaders.rs
@@ -50,7 +50,7 @@ pub fn load_pda(
         return Err(ProgramError::InvalidSeeds);
     }
 
-    if !info.is_writable.eq(&is_writable) {
+    if is_writable && !info.is_writable {
         msg!("Account {} ({}) needs to be writable", label, info.key);
         return Err(ProgramError::InvalidAccountData);
     }
-- 
2.43.0


From d8c0353c8d2c65c1faeda64c33c183ea6d87600d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:53 +0000
Subject: [PATCH 2/3] fix: reject undelegation when the owner program takes
 over the validator account

The validator signs the external undelegate CPI, so the owner program can
assign (or allocate) the validator's own account. When the delegated account
holds exactly its rent the final transfer moves nothing and does not fail, so
the undelegation succeeded and left the validator's account, with all its
lamports, to the owner program.
---
 src/processor/undelegate.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/processor/undelegate.rs b/src/processor/undelegate.rs
index e4072c7..bd019a5 100644
--- a/src/processor/undelegate.rs
+++ b/src/processor/undelegate.rs
@@ -229,6 +229,8 @@ fn process_undelegation_with_cpi<'a, 'info>(
     close_pda(delegated_account, validator)?;
 
     // Invoke the owner program's post-undelegation IX, to give the state back to the original program
+    let validator_owner_before_cpi = *validator.owner;
+    let validator_data_len_before_cpi = validator.data_len();
     let validator_lamports_before_cpi = validator.lamports();
     cpi_external_undelegate(
         validator,
@@ -251,6 +253,13 @@ fn process_undelegation_with_cpi<'a, 'info>(
         return Err(DlpError::InvalidValidatorBalanceAfterCPI.into());
     }
 
+    // Check that the owner program did not assign or allocate the validator account, which signs the CPI
+    if validator_owner_before_cpi.ne(validator.owner)
+        || validator_data_len_before_cpi.ne(&validator.data_len())
+    {
+        return Err(DlpError::InvalidAccountDataAfterCPI.into());
+    }
+
     // Check that the owner program properly moved the state back into the original account during CPI
     if delegated_account.try_borrow_data()?.as_ref()
         != undelegate_buffer_account.try_borrow_data()?.as_ref()
-- 
2.43.0


From d4756927d5ab46b6d9263cea936952e30f4ad15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:29 +0000
Subject: [PATCH 3/3] fix: mark the validator writable in the commit and
 finalize builders

The validator pays the rent of the staging accounts on commit and receives it
back on finalize, so the instructions failed whenever somebody else paid the
transaction fee.
---
 src/instruction_builder/commit_state.rs             | 2 +-
 src/instruction_builder/commit_state_from_buffer.rs | 2 +-
 src/instruction_builder/finalize.rs                 | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/instruction_builder/commit_state.rs b/src/instruction_builder/commit_state.rs
index b6f5ce0..8e044ea 100644
--- a/src/instruction_builder/commit_state.rs
+++ b/src/instruction_builder/commit_state.rs
@@ -30,7 +30,7 @@ pub fn commit_state(
     Instruction {
         program_id: crate::id(),
         accounts: vec![
-            AccountMeta::new_readonly(validator, true),
+            AccountMeta::new(validator, true),
             AccountMeta::new_readonly(delegated_account, false),
             AccountMeta::new(commit_state_pda, false),
             AccountMeta::new(commit_record_pda, false),
diff --git a/src/instruction_builder/commit_state_from_buffer.rs b/src/instruction_builder/commit_state_from_buffer.rs
index dc93230..56c913f 100644
--- a/src/instruction_builder/commit_state_from_buffer.rs
+++ b/src/instruction_builder/commit_state_from_buffer.rs
@@ -31,7 +31,7 @@ pub fn commit_state_from_buffer(
     Instruction {
         program_id: crate::id(),
         accounts: vec![
-            AccountMeta::new_readonly(validator, true),
+            AccountMeta::new(validator, true),
             AccountMeta::new_readonly(delegated_account, false),
             AccountMeta::new(commit_state_pda, false),
             AccountMeta::new(commit_record_pda, false),
diff --git a/src/instruction_builder/finalize.rs b/src/instruction_builder/finalize.rs
index 38226dd..23cbe2a 100644
--- a/src/instruction_builder/finalize.rs
+++ b/src/instruction_builder/finalize.rs
@@ -21,7 +21,7 @@ pub fn finalize(validator: Pubkey, delegated_account: Pubkey) -> Instruction {
     Instruction {
         program_id: crate::id(),
         accounts: vec![
-            AccountMeta::new_readonly(validator, true),
+            AccountMeta::new(validator, true),
             AccountMeta::new(delegated_account, false),
             AccountMeta::new(commit_state_pda, false),
             AccountMeta::new(commit_record_pda, false),
-- 
2.43.0

