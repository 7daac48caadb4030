From 8ecf8ecefb55a759dab72284b0d4601f660adf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:48 +0000
Subject: [PATCH 01/17] fix: read ed25519 signature offsets without requiring
 alignment

The offsets are parsed from a byte vector whose placement is up to the
allocator; an odd address made bytemuck refuse the cast, so that a genuine
report was rejected with InvalidSignatureVerification.
---
 program/src/sigverify.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/program/src/sigverify.rs b/program/src/sigverify.rs
index f6c033d..6b64ea1 100644
--- a/program/src/sigverify.rs
+++ b/program/src/sigverify.rs
@@ -146,8 +146,9 @@ impl<'a> SignatureVerification<'a> {
                 .saturating_add(SIGNATURE_OFFSETS_START);
             let end = start.saturating_add(SIGNATURE_OFFSETS_SERIALIZED_SIZE);
 
-            let offsets: &Ed25519SignatureOffsets =
-                bytemuck::try_from_bytes(&sigverify_ix.data[start..end])
+            // The instruction data carries no alignment guarantee
+            let offsets: Ed25519SignatureOffsets =
+                bytemuck::try_pod_read_unaligned(&sigverify_ix.data[start..end])
                     .map_err(|_| SlashingError::InvalidSignatureVerification)?;
 
             // Parse out signature
-- 
2.43.0


From 33544d491eaad252806f195b900bb1755b6c3fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:26 +0000
Subject: [PATCH 02/17] fix: refuse a proof offset beyond the proof account
 instead of panicking

---
 program/src/processor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/program/src/processor.rs b/program/src/processor.rs
index 4958895..581b032 100644
--- a/program/src/processor.rs
+++ b/program/src/processor.rs
@@ -82,7 +82,10 @@ pub fn process_instruction(
         SlashingInstruction::DuplicateBlockProof => {
             let accounts = SlashingAccounts::new(account_info_iter)?;
             let data = decode_instruction_data::<DuplicateBlockProofInstructionData>(input)?;
-            let proof_data = &accounts.proof_account.try_borrow_data()?[data.offset()?..];
+            let proof_account_data = accounts.proof_account.try_borrow_data()?;
+            let proof_data = proof_account_data
+                .get(data.offset()?..)
+                .ok_or(SlashingError::ProofBufferTooSmall)?;
             let violation_report = ViolationReport {
                 version: ViolationReport::VERSION,
                 reporter: data.reporter,
-- 
2.43.0


From 343dab067b7dd1994e25cf67f32441603d756f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:26 +0000
Subject: [PATCH 03/17] fix: refuse to close accounts too short for a report
 instead of panicking

---
 program/src/state.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/program/src/state.rs b/program/src/state.rs
index 12a889e..17c1eab 100644
--- a/program/src/state.rs
+++ b/program/src/state.rs
@@ -318,8 +318,11 @@ pub(crate) fn close_violation_report<'a, 'b>(
     destination_account: &'a AccountInfo<'b>,
 ) -> Result<(), ProgramError> {
     let report_data = report_account.try_borrow_data()?;
-    let report: &ViolationReport =
-        pod_from_bytes(&report_data[0..std::mem::size_of::<ViolationReport>()])?;
+    let report: &ViolationReport = pod_from_bytes(
+        report_data
+            .get(0..std::mem::size_of::<ViolationReport>())
+            .ok_or(SlashingError::InvalidViolationReportAcccount)?,
+    )?;
     let destination = report.destination;
 
     if Epoch::from(report.epoch).saturating_add(3) > sysvar::clock::Clock::get()?.epoch {
-- 
2.43.0


From 2d5882b4e92785321ce2c5ff4564dd83f14f41e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:26 +0000
Subject: [PATCH 04/17] fix: refuse a truncated signature verification instead
 of panicking

---
 program/src/sigverify.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/program/src/sigverify.rs b/program/src/sigverify.rs
index 6b64ea1..87e8dbc 100644
--- a/program/src/sigverify.rs
+++ b/program/src/sigverify.rs
@@ -126,9 +126,11 @@ impl<'a> SignatureVerification<'a> {
             return Err(SlashingError::MissingSignatureVerification);
         }
         let num_signatures = u16::from_le_bytes(
-            sigverify_ix.data[0..2]
-                .try_into()
-                .map_err(|_| SlashingError::MissingSignatureVerification)?,
+            sigverify_ix
+                .data
+                .get(0..SIGNATURE_OFFSETS_START)
+                .and_then(|bytes| bytes.try_into().ok())
+                .ok_or(SlashingError::MissingSignatureVerification)?,
         );
         if num_signatures < NUM_VERIFICATIONS as u16 {
             return Err(SlashingError::MissingSignatureVerification);
-- 
2.43.0


From 73a4d8c17949c8606d81b290486965093c4e6d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:03 +0000
Subject: [PATCH 05/17] fix: ignore bytes beyond the merkle proof when
 comparing shred payloads

Validators truncate received shreds to the fixed payload size. Comparing the
bytes past it let anyone pair a shred with a padded copy of itself and report
a validator that signed only one block.
---
 program/src/shred.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/program/src/shred.rs b/program/src/shred.rs
index 90230fe..ead10ba 100644
--- a/program/src/shred.rs
+++ b/program/src/shred.rs
@@ -329,7 +329,9 @@ impl<'a> Shred<'a> {
 
     /// Returns true if the other shred has the same (slot, index,
     /// shred-type), but different payload.
-    /// Retransmitter's signature is ignored when comparing payloads.
+    /// Anything past the merkle proof (the retransmitter's signature, or bytes
+    /// a validator discards when receiving the shred) is ignored when comparing
+    /// payloads.
     pub(crate) fn is_shred_duplicate(&self, other: &Shred) -> bool {
         if (self.slot(), self.index(), self.shred_type())
             != (other.slot(), other.index(), other.shred_type())
@@ -340,9 +342,6 @@ impl<'a> Shred<'a> {
             let Ok((proof_offset, proof_size)) = shred.get_proof_offset_and_size() else {
                 return shred.payload;
             };
-            if !shred.resigned {
-                return shred.payload;
-            }
             let Some(offset) = proof_offset.checked_add(proof_size) else {
                 return shred.payload;
             };
-- 
2.43.0


From 0e75ae8ced15f8339a7d4607f39901306dc12606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:27 +0000
Subject: [PATCH 06/17] fix: read the number of verified signatures as the
 ed25519 precompile does

The precompile only verifies as many signatures as its first data byte says,
the second byte is padding. Reading both as one u16 accepted instructions in
which fewer signatures than required had been verified.
---
 program/src/sigverify.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/program/src/sigverify.rs b/program/src/sigverify.rs
index 87e8dbc..9905c24 100644
--- a/program/src/sigverify.rs
+++ b/program/src/sigverify.rs
@@ -125,14 +125,13 @@ impl<'a> SignatureVerification<'a> {
         if sigverify_ix.program_id != ed25519_program::id() {
             return Err(SlashingError::MissingSignatureVerification);
         }
-        let num_signatures = u16::from_le_bytes(
-            sigverify_ix
-                .data
-                .get(0..SIGNATURE_OFFSETS_START)
-                .and_then(|bytes| bytes.try_into().ok())
-                .ok_or(SlashingError::MissingSignatureVerification)?,
-        );
-        if num_signatures < NUM_VERIFICATIONS as u16 {
+        // The precompile reads the number of signatures it verifies from the
+        // first byte only, the second one is padding
+        let num_signatures = *sigverify_ix
+            .data
+            .first()
+            .ok_or(SlashingError::MissingSignatureVerification)?;
+        if usize::from(num_signatures) < NUM_VERIFICATIONS {
             return Err(SlashingError::MissingSignatureVerification);
         }
         let expected_data_size = NUM_VERIFICATIONS
-- 
2.43.0


From ee619ff7940e148605d40b0ab65ddf0237dc2a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:42 +0000
Subject: [PATCH 07/17] fix: refuse signature verifications that cover another
 instruction's data

Invoked by another program, the slashing program applied the offsets of the
ed25519 instruction to the data it was given, while the precompile had verified
the data of the invoking instruction: anyone could report any validator with
shreds it never signed.
---
 program/src/sigverify.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/program/src/sigverify.rs b/program/src/sigverify.rs
index 9905c24..f09896e 100644
--- a/program/src/sigverify.rs
+++ b/program/src/sigverify.rs
@@ -1,6 +1,6 @@
 //! Parsing signature verification results through instruction introspection
 use {
-    crate::error::SlashingError,
+    crate::{check_id, error::SlashingError},
     bytemuck::{Pod, Zeroable},
     solana_program::{
         account_info::AccountInfo,
@@ -120,6 +120,14 @@ impl<'a> SignatureVerification<'a> {
         // Instruction inspection to unpack successful signature verifications
         let current_index = load_current_index_checked(instructions_sysvar)
             .map_err(|_| SlashingError::InvalidSignatureVerification)?;
+        // The offsets designate data of the current top level instruction, in a
+        // cross-program invocation that is not the data we have been given
+        let current_ix = get_instruction_relative(0, instructions_sysvar)
+            .map_err(|_| SlashingError::InvalidSignatureVerification)?;
+        if !check_id(&current_ix.program_id) || current_ix.data != instruction_data {
+            msg!("Signature verification must be for a top level slashing instruction");
+            return Err(SlashingError::InvalidSignatureVerification);
+        }
         let sigverify_ix = get_instruction_relative(relative_index, instructions_sysvar)
             .map_err(|_| SlashingError::MissingSignatureVerification)?;
         if sigverify_ix.program_id != ed25519_program::id() {
-- 
2.43.0


From 73b10137c02ae7cf04f0d923c0014ac3f21e39ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 08/17] fix: skip accounts without a report when displaying or
 closing reports

---
 clients/cli/src/main.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index 250e454..9f6e24b 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -323,6 +323,15 @@ async fn report_duplicate_block_violation(
     Ok(true)
 }
 
+/// Split the data of an account owned by the slashing program into the report
+/// and its proof. Anyone can create such an account, so it might not hold a
+/// report at all, in which case this returns `None`
+fn split_report(data: &[u8]) -> Option<(&ViolationReport, &[u8])> {
+    let (report, proof) = data.split_at_checked(std::mem::size_of::<ViolationReport>())?;
+    let report: &ViolationReport = pod_from_bytes(report).ok()?;
+    (report.version > 0).then_some((report, proof))
+}
+
 /// Close a violation report
 /// If `report_account` is specified we close the report account, otherwise we
 /// close any eligible accounts filtered by `reporter`, `destination`, or
@@ -375,9 +384,10 @@ async fn command_close(
 
     let mut displays = vec![];
     for (pubkey, report_account) in reports {
-        let report: &ViolationReport =
-            pod_from_bytes(&report_account.data()[..std::mem::size_of::<ViolationReport>()])?;
-        if report.epoch() + 3 > epoch {
+        let Some((report, _)) = split_report(report_account.data()) else {
+            continue;
+        };
+        if report.epoch().saturating_add(3) > epoch {
             early_reports += 1;
             continue;
         }
@@ -455,13 +465,17 @@ async fn command_display(
 
     let mut displays = vec![];
     for (pubkey, report_account) in reports {
-        let report: &ViolationReport =
-            pod_from_bytes(&report_account.data()[..std::mem::size_of::<ViolationReport>()])?;
+        let Some((report, proof)) = split_report(report_account.data()) else {
+            continue;
+        };
         if ignore_filter(report) {
             continue;
         }
-        let proof = report_account.data()[std::mem::size_of::<ViolationReport>()..].to_vec();
-        displays.push(ViolationReportOutput::from_report(pubkey, report, proof));
+        displays.push(ViolationReportOutput::from_report(
+            pubkey,
+            report,
+            proof.to_vec(),
+        ));
     }
 
     displays.sort_by(|a, b| a.slot.cmp(&b.slot));
-- 
2.43.0


From a8953855876db4d9d1288cca9afe3e2278f845f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 09/17] fix: keep closing reports after one that cannot be
 closed

---
 clients/cli/src/main.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index 9f6e24b..530afe4 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -403,7 +403,14 @@ async fn command_close(
             &[payer.as_ref()],
             config.rpc_client.get_latest_blockhash().await?,
         );
-        let signature = process_transaction(config, transaction).await?;
+        // A report that cannot be closed must not hold up the others
+        let signature = match process_transaction(config, transaction).await {
+            Ok(signature) => signature,
+            Err(e) => {
+                eprintln_display(config, format!("Failed to close report {pubkey}: {e:?}"));
+                continue;
+            }
+        };
 
         displays.push(CloseReportOutput {
             report_account: pubkey,
-- 
2.43.0


From 4527c3a24f39af69d15cef78d1f8abe303b77019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 10/17] fix: do not panic on duplicate proofs without merkle
 roots

---
 clients/cli/src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index 530afe4..4eaf670 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -282,8 +282,10 @@ async fn report_duplicate_block_violation(
 
     // Submit the violation to the slashing program
     let payer = config.fee_payer()?;
-    let shred_1_merkle_root = layout::get_merkle_root(proof.shred1.as_ref()).unwrap();
-    let shred_2_merkle_root = layout::get_merkle_root(proof.shred2.as_ref()).unwrap();
+    let shred_1_merkle_root = layout::get_merkle_root(proof.shred1.as_ref())
+        .ok_or(Error::from("Duplicate proof has no merkle root"))?;
+    let shred_2_merkle_root = layout::get_merkle_root(proof.shred2.as_ref())
+        .ok_or(Error::from("Duplicate proof has no merkle root"))?;
     let shred_1_signature = proof.shred1.as_ref()[..SIGNATURE_BYTES].try_into().unwrap();
     let shred_2_signature = proof.shred2.as_ref()[..SIGNATURE_BYTES].try_into().unwrap();
 
-- 
2.43.0


From 3e2846e647040b63444731c0cf8bb32fac1699f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 11/17] fix: close all proof accounts even if closing one of
 them fails

---
 clients/cli/src/main.rs | 43 ++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index 4eaf670..4cb1c6c 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -196,19 +196,17 @@ async fn command_attach(
 
         // Close any proof accounts, regardless of whether the report was successful
         for proof_account in closable_proof_accounts {
-            let close_ix = spl_record::instruction::close_account(
-                &proof_account.pubkey(),
-                &payer.pubkey(),
-                &payer.pubkey(),
-            );
-            let transaction = Transaction::new_signed_with_payer(
-                &[close_ix],
-                Some(&payer.pubkey()),
-                &[payer.as_ref()],
-                config.rpc_client.get_latest_blockhash().await?,
-            );
-            if process_transaction(config, transaction).await?.is_some() {
-                println_display(config, "Closed proof account".to_string());
+            match close_proof_account(config, payer.as_ref(), &proof_account.pubkey()).await {
+                Ok(true) => println_display(config, "Closed proof account".to_string()),
+                Err(e) => eprintln_display(
+                    config,
+                    format!(
+                        "Failed to close proof account {}: {:?}",
+                        proof_account.pubkey(),
+                        e
+                    ),
+                ),
+                _ => (),
             }
         }
 
@@ -564,6 +562,25 @@ async fn initialize_and_write_proof(
     Ok(())
 }
 
+async fn close_proof_account(
+    config: &Config,
+    payer: &dyn Signer,
+    proof_account: &Pubkey,
+) -> Result<bool, Error> {
+    let close_ix = spl_record::instruction::close_account(
+        proof_account,
+        &payer.pubkey(),
+        &payer.pubkey(),
+    );
+    let transaction = Transaction::new_signed_with_payer(
+        &[close_ix],
+        Some(&payer.pubkey()),
+        &[payer],
+        config.rpc_client.get_latest_blockhash().await?,
+    );
+    Ok(process_transaction(config, transaction).await?.is_some())
+}
+
 async fn process_transaction(
     config: &Config,
     transaction: Transaction,
-- 
2.43.0


From 19c5fd476e46dbacf416d227a426f7d4162f93a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:39 +0000
Subject: [PATCH 12/17] fix: do not panic when displaying shreds that the
 ledger cannot read

---
 clients/cli/src/output.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/clients/cli/src/output.rs b/clients/cli/src/output.rs
index 4823b78..394966b 100644
--- a/clients/cli/src/output.rs
+++ b/clients/cli/src/output.rs
@@ -185,8 +185,16 @@ impl ViolationReportOutput {
     }
 
     fn display_duplicate_block_proof(w: &mut dyn Write, proof: DuplicateSlotProof) -> Result {
-        let shred1 = Shred::new_from_serialized_shred(proof.shred1).unwrap();
-        let shred2 = Shred::new_from_serialized_shred(proof.shred2).unwrap();
+        // The slashing program accepts some shreds that the ledger rejects
+        let (shred1, shred2) = match (
+            Shred::new_from_serialized_shred(proof.shred1),
+            Shred::new_from_serialized_shred(proof.shred2),
+        ) {
+            (Ok(shred1), Ok(shred2)) => (shred1, shred2),
+            (Err(e), _) | (_, Err(e)) => {
+                return writeln!(w, "    Unable to deserialize proof: {:?}", e);
+            }
+        };
 
         for (i, shred) in [&shred1, &shred2].iter().enumerate() {
             writeln!(
-- 
2.43.0


From d8f74d6bcceddd092e0ae6e0e3060c7336f3a1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:39 +0000
Subject: [PATCH 13/17] fix: report violations found in earlier slots when
 attached continuously

---
 clients/cli/src/main.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index 4cb1c6c..d86d5ca 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -35,7 +35,7 @@ use {
         primitives::PodU64,
     },
     spl_record::state::RecordData,
-    std::{path::PathBuf, rc::Rc, sync::Arc, time::Duration},
+    std::{collections::HashSet, path::PathBuf, rc::Rc, sync::Arc, time::Duration},
 };
 
 mod config;
@@ -143,7 +143,8 @@ async fn command_attach(
             err
         ))
     })?;
-    let mut starting_slot = command_config.start_slot.unwrap_or(0);
+    let starting_slot = command_config.start_slot.unwrap_or(0);
+    let mut checked_slots = HashSet::new();
     let mut reported_violations = 0;
 
     loop {
@@ -171,6 +172,10 @@ async fn command_attach(
             if slot > command_config.end_slot.unwrap_or(u64::MAX) {
                 break;
             }
+            // Proofs can show up in any order, so each scan covers all slots
+            if !checked_slots.insert(slot) {
+                continue;
+            }
 
             println_display(config, format!("\nDuplicate proof found for slot {}", slot));
 
@@ -191,7 +196,6 @@ async fn command_attach(
                   spl-slashing attach -l <LEDGER> --start-slot {slot}--end-slot {slot}", e)),
                 _ => (),
             }
-            starting_slot = slot + 1;
         }
 
         // Close any proof accounts, regardless of whether the report was successful
-- 
2.43.0


From 7aaecf389084f9b64428257aaa15365aae00f4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 14/17] fix: do not report a failed dry-run simulation as
 succeeded

---
 clients/cli/src/main.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index d86d5ca..affe12d 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -592,6 +592,11 @@ async fn process_transaction(
     if config.dry_run {
         let simulation_data = config.rpc_client.simulate_transaction(&transaction).await?;
 
+        let outcome = match &simulation_data.value.err {
+            None => "Simulation succeeded".to_string(),
+            Some(err) => format!("Simulation failed: {err}"),
+        };
+
         if config.verbose() {
             if let Some(logs) = simulation_data.value.logs {
                 for log in logs {
@@ -600,11 +605,11 @@ async fn process_transaction(
             }
 
             println!(
-                "\nSimulation succeeded, consumed {} compute units",
-                simulation_data.value.units_consumed.unwrap()
+                "\n{outcome}, consumed {} compute units",
+                simulation_data.value.units_consumed.unwrap_or_default()
             );
         } else {
-            println_display(config, "Simulation succeeded".to_string());
+            println_display(config, outcome);
         }
 
         Ok(None)
-- 
2.43.0


From 6158821eef2d4b0e7203b222a600c26409e3a48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 15/17] fix: a failing blockhash request must not end closing
 reports

---
 clients/cli/src/main.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index affe12d..3fea7d8 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -400,15 +400,8 @@ async fn command_close(
         }
         let lamports = report_account.lamports;
 
-        let close_ix = close_violation_report(&pubkey, &report.destination);
-        let transaction = Transaction::new_signed_with_payer(
-            &[close_ix],
-            Some(&payer.pubkey()),
-            &[payer.as_ref()],
-            config.rpc_client.get_latest_blockhash().await?,
-        );
         // A report that cannot be closed must not hold up the others
-        let signature = match process_transaction(config, transaction).await {
+        let signature = match close_report(config, payer.as_ref(), &pubkey, report).await {
             Ok(signature) => signature,
             Err(e) => {
                 eprintln_display(config, format!("Failed to close report {pubkey}: {e:?}"));
@@ -585,6 +578,22 @@ async fn close_proof_account(
     Ok(process_transaction(config, transaction).await?.is_some())
 }
 
+async fn close_report(
+    config: &Config,
+    payer: &dyn Signer,
+    report_account: &Pubkey,
+    report: &ViolationReport,
+) -> Result<Option<Signature>, Error> {
+    let close_ix = close_violation_report(report_account, &report.destination);
+    let transaction = Transaction::new_signed_with_payer(
+        &[close_ix],
+        Some(&payer.pubkey()),
+        &[payer],
+        config.rpc_client.get_latest_blockhash().await?,
+    );
+    process_transaction(config, transaction).await
+}
+
 async fn process_transaction(
     config: &Config,
     transaction: Transaction,
-- 
2.43.0


From 71a6eeec2e2ccaeda971c0541ec72607c6a68db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:23 +0000
Subject: [PATCH 16/17] fix: count a submitted report even if it cannot be
 shown

---
 clients/cli/src/main.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/clients/cli/src/main.rs b/clients/cli/src/main.rs
index 3fea7d8..847f927 100644
--- a/clients/cli/src/main.rs
+++ b/clients/cli/src/main.rs
@@ -315,13 +315,19 @@ async fn report_duplicate_block_violation(
         config.rpc_client.get_latest_blockhash().await?,
     );
     if let Some(_signature) = process_transaction(config, transaction).await? {
-        let report_account = config.rpc_client.get_account(&pda).await?;
-        let report: &ViolationReport =
-            pod_from_bytes(&report_account.data()[..std::mem::size_of::<ViolationReport>()])?;
-        println_display(
-            config,
-            ViolationReportOutput::from_report(pda, report, vec![]).to_string(),
-        );
+        // The report is submitted, even if it cannot be shown
+        match config.rpc_client.get_account(&pda).await {
+            Ok(report_account) => {
+                let report: &ViolationReport = pod_from_bytes(
+                    &report_account.data()[..std::mem::size_of::<ViolationReport>()],
+                )?;
+                println_display(
+                    config,
+                    ViolationReportOutput::from_report(pda, report, vec![]).to_string(),
+                );
+            }
+            Err(e) => eprintln_display(config, format!("Failed to fetch report {pda}: {e:?}")),
+        }
     }
 
     Ok(true)
-- 
2.43.0


From b53b8abe3dc26d4cfda9d88d5e2672c6d6e5df3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:39 +0000
Subject: [PATCH 17/17] fix: CLI: do not let the default signer pay when the
 fee payer given is unusable

---
 clients/cli/src/config.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/clients/cli/src/config.rs b/clients/cli/src/config.rs
index 22f9c6b..0b73ac0 100644
--- a/clients/cli/src/config.rs
+++ b/clients/cli/src/config.rs
@@ -67,13 +67,13 @@ impl Config {
             .map(Arc::from);
 
         // resolve fee-payer
-        let fee_payer = cli
-            .fee_payer
-            .and_then(|source| {
-                signer_from_source(&matches, &source, "fee_payer", wallet_manager).ok()
-            })
-            .map(Arc::from)
-            .or(default_signer.clone());
+        // A fee payer that was given is not replaced if it cannot be used
+        let fee_payer = match cli.fee_payer {
+            Some(source) => signer_from_source(&matches, &source, "fee_payer", wallet_manager)
+                .ok()
+                .map(Arc::from),
+            None => default_signer.clone(),
+        };
 
         // determine output format
         let output_format = match (cli.output_format, cli.verbose) {
-- 
2.43.0

