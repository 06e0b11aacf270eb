From a6c08ee28242c67d4e2beced9bb8ada14943c63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:02 +0000
Subject: [PATCH 1/6] fix: decode element lists without allocating for the
 declared count up front

A transaction header may declare any 64-bit number of inputs, outputs,
witnesses or storage slots. Allocating that many default elements before
reading the first one panics (capacity overflow) or aborts (out of memory)
on malformed input. Grow the list as elements are actually decoded.
---
 src/transaction/types/create.rs | 26 +++++++++++++++++---------
 src/transaction/types/mint.rs   |  6 ++++--
 src/transaction/types/script.rs | 18 ++++++++++++------
 3 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/src/transaction/types/create.rs b/src/transaction/types/create.rs
index c6a2001..656acae 100644
--- a/src/transaction/types/create.rs
+++ b/src/transaction/types/create.rs
@@ -645,32 +645,40 @@ impl io::Write for Create {
 
         let salt = salt.into();
 
-        let mut storage_slots = vec![StorageSlot::default(); storage_slots_len as usize];
-        n += StorageSlot::SLOT_SIZE * storage_slots_len as usize;
-        for storage_slot in storage_slots.iter_mut() {
+        let mut storage_slots = Vec::new();
+        for _ in 0..storage_slots_len {
+            let mut storage_slot = StorageSlot::default();
             let _ = storage_slot.write(buf)?;
             buf = &buf[StorageSlot::SLOT_SIZE..];
+            n += StorageSlot::SLOT_SIZE;
+            storage_slots.push(storage_slot);
         }
 
-        let mut inputs = vec![Input::default(); inputs_len];
-        for input in inputs.iter_mut() {
+        let mut inputs = Vec::new();
+        for _ in 0..inputs_len {
+            let mut input = Input::default();
             let input_len = input.write(buf)?;
             buf = &buf[input_len..];
             n += input_len;
+            inputs.push(input);
         }
 
-        let mut outputs = vec![Output::default(); outputs_len];
-        for output in outputs.iter_mut() {
+        let mut outputs = Vec::new();
+        for _ in 0..outputs_len {
+            let mut output = Output::default();
             let output_len = output.write(buf)?;
             buf = &buf[output_len..];
             n += output_len;
+            outputs.push(output);
         }
 
-        let mut witnesses = vec![Witness::default(); witnesses_len];
-        for witness in witnesses.iter_mut() {
+        let mut witnesses = Vec::new();
+        for _ in 0..witnesses_len {
+            let mut witness = Witness::default();
             let witness_len = witness.write(buf)?;
             buf = &buf[witness_len..];
             n += witness_len;
+            witnesses.push(witness);
         }
 
         *self = Create {
diff --git a/src/transaction/types/mint.rs b/src/transaction/types/mint.rs
index f52861a..5f0fec2 100644
--- a/src/transaction/types/mint.rs
+++ b/src/transaction/types/mint.rs
@@ -287,11 +287,13 @@ impl io::Write for Mint {
         let buf = &buf[tx_pointer.serialized_size()..];
         let (outputs_len, mut buf) = unsafe { bytes::restore_usize_unchecked(buf) };
 
-        let mut outputs = vec![Output::default(); outputs_len];
-        for output in outputs.iter_mut() {
+        let mut outputs = Vec::new();
+        for _ in 0..outputs_len {
+            let mut output = Output::default();
             let output_len = output.write(buf)?;
             buf = &buf[output_len..];
             n += output_len;
+            outputs.push(output);
         }
 
         *self = Mint {
diff --git a/src/transaction/types/script.rs b/src/transaction/types/script.rs
index 666796d..b57606c 100644
--- a/src/transaction/types/script.rs
+++ b/src/transaction/types/script.rs
@@ -636,25 +636,31 @@ impl io::Write for Script {
         let (size, script_data, mut buf) = bytes::restore_raw_bytes(buf, script_data_len)?;
         n += size;
 
-        let mut inputs = vec![Input::default(); inputs_len];
-        for input in inputs.iter_mut() {
+        let mut inputs = Vec::new();
+        for _ in 0..inputs_len {
+            let mut input = Input::default();
             let input_len = input.write(buf)?;
             buf = &buf[input_len..];
             n += input_len;
+            inputs.push(input);
         }
 
-        let mut outputs = vec![Output::default(); outputs_len];
-        for output in outputs.iter_mut() {
+        let mut outputs = Vec::new();
+        for _ in 0..outputs_len {
+            let mut output = Output::default();
             let output_len = output.write(buf)?;
             buf = &buf[output_len..];
             n += output_len;
+            outputs.push(output);
         }
 
-        let mut witnesses = vec![Witness::default(); witnesses_len];
-        for witness in witnesses.iter_mut() {
+        let mut witnesses = Vec::new();
+        for _ in 0..witnesses_len {
+            let mut witness = Witness::default();
             let witness_len = witness.write(buf)?;
             buf = &buf[witness_len..];
             n += witness_len;
+            witnesses.push(witness);
         }
 
         *self = Script {
-- 
2.43.0


From 89ca21a50b84d74961ddd7da8d697525d892a363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:09 +0000
Subject: [PATCH 2/6] fix: decode the full storage slots count of a create
 transaction

The count is encoded as a word but was restored as a 16-bit number, so that
a declared count of 65536 was accepted as zero slots and creates with more
than 65535 slots did not decode to themselves.
---
 src/transaction/types/create.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transaction/types/create.rs b/src/transaction/types/create.rs
index 656acae..eb398b4 100644
--- a/src/transaction/types/create.rs
+++ b/src/transaction/types/create.rs
@@ -637,7 +637,7 @@ impl io::Write for Create {
         let (maturity, buf) = unsafe { bytes::restore_number_unchecked(buf) };
         let (bytecode_length, buf) = unsafe { bytes::restore_number_unchecked(buf) };
         let (bytecode_witness_index, buf) = unsafe { bytes::restore_u8_unchecked(buf) };
-        let (storage_slots_len, buf) = unsafe { bytes::restore_u16_unchecked(buf) };
+        let (storage_slots_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
         let (inputs_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
         let (outputs_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
         let (witnesses_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
-- 
2.43.0


From 4b8c71f6f145608ccf28a31dcbe574a1ed8d1426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 3/6] fix: reject byte-string lengths past the buffer before
 padding arithmetic

Lengths come from the wire and may be anything up to 2^64-1; adding the
padding to a length close to the maximum overflows, so that decoding a
malformed script, input, witness or receipt panicked instead of failing.
---
 src/lib.rs                       |  3 +++
 src/receipt/receipt_std.rs       |  7 ++++---
 src/restore.rs                   | 24 ++++++++++++++++++++++++
 src/transaction/types/input.rs   | 13 ++++++++-----
 src/transaction/types/script.rs  |  7 +++++--
 src/transaction/types/witness.rs |  5 ++++-
 6 files changed, 48 insertions(+), 11 deletions(-)
 create mode 100644 src/restore.rs

diff --git a/src/lib.rs b/src/lib.rs
index 5bd0355..ef65d6a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -13,6 +13,9 @@ extern crate alloc;
 pub mod consts;
 mod tx_pointer;
 
+#[cfg(feature = "std")]
+mod restore;
+
 pub use fuel_asm::{InstructionResult, PanicReason};
 pub use fuel_types::{
     Address, AssetId, Bytes32, Bytes4, Bytes64, Bytes8, ContractId, MessageId, Salt, Word,
diff --git a/src/receipt/receipt_std.rs b/src/receipt/receipt_std.rs
index 2e09c74..ff8d9b4 100644
--- a/src/receipt/receipt_std.rs
+++ b/src/receipt/receipt_std.rs
@@ -5,6 +5,7 @@ use fuel_types::bytes::{self, SizedBytes, WORD_SIZE};
 use fuel_types::Word;
 
 use crate::receipt::script_result::ScriptExecutionResult;
+use crate::restore::restore_bytes;
 use std::io::{self, Write};
 
 impl io::Read for Receipt {
@@ -269,7 +270,7 @@ impl io::Write for Receipt {
                 let (len, buf) = unsafe { bytes::restore_word_unchecked(buf) };
                 let (digest, buf) = unsafe { bytes::restore_array_unchecked(buf) };
 
-                let (count, data, buf) = bytes::restore_bytes(buf)?;
+                let (count, data, buf) = restore_bytes(buf)?;
 
                 used_len += count;
                 if orig_buf_len < used_len {
@@ -329,7 +330,7 @@ impl io::Write for Receipt {
                 let (len, buf) = unsafe { bytes::restore_word_unchecked(buf) };
                 let (digest, buf) = unsafe { bytes::restore_array_unchecked(buf) };
 
-                let (count, data, buf) = bytes::restore_bytes(buf)?;
+                let (count, data, buf) = restore_bytes(buf)?;
 
                 used_len += count;
                 if orig_buf_len < used_len {
@@ -392,7 +393,7 @@ impl io::Write for Receipt {
                 let (nonce, buf) = unsafe { bytes::restore_array_unchecked(buf) };
                 let (len, buf) = unsafe { bytes::restore_word_unchecked(buf) };
                 let (digest, buf) = unsafe { bytes::restore_array_unchecked(buf) };
-                let (count, data, _) = bytes::restore_bytes(buf)?;
+                let (count, data, _) = restore_bytes(buf)?;
 
                 used_len += count;
                 if orig_buf_len < used_len {
diff --git a/src/restore.rs b/src/restore.rs
new file mode 100644
index 0000000..2eeeab6
--- /dev/null
+++ b/src/restore.rs
@@ -0,0 +1,24 @@
+//! Restore length-prefixed bytes whose length comes from untrusted input.
+
+use fuel_types::bytes::{self, WORD_SIZE};
+use fuel_types::Word;
+
+use std::io;
+
+/// As [`bytes::restore_raw_bytes`], but a length past the end of the buffer is rejected before it
+/// takes part in the padding arithmetic, where values close to `usize::MAX` overflow.
+pub(crate) fn restore_raw_bytes(buf: &[u8], len: usize) -> io::Result<(usize, Vec<u8>, &[u8])> {
+    if buf.len() < len {
+        return Err(bytes::eof());
+    }
+
+    bytes::restore_raw_bytes(buf, len)
+}
+
+/// As [`bytes::restore_bytes`], with the length checked as in [`restore_raw_bytes`].
+pub(crate) fn restore_bytes(buf: &[u8]) -> io::Result<(usize, Vec<u8>, &[u8])> {
+    let (len, buf): (Word, _) = bytes::restore_number(buf)?;
+    let (n, data, buf) = restore_raw_bytes(buf, len as usize)?;
+
+    Ok((WORD_SIZE + n, data, buf))
+}
diff --git a/src/transaction/types/input.rs b/src/transaction/types/input.rs
index 6c3562b..0658140 100644
--- a/src/transaction/types/input.rs
+++ b/src/transaction/types/input.rs
@@ -6,6 +6,9 @@ use fuel_types::{Address, AssetId, Bytes32, ContractId, MessageId, Word};
 
 use core::mem;
 
+#[cfg(feature = "std")]
+use crate::restore::restore_raw_bytes;
+
 #[cfg(feature = "std")]
 use fuel_types::bytes::{Deserializable, SizedBytes, WORD_SIZE};
 
@@ -733,10 +736,10 @@ impl io::Write for Input {
                 let (predicate_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
                 let (predicate_data_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
 
-                let (size, predicate, buf) = bytes::restore_raw_bytes(buf, predicate_len)?;
+                let (size, predicate, buf) = restore_raw_bytes(buf, predicate_len)?;
                 n += size;
 
-                let (size, predicate_data, _) = bytes::restore_raw_bytes(buf, predicate_data_len)?;
+                let (size, predicate_data, _) = restore_raw_bytes(buf, predicate_data_len)?;
                 n += size;
 
                 let owner = owner.into();
@@ -817,13 +820,13 @@ impl io::Write for Input {
                 let (predicate_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
                 let (predicate_data_len, buf) = unsafe { bytes::restore_usize_unchecked(buf) };
 
-                let (size, data, buf) = bytes::restore_raw_bytes(buf, data_len)?;
+                let (size, data, buf) = restore_raw_bytes(buf, data_len)?;
                 n += size;
 
-                let (size, predicate, buf) = bytes::restore_raw_bytes(buf, predicate_len)?;
+                let (size, predicate, buf) = restore_raw_bytes(buf, predicate_len)?;
                 n += size;
 
-                let (size, predicate_data, _) = bytes::restore_raw_bytes(buf, predicate_data_len)?;
+                let (size, predicate_data, _) = restore_raw_bytes(buf, predicate_data_len)?;
                 n += size;
 
                 let message_id = message_id.into();
diff --git a/src/transaction/types/script.rs b/src/transaction/types/script.rs
index b57606c..9f67fc7 100644
--- a/src/transaction/types/script.rs
+++ b/src/transaction/types/script.rs
@@ -12,6 +12,9 @@ use derivative::Derivative;
 use fuel_types::bytes::{SizedBytes, WORD_SIZE};
 use fuel_types::{bytes, Bytes32, Word};
 
+#[cfg(feature = "std")]
+use crate::restore::restore_raw_bytes;
+
 #[cfg(feature = "std")]
 use std::io;
 
@@ -630,10 +633,10 @@ impl io::Write for Script {
 
         let receipts_root = receipts_root.into();
 
-        let (size, script, buf) = bytes::restore_raw_bytes(buf, script_len)?;
+        let (size, script, buf) = restore_raw_bytes(buf, script_len)?;
         n += size;
 
-        let (size, script_data, mut buf) = bytes::restore_raw_bytes(buf, script_data_len)?;
+        let (size, script_data, mut buf) = restore_raw_bytes(buf, script_data_len)?;
         n += size;
 
         let mut inputs = Vec::new();
diff --git a/src/transaction/types/witness.rs b/src/transaction/types/witness.rs
index e7b5211..4c0499d 100644
--- a/src/transaction/types/witness.rs
+++ b/src/transaction/types/witness.rs
@@ -8,6 +8,9 @@ use rand::{
 
 use alloc::vec::Vec;
 
+#[cfg(feature = "std")]
+use crate::restore::restore_bytes;
+
 #[cfg(feature = "std")]
 use std::io;
 
@@ -89,7 +92,7 @@ impl io::Read for Witness {
 #[cfg(feature = "std")]
 impl io::Write for Witness {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
-        bytes::restore_bytes(buf).map(|(n, data, _)| {
+        restore_bytes(buf).map(|(n, data, _)| {
             self.data = data;
             n
         })
-- 
2.43.0


From 135ad03d7df5ecf413ed7f0fa05882ca79088510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 4/6] fix: write the reserved tail of script result and message
 out receipts

Reading these receipts into a caller's buffer left the last 48 bytes of the
reported size as they were, so the encoding depended on what the buffer held.
---
 src/receipt/receipt_std.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/receipt/receipt_std.rs b/src/receipt/receipt_std.rs
index ff8d9b4..8bcb559 100644
--- a/src/receipt/receipt_std.rs
+++ b/src/receipt/receipt_std.rs
@@ -16,6 +16,8 @@ impl io::Read for Receipt {
             return Err(bytes::eof());
         }
 
+        let buf = &mut buf[..len];
+
         match self {
             Self::Call {
                 id,
@@ -185,7 +187,10 @@ impl io::Read for Receipt {
                 let result = Word::from(*result);
                 let buf = bytes::store_number_unchecked(buf, result);
 
-                bytes::store_number_unchecked(buf, *gas_used);
+                let buf = bytes::store_number_unchecked(buf, *gas_used);
+
+                // The rest of the reported size is reserved
+                buf.fill(0);
             }
 
             Self::MessageOut {
@@ -208,7 +213,10 @@ impl io::Read for Receipt {
                 let buf = bytes::store_number_unchecked(buf, *len);
                 let buf = bytes::store_array_unchecked(buf, digest);
 
-                bytes::store_bytes(buf, data)?;
+                let (_, buf) = bytes::store_bytes(buf, data)?;
+
+                // The rest of the reported size is reserved
+                buf.fill(0);
             }
         }
 
-- 
2.43.0


From 2a549ce3be08f0bd8b4f70e10a4ab69d5e3ef9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:38 +0000
Subject: [PATCH 5/6] fix: report overflow of the sum of an asset's inputs

Two inputs of an asset whose amounts add up to more than 64 bits panicked
in debug builds and wrapped, losing funds, in release builds.
---
 src/checked_transaction.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/checked_transaction.rs b/src/checked_transaction.rs
index 3a8ef7d..21b589e 100644
--- a/src/checked_transaction.rs
+++ b/src/checked_transaction.rs
@@ -312,7 +312,10 @@ where
         }
         _ => None,
     }) {
-        *balances.entry(asset_id).or_default() += amount;
+        let balance = balances.entry(asset_id).or_default();
+        *balance = balance
+            .checked_add(*amount)
+            .ok_or(CheckError::ArithmeticOverflow)?;
     }
 
     // Deduct fee from base asset
-- 
2.43.0


From b49b538f27e8bd04e28cb3550242b6296c50a2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:14 +0000
Subject: [PATCH 6/6] fix: refuse non-ASCII text before slicing it in UTXO id
 and transaction pointer parsing

---
 src/transaction/types/utxo_id.rs | 4 ++++
 src/tx_pointer.rs                | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/transaction/types/utxo_id.rs b/src/transaction/types/utxo_id.rs
index c4c89b3..839f004 100644
--- a/src/transaction/types/utxo_id.rs
+++ b/src/transaction/types/utxo_id.rs
@@ -85,6 +85,10 @@ impl str::FromStr for UtxoId {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         const ERR: &str = "Invalid encoded byte";
         let s = s.trim_start_matches("0x");
+        if !s.is_ascii() {
+            return Err(ERR);
+        }
+
         let utxo_id = if s.is_empty() {
             UtxoId::new(Bytes32::default(), 0)
         } else if s.len() > 2 {
diff --git a/src/tx_pointer.rs b/src/tx_pointer.rs
index b0d66bf..0278ec3 100644
--- a/src/tx_pointer.rs
+++ b/src/tx_pointer.rs
@@ -68,7 +68,7 @@ impl str::FromStr for TxPointer {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         const ERR: &str = "Invalid encoded byte";
 
-        if s.len() != 12 {
+        if s.len() != 12 || !s.is_ascii() {
             return Err(ERR);
         }
 
-- 
2.43.0

