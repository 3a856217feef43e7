From 041d1d1a96f4e85d6e1cc0d7d5958c65afcdb02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:03 +0000
Subject: [PATCH 01/32] hook: in-process simulator entry for the bridge and
 proxy programs (cfg nifty_dst)

---
 programs/bridge/src/entrypoint.rs | 15 ++++++++++++++-
 programs/bridge/src/lib.rs        |  3 +++
 programs/proxy/src/entrypoint.rs  | 15 ++++++++++++++-
 programs/proxy/src/lib.rs         |  3 +++
 4 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/programs/bridge/src/entrypoint.rs b/programs/bridge/src/entrypoint.rs
index b449299..2939934 100644
--- a/programs/bridge/src/entrypoint.rs
+++ b/programs/bridge/src/entrypoint.rs
@@ -1,6 +1,7 @@
+#[cfg(not(nifty_dst))]
+use solana_program::entrypoint;
 use solana_program::{
     account_info::AccountInfo,
-    entrypoint,
     entrypoint::ProgramResult,
     program_error::{PrintProgramError, ProgramError},
     pubkey::Pubkey,
@@ -8,6 +9,7 @@ use solana_program::{
 
 use crate::{error::BridgeError, processor};
 
+#[cfg(not(nifty_dst))]
 entrypoint!(process_instruction);
 fn process_instruction<'a>(
     program_id: &'a Pubkey,
@@ -25,3 +27,14 @@ fn process_instruction<'a>(
     }
     Ok(())
 }
+
+/// Entry for the deterministic simulator (`--cfg nifty_dst`); it stands in for the
+/// exported `entrypoint` symbol, which two programs cannot both define in one process.
+#[cfg(nifty_dst)]
+pub fn simulate<'a>(
+    program_id: &'a Pubkey,
+    accounts: &'a [AccountInfo<'a>],
+    instruction_data: &[u8],
+) -> ProgramResult {
+    process_instruction(program_id, accounts, instruction_data)
+}
diff --git a/programs/bridge/src/lib.rs b/programs/bridge/src/lib.rs
index 8225b9e..6fb5c76 100644
--- a/programs/bridge/src/lib.rs
+++ b/programs/bridge/src/lib.rs
@@ -4,4 +4,7 @@ mod instruction;
 mod processor;
 mod state;
 
+#[cfg(nifty_dst)]
+pub use entrypoint::simulate;
+
 solana_program::declare_id!("BridgezKrNugsZwTcyAMYba643Z93RzC2yN1Y24LwAkm");
diff --git a/programs/proxy/src/entrypoint.rs b/programs/proxy/src/entrypoint.rs
index bf0c218..88cbbe7 100644
--- a/programs/proxy/src/entrypoint.rs
+++ b/programs/proxy/src/entrypoint.rs
@@ -1,6 +1,7 @@
+#[cfg(not(nifty_dst))]
+use solana_program::entrypoint;
 use solana_program::{
     account_info::AccountInfo,
-    entrypoint,
     entrypoint::ProgramResult,
     program_error::{PrintProgramError, ProgramError},
     pubkey::Pubkey,
@@ -8,6 +9,7 @@ use solana_program::{
 
 use crate::{error::ProxyError, processor};
 
+#[cfg(not(nifty_dst))]
 entrypoint!(process_instruction);
 fn process_instruction<'a>(
     program_id: &'a Pubkey,
@@ -28,3 +30,14 @@ fn process_instruction<'a>(
 
     Ok(())
 }
+
+/// Entry for the deterministic simulator (`--cfg nifty_dst`); it stands in for the
+/// exported `entrypoint` symbol, which two programs cannot both define in one process.
+#[cfg(nifty_dst)]
+pub fn simulate<'a>(
+    program_id: &'a Pubkey,
+    accounts: &'a [AccountInfo<'a>],
+    instruction_data: &[u8],
+) -> ProgramResult {
+    process_instruction(program_id, accounts, instruction_data)
+}
diff --git a/programs/proxy/src/lib.rs b/programs/proxy/src/lib.rs
index 418464d..830a7d8 100644
--- a/programs/proxy/src/lib.rs
+++ b/programs/proxy/src/lib.rs
@@ -3,4 +3,7 @@ mod error;
 mod instruction;
 mod processor;
 
+#[cfg(nifty_dst)]
+pub use entrypoint::simulate;
+
 solana_program::declare_id!("Proxy11111111111111111111111111111111111111");
-- 
2.43.0


From 7a3a262c59ed503c2c089d75b4eda83f94d303de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:31 +0000
Subject: [PATCH 02/32] fix: validate the extension data of an update buffer,
 not its header

---
 programs/asset/program/src/processor/update.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/update.rs b/programs/asset/program/src/processor/update.rs
index ca6ccd8..15b0d3c 100644
--- a/programs/asset/program/src/processor/update.rs
+++ b/programs/asset/program/src/processor/update.rs
@@ -202,10 +202,11 @@ pub fn process_update(
             drop(extension_data);
 
             let start = offset + Extension::LEN;
+            let buffer_start = Asset::LEN + Extension::LEN;
             // validate the extension data
             validate(
                 extension_type,
-                &mut buffer.try_borrow_mut_data()?[Asset::LEN..Asset::LEN + header_length],
+                &mut buffer.try_borrow_mut_data()?[buffer_start..buffer_start + header_length],
                 if update {
                     Some(&mut account_data[start..start + current_length])
                 } else {
-- 
2.43.0


From 41541de9467c0af28200e019fdb191242109ffaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:31 +0000
Subject: [PATCH 03/32] fix: validate extension updates that carry no data

---
 .../asset/program/src/processor/update.rs     | 33 +++++++++----------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/programs/asset/program/src/processor/update.rs b/programs/asset/program/src/processor/update.rs
index 15b0d3c..8a31cef 100644
--- a/programs/asset/program/src/processor/update.rs
+++ b/programs/asset/program/src/processor/update.rs
@@ -220,25 +220,22 @@ pub fn process_update(
 
             (header_length, None)
         } else if let Some(args) = args.extension {
-            let length = if let Some(mut extension_data) = args.data {
-                let start = offset + Extension::LEN;
-                // validate the extension data
-                validate(
-                    extension_type,
-                    extension_data.as_mut_slice(),
-                    if update {
-                        Some(&mut account_data[start..start + current_length])
-                    } else {
-                        None
-                    },
-                    ctx.accounts.authority.key(),
-                )?;
+            // an extension without data is validated as an empty one
+            let mut extension_data = args.data.unwrap_or_default();
+            let start = offset + Extension::LEN;
+            // validate the extension data
+            validate(
+                extension_type,
+                extension_data.as_mut_slice(),
+                if update {
+                    Some(&mut account_data[start..start + current_length])
+                } else {
+                    None
+                },
+                ctx.accounts.authority.key(),
+            )?;
 
-                (extension_data.len(), Some(extension_data))
-            } else {
-                // extension does not have any data
-                (0, None)
-            };
+            let length = (extension_data.len(), Some(extension_data));
 
             #[cfg(feature = "logging")]
             msg!("Updating extension from instruction data");
-- 
2.43.0


From 9c916a90d60419a5ba015435e1f68792307d8906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:31 +0000
Subject: [PATCH 04/32] fix: stop at the unused space of the account when
 updating extensions

---
 programs/asset/program/src/processor/update.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/programs/asset/program/src/processor/update.rs b/programs/asset/program/src/processor/update.rs
index 8a31cef..20f65bc 100644
--- a/programs/asset/program/src/processor/update.rs
+++ b/programs/asset/program/src/processor/update.rs
@@ -158,7 +158,7 @@ pub fn process_update(
         //   - update flag (false when creating the extension)
         let mut extension = None;
 
-        while offset < account_data.len() {
+        while offset + Extension::LEN <= account_data.len() {
             let current = Extension::load(&account_data[offset..offset + Extension::LEN]);
 
             match current.try_extension_type() {
@@ -344,8 +344,14 @@ pub fn process_update(
         // updates the boundaries of any subsequent extensions
         let mut cursor = updated_boundary;
 
-        while cursor < account_data.len() {
+        while cursor + Extension::LEN <= account_data.len() {
             let extension = Extension::load_mut(&mut account_data[cursor..cursor + Extension::LEN]);
+
+            // unused space after the last extension
+            if matches!(extension.try_extension_type(), Ok(ExtensionType::None)) {
+                break;
+            }
+
             let boundary = extension.boundary().saturating_add_signed(delta);
             extension.set_boundary(boundary);
             cursor = boundary as usize;
-- 
2.43.0


From cd0b307586503ad94cac83e997321ff6f757e63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:31 +0000
Subject: [PATCH 05/32] fix: reject updates of the None extension type

---
 programs/asset/program/src/processor/update.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/programs/asset/program/src/processor/update.rs b/programs/asset/program/src/processor/update.rs
index 20f65bc..05883de 100644
--- a/programs/asset/program/src/processor/update.rs
+++ b/programs/asset/program/src/processor/update.rs
@@ -151,6 +151,12 @@ pub fn process_update(
             return Err(ProgramError::InvalidInstructionData);
         };
 
+        require!(
+            extension_type != ExtensionType::None,
+            AssetError::ExtensionDataInvalid,
+            "invalid extension type: None"
+        );
+
         let mut offset = Asset::LEN;
         // extension details:
         //   - current length
-- 
2.43.0


From 50ef7f5cb2284ac1fa3d4cc847fcc01ca12ae6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:31 +0000
Subject: [PATCH 06/32] fix: accept either delegate when both the asset and its
 manager have one

---
 programs/asset/program/src/utils.rs | 49 +++++++++++++++--------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/programs/asset/program/src/utils.rs b/programs/asset/program/src/utils.rs
index f726f1c..2ceee8a 100644
--- a/programs/asset/program/src/utils.rs
+++ b/programs/asset/program/src/utils.rs
@@ -26,36 +26,39 @@ pub fn close_program_account(account: &AccountInfo, recipient: &AccountInfo) ->
     Ok(())
 }
 
-#[allow(clippy::manual_try_fold)]
+/// Asserts that the target is one of the delegates, with the role active.
 #[inline(always)]
 pub fn assert_delegate(
     delegates: &[Option<&Delegate>],
     target: &Pubkey,
     role: DelegateRole,
 ) -> ProgramResult {
-    delegates.iter().fold(
-        Err(AssetError::DelegateNotFound.into()),
-        |result, delegate| {
-            if let Some(delegate) = delegate {
-                require!(
-                    *delegate.address == *target,
-                    AssetError::InvalidDelegate,
-                    "invalid delegate"
-                );
+    require!(
+        delegates.iter().any(|delegate| delegate.is_some()),
+        AssetError::DelegateNotFound,
+        "delegate not found"
+    );
+
+    let mut matches = delegates
+        .iter()
+        .flatten()
+        .filter(|delegate| *delegate.address == *target)
+        .peekable();
+
+    require!(
+        matches.peek().is_some(),
+        AssetError::InvalidDelegate,
+        "invalid delegate"
+    );
+
+    require!(
+        matches.any(|delegate| delegate.is_active(role)),
+        AssetError::DelegateRoleNotActive,
+        "missing \"{:?}\" role",
+        role
+    );
 
-                require!(
-                    delegate.is_active(role),
-                    AssetError::DelegateRoleNotActive,
-                    "missing \"{:?}\" role",
-                    role
-                );
-
-                Ok(())
-            } else {
-                result
-            }
-        },
-    )
+    Ok(())
 }
 
 #[macro_export]
-- 
2.43.0


From 4e86079a00a4328e1b4886498dd784aa6e561df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:31 +0000
Subject: [PATCH 07/32] fix: do not wrap the sum of the creators' shares

---
 .../asset/types/src/extensions/creators.rs    | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/programs/asset/types/src/extensions/creators.rs b/programs/asset/types/src/extensions/creators.rs
index c2b9c5a..02893b4 100644
--- a/programs/asset/types/src/extensions/creators.rs
+++ b/programs/asset/types/src/extensions/creators.rs
@@ -67,7 +67,7 @@ impl<'a> ExtensionDataMut<'a> for CreatorsMut<'a> {
 impl Lifecycle for CreatorsMut<'_> {
     /// Validates the creators' share added up to `100`.
     fn on_create(&mut self, authority: Option<&Pubkey>) -> Result<(), Error> {
-        let mut total = 0;
+        let mut total = 0u32;
 
         self.creators.iter_mut().for_each(|creator| {
             // creators are always initialized as unverified, unless it matches
@@ -77,18 +77,21 @@ impl Lifecycle for CreatorsMut<'_> {
             } else {
                 false.into()
             };
-            total += creator.share;
+            total += creator.share as u32;
         });
 
-        if total != TOTAL_SHARE {
-            Err(Error::InvalidCreatorsTotalShare(TOTAL_SHARE, total))
+        if total != TOTAL_SHARE as u32 {
+            Err(Error::InvalidCreatorsTotalShare(
+                TOTAL_SHARE,
+                total.min(u8::MAX as u32) as u8,
+            ))
         } else {
             Ok(())
         }
     }
 
     fn on_update(&mut self, other: &mut Self, authority: Option<&Pubkey>) -> Result<(), Error> {
-        let mut total = 0;
+        let mut total = 0u32;
         other.creators.iter_mut().for_each(|creator| {
             if let Some(original) = self.get(&creator.address) {
                 // creators maintain their verified status
@@ -102,11 +105,14 @@ impl Lifecycle for CreatorsMut<'_> {
                     false.into()
                 };
             }
-            total += creator.share;
+            total += creator.share as u32;
         });
 
-        if total != 100 {
-            return Err(Error::InvalidCreatorsTotalShare(TOTAL_SHARE, total));
+        if total != TOTAL_SHARE as u32 {
+            return Err(Error::InvalidCreatorsTotalShare(
+                TOTAL_SHARE,
+                total.min(u8::MAX as u32) as u8,
+            ));
         }
 
         for creator in self.creators.iter() {
-- 
2.43.0


From 0d612fa08e1d15809ca4964db33af485db94e494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:31 +0000
Subject: [PATCH 08/32] fix: do not verify the authority as a creator unless it
 signed the create

---
 programs/asset/program/src/processor/create.rs | 6 +++++-
 programs/bridge/src/processor/create.rs        | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/programs/asset/program/src/processor/create.rs b/programs/asset/program/src/processor/create.rs
index 975e562..f65fb15 100644
--- a/programs/asset/program/src/processor/create.rs
+++ b/programs/asset/program/src/processor/create.rs
@@ -189,7 +189,11 @@ pub fn process_create(
         on_create(
             extension.extension_type(),
             &mut current[..extension.length() as usize],
-            Some(ctx.accounts.authority.key()),
+            // the authority only verifies itself as a creator when it signed
+            ctx.accounts
+                .authority
+                .is_signer()
+                .then(|| ctx.accounts.authority.key()),
         )
         .map_err(|error| {
             msg!("[ERROR] {}", error);
diff --git a/programs/bridge/src/processor/create.rs b/programs/bridge/src/processor/create.rs
index 7e310c4..609a78e 100644
--- a/programs/bridge/src/processor/create.rs
+++ b/programs/bridge/src/processor/create.rs
@@ -273,7 +273,10 @@ pub fn process_create(
 
     CreateCpiBuilder::new(ctx.accounts.nifty_asset_program)
         .asset(ctx.accounts.asset)
-        .authority(ctx.accounts.update_authority, false)
+        .authority(
+            ctx.accounts.update_authority,
+            ctx.accounts.update_authority.is_signer,
+        )
         .owner(ctx.accounts.vault)
         .payer(Some(ctx.accounts.payer))
         .system_program(Some(ctx.accounts.system_program))
-- 
2.43.0


From 5a866b46d6e5f69e456e9ab621313ee6eb79e8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:31 +0000
Subject: [PATCH 09/32] fix: pad the extension completed by an overwrite to its
 boundary

---
 programs/asset/program/src/processor/write.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/write.rs b/programs/asset/program/src/processor/write.rs
index 7a9d870..8895e97 100644
--- a/programs/asset/program/src/processor/write.rs
+++ b/programs/asset/program/src/processor/write.rs
@@ -90,8 +90,14 @@ pub(crate) fn process_write(
         #[cfg(feature = "logging")]
         msg!("Overwriting extension data");
 
+        let mut extended = offset.saturating_add(data.bytes.len());
+
+        if extended == expected {
+            extended = boundary as usize;
+        }
+
         resize(
-            offset.saturating_add(data.bytes.len()),
+            extended,
             ctx.accounts.asset,
             Some(ctx.accounts.payer),
             Some(ctx.accounts.system_program),
-- 
2.43.0


From 7e26a528c5c668b2b11e96d3562e8afdeb826e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:31 +0000
Subject: [PATCH 10/32] fix: reject writes past the declared length of the
 extension

---
 programs/asset/program/src/processor/write.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/programs/asset/program/src/processor/write.rs b/programs/asset/program/src/processor/write.rs
index 8895e97..6639e6d 100644
--- a/programs/asset/program/src/processor/write.rs
+++ b/programs/asset/program/src/processor/write.rs
@@ -84,8 +84,19 @@ pub(crate) fn process_write(
         return err!(AssetError::InvalidAccountLength);
     }
 
+    let length = asset_data.len();
+
     drop(asset_data);
 
+    // the data must fit in the extension
+    let start = if data.overwrite { offset } else { length };
+
+    require!(
+        start.saturating_add(data.bytes.len()) <= expected,
+        AssetError::ExtensionLengthInvalid,
+        "data exceeds the extension length"
+    );
+
     let offset = if data.overwrite {
         #[cfg(feature = "logging")]
         msg!("Overwriting extension data");
-- 
2.43.0


From e24fb2ea09f4c484ed69753ecf6b0551af78e89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:31 +0000
Subject: [PATCH 11/32] fix: find an empty extension at the end of the account
 when removing

---
 programs/asset/program/src/processor/remove.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/remove.rs b/programs/asset/program/src/processor/remove.rs
index 3cfbd62..14167b8 100644
--- a/programs/asset/program/src/processor/remove.rs
+++ b/programs/asset/program/src/processor/remove.rs
@@ -71,7 +71,7 @@ pub fn process_remove(
     let mut offset = Asset::LEN;
     let mut boundary = None;
 
-    while offset + Extension::LEN < account_data.len() {
+    while offset + Extension::LEN <= account_data.len() {
         let current = Extension::load(&account_data[offset..offset + Extension::LEN]);
 
         match current.try_extension_type() {
-- 
2.43.0


From 2206c02aa6811922e9a4d2024ff290cd53d88256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:31 +0000
Subject: [PATCH 12/32] fix: update the boundaries of the extensions after a
 removed one

---
 .../asset/program/src/processor/remove.rs     | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/programs/asset/program/src/processor/remove.rs b/programs/asset/program/src/processor/remove.rs
index 14167b8..9f0e54e 100644
--- a/programs/asset/program/src/processor/remove.rs
+++ b/programs/asset/program/src/processor/remove.rs
@@ -126,6 +126,26 @@ pub fn process_remove(
     }
 
     let bytes_to_remove = boundary.saturating_sub(offset);
+
+    // updates the boundaries of the extensions that were moved
+    let mut account_data = ctx.accounts.asset.try_borrow_mut_data()?;
+    let end = offset + bytes_to_move;
+
+    while offset + Extension::LEN <= end {
+        let extension = Extension::load_mut(&mut account_data[offset..offset + Extension::LEN]);
+
+        // unused space after the last extension
+        if matches!(extension.try_extension_type(), Ok(ExtensionType::None)) {
+            break;
+        }
+
+        let boundary = extension.boundary().saturating_sub(bytes_to_remove as u32);
+        extension.set_boundary(boundary);
+        offset = boundary as usize;
+    }
+
+    drop(account_data);
+
     resize(
         ctx.accounts
             .asset
-- 
2.43.0


From 097f8fb82cf9a43366d28ff33bc8d81853cebb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:31 +0000
Subject: [PATCH 13/32] fix: reject the removal of the None extension type

---
 programs/asset/program/src/processor/remove.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/remove.rs b/programs/asset/program/src/processor/remove.rs
index 9f0e54e..c4d30f5 100644
--- a/programs/asset/program/src/processor/remove.rs
+++ b/programs/asset/program/src/processor/remove.rs
@@ -89,7 +89,7 @@ pub fn process_remove(
     let boundary = boundary.ok_or(AssetError::ExtensionNotFound)?;
 
     match extension_type {
-        ExtensionType::Manager | ExtensionType::Proxy => {
+        ExtensionType::None | ExtensionType::Manager | ExtensionType::Proxy => {
             return err!(
                 AssetError::ExtensionDataInvalid,
                 "invalid extension type: {:?}",
-- 
2.43.0


From b1dc669ebe029d10caafffc291d39ef1b21d2304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:31 +0000
Subject: [PATCH 14/32] fix: reject the allocation of the None extension type

---
 programs/asset/program/src/processor/allocate.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/allocate.rs b/programs/asset/program/src/processor/allocate.rs
index fdc4e71..ff5bbc8 100644
--- a/programs/asset/program/src/processor/allocate.rs
+++ b/programs/asset/program/src/processor/allocate.rs
@@ -1,5 +1,5 @@
 use nifty_asset_types::{
-    extensions::Extension,
+    extensions::{Extension, ExtensionType},
     podded::ZeroCopy,
     state::{Asset, Discriminator},
 };
@@ -40,6 +40,12 @@ pub fn process_allocate(
         "asset"
     );
 
+    require!(
+        args.extension.extension_type != ExtensionType::None,
+        AssetError::ExtensionDataInvalid,
+        "invalid extension type: None"
+    );
+
     // offset on the account data where the new extension will be written; this will
     // include any padding required to maintain the 8-bytes alignment
     let (exists, offset) = if ctx.accounts.asset.data_is_empty() {
-- 
2.43.0


From 925e734be5f4ae60c364b8d874042c59457496cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:31 +0000
Subject: [PATCH 15/32] fix: ProxyMut is the proxy extension, not the manager
 one

---
 programs/asset/types/src/extensions/proxy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/asset/types/src/extensions/proxy.rs b/programs/asset/types/src/extensions/proxy.rs
index abef803..0c46abd 100644
--- a/programs/asset/types/src/extensions/proxy.rs
+++ b/programs/asset/types/src/extensions/proxy.rs
@@ -82,7 +82,7 @@ pub struct ProxyMut<'a> {
 }
 
 impl<'a> ExtensionDataMut<'a> for ProxyMut<'a> {
-    const TYPE: ExtensionType = ExtensionType::Manager;
+    const TYPE: ExtensionType = ExtensionType::Proxy;
 
     fn from_bytes_mut(bytes: &'a mut [u8]) -> Self {
         let (program, remainder) = bytes.split_at_mut(std::mem::size_of::<Pubkey>());
-- 
2.43.0


From 8977d56e253136341f20566b786719e71a79c43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:31 +0000
Subject: [PATCH 16/32] fix: do not lend the signature of a proxied asset to
 other accounts

---
 programs/asset/interface/src/processor.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/programs/asset/interface/src/processor.rs b/programs/asset/interface/src/processor.rs
index 386a8b6..de234e0 100644
--- a/programs/asset/interface/src/processor.rs
+++ b/programs/asset/interface/src/processor.rs
@@ -95,6 +95,15 @@ impl Interface {
         log_instruction_name!(instruction_data);
 
         let asset = accounts.first().ok_or(ProgramError::NotEnoughAccountKeys)?;
+        // the asset signs the CPI as the asset; it must not be taken as the signer
+        // of any other account of the instruction unless it signed this one
+        if !asset.is_signer
+            && accounts[1..]
+                .iter()
+                .any(|account| account.key == asset.key)
+        {
+            return Err(ProgramError::MissingRequiredSignature);
+        }
         let data = (*asset.data).borrow();
         fetch_proxy_data!(&data, signer, _authority);
         // drop the data before invoking the CPI
-- 
2.43.0


From 37852f6f73213139353394a14a9f9d4b091c3f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:31 +0000
Subject: [PATCH 17/32] fix: forward the Resize instruction through the
 interface

---
 programs/asset/interface/src/processor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/programs/asset/interface/src/processor.rs b/programs/asset/interface/src/processor.rs
index de234e0..7816e09 100644
--- a/programs/asset/interface/src/processor.rs
+++ b/programs/asset/interface/src/processor.rs
@@ -78,6 +78,7 @@ macro_rules! log_instruction_name {
             14 => "Ungroup",
             15 => "Handover",
             16 => "Remove",
+            17 => "Resize",
             _ => return Err(solana_program::program_error::ProgramError::InvalidInstructionData),
         };
 
-- 
2.43.0


From 8bf4fe5f4a8a5f9233f8867454960c67d5697ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:10 +0000
Subject: [PATCH 18/32] fix: require the signer of a transfer through the proxy
 to have signed

---
 programs/proxy/src/processor/transfer.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/programs/proxy/src/processor/transfer.rs b/programs/proxy/src/processor/transfer.rs
index e040b2f..7d4a57e 100644
--- a/programs/proxy/src/processor/transfer.rs
+++ b/programs/proxy/src/processor/transfer.rs
@@ -12,13 +12,23 @@ use solana_program::{
     pubkey::Pubkey, sysvar::Sysvar,
 };
 
-use crate::processor::{CONTENT_TYPE, IMAGE};
+use crate::{
+    processor::{CONTENT_TYPE, IMAGE},
+    require,
+};
 
 pub fn process_transfer<'a>(
     _program_id: &Pubkey,
     ctx: nifty_asset_interface::accounts::Context<'a, TransferAccounts<'a>>,
 ) -> ProgramResult {
-    // account validation happends on the CPI
+    // account validation happends on the CPI, except for the signature since the
+    // asset itself signs the CPI
+
+    require!(
+        ctx.accounts.signer.is_signer,
+        ProgramError::MissingRequiredSignature,
+        "signer"
+    );
 
     let data = (*ctx.accounts.asset.data).borrow();
     fetch_proxy_data!(
-- 
2.43.0


From 3645a2285030fe266b67e4f7dfe82f3cad5aeed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:41 +0000
Subject: [PATCH 19/32] fix: a Not constraint repeated its operand's header in
 as_bytes

---
 programs/asset/types/src/constraints/not.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/programs/asset/types/src/constraints/not.rs b/programs/asset/types/src/constraints/not.rs
index 126546f..96fabb9 100644
--- a/programs/asset/types/src/constraints/not.rs
+++ b/programs/asset/types/src/constraints/not.rs
@@ -29,10 +29,7 @@ impl Assertable for Not<'_> {
     }
 
     fn as_bytes(&self) -> Vec<u8> {
-        let mut bytes = Vec::with_capacity(self.constraint.size());
-        bytes.extend_from_slice(bytemuck::bytes_of(self.constraint.operator));
-        bytes.extend_from_slice(self.constraint.as_bytes().as_ref());
-        bytes
+        self.constraint.as_bytes()
     }
 }
 
-- 
2.43.0


From fd02708f3b34df78ef72b68d1b09e07ac6503d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:55 +0000
Subject: [PATCH 20/32] fix: a property was read as a value of any type asked
 for

---
 .../asset/types/src/extensions/properties.rs  | 36 ++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/programs/asset/types/src/extensions/properties.rs b/programs/asset/types/src/extensions/properties.rs
index 3d52fcc..b5d07fe 100644
--- a/programs/asset/types/src/extensions/properties.rs
+++ b/programs/asset/types/src/extensions/properties.rs
@@ -25,6 +25,7 @@ impl Properties<'_> {
             .values
             .iter()
             .find(|t| t.name.as_str() == name)
+            .filter(|p| p.value.value_type() == T::type_of())
             .map(|p| &*p.value as *const dyn Value as *const T)
         {
             unsafe { pointer.as_ref() }
@@ -84,6 +85,7 @@ impl PropertiesMut<'_> {
             .values
             .iter()
             .find(|t| t.name.as_str() == name)
+            .filter(|p| p.value.value_type() == T::type_of())
             .map(|p| &*p.value as *const dyn Value as *const T)
         {
             unsafe { pointer.as_ref() }
@@ -161,6 +163,14 @@ impl Debug for Property<'_> {
 
 /// Trait representing a value in a property.
 pub trait Value: Debug {
+    /// Type of the values represented.
+    fn type_of() -> Type
+    where
+        Self: Sized;
+
+    /// Type of the value.
+    fn value_type(&self) -> Type;
+
     fn size(&self) -> usize;
 }
 
@@ -168,7 +178,7 @@ pub trait Value: Debug {
 ///
 /// This is used to "encode" the type on the serialized data.
 #[repr(u8)]
-#[derive(Clone, Copy)]
+#[derive(Clone, Copy, PartialEq)]
 pub enum Type {
     Text,
     Number,
@@ -216,6 +226,14 @@ impl<'a> Text<'a> {
 }
 
 impl Value for Text<'_> {
+    fn type_of() -> Type {
+        Type::Text
+    }
+
+    fn value_type(&self) -> Type {
+        Self::type_of()
+    }
+
     fn size(&self) -> usize {
         std::mem::size_of::<Type>() + self.value.size()
     }
@@ -250,6 +268,14 @@ impl<'a> Number<'a> {
 }
 
 impl Value for Number<'_> {
+    fn type_of() -> Type {
+        Type::Number
+    }
+
+    fn value_type(&self) -> Type {
+        Self::type_of()
+    }
+
     fn size(&self) -> usize {
         std::mem::size_of::<Type>() + std::mem::size_of_val(self.value)
     }
@@ -283,6 +309,14 @@ impl<'a> Boolean<'a> {
 }
 
 impl Value for Boolean<'_> {
+    fn type_of() -> Type {
+        Type::Boolean
+    }
+
+    fn value_type(&self) -> Type {
+        Self::type_of()
+    }
+
     fn size(&self) -> usize {
         std::mem::size_of::<Type>() + std::mem::size_of_val(self.value)
     }
-- 
2.43.0


From ee48a9162d327e55f44dd3d9e5e7ffa5d59f3713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:55 +0000
Subject: [PATCH 21/32] fix: a numeric property was read through a misaligned
 reference

---
 programs/asset/types/src/extensions/properties.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/programs/asset/types/src/extensions/properties.rs b/programs/asset/types/src/extensions/properties.rs
index b5d07fe..c0867a6 100644
--- a/programs/asset/types/src/extensions/properties.rs
+++ b/programs/asset/types/src/extensions/properties.rs
@@ -256,14 +256,19 @@ impl Deref for Text<'_> {
 /// A numeric value in a property.
 pub struct Number<'a> {
     pub value: &'a [u8; 8],
+    number: u64,
 }
 
 impl<'a> Number<'a> {
     fn from_bytes(bytes: &'a [u8]) -> Self {
         const START: usize = std::mem::size_of::<Type>();
-        let value = bytemuck::from_bytes(&bytes[START..START + std::mem::size_of::<u64>()]);
+        let value: &[u8; 8] =
+            bytemuck::from_bytes(&bytes[START..START + std::mem::size_of::<u64>()]);
 
-        Self { value }
+        Self {
+            value,
+            number: u64::from_le_bytes(*value),
+        }
     }
 }
 
@@ -291,7 +296,7 @@ impl Deref for Number<'_> {
     type Target = u64;
 
     fn deref(&self) -> &Self::Target {
-        unsafe { &*(self.value as *const u8 as *const u64) }
+        &self.number
     }
 }
 
-- 
2.43.0


From 42f2ef5a5b64f52c0f5ab56c54dee6fe376cf71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:55 +0000
Subject: [PATCH 22/32] fix: a boolean property holding another byte was read
 as an invalid bool

---
 programs/asset/types/src/extensions/properties.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/programs/asset/types/src/extensions/properties.rs b/programs/asset/types/src/extensions/properties.rs
index c0867a6..976972d 100644
--- a/programs/asset/types/src/extensions/properties.rs
+++ b/programs/asset/types/src/extensions/properties.rs
@@ -337,7 +337,11 @@ impl Deref for Boolean<'_> {
     type Target = bool;
 
     fn deref(&self) -> &Self::Target {
-        unsafe { std::mem::transmute::<&u8, &bool>(self.value) }
+        if *self.value == 0 {
+            &false
+        } else {
+            &true
+        }
     }
 }
 
-- 
2.43.0


From 4c308391e327233a0d5071af6636f58902d7aab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:16 +0000
Subject: [PATCH 23/32] fix: the creators builder misplaced creators once
 reused or past 255 of them

---
 programs/asset/types/src/extensions/creators.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/programs/asset/types/src/extensions/creators.rs b/programs/asset/types/src/extensions/creators.rs
index 02893b4..ce3d965 100644
--- a/programs/asset/types/src/extensions/creators.rs
+++ b/programs/asset/types/src/extensions/creators.rs
@@ -165,9 +165,6 @@ impl ZeroCopy<'_, Creator> for Creator {}
 /// Builder for a `Creators` extension.
 #[derive(Default)]
 pub struct CreatorsBuilder {
-    /// The current number of creators.
-    count: u8,
-
     /// The extension data.
     data: Vec<u8>,
 }
@@ -175,16 +172,12 @@ pub struct CreatorsBuilder {
 impl CreatorsBuilder {
     pub fn with_capacity(capacity: usize) -> Self {
         Self {
-            count: 0,
             data: Vec::with_capacity(capacity),
         }
     }
 
     pub fn with_buffer(buffer: Vec<u8>) -> Self {
-        let mut s = Self {
-            count: 0,
-            data: buffer,
-        };
+        let mut s = Self { data: buffer };
         s.data.clear();
         s
     }
@@ -192,17 +185,15 @@ impl CreatorsBuilder {
     /// Add a new creator to the extension.
     pub fn add(&mut self, addresss: &Pubkey, verified: bool, share: u8) -> &mut Self {
         // extends the data buffer
+        let offset = self.data.len();
         self.data
             .append(&mut vec![0u8; std::mem::size_of::<Creator>()]);
-        let offset = self.count as usize * std::mem::size_of::<Creator>();
 
         let creator = Creator::load_mut(&mut self.data[offset..]);
         creator.address = *addresss;
         creator.verified = verified.into();
         creator.share = share;
 
-        self.count += 1;
-
         self
     }
 }
-- 
2.43.0


From 8581eecbf0cfb3a1ccbf22e4db1a1fbeca1eb2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:16 +0000
Subject: [PATCH 24/32] fix: and/or builders reused after build overwrote their
 first constraint

---
 programs/asset/types/src/constraints/and.rs | 4 ++++
 programs/asset/types/src/constraints/or.rs  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/programs/asset/types/src/constraints/and.rs b/programs/asset/types/src/constraints/and.rs
index a464422..34cb136 100644
--- a/programs/asset/types/src/constraints/and.rs
+++ b/programs/asset/types/src/constraints/and.rs
@@ -60,6 +60,10 @@ impl Default for AndBuilder {
 impl AndBuilder {
     /// Add a new constraint.
     pub fn add(&mut self, constraint: &mut dyn ConstraintBuilder) {
+        if self.0.is_empty() {
+            self.0.resize(std::mem::size_of::<Operator>(), 0);
+        }
+
         self.0.extend_from_slice(constraint.build().as_ref());
     }
 }
diff --git a/programs/asset/types/src/constraints/or.rs b/programs/asset/types/src/constraints/or.rs
index 483054e..0a14bc2 100644
--- a/programs/asset/types/src/constraints/or.rs
+++ b/programs/asset/types/src/constraints/or.rs
@@ -63,6 +63,10 @@ impl Default for OrBuilder {
 impl OrBuilder {
     /// Add a new constraint.
     pub fn add(&mut self, constraint: &mut dyn ConstraintBuilder) {
+        if self.0.is_empty() {
+            self.0.resize(std::mem::size_of::<Operator>(), 0);
+        }
+
         self.0.extend_from_slice(constraint.build().as_ref());
     }
 }
-- 
2.43.0


From 13ece3c728ed09267392d6d8c7995ea23c796474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:07 +0000
Subject: [PATCH 25/32] fix: read assets with unused bytes at the end of the
 account (js client)

Resize can leave an account with up to 15 bytes after its last extension;
these were taken for an extension header and the whole asset could not be
read.
---
 clients/js/asset/src/hooked/internalAssetAccountData.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clients/js/asset/src/hooked/internalAssetAccountData.ts b/clients/js/asset/src/hooked/internalAssetAccountData.ts
index bec5559..a770a8c 100644
--- a/clients/js/asset/src/hooked/internalAssetAccountData.ts
+++ b/clients/js/asset/src/hooked/internalAssetAccountData.ts
@@ -13,6 +13,8 @@ import {
 } from '../generated/types/internalAssetAccountData';
 import { getExtensionHeaderSerializer } from '../generated/types/extensionHeader';
 
+const EXTENSION_HEADER_SIZE = 16;
+
 export type InternalAssetAccountData = Omit<
   BaseInternalAssetAccountData,
   'delegate'
@@ -56,7 +58,7 @@ export const getInternalAssetAccountDataSerializer = (): Serializer<
     const extensions: TypedExtension[] = [];
 
     // Extensions.
-    while (finalOffset < buffer.length) {
+    while (finalOffset + EXTENSION_HEADER_SIZE <= buffer.length) {
       const [header, headerOffset] = getExtensionHeaderSerializer().deserialize(
         buffer,
         finalOffset
-- 
2.43.0


From 7692ae2108014895fe676f5b00e3b2a968d6def2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:07 +0000
Subject: [PATCH 26/32] fix: read metadata without an image whose size is a
 multiple of 8 (js client)

The missing image was made up from the padding of the extension, and there
is none when its length is already aligned.
---
 .../js/asset/src/hooked/internalAssetAccountData.ts   | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/clients/js/asset/src/hooked/internalAssetAccountData.ts b/clients/js/asset/src/hooked/internalAssetAccountData.ts
index a770a8c..1d41a3c 100644
--- a/clients/js/asset/src/hooked/internalAssetAccountData.ts
+++ b/clients/js/asset/src/hooked/internalAssetAccountData.ts
@@ -68,16 +68,15 @@ export const getInternalAssetAccountDataSerializer = (): Serializer<
       if (type === ExtensionType.None) {
         break;
       } else if (ExtensionType[type]) {
-        let endOffset = headerOffset + header.length;
+        let data = buffer.subarray(headerOffset, headerOffset + header.length);
         if (type === ExtensionType.Metadata) {
           // backwards compatibility for metadata extension: there is now an 'imageUrl'
-          // on the extension, so we use the extra padding to simulate having it for
+          // on the extension, so we append an empty value to simulate having it for
           // assets created before the change.
-          endOffset = header.boundary;
+          data = new Uint8Array([...data, 0]);
         }
-        const [extension] = getExtensionSerializerFromType(type).deserialize(
-          buffer.subarray(headerOffset, endOffset)
-        );
+        const [extension] =
+          getExtensionSerializerFromType(type).deserialize(data);
         extensions.push({ ...extension, type } as TypedExtension);
       }
 
-- 
2.43.0


From 0e68aeb636f03fc51f022ae7249831a341e2bb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:07 +0000
Subject: [PATCH 27/32] fix: read groups created without a delegate field (js
 client)

The program keeps accepting the 16-byte layout of the grouping extension,
but no asset with it could be read.
---
 clients/js/asset/src/hooked/internalAssetAccountData.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clients/js/asset/src/hooked/internalAssetAccountData.ts b/clients/js/asset/src/hooked/internalAssetAccountData.ts
index 1d41a3c..f7a7a97 100644
--- a/clients/js/asset/src/hooked/internalAssetAccountData.ts
+++ b/clients/js/asset/src/hooked/internalAssetAccountData.ts
@@ -74,6 +74,9 @@ export const getInternalAssetAccountDataSerializer = (): Serializer<
           // on the extension, so we append an empty value to simulate having it for
           // assets created before the change.
           data = new Uint8Array([...data, 0]);
+        } else if (type === ExtensionType.Grouping) {
+          // same for the 'delegate' on the grouping extension.
+          data = new Uint8Array([...data, ...new Uint8Array(32)]);
         }
         const [extension] =
           getExtensionSerializerFromType(type).deserialize(data);
-- 
2.43.0


From 3462fbfb8ad426639f54822316562dc97f3b79de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:07 +0000
Subject: [PATCH 28/32] fix: DelegateRole.None is an empty set of roles (js
 client)

Serializing the value the client itself reads for no roles threw.
---
 clients/js/asset/src/hooked/delegateRoles.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clients/js/asset/src/hooked/delegateRoles.ts b/clients/js/asset/src/hooked/delegateRoles.ts
index 3d5f4c5..9496ff3 100644
--- a/clients/js/asset/src/hooked/delegateRoles.ts
+++ b/clients/js/asset/src/hooked/delegateRoles.ts
@@ -17,7 +17,10 @@ export function getDelegateRolesSerializer(): Serializer<
   return mapSerializer(
     u8(),
     (delegateRoles) =>
-      delegateRoles.map((role) => 1 << (role - 1)).reduce((a, b) => a | b, 0),
+      delegateRoles
+        .filter((role) => role !== DelegateRole.None)
+        .map((role) => 1 << (role - 1))
+        .reduce((a, b) => a | b, 0),
     (rolesMask) => {
       if (rolesMask === 0) {
         return [DelegateRole.None];
-- 
2.43.0


From 9036fad8dbfc265d39ca5deb1d235f17e252ec15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:07 +0000
Subject: [PATCH 29/32] fix: optional accounts of requests through a proxy (js
 client)

Accounts that are not set carried the address of the proxy, which the
interface takes for an account: a burn without a recipient was refused.
---
 clients/js/asset/src/burn.ts     | 20 +++-----------------
 clients/js/asset/src/proxy.ts    | 28 ++++++++++++++++++++++++++++
 clients/js/asset/src/remove.ts   | 20 +++-----------------
 clients/js/asset/src/resize.ts   | 20 +++-----------------
 clients/js/asset/src/transfer.ts | 20 +++-----------------
 clients/js/asset/src/update.ts   | 21 ++++-----------------
 6 files changed, 44 insertions(+), 85 deletions(-)
 create mode 100644 clients/js/asset/src/proxy.ts

diff --git a/clients/js/asset/src/burn.ts b/clients/js/asset/src/burn.ts
index 553d280..70e662b 100644
--- a/clients/js/asset/src/burn.ts
+++ b/clients/js/asset/src/burn.ts
@@ -3,31 +3,17 @@ import {
   PublicKey,
   TransactionBuilder,
 } from '@metaplex-foundation/umi';
-import { ASSET_PROGRAM_ID } from './generated';
 import {
   BurnInstructionAccounts,
   burn as baseBurn,
 } from './generated/instructions/burn';
+import { sendToProxy } from './proxy';
 
 export function burn(
   context: Pick<Context, 'programs'>,
   input: BurnInstructionAccounts & { proxy?: PublicKey }
 ): TransactionBuilder {
-  if (input.proxy) {
-    const proxied = context.programs.clone();
-    proxied.bind('asset', input.proxy);
-    context = { ...context, programs: proxied };
-  }
+  const ix = baseBurn(context, input);
 
-  let ix = baseBurn(context, input);
-
-  if (input.proxy) {
-    ix = ix.addRemainingAccounts({
-      pubkey: ASSET_PROGRAM_ID,
-      isWritable: false,
-      isSigner: false,
-    });
-  }
-
-  return ix;
+  return input.proxy ? sendToProxy(ix, input.proxy) : ix;
 }
diff --git a/clients/js/asset/src/proxy.ts b/clients/js/asset/src/proxy.ts
new file mode 100644
index 0000000..08c9589
--- /dev/null
+++ b/clients/js/asset/src/proxy.ts
@@ -0,0 +1,28 @@
+import {
+  PublicKey,
+  TransactionBuilder,
+  transactionBuilder,
+} from '@metaplex-foundation/umi';
+import { ASSET_PROGRAM_ID } from './generated';
+
+/**
+ * Sends an instruction of the asset program to a proxy program instead.
+ *
+ * The instruction is the one the asset program expects, so optional accounts
+ * that are not set still hold the address of the asset program.
+ */
+export function sendToProxy(
+  builder: TransactionBuilder,
+  proxy: PublicKey
+): TransactionBuilder {
+  return transactionBuilder(
+    builder.items.map((item) => ({
+      ...item,
+      instruction: { ...item.instruction, programId: proxy },
+    }))
+  ).addRemainingAccounts({
+    pubkey: ASSET_PROGRAM_ID,
+    isWritable: false,
+    isSigner: false,
+  });
+}
diff --git a/clients/js/asset/src/remove.ts b/clients/js/asset/src/remove.ts
index 0b3e2b4..b14d433 100644
--- a/clients/js/asset/src/remove.ts
+++ b/clients/js/asset/src/remove.ts
@@ -3,33 +3,19 @@ import {
   PublicKey,
   TransactionBuilder,
 } from '@metaplex-foundation/umi';
-import { ASSET_PROGRAM_ID } from './generated';
 import {
   RemoveInstructionAccounts,
   RemoveInstructionArgs,
   remove as baseRemove,
 } from './generated/instructions/remove';
+import { sendToProxy } from './proxy';
 
 export function remove(
   context: Pick<Context, 'identity' | 'programs'>,
   input: RemoveInstructionAccounts &
     RemoveInstructionArgs & { proxy?: PublicKey }
 ): TransactionBuilder {
-  if (input.proxy) {
-    const proxied = context.programs.clone();
-    proxied.bind('asset', input.proxy);
-    context = { ...context, programs: proxied };
-  }
+  const ix = baseRemove(context, input);
 
-  let ix = baseRemove(context, input);
-
-  if (input.proxy) {
-    ix = ix.addRemainingAccounts({
-      pubkey: ASSET_PROGRAM_ID,
-      isWritable: false,
-      isSigner: false,
-    });
-  }
-
-  return ix;
+  return input.proxy ? sendToProxy(ix, input.proxy) : ix;
 }
diff --git a/clients/js/asset/src/resize.ts b/clients/js/asset/src/resize.ts
index 1b8a96b..2b7c182 100644
--- a/clients/js/asset/src/resize.ts
+++ b/clients/js/asset/src/resize.ts
@@ -3,33 +3,19 @@ import {
   PublicKey,
   TransactionBuilder,
 } from '@metaplex-foundation/umi';
-import { ASSET_PROGRAM_ID } from './generated';
 import {
   resize as baseResize,
   ResizeInstructionAccounts,
   ResizeInstructionArgs,
 } from './generated/instructions/resize';
+import { sendToProxy } from './proxy';
 
 export function resize(
   context: Pick<Context, 'programs' | 'identity' | 'payer'>,
   input: ResizeInstructionAccounts &
     ResizeInstructionArgs & { proxy?: PublicKey }
 ): TransactionBuilder {
-  if (input.proxy) {
-    const proxied = context.programs.clone();
-    proxied.bind('asset', input.proxy);
-    context = { ...context, programs: proxied };
-  }
+  const ix = baseResize(context, input);
 
-  let ix = baseResize(context, input);
-
-  if (input.proxy) {
-    ix = ix.addRemainingAccounts({
-      pubkey: ASSET_PROGRAM_ID,
-      isWritable: false,
-      isSigner: false,
-    });
-  }
-
-  return ix;
+  return input.proxy ? sendToProxy(ix, input.proxy) : ix;
 }
diff --git a/clients/js/asset/src/transfer.ts b/clients/js/asset/src/transfer.ts
index c6098cd..7a3cf92 100644
--- a/clients/js/asset/src/transfer.ts
+++ b/clients/js/asset/src/transfer.ts
@@ -7,27 +7,13 @@ import {
   transfer as baseTransfer,
   TransferInstructionAccounts,
 } from './generated/instructions/transfer';
-import { ASSET_PROGRAM_ID } from './generated';
+import { sendToProxy } from './proxy';
 
 export function transfer(
   context: Pick<Context, 'identity' | 'programs'>,
   input: TransferInstructionAccounts & { proxy?: PublicKey }
 ): TransactionBuilder {
-  if (input.proxy) {
-    const proxied = context.programs.clone();
-    proxied.bind('asset', input.proxy);
-    context = { ...context, programs: proxied };
-  }
+  const ix = baseTransfer(context, input);
 
-  let ix = baseTransfer(context, input);
-
-  if (input.proxy) {
-    ix = ix.addRemainingAccounts({
-      pubkey: ASSET_PROGRAM_ID,
-      isWritable: false,
-      isSigner: false,
-    });
-  }
-
-  return ix;
+  return input.proxy ? sendToProxy(ix, input.proxy) : ix;
 }
diff --git a/clients/js/asset/src/update.ts b/clients/js/asset/src/update.ts
index 771f7c5..afe35de 100644
--- a/clients/js/asset/src/update.ts
+++ b/clients/js/asset/src/update.ts
@@ -6,12 +6,13 @@ import {
   none,
 } from '@metaplex-foundation/umi';
 import { TypedExtension, getExtensionSerializerFromType } from './extensions';
-import { ASSET_PROGRAM_ID, ExtensionInputArgs } from './generated';
+import { ExtensionInputArgs } from './generated';
 import {
   UpdateInstructionAccounts,
   UpdateInstructionArgs,
   update as baseUpdate,
 } from './generated/instructions/update';
+import { sendToProxy } from './proxy';
 
 export function update(
   context: Pick<
@@ -36,24 +37,10 @@ export function update(
     };
   }
 
-  if (input.proxy) {
-    const proxied = context.programs.clone();
-    proxied.bind('asset', input.proxy);
-    context = { ...context, programs: proxied };
-  }
-
-  let ix = baseUpdate(context, {
+  const ix = baseUpdate(context, {
     ...input,
     extension,
   });
 
-  if (input.proxy) {
-    ix = ix.addRemainingAccounts({
-      pubkey: ASSET_PROGRAM_ID,
-      isWritable: false,
-      isSigner: false,
-    });
-  }
-
-  return ix;
+  return input.proxy ? sendToProxy(ix, input.proxy) : ix;
 }
-- 
2.43.0


From d491b0cc8743a1b4d04a3978cd0ac6017cd2d9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:07 +0000
Subject: [PATCH 30/32] fix: updateWithBuffer through a proxy (js client)

The buffer was allocated, written and closed through the proxy as well,
which only knows its own assets: the plan was refused at the first step.
---
 clients/js/asset/src/updateWithBuffer.ts | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/clients/js/asset/src/updateWithBuffer.ts b/clients/js/asset/src/updateWithBuffer.ts
index d78ceee..371d24c 100644
--- a/clients/js/asset/src/updateWithBuffer.ts
+++ b/clients/js/asset/src/updateWithBuffer.ts
@@ -6,7 +6,7 @@ import {
   none,
   transactionBuilderGroup,
 } from '@metaplex-foundation/umi';
-import { ASSET_PROGRAM_ID, SYSTEM_PROGRAM_ID, close } from '.';
+import { SYSTEM_PROGRAM_ID, close } from '.';
 import { TypedExtension, getExtensionSerializerFromType } from './extensions';
 import { allocate } from './generated/instructions/allocate';
 import {
@@ -14,6 +14,7 @@ import {
   UpdateInstructionArgs,
   update,
 } from './generated/instructions/update';
+import { sendToProxy } from './proxy';
 import { DEFAULT_CHUNK_SIZE, write } from './write';
 
 export function updateWithBuffer(
@@ -32,12 +33,6 @@ export function updateWithBuffer(
   );
   const chunked = data.length > (input.chunkSize ?? DEFAULT_CHUNK_SIZE);
 
-  if (input.proxy) {
-    const proxied = context.programs.clone();
-    proxied.bind('asset', input.proxy);
-    context = { ...context, programs: proxied };
-  }
-
   if (chunked) {
     const buffer = generateSigner(context);
 
@@ -49,11 +44,7 @@ export function updateWithBuffer(
     });
 
     if (input.proxy) {
-      updateIx = updateIx.addRemainingAccounts({
-        pubkey: ASSET_PROGRAM_ID,
-        isWritable: false,
-        isSigner: false,
-      });
+      updateIx = sendToProxy(updateIx, input.proxy);
     }
 
     return write(context, {
@@ -91,11 +82,7 @@ export function updateWithBuffer(
   });
 
   if (input.proxy) {
-    updateIx = updateIx.addRemainingAccounts({
-      pubkey: ASSET_PROGRAM_ID,
-      isWritable: false,
-      isSigner: false,
-    });
+    updateIx = sendToProxy(updateIx, input.proxy);
   }
 
   return transactionBuilderGroup([updateIx]);
-- 
2.43.0


From 0064a7b38c793ab33ad271960f367db6e5ffc284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:18 +0000
Subject: [PATCH 31/32] fix: bridge a token whose vault or asset address
 already has lamports

---
 programs/bridge/src/processor/create.rs | 31 +++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/programs/bridge/src/processor/create.rs b/programs/bridge/src/processor/create.rs
index 609a78e..b97b6d2 100644
--- a/programs/bridge/src/processor/create.rs
+++ b/programs/bridge/src/processor/create.rs
@@ -12,8 +12,9 @@ use nifty_asset::{
 use nifty_asset_types::constraints::EmptyBuilder;
 use podded::ZeroCopy;
 use solana_program::{
-    entrypoint::ProgramResult, msg, program::invoke_signed, program_error::ProgramError,
-    pubkey::Pubkey, rent::Rent, system_instruction, sysvar::Sysvar,
+    account_info::AccountInfo, entrypoint::ProgramResult, msg, program::invoke_signed,
+    program_error::ProgramError, pubkey::Pubkey, rent::Rent, system_instruction, system_program,
+    sysvar::Sysvar,
 };
 
 use crate::{
@@ -146,6 +147,8 @@ pub fn process_create(
     seeds.push(&bump);
 
     if ctx.accounts.vault.data_is_empty() {
+        clear_balance(ctx.accounts.vault, ctx.accounts.payer, &seeds)?;
+
         invoke_signed(
             &system_instruction::create_account(
                 ctx.accounts.payer.key,
@@ -197,6 +200,8 @@ pub fn process_create(
         &[bump],
     ];
 
+    clear_balance(ctx.accounts.asset, ctx.accounts.payer, &signer_seeds)?;
+
     let mut extension = MetadataBuilder::default();
     extension.set(Some(&metadata.symbol), None, Some(&metadata.uri), None);
     let data = extension.data();
@@ -283,3 +288,25 @@ pub fn process_create(
         .name(metadata.name)
         .invoke_signed(&[&signer_seeds])
 }
+
+/// Moves any lamports left at a derived address before the account exists to the payer.
+///
+/// Anyone can send lamports to the address, and the System program does not create an account
+/// that already has a balance.
+fn clear_balance<'a>(
+    account: &AccountInfo<'a>,
+    payer: &AccountInfo<'a>,
+    signer_seeds: &[&[u8]],
+) -> ProgramResult {
+    let lamports = account.lamports();
+
+    if lamports > 0 && account.data_is_empty() && system_program::check_id(account.owner) {
+        invoke_signed(
+            &system_instruction::transfer(account.key, payer.key, lamports),
+            &[account.clone(), payer.clone()],
+            &[signer_seeds],
+        )?;
+    }
+
+    Ok(())
+}
-- 
2.43.0


From e5d035625a981399a11e91bf5bd94efd906120ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:18 +0000
Subject: [PATCH 32/32] fix: create a proxied asset at an address that already
 has lamports

---
 programs/proxy/src/processor/create.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/programs/proxy/src/processor/create.rs b/programs/proxy/src/processor/create.rs
index fe2147c..5528b81 100644
--- a/programs/proxy/src/processor/create.rs
+++ b/programs/proxy/src/processor/create.rs
@@ -7,8 +7,8 @@ use nifty_asset_interface::{
     ExtensionType, Standard,
 };
 use solana_program::{
-    clock::Clock, entrypoint::ProgramResult, program_error::ProgramError, pubkey::Pubkey,
-    sysvar::Sysvar,
+    clock::Clock, entrypoint::ProgramResult, program::invoke_signed, program_error::ProgramError,
+    pubkey::Pubkey, system_instruction, system_program, sysvar::Sysvar,
 };
 
 use crate::{
@@ -100,6 +100,23 @@ pub fn process_create(
         data: Some(data),
     };
 
+    // anyone can send lamports to the derived address, and the System program does not create
+    // an account that already has a balance; these are moved to the payer
+    if let Some(payer) = ctx.accounts.payer {
+        let lamports = ctx.accounts.asset.lamports();
+
+        if lamports > 0
+            && ctx.accounts.asset.data_is_empty()
+            && system_program::check_id(ctx.accounts.asset.owner)
+        {
+            invoke_signed(
+                &system_instruction::transfer(ctx.accounts.asset.key, payer.key, lamports),
+                &[ctx.accounts.asset.clone(), payer.clone()],
+                &[&signer],
+            )?;
+        }
+    }
+
     // creates the proxied asset
 
     CreateCpiBuilder::new(ctx.accounts.nifty_asset_program)
-- 
2.43.0

