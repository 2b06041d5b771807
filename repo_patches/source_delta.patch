From 8fc5daa010d2db3f00e33643d45bf70760c6a579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 01/14] fix: report ciphertext with a nonce of the wrong length
 instead of panicking

---
 pfp/src/crypto.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pfp/src/crypto.rs b/pfp/src/crypto.rs
index b28e5eb..41ae8d5 100644
--- a/pfp/src/crypto.rs
+++ b/pfp/src/crypto.rs
@@ -127,9 +127,12 @@ pub fn decrypt_data(value: &str, encryption_key: &SecretVec<u8>) -> Result<Secre
         value.split_once('_').ok_or(Error::InvalidCiphertext)?;
     let nonce_data =
         base64::decode(nonce_base64).map_err(|error| Error::InvalidBase64 { error })?;
-    let nonce = aes_gcm::Nonce::from_slice(&nonce_data);
     let ciphertext =
         base64::decode(ciphertext_base64).map_err(|error| Error::InvalidBase64 { error })?;
+    if nonce_data.len() != AES_NONCE_SIZE / 8 {
+        return Err(Error::InvalidCiphertext);
+    }
+    let nonce = aes_gcm::Nonce::from_slice(&nonce_data);
     Ok(SecretVec::new(
         cipher
             .decrypt(nonce, ciphertext.as_slice())
-- 
2.43.0


From 01cafadc93c2f021c3fd8da08487dd9c8547248c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:18 +0000
Subject: [PATCH 02/14] fix: recovery codes of empty passwords no longer
 underflow when decoded

---
 pfp/src/recovery_codes.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pfp/src/recovery_codes.rs b/pfp/src/recovery_codes.rs
index a518462..d011070 100644
--- a/pfp/src/recovery_codes.rs
+++ b/pfp/src/recovery_codes.rs
@@ -220,10 +220,7 @@ pub fn decode(code: &str, primary_password: &SecretString) -> Result<SecretStrin
     let decrypted = crypto::decrypt_data(&encrypted, &encryption_key)?;
     let decrypted_len = decrypted.expose_secret().len();
     let mut end_pos = decrypted_len;
-    while let Some(&byte) = decrypted.expose_secret().get(end_pos - 1) {
-        if byte != 0 {
-            break;
-        }
+    while end_pos > 0 && decrypted.expose_secret()[end_pos - 1] == 0 {
         end_pos -= 1;
     }
     let stripped = if end_pos == decrypted_len {
-- 
2.43.0


From ce4dd3ec6f66d7ee22c4d55754592c219d528631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:52 +0000
Subject: [PATCH 03/14] fix: recovery codes of more than 256 lines no longer
 overflow the line number

---
 pfp/src/recovery_codes.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pfp/src/recovery_codes.rs b/pfp/src/recovery_codes.rs
index d011070..3044efb 100644
--- a/pfp/src/recovery_codes.rs
+++ b/pfp/src/recovery_codes.rs
@@ -103,7 +103,7 @@ pub fn generate(
             let block_index = pos / BLOCK_SIZE;
             let final_block = block_index == blocks - 1;
             let virtual_byte = if final_block {
-                255 - block_index
+                255usize.wrapping_sub(block_index)
             } else {
                 block_index
             } as u8;
@@ -248,7 +248,9 @@ fn validate(code: &str) -> Result<Vec<u8>, Error> {
             break;
         }
 
-        if chunk[BLOCK_SIZE] == crypto::pearson_hash(&chunk[..BLOCK_SIZE], (255 - i) as u8) {
+        if chunk[BLOCK_SIZE]
+            == crypto::pearson_hash(&chunk[..BLOCK_SIZE], 255usize.wrapping_sub(i) as u8)
+        {
             seen_last = true;
             extra_row = None;
         } else if chunk[BLOCK_SIZE] != crypto::pearson_hash(&chunk[..BLOCK_SIZE], i as u8) {
-- 
2.43.0


From d4bd1ef59e1313989fc06d9e554cde952cec1cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:45 +0000
Subject: [PATCH 04/14] fix: making a site an alias re-points the aliases it
 already had

---
 pfp/src/passwords.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pfp/src/passwords.rs b/pfp/src/passwords.rs
index dd5bc60..ba654ef 100644
--- a/pfp/src/passwords.rs
+++ b/pfp/src/passwords.rs
@@ -161,7 +161,8 @@ impl<IO: storage_io::StorageIO> Passwords<IO> {
     /// Marks `site` and an alias for `alias`.
     ///
     /// This will normalize `site` parameter (remove `www.` prefix). If `alias` is itself marked as
-    /// an alias for another site, `site` will become an alias for that site. Attempting to mark a
+    /// an alias for another site, `site` will become an alias for that site. If other sites are
+    /// aliases for `site`, they will become aliases for that site as well. Attempting to mark a
     /// site as an alias which already has passwords will result in
     /// [Error::SiteHasPasswords](../error/enum.Error.html#variant.SiteHasPasswords).
     pub fn set_alias(&mut self, site: &str, alias: &str) -> Result<(), Error> {
@@ -179,8 +180,19 @@ impl<IO: storage_io::StorageIO> Passwords<IO> {
             return Err(Error::SiteHasPasswords);
         }
 
+        let dependents = self
+            .storage
+            .list_sites(key)
+            .filter(|entry| entry.alias() == Some(&site_normalized))
+            .map(|entry| entry.name().to_owned())
+            .collect::<Vec<String>>();
+
         self.storage
             .set_alias(&site_normalized, &alias_resolved, hmac_secret, key)?;
+        for dependent in dependents {
+            self.storage
+                .set_alias(&dependent, &alias_resolved, hmac_secret, key)?;
+        }
         self.storage.flush()
     }
 
-- 
2.43.0


From 9686f24a7c2c6792d68ad92737e13f8c4e2bf64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 05/14] fix: listing sites no longer fails for an alias of a
 site without an entry

---
 pfp/src/passwords.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pfp/src/passwords.rs b/pfp/src/passwords.rs
index ba654ef..d0a16e9 100644
--- a/pfp/src/passwords.rs
+++ b/pfp/src/passwords.rs
@@ -223,7 +223,11 @@ impl<IO: storage_io::StorageIO> Passwords<IO> {
 
         let hmac_secret = self.hmac_secret.as_ref().ok_or(Error::PasswordsLocked)?;
         for site in sites {
-            self.storage.remove_site(site, hmac_secret)?;
+            match self.storage.remove_site(site, hmac_secret) {
+                // Site entry might not exist, e.g. for the target of an alias
+                Ok(()) | Err(Error::KeyMissing) => {}
+                Err(error) => return Err(error),
+            }
         }
         self.storage.flush()
     }
-- 
2.43.0


From eb26a003268cb29b1d996bc01e520d541608a506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:07 +0000
Subject: [PATCH 06/14] fix: a failed reset no longer leaves secrets that don't
 match the storage

---
 pfp/src/passwords.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pfp/src/passwords.rs b/pfp/src/passwords.rs
index d0a16e9..ac913b9 100644
--- a/pfp/src/passwords.rs
+++ b/pfp/src/passwords.rs
@@ -108,6 +108,8 @@ impl<IO: storage_io::StorageIO> Passwords<IO> {
         let key = get_encryption_key(&primary_password, &salt);
         let hmac_secret = SecretVec::new(crypto::get_rng().gen::<[u8; 32]>().to_vec());
 
+        // The previous secrets won't match the storage contents any more, even on failure
+        self.lock();
         self.storage.clear(&salt, &hmac_secret, &key)?;
         self.storage.flush()?;
 
-- 
2.43.0


From a88f62a80f6e1673e2856762e8623bb4fdd05184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:19 +0000
Subject: [PATCH 07/14] fix: show puts the password or QR code on a line of its
 own

---
 cli/src/processor/show.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/processor/show.rs b/cli/src/processor/show.rs
index 1670500..91979f2 100644
--- a/cli/src/processor/show.rs
+++ b/cli/src/processor/show.rs
@@ -27,7 +27,7 @@ pub fn processor<IO: storage_io::StorageIO>(
 
         let password = passwords.get(domain, name, revision).convert_error()?;
         let mut stdout = StreamWriter::stdout().unwrap();
-        stdout.write_all(b"Password retrieved.").unwrap();
+        stdout.write_all(b"Password retrieved.\n").unwrap();
         if *qrcode {
             const BLOCKS: [&str; 4] = [" ", "\u{2580}", "\u{2584}", "\u{2588}"];
 
-- 
2.43.0


From 378803996199f3fe07e87cadc4642f5f123aaeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 08/14] fix: set-primary asks before replacing a storage file
 it cannot read

---
 cli/src/main.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 7177bf9..d25a636 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -24,10 +24,11 @@ fn shutdown_allocator() {}
 
 use args::{Args, Commands};
 use io_streams::StreamWriter;
+use pfp::error::Error;
 use pfp::passwords::Passwords;
 use pfp::storage_io::FileIO;
 use processor::utils::ConvertError;
-use std::io::Write;
+use std::io::{ErrorKind, Write};
 
 struct Shutdown {
     wait: bool,
@@ -73,7 +74,10 @@ fn main_inner(args: Args) -> Result<(), String> {
 
     let io = if let Commands::SetPrimary { assume_yes } = &args.command {
         match FileIO::load(&storage_path) {
-            Ok(io) => {
+            Err(Error::FileReadFailure { error }) if error.kind() == ErrorKind::NotFound => {
+                FileIO::new(&storage_path)
+            }
+            result => {
                 if !assume_yes {
                     let allow = question::Question::new(
                         "Changing primary password will remove all existing data. Continue?",
@@ -85,9 +89,8 @@ fn main_inner(args: Args) -> Result<(), String> {
                         return Ok(());
                     }
                 }
-                io
+                result.unwrap_or_else(|_| FileIO::new(&storage_path))
             }
-            Err(_) => FileIO::new(&storage_path),
         }
     } else {
         FileIO::load(&storage_path).convert_error()?
-- 
2.43.0


From 1cb3bd1e6b5411786ebe4c91514bbc10b1a7ed6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 09/14] fix: saving replaces the storage file atomically

---
 pfp/src/storage_io/file.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/pfp/src/storage_io/file.rs b/pfp/src/storage_io/file.rs
index 597c734..ffb778c 100644
--- a/pfp/src/storage_io/file.rs
+++ b/pfp/src/storage_io/file.rs
@@ -8,6 +8,7 @@ use crate::error::Error;
 use crate::json::{const_serializable, Deserialize, Serialize};
 use std::collections::HashMap;
 use std::fs;
+use std::io::{self, Write};
 use std::path;
 
 const_serializable!(ApplicationName: String = "pfp");
@@ -49,6 +50,37 @@ impl FileIO {
     }
 }
 
+/// Writes new file contents so that either the old or the new contents survive an interruption.
+fn replace_file(path: &path::Path, contents: &str) -> io::Result<()> {
+    let metadata = match fs::OpenOptions::new().write(true).open(path) {
+        Ok(file) => Some(file.metadata()?),
+        Err(error) if error.kind() == io::ErrorKind::NotFound => None,
+        Err(error) => return Err(error),
+    };
+    if matches!(&metadata, Some(metadata) if !metadata.is_file()) {
+        // Devices and pipes cannot be replaced
+        return fs::write(path, contents);
+    }
+
+    let path = fs::canonicalize(path).unwrap_or_else(|_| path.to_path_buf());
+    let mut temp_path = path.clone().into_os_string();
+    temp_path.push(format!(".{}.tmp", std::process::id()));
+
+    let write = || {
+        let mut file = fs::File::create(&temp_path)?;
+        if let Some(metadata) = &metadata {
+            file.set_permissions(metadata.permissions())?;
+        }
+        file.write_all(contents.as_bytes())?;
+        file.sync_all()?;
+        fs::rename(&temp_path, &path)
+    };
+    write().map_err(|error| {
+        let _ = fs::remove_file(&temp_path);
+        error
+    })
+}
+
 impl super::StorageIO for FileIO {
     fn contains_key(&self, key: &str) -> bool {
         self.data.contains_key(key)
@@ -82,6 +114,6 @@ impl super::StorageIO for FileIO {
         if let Some(parent) = parent {
             fs::create_dir_all(parent).map_err(|error| Error::CreateDirFailure { error })?;
         }
-        fs::write(&self.path, &contents).map_err(|error| Error::FileWriteFailure { error })
+        replace_file(&self.path, &contents).map_err(|error| Error::FileWriteFailure { error })
     }
 }
-- 
2.43.0


From 4d77f3c3aab3dbcaf38bf64ea40865e7a9dd3840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 10/14] fix: a generated password without length or characters
 is an error, not a panic

---
 pfp/src/passwords.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pfp/src/passwords.rs b/pfp/src/passwords.rs
index ac913b9..e676b55 100644
--- a/pfp/src/passwords.rs
+++ b/pfp/src/passwords.rs
@@ -343,6 +343,11 @@ impl<IO: storage_io::StorageIO> Passwords<IO> {
         )?;
 
         match password {
+            Password::Generated(password)
+                if password.length() == 0 || password.charset().is_empty() =>
+            {
+                Err(Error::UnexpectedData)
+            }
             Password::Generated(password) => Ok(crypto::derive_password(
                 primary_password,
                 &password.salt(),
-- 
2.43.0


From 541b52a5c1380ef1529b151827617b44774be5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:47 +0000
Subject: [PATCH 11/14] fix: list passwords by name, then revision

Names and revisions may contain spaces, so a joined text orders two different
passwords alike and their order depended on the hash map of the storage.
---
 cli/src/processor/list.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cli/src/processor/list.rs b/cli/src/processor/list.rs
index 3432f46..d9f0c2e 100644
--- a/cli/src/processor/list.rs
+++ b/cli/src/processor/list.rs
@@ -74,7 +74,10 @@ pub fn processor<IO: storage_io::StorageIO>(
             }
 
             list.sort_by_key(|password| {
-                password.id().name().to_string() + " " + password.id().revision()
+                (
+                    password.id().name().to_owned(),
+                    password.id().revision().to_owned(),
+                )
             });
             for password in list {
                 let name = password.id().name().to_owned();
-- 
2.43.0


From 1210b1bb0aecd5f76e990bfc8033711c9a39dbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:07 +0000
Subject: [PATCH 12/14] fix: Report input that cannot be read instead of
 panicking

---
 cli/src/processor/add_stored.rs  |  2 +-
 cli/src/processor/notes.rs       |  2 +-
 cli/src/processor/set_primary.rs |  4 ++--
 cli/src/processor/utils.rs       | 24 +++++++++++++-----------
 4 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/cli/src/processor/add_stored.rs b/cli/src/processor/add_stored.rs
index ed94cc7..1d4bf12 100644
--- a/cli/src/processor/add_stored.rs
+++ b/cli/src/processor/add_stored.rs
@@ -40,7 +40,7 @@ pub fn processor<IO: storage_io::StorageIO>(
         let password = if *recovery {
             prompt_recovery_code(passwords)?
         } else {
-            prompt_password("Password to be stored: ", args.stdin_passwords)
+            prompt_password("Password to be stored: ", args.stdin_passwords)?
         };
         passwords
             .set_stored(domain, name, revision, password)
diff --git a/cli/src/processor/notes.rs b/cli/src/processor/notes.rs
index 82d6b62..55489fb 100644
--- a/cli/src/processor/notes.rs
+++ b/cli/src/processor/notes.rs
@@ -38,7 +38,7 @@ pub fn processor<IO: storage_io::StorageIO>(
         }
 
         if *set {
-            let notes = prompt_secret_text("Please enter new notes to be stored:");
+            let notes = prompt_secret_text("Please enter new notes to be stored:")?;
             let removing = notes.expose_secret().is_empty();
             passwords
                 .set_notes(domain, name, revision, notes)
diff --git a/cli/src/processor/set_primary.rs b/cli/src/processor/set_primary.rs
index db84443..f715b2c 100644
--- a/cli/src/processor/set_primary.rs
+++ b/cli/src/processor/set_primary.rs
@@ -15,12 +15,12 @@ pub fn processor<IO: storage_io::StorageIO>(
     storage_path: &std::path::Path,
     passwords: &mut Passwords<IO>,
 ) -> Result<(), String> {
-    let primary_password = prompt_password("New primary password: ", args.stdin_passwords);
+    let primary_password = prompt_password("New primary password: ", args.stdin_passwords)?;
     if primary_password.expose_secret().len() < 6 {
         return Err("Primary password length should be at least 6 characters.".to_owned());
     }
 
-    let primary_password2 = prompt_password("Repeat primary password: ", args.stdin_passwords);
+    let primary_password2 = prompt_password("Repeat primary password: ", args.stdin_passwords)?;
     if primary_password.expose_secret() != primary_password2.expose_secret() {
         return Err("Primary passwords don't match.".to_owned());
     }
diff --git a/cli/src/processor/utils.rs b/cli/src/processor/utils.rs
index e8bb9ba..31ee037 100644
--- a/cli/src/processor/utils.rs
+++ b/cli/src/processor/utils.rs
@@ -68,7 +68,7 @@ impl<T> ConvertError<T> for Result<T, Error> {
     }
 }
 
-pub fn prompt_secret_text(prompt: &str) -> SecretString {
+pub fn prompt_secret_text(prompt: &str) -> Result<SecretString, String> {
     StreamWriter::stdout()
         .unwrap()
         .write_all(prompt.as_bytes())
@@ -85,20 +85,22 @@ pub fn prompt_secret_text(prompt: &str) -> SecretString {
     }
 
     let input = SecretVec::new(buffer);
-    SecretString::new(
-        std::str::from_utf8(input.expose_secret().as_slice())
-            .unwrap()
-            .to_owned(),
-    )
+    match std::str::from_utf8(input.expose_secret().as_slice()) {
+        Ok(text) => Ok(SecretString::new(text.to_owned())),
+        Err(error) => Err(format!("Failed reading input ({}).", error)),
+    }
 }
 
-pub fn prompt_password(prompt: &str, stdin_passwords: bool) -> SecretString {
+pub fn prompt_password(prompt: &str, stdin_passwords: bool) -> Result<SecretString, String> {
     let secret = if stdin_passwords {
-        prompt_secret_text(prompt)
+        prompt_secret_text(prompt)?
     } else {
-        SecretString::new(rpassword::prompt_password(prompt).unwrap())
+        SecretString::new(
+            rpassword::prompt_password(prompt)
+                .map_err(|error| format!("Failed reading input ({}).", error))?,
+        )
     };
-    SecretString::new(secret.expose_secret().trim().to_owned())
+    Ok(SecretString::new(secret.expose_secret().trim().to_owned()))
 }
 
 pub fn ensure_unlocked_passwords<IO: storage_io::StorageIO>(
@@ -110,7 +112,7 @@ pub fn ensure_unlocked_passwords<IO: storage_io::StorageIO>(
     }
 
     while !passwords.unlocked() {
-        let primary_password = prompt_password("Your primary password: ", stdin_passwords);
+        let primary_password = prompt_password("Your primary password: ", stdin_passwords)?;
         if primary_password.expose_secret().len() < 6 {
             eprintln!("Primary password length should be at least 6 characters.");
         } else {
-- 
2.43.0


From 2f0a8054b1e952846fe001f3e00f4dfcda65aa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:28 +0000
Subject: [PATCH 13/14] fix: Do not ask for the primary password forever at the
 end of input

---
 cli/src/processor/utils.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cli/src/processor/utils.rs b/cli/src/processor/utils.rs
index 31ee037..a058ad3 100644
--- a/cli/src/processor/utils.rs
+++ b/cli/src/processor/utils.rs
@@ -75,14 +75,19 @@ pub fn prompt_secret_text(prompt: &str) -> Result<SecretString, String> {
         .unwrap();
 
     let mut byte_buffer = [0];
+    let mut complete = false;
     let mut buffer = Vec::with_capacity(1024);
     let mut stdin = StreamReader::stdin().unwrap();
     while let Ok(1) = stdin.read(&mut byte_buffer) {
         if byte_buffer[0] == b'\n' {
+            complete = true;
             break;
         }
         buffer.push(byte_buffer[0]);
     }
+    if !complete && buffer.is_empty() {
+        return Err("Unexpected end of input.".to_owned());
+    }
 
     let input = SecretVec::new(buffer);
     match std::str::from_utf8(input.expose_secret().as_slice()) {
-- 
2.43.0


From 5af8e997f707f46bf7fc1b65fcfe34c7c1cc05a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:51 +0000
Subject: [PATCH 14/14] fix: list looks up sites by their stored name

Passwords::list and Passwords::get drop a www. prefix. The names in the
list of sites were normalized when they were stored. A site added as
www.www.example.com is stored as www.example.com, list showed the
passwords of example.com under its name, or removed the site even though
it had passwords.
---
 cli/src/processor/list.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cli/src/processor/list.rs b/cli/src/processor/list.rs
index d9f0c2e..ec207eb 100644
--- a/cli/src/processor/list.rs
+++ b/cli/src/processor/list.rs
@@ -57,7 +57,10 @@ pub fn processor<IO: storage_io::StorageIO>(
 
         let mut found = false;
         for site in sites {
-            let mut list = passwords.list(site.name(), name).collect::<Vec<Password>>();
+            // Looking up a site drops the www. prefix. A stored name has been normalized already, if
+            // it starts with www. then this prefix is part of the name.
+            let lookup = format!("www.{}", site.name());
+            let mut list = passwords.list(&lookup, name).collect::<Vec<Password>>();
             if list.is_empty() {
                 if name == "*" {
                     empty_sites.push(site.name().to_string());
@@ -99,7 +102,7 @@ pub fn processor<IO: storage_io::StorageIO>(
                         .unwrap()
                         .write_all(
                             passwords
-                                .get(site.name(), &name, &revision)
+                                .get(&lookup, &name, &revision)
                                 .convert_error()?
                                 .expose_secret()
                                 .as_bytes(),
-- 
2.43.0

