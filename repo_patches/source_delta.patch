From 6a85b049ab2029236ab0604470e7a7bbac1f5de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:09 +0000
Subject: [PATCH 01/33] fix: report errors of the last buffered write when
 saving a bundle

ScriptBundle::save left the header in the caller's BufWriter: an error while the
buffer was flushed on drop was lost and the save reported success.
---
 core/src/bundle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/bundle.rs b/core/src/bundle.rs
index e8e1130..dfb0963 100644
--- a/core/src/bundle.rs
+++ b/core/src/bundle.rs
@@ -34,7 +34,7 @@ impl ScriptBundle {
 
         output.seek(io::SeekFrom::Start(0))?;
         output.encode(&header)?;
-        Ok(())
+        output.flush()
     }
 }
 
-- 
2.43.0


From f5777c5cb78cc230d22ce37eba572380d2ad38fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:09 +0000
Subject: [PATCH 02/33] fix: refuse a corrupted script cache with an error
 instead of a panic

Invalid definition types, visibilities and type tags in the input panicked.
---
 core/src/bundle.rs     |  3 ++-
 core/src/definition.rs | 12 +++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/core/src/bundle.rs b/core/src/bundle.rs
index dfb0963..41e887e 100644
--- a/core/src/bundle.rs
+++ b/core/src/bundle.rs
@@ -575,7 +575,8 @@ pub enum DefinitionType {
 
 impl Decode for DefinitionType {
     fn decode<I: io::Read>(input: &mut I) -> io::Result<Self> {
-        Ok(DefinitionType::from_bytes(input.decode()?).expect("Invalid DefinitionType enum value"))
+        DefinitionType::from_bytes(input.decode()?)
+            .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "Invalid DefinitionType enum value"))
     }
 }
 
diff --git a/core/src/definition.rs b/core/src/definition.rs
index 9e9be69..e6f2a25 100644
--- a/core/src/definition.rs
+++ b/core/src/definition.rs
@@ -38,7 +38,9 @@ impl Definition {
             DefinitionType::Class => AnyDefinition::Class(input.decode()?),
             DefinitionType::EnumValue => AnyDefinition::EnumValue(input.decode()?),
             DefinitionType::Enum => AnyDefinition::Enum(input.decode()?),
-            DefinitionType::BitField => panic!("Bit field not supported"),
+            DefinitionType::BitField => {
+                return Err(io::Error::new(io::ErrorKind::InvalidData, "Bit field not supported"));
+            }
             DefinitionType::Function => AnyDefinition::Function(input.decode()?),
             DefinitionType::Parameter => AnyDefinition::Parameter(input.decode()?),
             DefinitionType::Local => AnyDefinition::Local(input.decode()?),
@@ -485,7 +487,10 @@ impl Decode for Type {
             4 => Ok(Type::Array(input.decode()?)),
             5 => Ok(Type::StaticArray(input.decode()?, input.decode()?)),
             6 => Ok(Type::ScriptRef(input.decode()?)),
-            _ => panic!("Unknown Type enum value {}", tag),
+            _ => {
+                let msg = format!("Unknown Type enum value {tag}");
+                Err(io::Error::new(io::ErrorKind::InvalidData, msg))
+            }
         }
     }
 }
@@ -761,7 +766,8 @@ impl Display for Visibility {
 
 impl Decode for Visibility {
     fn decode<I: io::Read>(input: &mut I) -> io::Result<Self> {
-        Ok(Visibility::from_bytes(input.decode()?).expect("Invalid Visibility enum value"))
+        Visibility::from_bytes(input.decode()?)
+            .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "Invalid Visibility enum value"))
     }
 }
 
-- 
2.43.0


From a94a6270ac481ef3890bee95df0c336cc90c72c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:52 +0000
Subject: [PATCH 03/33] fix: do not reserve memory for counts a corrupted
 script cache claims

A damaged count made the reader allocate up to 4 GiB (or abort) before it
noticed that the input ends much earlier.
---
 core/src/decode.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/core/src/decode.rs b/core/src/decode.rs
index 8573c78..03d56ea 100644
--- a/core/src/decode.rs
+++ b/core/src/decode.rs
@@ -1,4 +1,4 @@
-use std::io;
+use std::io::{self, Read};
 
 use byteorder::{LittleEndian, ReadBytesExt};
 
@@ -106,6 +106,9 @@ impl<const N: usize> Decode for [u8; N] {
     }
 }
 
+/// Upper bound on the space reserved ahead of reading, since counts in the input cannot be trusted.
+const MAX_PREALLOCATED: usize = 4096;
+
 pub trait DecodeExt: io::Read + Sized {
     #[inline]
     fn decode<A: Decode>(&mut self) -> io::Result<A> {
@@ -114,7 +117,7 @@ pub trait DecodeExt: io::Read + Sized {
 
     fn decode_vec<S: Into<u32>, A: Decode>(&mut self, count: S) -> io::Result<Vec<A>> {
         let size = count.into() as usize;
-        let mut vec = Vec::with_capacity(size);
+        let mut vec = Vec::with_capacity(size.min(MAX_PREALLOCATED));
         for _ in 0..size {
             vec.push(self.decode()?);
         }
@@ -127,9 +130,11 @@ pub trait DecodeExt: io::Read + Sized {
     }
 
     fn decode_bytes<S: Into<u32>>(&mut self, count: S) -> io::Result<Vec<u8>> {
-        let size = count.into() as usize;
-        let mut vec = vec![0; size];
-        self.read_exact(&mut vec)?;
+        let size: u32 = count.into();
+        let mut vec = Vec::with_capacity((size as usize).min(MAX_PREALLOCATED));
+        if self.by_ref().take(size.into()).read_to_end(&mut vec)? < size as usize {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
         Ok(vec)
     }
 
-- 
2.43.0


From 7db06f9c98b3782f0e648ca31e01d25aaa3fc9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:03 +0000
Subject: [PATCH 04/33] fix: decompile a loop whose body ends in break or
 return without a stray goto

---
 decompiler/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index 1da9c57..664f1aa 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -126,6 +126,7 @@ impl<'a> Decompiler<'a> {
         let result = if is_loop {
             let block = BlockContext::new_loop(position, target);
             let body = self.consume_path(target, Some(block))?;
+            self.code.seek_abs(target)?;
             Expr::While(condition.into(), body, Span::ZERO)
         } else {
             let mut body = self.consume_path(target, block)?;
-- 
2.43.0


From dc9c79bf694069a4739fd888b978472c276c0c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:36 +0000
Subject: [PATCH 05/33] fix: report a failing output instead of logging it as a
 decompilation problem

---
 decompiler/src/print.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index ef3f9b2..f409311 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -67,8 +67,10 @@ pub fn write_definition<W: Write>(
 
             for method_index in &class.functions {
                 let method = pool.definition(*method_index)?;
-                if let Err(err) = write_definition(out, method, pool, depth + 1, mode) {
-                    log::error!("Method decompilation {} failed (caused by {})", method_index, err);
+                match write_definition(out, method, pool, depth + 1, mode) {
+                    Err(err @ Error::IoError(_)) => return Err(err),
+                    Err(err) => log::error!("Method decompilation {} failed (caused by {})", method_index, err),
+                    Ok(()) => {}
                 }
             }
             writeln!(out, "}}")?;
-- 
2.43.0


From cb3b6fd775b261b82b2eef197fdb907293cb7918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:13 +0000
Subject: [PATCH 06/33] fix: replace the output cache atomically

The output used to be truncated before the new contents were written, so a crash, a full disk or an I/O error
in the middle of a save destroyed the cache the game loads.
---
 scc/lib/src/lib.rs | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/scc/lib/src/lib.rs b/scc/lib/src/lib.rs
index 59f2f8c..c529979 100644
--- a/scc/lib/src/lib.rs
+++ b/scc/lib/src/lib.rs
@@ -212,15 +212,15 @@ fn try_compile_files(
 
             add_redscript_signature_def(&mut bundle.pool);
 
-            let mut file = File::create(output_cache_path).map_err(|err| match err.kind() {
-                io::ErrorKind::PermissionDenied => anyhow::anyhow!(
-                    "Could not write to '{}', make sure the file is not read-only",
-                    output_cache_path.display()
-                ),
-                _ => err.into(),
-            })?;
-            bundle.save(&mut io::BufWriter::new(&mut file))?;
-            file.sync_all()?;
+            let file = replace_file(output_cache_path, |file| bundle.save(&mut io::BufWriter::new(file))).map_err(
+                |err| match err.kind() {
+                    io::ErrorKind::PermissionDenied => anyhow::anyhow!(
+                        "Could not write to '{}', make sure the file is not read-only",
+                        output_cache_path.display()
+                    ),
+                    _ => err.into(),
+                },
+            )?;
 
             CompileTimestamp::of_cache_file(&file)?.write(&mut *ts_file)?;
 
@@ -249,6 +249,29 @@ fn setup_logger(r6_dir: &Path) {
         .ok();
 }
 
+/// Writes a file next to its destination and moves it there when it's complete, a file which already
+/// exists at the destination remains intact when the operation fails or gets interrupted.
+fn replace_file(path: &Path, write: impl FnOnce(&mut File) -> io::Result<()>) -> io::Result<File> {
+    let path = match OpenOptions::new().write(true).open(path) {
+        Ok(_) => path.canonicalize()?,
+        Err(err) if err.kind() == io::ErrorKind::NotFound => path.to_path_buf(),
+        Err(err) => return Err(err),
+    };
+    let mut temp_path = path.clone().into_os_string();
+    temp_path.push(format!(".{}.tmp", std::process::id()));
+
+    let result = File::create(&temp_path).and_then(|mut file| {
+        write(&mut file)?;
+        file.sync_all()?;
+        fs::rename(&temp_path, &path)?;
+        Ok(file)
+    });
+    if result.is_err() {
+        fs::remove_file(&temp_path).ok();
+    }
+    result
+}
+
 fn get_base_bundle_path(cache_dir: &Path) -> PathBuf {
     let bk_path = cache_dir.join(BACKUP_FILE_NAME);
     if bk_path.exists() {
-- 
2.43.0


From fec841e08ceef008c1e965ba6e273c369f0ec5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:02 +0000
Subject: [PATCH 07/33] fix: copy script caches completely or not at all

A crash in the middle of copying the cache to the backup left a truncated backup behind, which made every later
run fail with 'Failed to load the original script cache'.
---
 scc/lib/src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/scc/lib/src/lib.rs b/scc/lib/src/lib.rs
index c529979..f2a0e23 100644
--- a/scc/lib/src/lib.rs
+++ b/scc/lib/src/lib.rs
@@ -62,7 +62,7 @@ fn try_compile(settings: &SccSettings) -> anyhow::Result<SccResult> {
             .parent()
             .context("Provided cache file path has no parent directory")?;
         fs::create_dir_all(cache_dir).context("Failed to create the cache directory")?;
-        fs::copy(base_cache_file, &cache_path).context("Could not copy the base script cache file")?;
+        copy_file(&base_cache_file, &cache_path).context("Could not copy the base script cache file")?;
     }
 
     let backup_path = cache_path.with_extension(BACKUP_FILE_EXT);
@@ -71,7 +71,7 @@ fn try_compile(settings: &SccSettings) -> anyhow::Result<SccResult> {
 
     if fallback_backup_path.exists() && !backup_path.exists() {
         log::info!("Re-initializing backup file from {}", fallback_backup_path.display());
-        fs::copy(fallback_backup_path, &backup_path).context("Failed to copy the backup file")?;
+        copy_file(&fallback_backup_path, &backup_path).context("Failed to copy the backup file")?;
     }
 
     let files = Files::from_dirs(&script_paths, &SourceFilter::None).context("Could not load script sources")?;
@@ -161,7 +161,7 @@ fn try_compile_files(
                     "Redscript cache file is not ours, copying it to {}",
                     backup_path.display()
                 );
-                fs::copy(cache_path, &backup_path).context("Failed to copy the cache file")?;
+                copy_file(cache_path, &backup_path).context("Failed to copy the cache file")?;
             }
             Some(_) if !backup_path.exists() => {
                 return Err(anyhow::anyhow!(
@@ -272,6 +272,12 @@ fn replace_file(path: &Path, write: impl FnOnce(&mut File) -> io::Result<()>) ->
     result
 }
 
+fn copy_file(from: &Path, to: &Path) -> io::Result<()> {
+    let mut source = File::open(from)?;
+    replace_file(to, |file| io::copy(&mut source, file).map(|_| ()))?;
+    Ok(())
+}
+
 fn get_base_bundle_path(cache_dir: &Path) -> PathBuf {
     let bk_path = cache_dir.join(BACKUP_FILE_NAME);
     if bk_path.exists() {
-- 
2.43.0


From 7e6d0e8c488256aea092e8c7814096cde23032f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:29 +0000
Subject: [PATCH 08/33] fix: a cache which cannot be accessed isn't a missing
 one

When the metadata of the cache could not be read, the file was assumed not to exist and got overwritten with
a copy of the base cache (itself, in the default setup).
---
 scc/lib/src/lib.rs | 49 ++++++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/scc/lib/src/lib.rs b/scc/lib/src/lib.rs
index f2a0e23..c4c7030 100644
--- a/scc/lib/src/lib.rs
+++ b/scc/lib/src/lib.rs
@@ -56,8 +56,12 @@ fn try_compile(settings: &SccSettings) -> anyhow::Result<SccResult> {
         .chain(settings.additional_script_paths.iter().cloned())
         .collect::<Vec<_>>();
 
-    if !cache_path.exists() {
-        let base_cache_file = get_base_bundle_path(&default_cache_dir);
+    if !cache_path
+        .try_exists()
+        .context("Failed to access the script cache file")?
+    {
+        let base_cache_file =
+            get_base_bundle_path(&default_cache_dir).context("Failed to access the base script cache file")?;
         let cache_dir = cache_path
             .parent()
             .context("Provided cache file path has no parent directory")?;
@@ -69,7 +73,7 @@ fn try_compile(settings: &SccSettings) -> anyhow::Result<SccResult> {
     let fallback_backup_path = settings.r6_dir.join("cache").join(BACKUP_FILE_NAME);
     let output_cache_path = settings.output_cache_file.as_deref().unwrap_or(&cache_path);
 
-    if fallback_backup_path.exists() && !backup_path.exists() {
+    if fallback_backup_path.try_exists()? && !backup_path.try_exists()? {
         log::info!("Re-initializing backup file from {}", fallback_backup_path.display());
         copy_file(&fallback_backup_path, &backup_path).context("Failed to copy the backup file")?;
     }
@@ -114,7 +118,7 @@ fn try_compile_files(
         .expect("script cache path should have a parent directory")
         .join(LEGACY_TIMESTAMP_FILE_NAME);
 
-    if !timestamp_path.exists() && fallback_timestamp_path.exists() {
+    if !timestamp_path.try_exists()? && fallback_timestamp_path.try_exists()? {
         fs::rename(&fallback_timestamp_path, &timestamp_path).context("Failed to rename the legacy timestamp file")?;
     }
 
@@ -138,13 +142,15 @@ fn try_compile_files(
     let saved_timestamp =
         CompileTimestamp::read(&mut *ts_file).context("Failed to read the existing timestamp file")?;
 
+    let backup_exists = backup_path.try_exists().context("Failed to access the backup file")?;
+
     let input_cache_path = if is_output_file_separate {
         match saved_timestamp {
-            saved_timestamp if saved_timestamp != Some(write_timestamp) && backup_path.exists() => {
+            saved_timestamp if saved_timestamp != Some(write_timestamp) && backup_exists => {
                 log::info!("Removing a stale backup file at {}", backup_path.display());
                 fs::remove_file(&backup_path).context("Failed to remove a stale backup file")?;
             }
-            _ if backup_path.exists() => {
+            _ if backup_exists => {
                 log::info!("Restoring the backup file to {}", cache_path.display());
                 fs::rename(&backup_path, cache_path).context("Failed to restore the backup file")?;
             }
@@ -153,7 +159,7 @@ fn try_compile_files(
         cache_path.to_path_buf()
     } else {
         match saved_timestamp {
-            None if backup_path.exists() => {
+            None if backup_exists => {
                 log::info!("Previous cache backup file found");
             }
             saved_timestamp if saved_timestamp != Some(write_timestamp) => {
@@ -163,7 +169,7 @@ fn try_compile_files(
                 );
                 copy_file(cache_path, &backup_path).context("Failed to copy the cache file")?;
             }
-            Some(_) if !backup_path.exists() => {
+            Some(_) if !backup_exists => {
                 return Err(anyhow::anyhow!(
                     "A REDScript timestamp was found, but backup files are missing, your \
                      installation might be corrupted, you should remove the \
@@ -212,15 +218,16 @@ fn try_compile_files(
 
             add_redscript_signature_def(&mut bundle.pool);
 
-            let file = replace_file(output_cache_path, |file| bundle.save(&mut io::BufWriter::new(file))).map_err(
-                |err| match err.kind() {
-                    io::ErrorKind::PermissionDenied => anyhow::anyhow!(
-                        "Could not write to '{}', make sure the file is not read-only",
-                        output_cache_path.display()
-                    ),
-                    _ => err.into(),
-                },
-            )?;
+            let file =
+                replace_file(output_cache_path, |file| bundle.save(&mut io::BufWriter::new(file))).map_err(|err| {
+                    match err.kind() {
+                        io::ErrorKind::PermissionDenied => anyhow::anyhow!(
+                            "Could not write to '{}', make sure the file is not read-only",
+                            output_cache_path.display()
+                        ),
+                        _ => err.into(),
+                    }
+                })?;
 
             CompileTimestamp::of_cache_file(&file)?.write(&mut *ts_file)?;
 
@@ -278,12 +285,12 @@ fn copy_file(from: &Path, to: &Path) -> io::Result<()> {
     Ok(())
 }
 
-fn get_base_bundle_path(cache_dir: &Path) -> PathBuf {
+fn get_base_bundle_path(cache_dir: &Path) -> io::Result<PathBuf> {
     let bk_path = cache_dir.join(BACKUP_FILE_NAME);
-    if bk_path.exists() {
-        bk_path
+    if bk_path.try_exists()? {
+        Ok(bk_path)
     } else {
-        cache_dir.join(BUNDLE_FILE_NAME)
+        Ok(cache_dir.join(BUNDLE_FILE_NAME))
     }
 }
 
-- 
2.43.0


From c04c1f0060009f69e45fe91275112288950d1ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:59 +0000
Subject: [PATCH 09/33] fix: keep the backup of the original cache when the
 current cache is redscript's output

A changed modification time of the cache (a copied installation, or a crash between writing the cache and its
timestamp) made the compiler treat its own output as a new original and overwrite or remove the only backup.
---
 scc/lib/src/lib.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/scc/lib/src/lib.rs b/scc/lib/src/lib.rs
index c4c7030..cc93c06 100644
--- a/scc/lib/src/lib.rs
+++ b/scc/lib/src/lib.rs
@@ -146,7 +146,9 @@ fn try_compile_files(
 
     let input_cache_path = if is_output_file_separate {
         match saved_timestamp {
-            saved_timestamp if saved_timestamp != Some(write_timestamp) && backup_exists => {
+            saved_timestamp
+                if saved_timestamp != Some(write_timestamp) && backup_exists && !is_redscript_output(cache_path)? =>
+            {
                 log::info!("Removing a stale backup file at {}", backup_path.display());
                 fs::remove_file(&backup_path).context("Failed to remove a stale backup file")?;
             }
@@ -162,6 +164,11 @@ fn try_compile_files(
             None if backup_exists => {
                 log::info!("Previous cache backup file found");
             }
+            saved_timestamp
+                if saved_timestamp != Some(write_timestamp) && backup_exists && is_redscript_output(cache_path)? =>
+            {
+                log::info!("Redscript cache file was modified, but it's still ours, keeping the backup file");
+            }
             saved_timestamp if saved_timestamp != Some(write_timestamp) => {
                 log::info!(
                     "Redscript cache file is not ours, copying it to {}",
@@ -305,6 +312,12 @@ fn add_redscript_signature_def(pool: &mut ConstantPool) {
     pool.add_definition::<Enum>(Definition::enum_(name, enum_));
 }
 
+fn is_redscript_output(cache_path: &Path) -> io::Result<bool> {
+    let contents = fs::read(cache_path)?;
+    let bundle = ScriptBundle::load(&mut io::Cursor::new(contents));
+    Ok(bundle.is_ok_and(|bundle| check_for_redscript_signature_def(&bundle.pool)))
+}
+
 fn check_for_redscript_signature_def(pool: &ConstantPool) -> bool {
     pool.names.get_index(REDSCRIPT_SIGNATURE_DEF).is_some()
 }
-- 
2.43.0


From 48029d90ef39d1271d91781f8b33146b26567fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:16 +0000
Subject: [PATCH 10/33] fix: ignore an incomplete timestamp file

A timestamp file cut short by a full disk or a crash made every later run fail with 'Failed to read the existing
timestamp file'.
---
 scc/lib/src/timestamp.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scc/lib/src/timestamp.rs b/scc/lib/src/timestamp.rs
index 73245dd..d2a6d3b 100644
--- a/scc/lib/src/timestamp.rs
+++ b/scc/lib/src/timestamp.rs
@@ -10,8 +10,11 @@ pub struct CompileTimestamp {
 }
 
 impl CompileTimestamp {
+    const SIZE: u64 = 16;
+
     pub fn read<R: io::Read + io::Seek>(input: &mut R) -> io::Result<Option<Self>> {
-        if input.seek(io::SeekFrom::End(0))? == 0 {
+        // an incomplete timestamp is left behind by an interrupted write
+        if input.seek(io::SeekFrom::End(0))? < Self::SIZE {
             return Ok(None);
         }
 
-- 
2.43.0


From 063703e37579523842746b18262a4402662b0ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:05 +0000
Subject: [PATCH 11/33] fix: report errors met while looking for script files

A directory or file that could not be accessed was skipped silently, so a compilation could succeed without
some of the scripts.
---
 compiler/src/source_map.rs | 40 +++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/compiler/src/source_map.rs b/compiler/src/source_map.rs
index 07f4be0..e8befc4 100644
--- a/compiler/src/source_map.rs
+++ b/compiler/src/source_map.rs
@@ -18,12 +18,16 @@ impl Files {
     }
 
     pub fn from_dirs(paths: &[impl AsRef<Path>], filter: &SourceFilter) -> io::Result<Self> {
-        let files = paths.iter().flat_map(|path| filtered_file_iter(path.as_ref(), filter));
-        Self::from_files(files)
+        let files: Vec<_> = paths
+            .iter()
+            .flat_map(|path| filtered_file_iter(path.as_ref(), filter))
+            .try_collect()?;
+        Self::from_files(files.into_iter())
     }
 
     pub fn from_dir(path: &Path, filter: &SourceFilter) -> io::Result<Self> {
-        Self::from_files(filtered_file_iter(path, filter))
+        let files: Vec<_> = filtered_file_iter(path, filter).try_collect()?;
+        Self::from_files(files.into_iter())
     }
 
     pub fn from_files(paths: impl Iterator<Item = PathBuf>) -> io::Result<Self> {
@@ -80,20 +84,28 @@ impl Files {
     }
 }
 
-fn filtered_file_iter<'a>(path: &'a Path, filter: &'a SourceFilter) -> impl Iterator<Item = PathBuf> + 'a {
-    if path.is_file() {
-        Either::Left(iter::once(path.to_path_buf()))
-    } else {
-        let iter = WalkDir::new(path)
-            .follow_links(true)
-            .into_iter()
-            .filter_map(Result::ok)
-            .map(DirEntry::into_path)
-            .filter(move |p| filter.apply(p.strip_prefix(path).unwrap()));
-        Either::Right(iter)
+fn filtered_file_iter<'a>(path: &'a Path, filter: &'a SourceFilter) -> impl Iterator<Item = io::Result<PathBuf>> + 'a {
+    match path.metadata() {
+        Ok(metadata) if metadata.is_file() => Either::Left(iter::once(Ok(path.to_path_buf()))),
+        Err(err) if err.kind() != io::ErrorKind::NotFound => Either::Left(iter::once(Err(err))),
+        _ => {
+            let iter = WalkDir::new(path)
+                .follow_links(true)
+                .into_iter()
+                .filter(|res| !res.as_ref().is_err_and(is_ignored_error))
+                .map_ok(DirEntry::into_path)
+                .filter_ok(move |p| filter.apply(p.strip_prefix(path).unwrap()))
+                .map(|res| res.map_err(io::Error::from));
+            Either::Right(iter)
+        }
     }
 }
 
+/// Missing directories, dangling links and link cycles are skipped.
+fn is_ignored_error(err: &walkdir::Error) -> bool {
+    err.io_error().map_or(true, |err| err.kind() == io::ErrorKind::NotFound)
+}
+
 #[derive(Debug)]
 pub struct FilesDispay<'a, 'p> {
     files: &'a Files,
-- 
2.43.0


From 7d4c72a2ef73314a4b1cfbbaa7eb50d0cf9f8f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:10 +0000
Subject: [PATCH 12/33] fix: report errors met while reading the script paths
 file

The additional script directories were dropped silently when the file listing them could not be read.
---
 scc/cli/src/main.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scc/cli/src/main.rs b/scc/cli/src/main.rs
index 12ef537..7f9e709 100644
--- a/scc/cli/src/main.rs
+++ b/scc/cli/src/main.rs
@@ -60,7 +60,7 @@ fn run(opts: Opts, r6_dir: &Path) -> anyhow::Result<bool> {
         .as_deref()
         .map(load_script_paths)
         .transpose()
-        .unwrap_or_default()
+        .context("Could not read the script paths file")?
         .unwrap_or_default();
 
     let custom_cache_file = match (opts.cache_file.as_deref(), opts.cache_dir.as_deref()) {
@@ -81,7 +81,11 @@ fn run(opts: Opts, r6_dir: &Path) -> anyhow::Result<bool> {
 }
 
 fn load_script_paths(script_paths_file: &Path) -> io::Result<Vec<Box<Path>>> {
-    io::BufReader::new(File::open(script_paths_file)?)
+    let file = match File::open(script_paths_file) {
+        Err(err) if err.kind() == io::ErrorKind::NotFound => return Ok(vec![]),
+        res => res?,
+    };
+    io::BufReader::new(file)
         .lines()
         .map(|line| Ok(PathBuf::from(line?).into_boxed_path()))
         .collect()
-- 
2.43.0


From 25a3a824ec4c086345493b434c6361a456b2cd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:30 +0000
Subject: [PATCH 13/33] fix: remember which cache the backup was made from when
 a compilation fails

When the very first compilation failed (a broken mod) no timestamp was stored next to the new backup. After a
game update the next run then compiled against the outdated backup and overwrote the updated cache.
---
 scc/lib/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/scc/lib/src/lib.rs b/scc/lib/src/lib.rs
index cc93c06..7e2bc22 100644
--- a/scc/lib/src/lib.rs
+++ b/scc/lib/src/lib.rs
@@ -169,12 +169,17 @@ fn try_compile_files(
             {
                 log::info!("Redscript cache file was modified, but it's still ours, keeping the backup file");
             }
-            saved_timestamp if saved_timestamp != Some(write_timestamp) => {
+            saved_timestamp
+                if saved_timestamp != Some(write_timestamp)
+                    || (!backup_exists && !is_redscript_output(cache_path)?) =>
+            {
                 log::info!(
                     "Redscript cache file is not ours, copying it to {}",
                     backup_path.display()
                 );
                 copy_file(cache_path, &backup_path).context("Failed to copy the cache file")?;
+                // the compilation might fail, a later run has to know which cache the backup belongs to
+                write_timestamp.write(&mut *ts_file)?;
             }
             Some(_) if !backup_exists => {
                 return Err(anyhow::anyhow!(
@@ -278,6 +283,9 @@ fn replace_file(path: &Path, write: impl FnOnce(&mut File) -> io::Result<()>) ->
         write(&mut file)?;
         file.sync_all()?;
         fs::rename(&temp_path, &path)?;
+        // not all file systems support this
+        #[cfg(unix)]
+        path.parent().map(|dir| File::open(dir).and_then(|dir| dir.sync_all()));
         Ok(file)
     });
     if result.is_err() {
-- 
2.43.0


From e1e7072dfa7e615ea12b83314a81d86c9f703af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:38 +0000
Subject: [PATCH 14/33] fix: store the timestamp durably before reporting
 success

After a power loss the compiled cache could come back together with an outdated timestamp.
---
 scc/lib/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scc/lib/src/lib.rs b/scc/lib/src/lib.rs
index 7e2bc22..78603fc 100644
--- a/scc/lib/src/lib.rs
+++ b/scc/lib/src/lib.rs
@@ -242,6 +242,7 @@ fn try_compile_files(
                 })?;
 
             CompileTimestamp::of_cache_file(&file)?.write(&mut *ts_file)?;
+            ts_file.sync_all()?;
 
             let output = SccOutput::new(compilation, bundle, files);
             Ok(SccResult::Success(Box::new(output)))
-- 
2.43.0


From 077bf5b6ccfc815da752da38876b00f36804fb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:04 +0000
Subject: [PATCH 15/33] fix: tolerate another process renaming the legacy
 timestamp file first

---
 scc/lib/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scc/lib/src/lib.rs b/scc/lib/src/lib.rs
index 78603fc..0dbb5d1 100644
--- a/scc/lib/src/lib.rs
+++ b/scc/lib/src/lib.rs
@@ -119,7 +119,11 @@ fn try_compile_files(
         .join(LEGACY_TIMESTAMP_FILE_NAME);
 
     if !timestamp_path.try_exists()? && fallback_timestamp_path.try_exists()? {
-        fs::rename(&fallback_timestamp_path, &timestamp_path).context("Failed to rename the legacy timestamp file")?;
+        match fs::rename(&fallback_timestamp_path, &timestamp_path) {
+            // another process was faster
+            Err(err) if err.kind() == io::ErrorKind::NotFound => {}
+            res => res.context("Failed to rename the legacy timestamp file")?,
+        }
     }
 
     let mut ts_lock = RwLock::new(
-- 
2.43.0


From 0392311f7a02a8e0d26d81089049db7d92212e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:36 +0000
Subject: [PATCH 16/33] fix: don't re-initialize the default backup file from
 itself

Another process that restores the backup between the two existence checks made the run fail.
---
 scc/lib/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc/lib/src/lib.rs b/scc/lib/src/lib.rs
index 0dbb5d1..9fe46af 100644
--- a/scc/lib/src/lib.rs
+++ b/scc/lib/src/lib.rs
@@ -73,7 +73,7 @@ fn try_compile(settings: &SccSettings) -> anyhow::Result<SccResult> {
     let fallback_backup_path = settings.r6_dir.join("cache").join(BACKUP_FILE_NAME);
     let output_cache_path = settings.output_cache_file.as_deref().unwrap_or(&cache_path);
 
-    if fallback_backup_path.try_exists()? && !backup_path.try_exists()? {
+    if fallback_backup_path != backup_path && fallback_backup_path.try_exists()? && !backup_path.try_exists()? {
         log::info!("Re-initializing backup file from {}", fallback_backup_path.display());
         copy_file(&fallback_backup_path, &backup_path).context("Failed to copy the backup file")?;
     }
-- 
2.43.0


From 84225a411d1e52f28bcc937835b1eab1dd5aeb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:49 +0000
Subject: [PATCH 17/33] fix: compile the scripts in a fixed order

---
 compiler/src/source_map.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/src/source_map.rs b/compiler/src/source_map.rs
index e8befc4..f8dd781 100644
--- a/compiler/src/source_map.rs
+++ b/compiler/src/source_map.rs
@@ -91,6 +91,7 @@ fn filtered_file_iter<'a>(path: &'a Path, filter: &'a SourceFilter) -> impl Iter
         _ => {
             let iter = WalkDir::new(path)
                 .follow_links(true)
+                .sort_by_file_name()
                 .into_iter()
                 .filter(|res| !res.as_ref().is_err_and(is_ignored_error))
                 .map_ok(DirEntry::into_path)
-- 
2.43.0


From ef8d5a2630660a22b2da6351a2e1bba5e3d131c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:53 +0000
Subject: [PATCH 18/33] fix: fail when the decompiled output cannot be written

---
 cli/src/main.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index a33aa12..95fccc0 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -1,5 +1,5 @@
 use std::fs::{self, File};
-use std::io;
+use std::io::{self, Write};
 use std::path::{Path, PathBuf};
 
 use anyhow::Context;
@@ -9,6 +9,7 @@ use redscript::bundle::ScriptBundle;
 use redscript::definition::AnyDefinition;
 use redscript_compiler::source_map::{Files, SourceFilter};
 use redscript_compiler::unit::CompilationUnit;
+use redscript_decompiler::error::Error;
 use redscript_decompiler::files::FileIndex;
 use redscript_decompiler::print::{write_definition, OutputMode};
 use vmap::Map;
@@ -148,10 +149,9 @@ fn decompile(opts: DecompileOpts) -> anyhow::Result<()> {
             let file = File::create(path).context("Failed to create a file at the specified output path")?;
             let mut output = io::BufWriter::new(file);
             for def in entry.definitions {
-                if let Err(err) = write_definition(&mut output, def, pool, 0, mode) {
-                    log::error!("Failed to process a definition: {err}");
-                }
+                report_failure(write_definition(&mut output, def, pool, 0, mode))?;
             }
+            output.flush().context("Failed to write the output")?;
         }
     } else {
         let file = File::create(&opts.output).context("Failed to create a file at the specified output path")?;
@@ -162,15 +162,25 @@ fn decompile(opts: DecompileOpts) -> anyhow::Result<()> {
                 || matches!(&def.value, AnyDefinition::Enum(_))
                 || matches!(&def.value, AnyDefinition::Function(_))
         }) {
-            if let Err(err) = write_definition(&mut output, def, pool, 0, mode) {
-                log::error!("Failed to process a definition: {err}");
-            }
+            report_failure(write_definition(&mut output, def, pool, 0, mode))?;
         }
+        output.flush().context("Failed to write the output")?;
     }
     log::info!("Output successfully saved to {}", opts.output.display());
     Ok(())
 }
 
+fn report_failure(result: Result<(), Error>) -> anyhow::Result<()> {
+    match result {
+        Err(Error::IoError(err)) => Err(err).context("Failed to write the output"),
+        Err(err) => {
+            log::error!("Failed to process a definition: {err}");
+            Ok(())
+        }
+        Ok(()) => Ok(()),
+    }
+}
+
 fn lint(opts: LintOpts) -> anyhow::Result<()> {
     match opts.bundle {
         Some(bundle_path) => {
-- 
2.43.0


From 3d9161ad82036c32fe4e74263dabb15859aa1b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:58 +0000
Subject: [PATCH 19/33] fix: dump decompiled files only into the output
 directory

---
 cli/src/main.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 95fccc0..acb3bcd 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -1,6 +1,6 @@
 use std::fs::{self, File};
 use std::io::{self, Write};
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 
 use anyhow::Context;
 use argh::FromArgs;
@@ -142,7 +142,7 @@ fn decompile(opts: DecompileOpts) -> anyhow::Result<()> {
 
     if opts.dump_files {
         for entry in FileIndex::from_pool(pool).iter() {
-            let path = opts.output.as_path().join(entry.path);
+            let path = opts.output.join(relative_path(entry.path));
 
             fs::create_dir_all(path.parent().expect("entry path should have at least one component"))?;
 
@@ -170,6 +170,13 @@ fn decompile(opts: DecompileOpts) -> anyhow::Result<()> {
     Ok(())
 }
 
+/// Source paths come from the input file, they must not lead outside of the output directory.
+fn relative_path(path: &Path) -> PathBuf {
+    path.components()
+        .filter(|comp| matches!(comp, Component::Normal(_)))
+        .collect()
+}
+
 fn report_failure(result: Result<(), Error>) -> anyhow::Result<()> {
     match result {
         Err(Error::IoError(err)) => Err(err).context("Failed to write the output"),
-- 
2.43.0


From 22d70b760cdb6235652512b3707aa75390f3338e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:04 +0000
Subject: [PATCH 20/33] fix: fail when the source code has errors

---
 cli/src/main.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index acb3bcd..0a13453 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -121,12 +121,10 @@ fn compile(opts: CompileOpts) -> anyhow::Result<()> {
                 .context("Failed to write the script cache")?;
 
             log::info!("Output successfully saved to {}", opts.output.display());
+            Ok(())
         }
-        Err(_) => {
-            log::error!("Build failed");
-        }
+        Err(_) => anyhow::bail!("Build failed"),
     }
-    Ok(())
 }
 
 fn decompile(opts: DecompileOpts) -> anyhow::Result<()> {
@@ -195,14 +193,16 @@ fn lint(opts: LintOpts) -> anyhow::Result<()> {
             let files = Files::from_dirs(&opts.src, &SourceFilter::None)
                 .map_err(|err| anyhow::anyhow!("Failed to load the source files: {err}"))?;
 
-            if CompilationUnit::new_with_defaults(&mut bundle.pool)
+            match CompilationUnit::new_with_defaults(&mut bundle.pool)
                 .map_err(|err| anyhow::anyhow!("Failed to create the compilation unit: {err}"))?
                 .compile_and_report(&files)
-                .is_ok()
             {
-                log::info!("Lint successful");
+                Ok(_) => {
+                    log::info!("Lint successful");
+                    Ok(())
+                }
+                Err(_) => anyhow::bail!("Lint failed"),
             }
-            Ok(())
         }
         None => Ok(()),
     }
-- 
2.43.0


From 40608950559ea441b08e9a03891d0f868162d409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:57 +0000
Subject: [PATCH 21/33] fix: accept a cache file modified before 1970

---
 scc/lib/src/timestamp.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scc/lib/src/timestamp.rs b/scc/lib/src/timestamp.rs
index d2a6d3b..3fac311 100644
--- a/scc/lib/src/timestamp.rs
+++ b/scc/lib/src/timestamp.rs
@@ -34,8 +34,7 @@ impl CompileTimestamp {
             .metadata()?
             .modified()?
             .duration_since(SystemTime::UNIX_EPOCH)
-            .unwrap()
-            .as_nanos();
+            .map_or_else(|err| err.duration().as_nanos().wrapping_neg(), |dur| dur.as_nanos());
         Ok(Self { nanos })
     }
 }
-- 
2.43.0


From 49bcb51565113a865e6eb621c89dd5c1a7f5b12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:57 +0000
Subject: [PATCH 22/33] fix: don't write past an empty error buffer

---
 scc/lib/src/api.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scc/lib/src/api.rs b/scc/lib/src/api.rs
index d2a712c..95e4623 100644
--- a/scc/lib/src/api.rs
+++ b/scc/lib/src/api.rs
@@ -71,6 +71,8 @@ pub extern "C" fn scc_get_success(output: &SccResult) -> Option<&SccOutput> {
 pub unsafe extern "C" fn scc_copy_error(output: &SccResult, buffer: *mut u8, buffer_size: usize) -> usize {
     match output {
         SccResult::Success(_) => 0,
+        // there is no room even for the terminator
+        SccResult::Error(_) if buffer_size == 0 => 0,
         SccResult::Error(error) => {
             let error = error.to_string();
             let max_len = error.len().min(buffer_size - 1);
-- 
2.43.0


From 86f495cd640333a15f8fbb45990f53e72f900642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:54 +0000
Subject: [PATCH 23/33] fix: report cyclic inheritance instead of overflowing
 the stack

---
 compiler/src/unit.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/compiler/src/unit.rs b/compiler/src/unit.rs
index 94976ab..e2c9aba 100644
--- a/compiler/src/unit.rs
+++ b/compiler/src/unit.rs
@@ -509,7 +509,12 @@ impl<'a> CompilationUnit<'a> {
             PoolIndex::UNDEFINED
         } else if let Some(base_name) = source.base {
             if let Ok(Symbol::Class(base_idx, _)) = scope.resolve_symbol(base_name.clone()) {
-                base_idx
+                if Self::is_derived_from(base_idx, class_idx, self.pool) {
+                    self.report(Cause::UnsupportedFeature("cyclic inheritance").with_span(source.span))?;
+                    PoolIndex::UNDEFINED
+                } else {
+                    base_idx
+                }
             } else {
                 self.report(Cause::ClassNotFound(base_name).with_span(source.span))?;
                 PoolIndex::UNDEFINED
@@ -539,6 +544,18 @@ impl<'a> CompilationUnit<'a> {
         Ok(())
     }
 
+    fn is_derived_from(class_idx: PoolIndex<Class>, base_idx: PoolIndex<Class>, pool: &ConstantPool) -> bool {
+        let mut current_idx = class_idx;
+        while current_idx != base_idx {
+            // classes that are not defined yet are checked when they are
+            match pool.class(current_idx) {
+                Ok(class) if class.base != current_idx => current_idx = class.base,
+                _ => return false,
+            }
+        }
+        true
+    }
+
     fn define_function(&mut self, spec: FunctionSpec, scope: &mut Scope) -> Result<(), Error> {
         let decl = &spec.source.declaration;
         let is_native = !spec.is_replacement && decl.qualifiers.contain(Qualifier::Native);
-- 
2.43.0


From 66f7d273f7fc507a6036bdc77b72b5428444d69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:53 +0000
Subject: [PATCH 24/33] fix: refuse escapes that are no unicode code point
 instead of panicking

---
 compiler/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/src/parser.rs b/compiler/src/parser.rs
index 4453419..c9bea0b 100644
--- a/compiler/src/parser.rs
+++ b/compiler/src/parser.rs
@@ -235,8 +235,8 @@ peg::parser! {
             / r"\'" { '\'' }
             / r#"\""# { '\"' }
             / r"\\" { '\\' }
-            / "\\u{" u:$(['a'..='f' | 'A'..='F' | '0'..='9']*<1,6>) "}" {
-                char::from_u32(u32::from_str_radix(u, 16).unwrap()).unwrap()
+            / "\\u{" u:$(['a'..='f' | 'A'..='F' | '0'..='9']*<1,6>) "}" {?
+                u32::from_str_radix(u, 16).ok().and_then(char::from_u32).ok_or("valid unicode code point")
             }
 
         rule string_contents() -> String
-- 
2.43.0


From 4d9456f8e3aa70a637edc6b9505ed10ed34ca466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:29 +0000
Subject: [PATCH 25/33] fix: remember which cache an existing backup belongs to
 before compiling

---
 scc/lib/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scc/lib/src/lib.rs b/scc/lib/src/lib.rs
index 9fe46af..59037f9 100644
--- a/scc/lib/src/lib.rs
+++ b/scc/lib/src/lib.rs
@@ -167,6 +167,8 @@ fn try_compile_files(
         match saved_timestamp {
             None if backup_exists => {
                 log::info!("Previous cache backup file found");
+                // the compilation might fail, a later run has to notice when the cache is replaced
+                write_timestamp.write(&mut *ts_file)?;
             }
             saved_timestamp
                 if saved_timestamp != Some(write_timestamp) && backup_exists && is_redscript_output(cache_path)? =>
-- 
2.43.0


From 60d37ee8cbf65a658fd6b4b1544615dd584181b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:16 +0000
Subject: [PATCH 26/33] fix: take the base of a custom cache from where another
 process just moved it

---
 scc/lib/src/lib.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/scc/lib/src/lib.rs b/scc/lib/src/lib.rs
index 59037f9..af86b41 100644
--- a/scc/lib/src/lib.rs
+++ b/scc/lib/src/lib.rs
@@ -60,13 +60,11 @@ fn try_compile(settings: &SccSettings) -> anyhow::Result<SccResult> {
         .try_exists()
         .context("Failed to access the script cache file")?
     {
-        let base_cache_file =
-            get_base_bundle_path(&default_cache_dir).context("Failed to access the base script cache file")?;
         let cache_dir = cache_path
             .parent()
             .context("Provided cache file path has no parent directory")?;
         fs::create_dir_all(cache_dir).context("Failed to create the cache directory")?;
-        copy_file(&base_cache_file, &cache_path).context("Could not copy the base script cache file")?;
+        copy_base_bundle(&default_cache_dir, &cache_path).context("Could not copy the base script cache file")?;
     }
 
     let backup_path = cache_path.with_extension(BACKUP_FILE_EXT);
@@ -75,7 +73,11 @@ fn try_compile(settings: &SccSettings) -> anyhow::Result<SccResult> {
 
     if fallback_backup_path != backup_path && fallback_backup_path.try_exists()? && !backup_path.try_exists()? {
         log::info!("Re-initializing backup file from {}", fallback_backup_path.display());
-        copy_file(&fallback_backup_path, &backup_path).context("Failed to copy the backup file")?;
+        match copy_file(&fallback_backup_path, &backup_path) {
+            // another process has just restored it
+            Err(err) if err.kind() == io::ErrorKind::NotFound => {}
+            res => res.context("Failed to copy the backup file")?,
+        }
     }
 
     let files = Files::from_dirs(&script_paths, &SourceFilter::None).context("Could not load script sources")?;
@@ -307,6 +309,17 @@ fn copy_file(from: &Path, to: &Path) -> io::Result<()> {
     Ok(())
 }
 
+/// Copies the original cache, which another process might be backing up or restoring at the same time.
+fn copy_base_bundle(cache_dir: &Path, to: &Path) -> io::Result<()> {
+    let base_path = get_base_bundle_path(cache_dir)?;
+    match copy_file(&base_path, to) {
+        Err(err) if err.kind() == io::ErrorKind::NotFound && base_path != get_base_bundle_path(cache_dir)? => {
+            copy_base_bundle(cache_dir, to)
+        }
+        res => res,
+    }
+}
+
 fn get_base_bundle_path(cache_dir: &Path) -> io::Result<PathBuf> {
     let bk_path = cache_dir.join(BACKUP_FILE_NAME);
     if bk_path.try_exists()? {
-- 
2.43.0


From 198c91c8121603210c89e026afb24d9b26ff817b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:08 +0000
Subject: [PATCH 27/33] fix: resolve types of declarations by their full names

A type of a parameter, field or result was looked up in the scope of the code
that uses it, by the last part of its name. It was not found when the module
does not import it (one mod's operator overload made unrelated mods fail to
compile), and another type of the same name was taken instead of it.
---
 compiler/src/scope.rs | 50 +++++++++++++++++++++++++++++--------------
 compiler/src/unit.rs  |  5 +++++
 2 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/compiler/src/scope.rs b/compiler/src/scope.rs
index 0e47324..66f3f10 100644
--- a/compiler/src/scope.rs
+++ b/compiler/src/scope.rs
@@ -10,6 +10,8 @@ use crate::symbol::{FunctionSignature, Symbol};
 #[derive(Debug, Clone)]
 pub struct Scope {
     symbols: Map<Ident, Symbol>,
+    // classes, structs and enums by their full names, whether they are imported or not
+    definitions: Map<Ident, Symbol>,
     references: Map<Ident, Value>,
     types: Map<Ident, PoolIndex<Type>>,
 
@@ -20,15 +22,28 @@ pub struct Scope {
 impl Scope {
     pub fn new(pool: &ConstantPool) -> Result<Self, Error> {
         let mut types = Map::new();
+        let mut definitions = Map::new();
         for (idx, def) in pool.roots() {
-            if let AnyDefinition::Type(_) = def.value {
-                let ident = Ident::from_heap(pool.def_name(idx)?);
-                types = types.insert(ident, idx.cast());
-            }
+            let symbol = match def.value {
+                AnyDefinition::Type(_) => {
+                    let ident = Ident::from_heap(pool.def_name(idx)?);
+                    types = types.insert(ident, idx.cast());
+                    continue;
+                }
+                AnyDefinition::Class(ref class) if class.flags.is_struct() => {
+                    Symbol::Struct(idx.cast(), class.visibility)
+                }
+                AnyDefinition::Class(ref class) => Symbol::Class(idx.cast(), class.visibility),
+                AnyDefinition::Enum(_) => Symbol::Enum(idx.cast()),
+                _ => continue,
+            };
+            let ident = Ident::from_heap(pool.def_name(idx)?);
+            definitions = definitions.insert(ident, symbol);
         }
 
         let result = Self {
             symbols: Map::new(),
+            definitions,
             references: Map::new(),
             types,
             this: None,
@@ -58,6 +73,10 @@ impl Scope {
         self.types = self.types.insert(name, typ);
     }
 
+    pub fn add_definition(&mut self, full_name: Ident, symbol: Symbol) {
+        self.definitions = self.definitions.insert(full_name, symbol);
+    }
+
     pub fn add_symbol(&mut self, name: Ident, symbol: Symbol) {
         match symbol {
             Symbol::Functions(funs) => match self.symbols.find(&name) {
@@ -218,21 +237,21 @@ impl Scope {
     }
 
     pub fn resolve_type(&self, name: &TypeName, pool: &ConstantPool) -> Result<TypeId, Cause> {
-        let result = if let Some(res) = self.types.find(&name.repr()) {
-            self.resolve_type_from_pool(*res, pool)?
-        } else {
-            match (name.kind(), name.arguments()) {
-                (Kind::Ref, [nested]) => TypeId::Ref(Box::new(self.resolve_type(nested, pool)?)),
-                (Kind::WRef, [nested]) => TypeId::WeakRef(Box::new(self.resolve_type(nested, pool)?)),
-                (Kind::ScriptRef, [nested]) => TypeId::ScriptRef(Box::new(self.resolve_type(nested, pool)?)),
-                (Kind::Array, [nested]) => TypeId::Array(Box::new(self.resolve_type(nested, pool)?)),
+        let result = match (name.kind(), name.arguments()) {
+            (Kind::Ref, [nested]) => TypeId::Ref(Box::new(self.resolve_type(nested, pool)?)),
+            (Kind::WRef, [nested]) => TypeId::WeakRef(Box::new(self.resolve_type(nested, pool)?)),
+            (Kind::ScriptRef, [nested]) => TypeId::ScriptRef(Box::new(self.resolve_type(nested, pool)?)),
+            (Kind::Array, [nested]) => TypeId::Array(Box::new(self.resolve_type(nested, pool)?)),
+            _ => match self.types.find(&name.repr()) {
+                Some(res) if !matches!(pool.type_(*res)?, Type::Class) => self.resolve_type_from_pool(*res, pool)?,
+                // the class that has this name in this scope
                 _ => match self.symbols.find(&name.repr()) {
                     Some(Symbol::Class(idx, _)) => TypeId::Class(*idx),
                     Some(Symbol::Struct(idx, _)) => TypeId::Struct(*idx),
                     Some(Symbol::Enum(idx)) => TypeId::Enum(*idx),
                     _ => return Err(Cause::UnresolvedType(name.pretty())),
                 },
-            }
+            },
         };
         Ok(result)
     }
@@ -244,9 +263,8 @@ impl Scope {
                 _ => TypeId::Prim(index),
             },
             Type::Class => {
-                let name = pool.def_name(index)?;
-                let ident = Ident::from_ref(name.split('.').last().unwrap());
-                match self.symbols.find(&ident) {
+                let ident = Ident::from_heap(pool.def_name(index)?);
+                match self.definitions.find(&ident) {
                     Some(Symbol::Class(class_idx, _)) => TypeId::Class(*class_idx),
                     Some(Symbol::Struct(struct_idx, _)) => TypeId::Struct(*struct_idx),
                     Some(Symbol::Enum(enum_idx)) => TypeId::Enum(*enum_idx),
diff --git a/compiler/src/unit.rs b/compiler/src/unit.rs
index e2c9aba..90da049 100644
--- a/compiler/src/unit.rs
+++ b/compiler/src/unit.rs
@@ -348,6 +348,8 @@ impl<'a> CompilationUnit<'a> {
                 let name_index = self.pool.names.add(path.render().to_heap());
                 let index = self.pool.stub_definition(name_index);
                 self.symbols.add_class(&path, index, visibility);
+                self.scope
+                    .add_definition(path.render(), Symbol::Class(index, visibility));
 
                 // add to globals when no module
                 if module.is_empty() {
@@ -378,6 +380,8 @@ impl<'a> CompilationUnit<'a> {
                 let name_index = self.pool.names.add(path.render().to_heap());
                 let index = self.pool.stub_definition(name_index);
                 self.symbols.add_struct(&path, index, visibility);
+                self.scope
+                    .add_definition(path.render(), Symbol::Struct(index, visibility));
 
                 // add to globals when no module
                 if module.is_empty() {
@@ -419,6 +423,7 @@ impl<'a> CompilationUnit<'a> {
                 let index = self.pool.stub_definition(name_index);
 
                 self.symbols.add_enum(&path, index);
+                self.scope.add_definition(path.render(), Symbol::Enum(index));
 
                 // add to globals when no module
                 if module.is_empty() {
-- 
2.43.0


From 229b72ebc92e1ed2927e0117845f937134fd76ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:04 +0000
Subject: [PATCH 28/33] fix: add fields and methods to classes of the scripts
 in any order

@addField failed with an error without a place when the class it names is
declared by a script that is read later, and @addMethod did so for every
class that a script declares. Fields are added after all declarations now,
and the error of the other one says where it is.
---
 compiler/src/unit.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/compiler/src/unit.rs b/compiler/src/unit.rs
index 90da049..55dea4e 100644
--- a/compiler/src/unit.rs
+++ b/compiler/src/unit.rs
@@ -160,6 +160,7 @@ impl<'a> CompilationUnit<'a> {
         let mut seen_funcs = HashSet::new();
         let mut queue = Vec::with_capacity(modules.len());
         let mut compiled_funcs = Vec::new();
+        let mut added_fields = Vec::new();
 
         let cte = cte::Context::new(modules.iter().filter_map(|m| m.path.clone()).collect());
 
@@ -253,7 +254,11 @@ impl<'a> CompilationUnit<'a> {
                         index,
                         source,
                         visibility,
-                    } => self.define_global_let(index, visibility, source, &mut module_scope),
+                    } => {
+                        // the class it is added to can be declared later
+                        added_fields.push((index, visibility, source, module_scope.clone()));
+                        Ok(())
+                    }
                     Slot::Enum { index, source } => self.define_enum(index, source),
                 };
                 if let Err(err) = res {
@@ -262,6 +267,12 @@ impl<'a> CompilationUnit<'a> {
             }
         }
 
+        for (index, visibility, source, mut module_scope) in added_fields {
+            if let Err(err) = self.define_global_let(index, visibility, source, &mut module_scope) {
+                self.report(err)?;
+            }
+        }
+
         for default in self.field_defaults.drain(..) {
             let diagnostics = Self::compile_default(default, self.pool)?;
             self.diagnostics.extend(diagnostics);
@@ -937,7 +948,10 @@ impl<'a> CompilationUnit<'a> {
                         self.diagnostics.push(Diagnostic::AddMethodConflict(ann.span));
                     }
 
-                    let class = self.pool.class(target_class_idx)?;
+                    let class = self
+                        .pool
+                        .class(target_class_idx)
+                        .map_err(|_| Cause::ClassNotFound(class_name.clone()).with_span(ann.span))?;
                     let base_method = if class.base != PoolIndex::UNDEFINED {
                         let base = self.pool.class(class.base)?;
                         base.functions
-- 
2.43.0


From a6dbd2bb90c49eb9ccaf840d9a8c63cdccd98191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:04 +0000
Subject: [PATCH 29/33] fix: report a wrong default of a field with all other
 errors

It ended the compilation, and hid the errors of all other scripts.
---
 compiler/src/unit.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/compiler/src/unit.rs b/compiler/src/unit.rs
index 55dea4e..d9a3713 100644
--- a/compiler/src/unit.rs
+++ b/compiler/src/unit.rs
@@ -274,8 +274,10 @@ impl<'a> CompilationUnit<'a> {
         }
 
         for default in self.field_defaults.drain(..) {
-            let diagnostics = Self::compile_default(default, self.pool)?;
-            self.diagnostics.extend(diagnostics);
+            match Self::compile_default(default, self.pool) {
+                Ok(diagnostics) => self.diagnostics.extend(diagnostics),
+                Err(err) => self.diagnostics.push(Diagnostic::from_error(err)?),
+            }
         }
 
         // create function proxies
-- 
2.43.0


From 141240e1d403dbdce02518311738ec4ed5619ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:40 +0000
Subject: [PATCH 30/33] fix: report errors of the code generation with all
 other errors

The first one ended the compilation, and hid the errors of all other
scripts, whichever kind they were.
---
 compiler/src/unit.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/compiler/src/unit.rs b/compiler/src/unit.rs
index d9a3713..95e5e8b 100644
--- a/compiler/src/unit.rs
+++ b/compiler/src/unit.rs
@@ -308,9 +308,15 @@ impl<'a> CompilationUnit<'a> {
         Ok(compiled_funcs)
     }
 
-    fn finish(self, functions: Vec<CompiledFunction>, files: &Files) -> Result<CompilationOutput, Error> {
+    fn finish(mut self, functions: Vec<CompiledFunction>, files: &Files) -> Result<CompilationOutput, Error> {
         for mut func in functions {
-            let code = Assembler::from_body(func.code, files, &mut func.scope, self.pool)?;
+            let code = match Assembler::from_body(func.code, files, &mut func.scope, self.pool) {
+                Ok(code) => code,
+                Err(err) => {
+                    self.report(err)?;
+                    continue;
+                }
+            };
             let function = self.pool.function_mut(func.index)?;
             function.code = code;
             function.locals = func.locals;
-- 
2.43.0


From 19b2c347c781bca043e84c66e8be66092ef0c06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:47 +0000
Subject: [PATCH 31/33] fix: put parentheses where decompiled operators need
 them

---
 decompiler/src/print.rs | 49 ++++++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index f409311..f1dfc6b 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -270,11 +270,11 @@ fn write_expr_nested<W: Write>(
         Expr::Cast(type_, expr, _) => {
             if parent_op.is_some() {
                 write!(out, "(")?;
-                write_expr(out, expr, verbose, 0)?;
+                write_expr_nested(out, expr, Some(ParentOp::Postfix), verbose, 0)?;
                 write!(out, " as {}", type_.pretty())?;
                 write!(out, ")")?;
             } else {
-                write_expr(out, expr, verbose, 0)?;
+                write_expr_nested(out, expr, Some(ParentOp::Postfix), verbose, 0)?;
                 write!(out, " as {}", type_.pretty())?;
             }
         }
@@ -295,12 +295,12 @@ fn write_expr_nested<W: Write>(
         }
         Expr::Call(fun, type_args, params, _) => write_call(out, fun, type_args, params, parent_op, verbose)?,
         Expr::MethodCall(obj, fun, params, _) => {
-            write_expr_nested(out, obj, Some(ParentOp::Dot), verbose, 0)?;
+            write_expr_nested(out, obj, Some(ParentOp::Postfix), verbose, 0)?;
             write!(out, ".")?;
             write_call(out, fun, &[], params, None, verbose)?;
         }
         Expr::ArrayElem(arr, idx, _) => {
-            write_expr(out, arr, verbose, 0)?;
+            write_expr_nested(out, arr, Some(ParentOp::Postfix), verbose, 0)?;
             write!(out, "[")?;
             write_expr(out, idx, verbose, 0)?;
             write!(out, "]")?;
@@ -357,11 +357,17 @@ fn write_expr_nested<W: Write>(
             }
         }
         Expr::Conditional(condition, true_, false_, _) => {
-            write_expr(out, condition, verbose, 0)?;
+            if parent_op.is_some() {
+                write!(out, "(")?;
+            }
+            write_expr_nested(out, condition, Some(ParentOp::Condition), verbose, 0)?;
             write!(out, " ? ")?;
             write_expr(out, true_, verbose, 0)?;
             write!(out, " : ")?;
             write_expr(out, false_, verbose, 0)?;
+            if parent_op.is_some() {
+                write!(out, ")")?;
+            }
         }
         Expr::While(condition, body, _) => {
             write!(out, "while ")?;
@@ -372,7 +378,7 @@ fn write_expr_nested<W: Write>(
             write!(out, "}}")?;
         }
         Expr::Member(expr, accessor, _) => {
-            write_expr(out, expr, verbose, 0)?;
+            write_expr_nested(out, expr, Some(ParentOp::Postfix), verbose, 0)?;
             write!(out, ".{}", accessor)?;
         }
         Expr::BinOp(lhs, rhs, op, _) => {
@@ -403,8 +409,12 @@ fn write_call<W: Write>(
     if let Ok(binop) = BinOp::from_str(fun_name) {
         if parent_op
             .filter(|op| match op {
-                ParentOp::UnOp | ParentOp::Dot => true,
+                ParentOp::UnOp | ParentOp::Postfix => true,
                 ParentOp::BinOp(op) => !binop.does_associate(*op),
+                ParentOp::BinOpRhs(op) => {
+                    !binop.does_associate(*op) || (binop.precedence() == op.precedence() && !is_chainable(binop))
+                }
+                ParentOp::Condition => binop.precedence() >= BinOp::AssignAdd.precedence(),
             })
             .is_some()
         {
@@ -416,9 +426,16 @@ fn write_call<W: Write>(
             write_binop(out, &params[0], &params[1], binop, verbose)
         }
     } else if let Ok(unop) = UnOp::from_str(fun_name) {
-        write_unop(out, &params[0], unop, verbose)
+        if matches!(parent_op, Some(ParentOp::Postfix)) {
+            write!(out, "(")?;
+            write_unop(out, &params[0], unop, verbose)?;
+            write!(out, ")")?;
+            Ok(())
+        } else {
+            write_unop(out, &params[0], unop, verbose)
+        }
     } else if (fun_name == "WeakRefToRef" || fun_name == "RefToWeakRef" || fun_name == "AsRef") && !verbose {
-        write_expr(out, &params[0], verbose, 0)
+        write_expr_nested(out, &params[0], parent_op, verbose, 0)
     } else {
         write!(out, "{}", fun_name)?;
         if !type_params.is_empty() {
@@ -446,7 +463,15 @@ fn write_binop<W: Write>(
 ) -> Result<(), Error> {
     write_expr_nested(out, lhs, Some(ParentOp::BinOp(op)), verbose, 0)?;
     write!(out, " {} ", format_binop(op))?;
-    write_expr_nested(out, rhs, Some(ParentOp::BinOp(op)), verbose, 0)
+    write_expr_nested(out, rhs, Some(ParentOp::BinOpRhs(op)), verbose, 0)
+}
+
+/// Whether `a op (b op c)` means the same as `a op b op c` for all types.
+fn is_chainable(op: BinOp) -> bool {
+    matches!(
+        op,
+        BinOp::LogicOr | BinOp::LogicAnd | BinOp::Or | BinOp::Xor | BinOp::And
+    )
 }
 
 fn write_unop<W: Write>(out: &mut W, param: &Expr<SourceAst>, op: UnOp, verbose: bool) -> Result<(), Error> {
@@ -517,5 +542,7 @@ fn format_unop(op: UnOp) -> &'static str {
 enum ParentOp {
     UnOp,
     BinOp(BinOp),
-    Dot,
+    BinOpRhs(BinOp),
+    Condition,
+    Postfix,
 }
-- 
2.43.0


From 1945d86941d9b703a859f6afd8b299bf45a2f17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:47 +0000
Subject: [PATCH 32/33] fix: decompile numbers with their full value and type

---
 decompiler/src/print.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index f1dfc6b..3cc5884 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -261,9 +261,11 @@ fn write_expr_nested<W: Write>(
             Constant::I32(lit) => write!(out, "{}", lit)?,
             Constant::I64(lit) => write!(out, "{}l", lit)?,
             Constant::U32(lit) => write!(out, "{}u", lit)?,
-            Constant::U64(lit) => write!(out, "{}u", lit)?,
-            Constant::F32(lit) => write!(out, "{:.2}", lit)?,
-            Constant::F64(lit) => write!(out, "{:.2}d", lit)?,
+            Constant::U64(lit) => write!(out, "{}ul", lit)?,
+            Constant::F32(lit) if format!("{:.2}", lit).parse() == Ok(*lit) => write!(out, "{:.2}", lit)?,
+            Constant::F32(lit) => write!(out, "{}", lit)?,
+            Constant::F64(lit) if format!("{:.2}", lit).parse() == Ok(*lit) => write!(out, "{:.2}d", lit)?,
+            Constant::F64(lit) => write!(out, "{}d", lit)?,
             Constant::Bool(true) => write!(out, "true")?,
             Constant::Bool(false) => write!(out, "false")?,
         },
-- 
2.43.0


From fb97d3cf734a021a6022c42b843b29a9391fd91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:40 +0000
Subject: [PATCH 33/33] fix: skip directories with names of source files

---
 compiler/src/source_map.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/src/source_map.rs b/compiler/src/source_map.rs
index f8dd781..8b746c0 100644
--- a/compiler/src/source_map.rs
+++ b/compiler/src/source_map.rs
@@ -94,6 +94,7 @@ fn filtered_file_iter<'a>(path: &'a Path, filter: &'a SourceFilter) -> impl Iter
                 .sort_by_file_name()
                 .into_iter()
                 .filter(|res| !res.as_ref().is_err_and(is_ignored_error))
+                .filter_ok(|entry| !entry.file_type().is_dir())
                 .map_ok(DirEntry::into_path)
                 .filter_ok(move |p| filter.apply(p.strip_prefix(path).unwrap()))
                 .map(|res| res.map_err(io::Error::from));
-- 
2.43.0

