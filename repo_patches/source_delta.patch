From 74700572c93f52e4a84673a1918faed3674cb145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:07 +0000
Subject: [PATCH 01/34] fix: replace state files atomically

A run that was interrupted while it wrote rrdp-state.json or
rsync-state.json left a truncated file behind, and every later run failed
until an operator removed it.
---
 src/file_ops.rs | 18 ++++++++++++++++++
 src/rrdp.rs     |  2 +-
 src/rsync.rs    |  3 ++-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/file_ops.rs b/src/file_ops.rs
index 3ea154c..a56faff 100644
--- a/src/file_ops.rs
+++ b/src/file_ops.rs
@@ -16,6 +16,24 @@ pub fn write_buf(file_path: &Path, buf: &[u8]) -> Result<()> {
     Ok(())
 }
 
+/// Replaces the content of a file in one step: the content is written to a
+/// temporary file next to it, which is then renamed. If anything goes wrong
+/// half way then the old content is still there.
+pub fn replace_file(file_path: &Path, buf: &[u8]) -> Result<()> {
+    let mut tmp_name = file_path.as_os_str().to_os_string();
+    tmp_name.push(".tmp");
+    let tmp_path = PathBuf::from(tmp_name);
+
+    write_buf(&tmp_path, buf)?;
+    std::fs::rename(&tmp_path, file_path).with_context(|| {
+        format!(
+            "Cannot rename {} to {}",
+            tmp_path.display(),
+            file_path.display()
+        )
+    })
+}
+
 /// Create an empty file for a path
 pub fn create_file(file_path: &Path) -> Result<std::fs::File> {
     create_path_for_file(file_path)?;
diff --git a/src/rrdp.rs b/src/rrdp.rs
index c57166e..a2d9cb8 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -406,7 +406,7 @@ impl RrdpState {
         debug!("Saving RRDP state to disk");
         let json = serde_json::to_string_pretty(&self)?;
 
-        file_ops::write_buf(path, json.as_bytes())
+        file_ops::replace_file(path, json.as_bytes())
             .with_context(|| format!("Could not save state to {}.", path.display()))
     }
 
diff --git a/src/rsync.rs b/src/rsync.rs
index c34748e..ff6b350 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -179,7 +179,8 @@ impl RsyncDirState {
     fn persist(&self, config: &Config) -> Result<()> {
         let state_path = config.rsync_state_path();
         let json = serde_json::to_string_pretty(&self)?;
-        file_ops::write_buf(&state_path, json.as_bytes()).with_context(|| "Could not save state.")
+        file_ops::replace_file(&state_path, json.as_bytes())
+            .with_context(|| "Could not save state.")
     }
 
     /// Updates the current revision for this state, moves a possible
-- 
2.43.0


From 4a2c7e3b048386ee116b6aea9078d8df1396822d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:35 +0000
Subject: [PATCH 02/34] fix: do not panic if --rrdp-max-deltas is 0

sort_and_verify_deltas indexes the first delta after it applied the limit.
---
 src/rrdp.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index a2d9cb8..836c93d 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -103,7 +103,15 @@ impl RrdpState {
                 Ok(None)
             }
             Some((mut notification_file, notification_etag)) => {
-                if !notification_file.sort_and_verify_deltas(limit) {
+                if limit == Some(0) {
+                    // sort_and_verify_deltas cannot deal with an empty list
+                    notification_file = NotificationFile::new(
+                        notification_file.session_id(),
+                        notification_file.serial(),
+                        notification_file.snapshot().clone(),
+                        vec![],
+                    );
+                } else if !notification_file.sort_and_verify_deltas(limit) {
                     return Err(anyhow!("Notification file contained gaps in deltas"));
                 }
 
-- 
2.43.0


From bdaa0b1fd9801b7d43b7434e3a55c4086ecbe075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:36 +0000
Subject: [PATCH 03/34] fix: reject a notification whose deltas do not end at
 its serial

Publishing such a list makes every relying party fall back to the snapshot,
and the missing delta would never be added later.
---
 src/rrdp.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index 836c93d..ba999e7 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -115,6 +115,16 @@ impl RrdpState {
                     return Err(anyhow!("Notification file contained gaps in deltas"));
                 }
 
+                if let Some(last) = notification_file.deltas().last() {
+                    if last.serial() != notification_file.serial() {
+                        return Err(anyhow!(
+                            "Notification file has serial {} but its deltas end at {}",
+                            notification_file.serial(),
+                            last.serial()
+                        ));
+                    }
+                }
+
                 let mut session_reset = false;
 
                 if let Some(snapshot) = &self.snapshot {
-- 
2.43.0


From b2589f45253ba2dae939004ef63f83a5783a5476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:17 +0000
Subject: [PATCH 04/34] fix: reject RRDP URIs with empty or dot segments

Such a URI in the notification file let the source choose any path on the
local file system that the snapshot or delta would be written to.
---
 src/rrdp.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index ba999e7..e337e69 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -675,12 +675,22 @@ impl SourceMappings {
     }
 
     /// Derives the relative path of the given URI versus the base URI.
-    /// Returns an error in case the URI is not relative to the base URI.
+    /// Returns an error in case the URI is not relative to the base URI, or
+    /// contains empty or dot segments which could point anywhere on disk.
     pub fn relative(&self, uri: &Https) -> Result<String> {
-        uri.as_str()
+        let rel_path = uri
+            .as_str()
             .strip_prefix(self.base_uri.as_str())
-            .ok_or_else(|| anyhow!("Uri {} not relative to base uri: {}", uri, self.base_uri))
-            .map(|s| s.to_string())
+            .ok_or_else(|| anyhow!("Uri {} not relative to base uri: {}", uri, self.base_uri))?;
+
+        if rel_path
+            .split('/')
+            .any(|segment| segment.is_empty() || segment == "." || segment == "..")
+        {
+            return Err(anyhow!("Uri {} contains empty or dot segments", uri));
+        }
+
+        Ok(rel_path.to_string())
     }
 
     /// Resolve the given relative path under the base URI.
-- 
2.43.0


From a0000684d0e54e4836df5249a2f8026acb29fcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:19 +0000
Subject: [PATCH 05/34] fix: reject a snapshot or delta at the path of the
 notification file

It would have replaced the published notification file.
---
 src/rrdp.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index e337e69..835cbf7 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -508,12 +508,10 @@ impl RrdpState {
         config: &Config,
     ) -> Result<SnapshotState> {
         let snapshot_info = notification.snapshot();
-        let relative_name = self.mappings.relative(snapshot_info.uri())?;
-        let target = config.staging_path(&relative_name);
+        let rel_path = self.rel_path_for_new(snapshot_info.uri())?;
+        let target = config.staging_path(&rel_path);
         fetcher.retrieve_file(snapshot_info.uri(), snapshot_info.hash(), &target)?;
 
-        let rel_path = self.mappings.relative(snapshot_info.uri())?;
-
         Ok(SnapshotState::create(
             notification.session_id(),
             notification.serial(),
@@ -522,6 +520,21 @@ impl RrdpState {
         ))
     }
 
+    /// Derives the relative path for a new snapshot or delta. Returns an error
+    /// if that path is needed for the notification file itself.
+    fn rel_path_for_new(&self, uri: &Https) -> Result<String> {
+        let rel_path = self.mappings.relative(uri)?;
+        let first = rel_path.split('/').next().unwrap_or_default();
+
+        if first == self.notification_source.name()
+            || first == self.notification_source.tmp_name()
+        {
+            return Err(anyhow!("Uri {} conflicts with the notification file", uri));
+        }
+
+        Ok(rel_path)
+    }
+
     pub fn snapshot_path(&self) -> Option<PathBuf> {
         self.snapshot
             .as_ref()
@@ -562,13 +575,11 @@ impl RrdpState {
                 let uri = delta.uri();
                 let hash = delta.hash();
 
-                let relative_path = self.mappings.relative(uri)?;
-                let target = config.staging_path(&relative_path);
+                let rel_path = self.rel_path_for_new(uri)?;
+                let target = config.staging_path(&rel_path);
 
                 fetcher.retrieve_file(uri, hash, &target)?;
 
-                let rel_path = self.mappings.relative(uri)?;
-
                 new_deltas.push(DeltaState::create(serial, hash, rel_path));
             }
         }
-- 
2.43.0


From 4f5c95831717a3446c043fb53ef2c5ab52ebdec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:15 +0000
Subject: [PATCH 06/34] fix: reject dot segments in host and module of rsync
 URIs

With --rsync-include-host such an object was written outside of the
directory of its revision.
---
 src/rsync.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rsync.rs b/src/rsync.rs
index ff6b350..296bdd7 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -4,7 +4,7 @@ use std::{
     path::{Path, PathBuf},
 };
 
-use anyhow::{Context, Result};
+use anyhow::{anyhow, Context, Result};
 
 use filetime::{set_file_mtime, FileTime};
 use log::{error, info, warn};
@@ -304,6 +304,12 @@ impl ProcessSnapshot for RsyncFromSnapshotWriter {
         data: &mut rpki::rrdp::ObjectReader,
     ) -> Result<()> {
         let path = if self.include_host_and_module {
+            // The rsync URI type already checks this for the path.
+            for segment in [uri.authority(), uri.module_name()].iter() {
+                if *segment == "." || *segment == ".." {
+                    return Err(anyhow!("Uri {} contains dot segments", uri));
+                }
+            }
             self.out_path.join(format!(
                 "{}/{}/{}",
                 uri.authority(),
-- 
2.43.0


From d34ce3d300eb6b450bd090a1b8f29b0cd5d31f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:51 +0000
Subject: [PATCH 07/34] fix: check the content of staged snapshots and deltas

Only the hash was checked, so a file that was no RRDP document, or one for
another session or serial, was published.
---
 src/rrdp.rs | 86 +++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 83 insertions(+), 3 deletions(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index 835cbf7..30ebfa3 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -1,5 +1,6 @@
 use std::{
-    fs,
+    fs::{self, File},
+    io::{self, BufReader},
     path::{Path, PathBuf},
 };
 
@@ -9,8 +10,11 @@ use serde::{Deserialize, Serialize};
 use uuid::Uuid;
 
 use rpki::{
-    rrdp::{self, DeltaInfo, Hash, NotificationFile, SnapshotInfo},
-    uri::Https,
+    rrdp::{
+        self, DeltaInfo, Hash, NotificationFile, ObjectReader, ProcessDelta, ProcessSnapshot,
+        SnapshotInfo,
+    },
+    uri::{Https, Rsync},
 };
 
 use crate::{
@@ -511,6 +515,9 @@ impl RrdpState {
         let rel_path = self.rel_path_for_new(snapshot_info.uri())?;
         let target = config.staging_path(&rel_path);
         fetcher.retrieve_file(snapshot_info.uri(), snapshot_info.hash(), &target)?;
+        ContentCheck::new(notification, notification.serial())
+            .check_snapshot(&target)
+            .with_context(|| format!("Invalid snapshot at: {}", snapshot_info.uri()))?;
 
         Ok(SnapshotState::create(
             notification.session_id(),
@@ -579,6 +586,9 @@ impl RrdpState {
                 let target = config.staging_path(&rel_path);
 
                 fetcher.retrieve_file(uri, hash, &target)?;
+                ContentCheck::new(notification, serial)
+                    .check_delta(&target)
+                    .with_context(|| format!("Invalid delta at: {uri}"))?;
 
                 new_deltas.push(DeltaState::create(serial, hash, rel_path));
             }
@@ -616,6 +626,76 @@ impl RrdpState {
     }
 }
 
+//------------ ContentCheck --------------------------------------------------
+
+/// Checks that a staged snapshot or delta is well formed, and is for the
+/// session and serial for which it was listed in the notification file.
+struct ContentCheck {
+    session_id: Uuid,
+    serial: u64,
+}
+
+impl ContentCheck {
+    fn new(notification: &NotificationFile, serial: u64) -> Self {
+        ContentCheck {
+            session_id: notification.session_id(),
+            serial,
+        }
+    }
+
+    fn check_snapshot(&mut self, path: &Path) -> Result<()> {
+        ProcessSnapshot::process(self, BufReader::new(File::open(path)?))
+    }
+
+    fn check_delta(&mut self, path: &Path) -> Result<()> {
+        ProcessDelta::process(self, BufReader::new(File::open(path)?))
+    }
+
+    fn check_meta(&self, session_id: Uuid, serial: u64) -> Result<()> {
+        if session_id != self.session_id || serial != self.serial {
+            Err(anyhow!(
+                "expected session {} and serial {}, but found session {} and serial {}",
+                self.session_id,
+                self.serial,
+                session_id,
+                serial
+            ))
+        } else {
+            Ok(())
+        }
+    }
+}
+
+impl ProcessSnapshot for ContentCheck {
+    type Err = anyhow::Error;
+
+    fn meta(&mut self, session_id: Uuid, serial: u64) -> Result<()> {
+        self.check_meta(session_id, serial)
+    }
+
+    fn publish(&mut self, _uri: Rsync, data: &mut ObjectReader) -> Result<()> {
+        io::copy(data, &mut io::sink())?;
+        Ok(())
+    }
+}
+
+impl ProcessDelta for ContentCheck {
+    type Err = anyhow::Error;
+
+    fn meta(&mut self, session_id: Uuid, serial: u64) -> Result<()> {
+        self.check_meta(session_id, serial)
+    }
+
+    fn publish(&mut self, _uri: Rsync, _hash: Option<Hash>, data: &mut ObjectReader) -> Result<()> {
+        io::copy(data, &mut io::sink())?;
+        Ok(())
+    }
+
+    fn withdraw(&mut self, _uri: Rsync, _hash: Hash) -> Result<()> {
+        Ok(())
+    }
+}
+
 //------------ SourceMappings ------------------------------------------------
 #[derive(Clone, Debug, Deserialize, Eq, PartialEq, Serialize)]
 pub struct NotificationSource {
-- 
2.43.0


From bb6655d950f205396c64f5dcfafb4e9f4d5101d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:52 +0000
Subject: [PATCH 08/34] fix: only accept 304 Not Modified if an ETag was sent

Without one there is nothing the response could refer to: a notification
file was taken as unchanged, and a snapshot or delta as retrieved.
---
 src/fetch.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fetch.rs b/src/fetch.rs
index 70e35c4..d35d121 100644
--- a/src/fetch.rs
+++ b/src/fetch.rs
@@ -140,7 +140,7 @@ impl FetchSource {
 
                         Ok(FetchResponse::Data { bytes, etag })
                     }
-                    StatusCode::NOT_MODIFIED => Ok(FetchResponse::UnModified),
+                    StatusCode::NOT_MODIFIED if etag.is_some() => Ok(FetchResponse::UnModified),
                     _ => Err(anyhow!(
                         "Got unexpected HTTP response to GET for {}: {}",
                         uri,
-- 
2.43.0


From 6e664a5951f8913510a0cb0fa00aaa44857877ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:53 +0000
Subject: [PATCH 09/34] fix: never truncate a served file when moving to
 another file system

The copy was written straight over the target, which may be listed in the
published notification file, e.g. when an interrupted update is retried.
---
 src/file_ops.rs | 41 ++++++++++++++++++++++++++++-------------
 src/rrdp.rs     |  9 ++++++++-
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/file_ops.rs b/src/file_ops.rs
index a56faff..0682c64 100644
--- a/src/file_ops.rs
+++ b/src/file_ops.rs
@@ -22,10 +22,15 @@ pub fn write_buf(file_path: &Path, buf: &[u8]) -> Result<()> {
 pub fn replace_file(file_path: &Path, buf: &[u8]) -> Result<()> {
     let mut tmp_name = file_path.as_os_str().to_os_string();
     tmp_name.push(".tmp");
-    let tmp_path = PathBuf::from(tmp_name);
 
-    write_buf(&tmp_path, buf)?;
-    std::fs::rename(&tmp_path, file_path).with_context(|| {
+    replace_file_using(file_path, &PathBuf::from(tmp_name), buf)
+}
+
+/// Like `replace_file` but uses the given path for the temporary file, which
+/// must be on the same file system.
+pub fn replace_file_using(file_path: &Path, tmp_path: &Path, buf: &[u8]) -> Result<()> {
+    write_buf(tmp_path, buf)?;
+    std::fs::rename(tmp_path, file_path).with_context(|| {
         format!(
             "Cannot rename {} to {}",
             tmp_path.display(),
@@ -58,8 +63,14 @@ pub fn create_path_for_file(file_path: &Path) -> Result<()> {
 
 /// Tries to rename the relative file under the source dir to the target dir.
 /// Renaming will fail if those dirs are on different mount points. In that
-/// case we try to copy and delete instead.
-pub fn move_file(source_base_dir: &Path, target_base_dir: &Path, relative: &str) -> Result<()> {
+/// case we try to copy and delete instead, using the given name for a temporary
+/// file in the target dir.
+pub fn move_file(
+    source_base_dir: &Path,
+    target_base_dir: &Path,
+    relative: &str,
+    tmp_name: &str,
+) -> Result<()> {
     let original_file = source_base_dir.join(relative);
     let target_file = target_base_dir.join(relative);
 
@@ -73,14 +84,18 @@ pub fn move_file(source_base_dir: &Path, target_base_dir: &Path, relative: &str)
     }
 
     if std::fs::rename(&original_file, &target_file).is_err() {
-        // Move failed. Try to copy and delete instead.
-        std::fs::copy(&original_file, &target_file).with_context(|| {
-            format!(
-                "Cannot copy file from {} to {}",
-                original_file.to_string_lossy(),
-                target_file.to_string_lossy()
-            )
-        })?;
+        // Move failed. Try to copy and delete instead. Replace the target
+        // in one step, because it may be a file that is being served.
+        let tmp_file = target_base_dir.join(tmp_name);
+        read_file(&original_file)
+            .and_then(|content| replace_file_using(&target_file, &tmp_file, &content))
+            .with_context(|| {
+                format!(
+                    "Cannot copy file from {} to {}",
+                    original_file.to_string_lossy(),
+                    target_file.to_string_lossy()
+                )
+            })?;
 
         std::fs::remove_file(&original_file).with_context(|| {
             format!(
diff --git a/src/rrdp.rs b/src/rrdp.rs
index 30ebfa3..ad90328 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -360,15 +360,22 @@ impl RrdpState {
         // Move new snapshot and delta files.
         let staging_base_dir = config.staging_dir();
         let target_base_dir = &config.rrdp_dir;
+        let tmp_name = self.notification_source.tmp_name();
 
         file_ops::move_file(
             &staging_base_dir,
             target_base_dir,
             staged.snapshot.rel_path(),
+            &tmp_name,
         )?;
 
         for delta in &staged.deltas {
-            file_ops::move_file(&staging_base_dir, target_base_dir, delta.rel_path())?;
+            file_ops::move_file(
+                &staging_base_dir,
+                target_base_dir,
+                delta.rel_path(),
+                &tmp_name,
+            )?;
         }
 
         // deprecate old snapshot if it is present
-- 
2.43.0


From c9e637132ac5ec5ab74cbb445ba082af9ef730f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:56 +0000
Subject: [PATCH 10/34] fix: do not clean up files and directories that are
 current again

If a snapshot, delta or rsync revision was deprecated, and then became
current again, it was still removed when the time of the deprecation had
passed. This happened if an interrupted update was repeated, or the source
went back to an earlier session.
---
 src/rrdp.rs  | 18 ++++++++++++++++++
 src/rsync.rs | 12 ++++++++++--
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index ad90328..94f2c3a 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -1,4 +1,5 @@
 use std::{
+    collections::HashSet,
     fs::{self, File},
     io::{self, BufReader},
     path::{Path, PathBuf},
@@ -398,6 +399,10 @@ impl RrdpState {
         self.deltas.sort_by_key(|d| d.serial());
         self.deltas.reverse();
 
+        // A file which is current again must not be cleaned up because it
+        // was deprecated earlier, e.g. when a session came back.
+        self.undeprecate_current();
+
         // Clean up any RRDP files and empty parent directories if they had been
         // deprecated for more than the configured 'cleanup_after' time.
         self.clean(config)?;
@@ -405,6 +410,19 @@ impl RrdpState {
         Ok(())
     }
 
+    /// Forget deprecated files which are used by the current snapshot or deltas.
+    fn undeprecate_current(&mut self) {
+        let current = self.current_paths();
+        self.deprecated_files
+            .retain(|deprecated| !current.contains(&deprecated.path));
+    }
+
+    /// The paths of the current snapshot and deltas.
+    fn current_paths(&self) -> HashSet<PathBuf> {
+        let deltas = self.deltas.iter().map(|d| self.mappings.path(d.rel_path()));
+        self.snapshot_path().into_iter().chain(deltas).collect()
+    }
+
     /// Cleans deprecated files and their parent directories if they are empty
     pub fn clean(&mut self, config: &Config) -> Result<()> {
         let clean_before = Time::seconds_ago(config.cleanup_after);
diff --git a/src/rsync.rs b/src/rsync.rs
index 296bdd7..9107819 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -184,9 +184,17 @@ impl RsyncDirState {
     }
 
     /// Updates the current revision for this state, moves a possible
-    /// existing current state to old.
+    /// existing, different, current revision to old.
     fn update_current(&mut self, current: RsyncRevision) {
-        let existing = std::mem::replace(&mut self.current, Some(current));
+        if self.current.as_ref() == Some(&current) {
+            return;
+        }
+
+        // This may be a revision that was current before, e.g. if a session
+        // came back. Then it must no longer be cleaned up.
+        self.old.retain(|old| old.revision != current);
+
+        let existing = self.current.replace(current);
         if let Some(existing) = existing {
             self.old.push(existing.deprecate());
         }
-- 
2.43.0


From 38d08053e05caa46cb6e9a0d2ae1187c97e00900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:06 +0000
Subject: [PATCH 11/34] fix: start the clean up time when the new notification
 file is written

Files were deprecated, and old files cleaned up, before the notification
delay, while the published notification file still referred to them.
---
 src/process.rs | 14 ++++++--
 src/rrdp.rs    | 89 +++++++++++++++++++-------------------------------
 2 files changed, 45 insertions(+), 58 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 2790ad8..71e5e49 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -103,10 +103,7 @@ pub fn process(config: &Config) -> Result<()> {
     // ===================================================================
     //
     // - updates the RrdpState with new content,
-    // - deprecate old files
     // - move new snapshot and deltas to the target RRDP dir
-    // - clean up old files, deprecated for the configured time
-    // - move new notification file to the target RRDP dir
     rrdp_state.apply_staged_changed(staged, config)?;
 
     // ===================================================================
@@ -141,6 +138,17 @@ pub fn process(config: &Config) -> Result<()> {
     // ===================================================================
     rrdp_state.write_notification(config.rrdp_notify_delay)?;
 
+    // ===================================================================
+    // Clean up old RRDP files
+    // ===================================================================
+    //
+    // Old files are in use until the new notification file is written, so
+    // it is only now that they become deprecated. We clean up any files and
+    // empty parent directories if they had been deprecated for more than
+    // the configured 'cleanup_after' time.
+    rrdp_state.deprecate_superseded();
+    rrdp_state.clean(config)?;
+
     // ===================================================================
     // Persist state
     // ===================================================================
diff --git a/src/rrdp.rs b/src/rrdp.rs
index 94f2c3a..b573081 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::HashSet,
+    collections::BTreeSet,
     fs::{self, File},
     io::{self, BufReader},
     path::{Path, PathBuf},
@@ -43,6 +43,10 @@ pub struct RrdpState {
     /// Deprecated files - which may be cleaned up after some time
     deprecated_files: Vec<DeprecatedFile>,
 
+    /// Files which will be deprecated when the new notification file is written
+    #[serde(skip)]
+    superseded_files: BTreeSet<PathBuf>,
+
     /// Embedded validator
     #[serde(skip_serializing_if = "Option::is_none")]
     validator: Option<Validator>,
@@ -62,6 +66,7 @@ impl RrdpState {
             snapshot: None,
             deltas: vec![],
             deprecated_files: vec![],
+            superseded_files: BTreeSet::new(),
             validator: None,
         })
     }
@@ -349,10 +354,7 @@ impl RrdpState {
     /// Apply staged changes.
     ///
     /// - updates the RrdpState with new content
-    /// - deprecate old files
     /// - move new snapshot and deltas to the target RRDP dir
-    /// - clean up old files, deprecated for the configured time
-    /// - move new notification file to the target RRDP dir
     pub fn apply_staged_changed(
         &mut self,
         mut staged: StagedChanges,
@@ -379,46 +381,51 @@ impl RrdpState {
             )?;
         }
 
-        // deprecate old snapshot if it is present
-        if let Some(old_path) = self.snapshot_path() {
-            self.deprecated_files.push(DeprecatedFile::new(old_path));
-        }
+        // Old files stay in use until the new notification file is written.
+        let old_paths = self.current_paths();
+        self.superseded_files.extend(old_paths);
 
-        // update snapshot info
-        self.snapshot = Some(staged.snapshot);
-
-        // deprecate old deltas
+        // remove old deltas
+        let cutoff = staged.cutoff;
         if staged.session_reset {
-            self.deltas_deprecate_all()
+            self.deltas.clear();
         } else {
-            self.deltas_deprecate_before(staged.cutoff);
+            self.deltas.retain(|delta| delta.serial() >= cutoff);
         }
 
+        // update snapshot info
+        self.snapshot = Some(staged.snapshot);
+
         // add new deltas, re-order delta in descending serial order.
         self.deltas.append(&mut staged.deltas);
         self.deltas.sort_by_key(|d| d.serial());
         self.deltas.reverse();
 
-        // A file which is current again must not be cleaned up because it
-        // was deprecated earlier, e.g. when a session came back.
-        self.undeprecate_current();
-
-        // Clean up any RRDP files and empty parent directories if they had been
-        // deprecated for more than the configured 'cleanup_after' time.
-        self.clean(config)?;
-
         Ok(())
     }
 
-    /// Forget deprecated files which are used by the current snapshot or deltas.
-    fn undeprecate_current(&mut self) {
+    /// Deprecate the files that are no longer used now that the new notification
+    /// file was written.
+    ///
+    /// A file which is current again must not be cleaned up because it was
+    /// deprecated earlier, e.g. when a session came back.
+    pub fn deprecate_superseded(&mut self) {
         let current = self.current_paths();
-        self.deprecated_files
-            .retain(|deprecated| !current.contains(&deprecated.path));
+        let superseded = std::mem::take(&mut self.superseded_files);
+
+        self.deprecated_files.retain(|deprecated| {
+            !current.contains(&deprecated.path) && !superseded.contains(&deprecated.path)
+        });
+
+        for path in superseded {
+            if !current.contains(&path) {
+                self.deprecated_files.push(DeprecatedFile::new(path));
+            }
+        }
     }
 
     /// The paths of the current snapshot and deltas.
-    fn current_paths(&self) -> HashSet<PathBuf> {
+    fn current_paths(&self) -> BTreeSet<PathBuf> {
         let deltas = self.deltas.iter().map(|d| self.mappings.path(d.rel_path()));
         self.snapshot_path().into_iter().chain(deltas).collect()
     }
@@ -621,34 +628,6 @@ impl RrdpState {
 
         Ok(new_deltas)
     }
-
-    /// Remove deltas before the given serial and put them on the deprecated file list.
-    ///
-    /// Notes:
-    /// - This may be a no-op in case all current deltas are still relevant. In that
-    ///   case this function simply does nothing.
-    /// - This function assumes that `self.deltas` is kept in reverse serial order.
-    fn deltas_deprecate_before(&mut self, cutoff: u64) {
-        let cut_off_idx_opt = self.deltas.iter().position(|c| c.serial < cutoff);
-
-        if let Some(cut_off_idx) = cut_off_idx_opt {
-            let deltas: Vec<DeltaState> = self.deltas.drain(cut_off_idx..).collect();
-            for delta in deltas {
-                let path = self.mappings.path(delta.rel_path());
-                self.deprecated_files.push(DeprecatedFile::new(path));
-            }
-        }
-    }
-
-    /// Remove all deltas put them on the deprecated file list.
-    fn deltas_deprecate_all(&mut self) {
-        for delta in &self.deltas {
-            let path = self.mappings.path(delta.rel_path());
-            self.deprecated_files.push(DeprecatedFile::new(path));
-        }
-
-        self.deltas = vec![];
-    }
 }
 
 //------------ ContentCheck --------------------------------------------------
-- 
2.43.0


From d139bb88bd27bb2515cb8618e421a86c6ae0f4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:46 +0000
Subject: [PATCH 12/34] fix: take the published notification file into account
 after an interruption

If a run was interrupted after it had published a notification file, but
before it could save its state, then the files of that notification were
never cleaned up, and the published serial could go back to the one that is
in the saved state.
---
 src/rrdp.rs | 50 ++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index b573081..cfbf013 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -168,6 +168,20 @@ impl RrdpState {
                     }
                 }
 
+                // The published notification file is newer than our state if the
+                // update was interrupted after it was written.
+                if let Some(published) = self.published_notification()? {
+                    if published.session_id() == notification_file.session_id()
+                        && published.serial() > notification_file.serial()
+                    {
+                        return Err(anyhow!(
+                            "The notification file serial '{}' is *before* the published serial '{}'. Server session reset recommended.",
+                            notification_file.serial(),
+                            published.serial()
+                        ));
+                    }
+                }
+
                 // Save the notification file to the staging area so that it can
                 // be used for validation.
                 {
@@ -382,8 +396,18 @@ impl RrdpState {
         }
 
         // Old files stay in use until the new notification file is written.
-        let old_paths = self.current_paths();
-        self.superseded_files.extend(old_paths);
+        // If the previous update was interrupted after it had written that file
+        // then it may refer to other files than our state.
+        let mut old_paths = self.current_paths();
+        if let Some(published) = self.published_notification()? {
+            let deltas = published.deltas().iter().map(|delta| delta.uri());
+            for uri in deltas.chain(std::iter::once(published.snapshot().uri())) {
+                if let Ok(path) = self.mappings.path_for_uri(uri) {
+                    old_paths.insert(path);
+                }
+            }
+        }
+        self.superseded_files.append(&mut old_paths);
 
         // remove old deltas
         let cutoff = staged.cutoff;
@@ -507,6 +531,28 @@ impl RrdpState {
         Ok(())
     }
 
+    /// Reads the notification file that is currently published. Returns None if
+    /// there is no such file, or if it cannot be parsed.
+    fn published_notification(&self) -> Result<Option<NotificationFile>> {
+        let path = self.mappings.path(self.notification_source.name());
+
+        if !path.try_exists()? {
+            return Ok(None);
+        }
+
+        let bytes = file_ops::read_file(&path).with_context(|| {
+            format!("Cannot read published notification file {}", path.display())
+        })?;
+
+        match NotificationFile::parse(bytes.as_ref()) {
+            Ok(notification) => Ok(Some(notification)),
+            Err(e) => {
+                warn!("Cannot parse published notification file: {e}");
+                Ok(None)
+            }
+        }
+    }
+
     fn make_notification_file(&self) -> Result<NotificationFile> {
         let snapshot = self
             .snapshot
-- 
2.43.0


From 9a5f79b3e8dbef874552584b6662bd304fa43346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:48 +0000
Subject: [PATCH 13/34] fix: clean up files of updates that were interrupted

If an update was interrupted after files had been moved to the RRDP
directory, and the source had moved on when the next run came, then these
files were left there forever.
---
 src/rrdp.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index cfbf013..ee8b5ce 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -374,6 +374,11 @@ impl RrdpState {
         mut staged: StagedChanges,
         config: &Config,
     ) -> Result<()> {
+        // Keep track of the files we are about to add, so that they will be
+        // cleaned up if we get interrupted and they are never used.
+        self.expect_new_files(&staged)?;
+        self.persist(&config.rrdp_state_path())?;
+
         // Move new snapshot and delta files.
         let staging_base_dir = config.staging_dir();
         let target_base_dir = &config.rrdp_dir;
@@ -428,6 +433,20 @@ impl RrdpState {
         Ok(())
     }
 
+    /// Adds the staged files to the deprecated files unless they are there already,
+    /// they will be removed from that list when the update is done.
+    fn expect_new_files(&mut self, staged: &StagedChanges) -> Result<()> {
+        let deltas = staged.deltas.iter().map(|delta| delta.rel_path());
+        for rel_path in deltas.chain(std::iter::once(staged.snapshot.rel_path())) {
+            let path = self.mappings.path(rel_path);
+            if !path.try_exists()? {
+                self.deprecated_files.retain(|d| d.path != path);
+                self.deprecated_files.push(DeprecatedFile::new(path));
+            }
+        }
+        Ok(())
+    }
+
     /// Deprecate the files that are no longer used now that the new notification
     /// file was written.
     ///
-- 
2.43.0


From a9859c06b4cbe60c0a54836bf70617a887beb154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:00 +0000
Subject: [PATCH 14/34] fix: do not take files that cannot be checked for
 missing files

If the check failed, e.g. because of a temporary I/O error, then the state
was replaced with an empty one, or old files were forgotten but not removed.
Empty directories were also left behind if a clean up was interrupted.
---
 src/file_ops.rs | 26 ++++++++++++++------------
 src/process.rs  |  2 +-
 src/rrdp.rs     | 14 ++++++--------
 src/rsync.rs    |  2 +-
 4 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/file_ops.rs b/src/file_ops.rs
index 0682c64..cb337bf 100644
--- a/src/file_ops.rs
+++ b/src/file_ops.rs
@@ -1,6 +1,6 @@
 use std::{
     fs::File,
-    io::prelude::*, // for File::write_all()
+    io::{prelude::*, ErrorKind}, // for File::write_all()
     path::{Path, PathBuf},
 };
 
@@ -108,20 +108,22 @@ pub fn move_file(
     Ok(())
 }
 
+/// Removes a file, if it exists, and its parent directories if they are empty.
 pub fn remove_file_and_empty_parent_dirs(path: &Path) -> Result<()> {
-    if path.is_file() {
-        std::fs::remove_file(path)
-            .with_context(|| format!("Cannot remove file {}", path.display()))?;
-    } else if path.is_dir() {
-        std::fs::remove_dir(path)
-            .with_context(|| format!("Cannot remove dir {}", path.display()))?;
+    match std::fs::remove_file(path) {
+        Err(e) if e.kind() != ErrorKind::NotFound => {
+            return Err(e).with_context(|| format!("Cannot remove file {}", path.display()));
+        }
+        _ => {}
     }
 
-    // Recurse to do a 'best effort' removal of the parent if it exists. This
-    // will fail in case it's a non empty directory. That is fine and expected,
-    // it means that we are done.
-    if let Some(parent) = path.parent() {
-        let _ = remove_file_and_empty_parent_dirs(parent);
+    // Do a 'best effort' removal of the parents. This will fail in case of a
+    // non empty directory. That is fine and expected, it means that we are done.
+    for parent in path.ancestors().skip(1) {
+        match std::fs::remove_dir(parent) {
+            Err(e) if e.kind() != ErrorKind::NotFound => break,
+            _ => {}
+        }
     }
 
     Ok(())
diff --git a/src/process.rs b/src/process.rs
index 71e5e49..4464542 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -14,7 +14,7 @@ pub fn process(config: &Config) -> Result<()> {
     //  - recover if prior state exists; or
     //  - create a new state based on config
     // ===================================================================
-    let mut rrdp_state = if config.rrdp_state_path().exists() {
+    let mut rrdp_state = if config.rrdp_state_path().try_exists()? {
         RrdpState::recover(&config.rrdp_state_path())?
     } else {
         RrdpState::create(config)?
diff --git a/src/rrdp.rs b/src/rrdp.rs
index ee8b5ce..61d83b8 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -483,14 +483,12 @@ impl RrdpState {
             .filter(|d| d.since <= clean_before)
         {
             let path = &deprecated.path;
-            if path.exists() {
-                info!(
-                    "Removing RRDP file: {}, deprecated since: {}",
-                    path.display(),
-                    deprecated.since
-                );
-                file_ops::remove_file_and_empty_parent_dirs(path)?;
-            }
+            info!(
+                "Removing RRDP file: {}, deprecated since: {}",
+                path.display(),
+                deprecated.since
+            );
+            file_ops::remove_file_and_empty_parent_dirs(path)?;
         }
 
         self.deprecated_files.retain(|d| d.since > clean_before);
diff --git a/src/rsync.rs b/src/rsync.rs
index 9107819..304c5b0 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -157,7 +157,7 @@ impl RsyncDirState {
     /// a new blank state.
     fn recover(config: &Config) -> Result<Self> {
         let state_path = config.rsync_state_path();
-        if state_path.exists() {
+        if state_path.try_exists()? {
             let json_bytes = file_ops::read_file(&state_path).with_context(|| {
                 format!("Cannot read rsync state file at: {}", state_path.display())
             })?;
-- 
2.43.0


From 55c05378d52c3746381e7dbd1863872d37aec48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:54 +0000
Subject: [PATCH 15/34] fix: follow changes of the notification URI and the
 RRDP directory

The URI and directory in the saved state were used for the files, while the
configured ones were used for the rest: new files were moved to the new
directory, but the notification file stayed in the old one, without the
files that it referred to.
---
 src/process.rs |  1 +
 src/rrdp.rs    | 39 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/src/process.rs b/src/process.rs
index 4464542..4dd7159 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -19,6 +19,7 @@ pub fn process(config: &Config) -> Result<()> {
     } else {
         RrdpState::create(config)?
     };
+    rrdp_state.reconfigure(config)?;
 
     // ===================================================================
     // Update the RRDP state, if there are any changes in the source.
diff --git a/src/rrdp.rs b/src/rrdp.rs
index 61d83b8..94102b8 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -97,6 +97,45 @@ impl RrdpState {
         Ok(recovered)
     }
 
+    /// Ensure that the state matches the configured notification URI and RRDP
+    /// directory.
+    ///
+    /// If these were changed then there is no current snapshot or delta for the
+    /// new configuration. If the directory is still the same, then we still have
+    /// to clean up the old files - starting with the old notification file which
+    /// refers to them.
+    pub fn reconfigure(&mut self, config: &Config) -> Result<()> {
+        let notification_source = NotificationSource::build(config.notification_uri.clone())?;
+        let mappings = SourceMappings::build(config)?;
+
+        if self.mappings == mappings && self.notification_source.uri == notification_source.uri {
+            return Ok(());
+        }
+
+        info!("The notification URI or RRDP directory was changed.");
+
+        if self.mappings.rrdp_dir == mappings.rrdp_dir {
+            let old_path = self.mappings.path(self.notification_source.name());
+            let new_path = mappings.path(notification_source.name());
+            self.superseded_files = self.current_paths();
+
+            let old_files = std::iter::once(&old_path).chain(&self.superseded_files);
+            for path in old_files.cloned() {
+                self.deprecated_files.push(DeprecatedFile::new(path));
+            }
+            self.deprecated_files.retain(|d| d.path != new_path);
+        } else {
+            self.deprecated_files.clear();
+        }
+
+        self.notification_source = notification_source;
+        self.mappings = mappings;
+        self.snapshot = None;
+        self.deltas.clear();
+
+        Ok(())
+    }
+
     /// Get updates and saved them into the staging directory.
     ///
     /// Returns:
-- 
2.43.0


From 771590a8ae144df99480bbb0f4b5c44b34984ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:47 +0000
Subject: [PATCH 16/34] fix: never write into an rsync directory that is, or
 was, current

If an update was interrupted after 'current' was switched, then the next run
wrote all files in that live directory again. The same happened if the source
went back to a session that was published before. Directories that were only
partially written were never cleaned up, or used as they were.

Now directories that are known to be complete are used as they are, others
are written from scratch, and the state is brought in line with the symlink.
---
 src/rsync.rs | 132 ++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 114 insertions(+), 18 deletions(-)

diff --git a/src/rsync.rs b/src/rsync.rs
index 304c5b0..7678bd2 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -1,6 +1,6 @@
 use std::{
     fs::File,
-    io::{BufReader, Read},
+    io::{BufReader, ErrorKind, Read},
     path::{Path, PathBuf},
 };
 
@@ -36,14 +36,25 @@ pub fn update_from_rrdp_state(rrdp_state: &RrdpState, config: &Config) -> Result
 
     let mut rsync_state = RsyncDirState::recover(config)?;
 
-    let new_revision = RsyncRevision { session_id, serial };
-
-    let mut writer = RsyncFromSnapshotWriter {
-        out_path: new_revision.path(config),
-        include_host_and_module: config.rsync_include_host,
+    let new_revision = RsyncRevision {
+        session_id,
+        serial,
+        include_host: config.rsync_include_host,
     };
-    writer.create_out_path_if_missing()?;
-    writer.for_snapshot_path(&snapshot_path)?;
+
+    if rsync_state.is_complete(&new_revision, config)? {
+        // Never touch the content of a directory that is, or was, current.
+        info!("Using existing rsync directory for revision");
+    } else {
+        rsync_state.start_new(&new_revision, config)?;
+
+        let mut writer = RsyncFromSnapshotWriter {
+            out_path: new_revision.path(config),
+            include_host_and_module: config.rsync_include_host,
+        };
+        writer.create_out_path_if_missing()?;
+        writer.for_snapshot_path(&snapshot_path)?;
+    }
 
     if config.rsync_dir_use_symlinks() {
         symlink_current_to_new_revision_dir(&new_revision, config)?;
@@ -74,7 +85,7 @@ fn symlink_current_to_new_revision_dir(
     let current_path = config.rsync_dir_current();
 
     let tmp_name = file_ops::path_with_extension(&current_path, config::TMP_FILE_EXT);
-    if tmp_name.exists() {
+    if tmp_name.symlink_metadata().is_ok() {
         std::fs::remove_file(&tmp_name).with_context(|| {
             format!(
                 "Could not remove lingering temporary symlink for current rsync dir at '{}'",
@@ -150,6 +161,10 @@ fn rename_new_revision_dir_to_current(
 struct RsyncDirState {
     current: Option<RsyncRevision>,
     old: Vec<DeprecatedRsyncRevision>,
+
+    /// The revision for which a directory was being written.
+    #[serde(default)]
+    incomplete: Option<RsyncRevision>,
 }
 
 impl RsyncDirState {
@@ -157,7 +172,7 @@ impl RsyncDirState {
     /// a new blank state.
     fn recover(config: &Config) -> Result<Self> {
         let state_path = config.rsync_state_path();
-        if state_path.try_exists()? {
+        let mut state = if state_path.try_exists()? {
             let json_bytes = file_ops::read_file(&state_path).with_context(|| {
                 format!("Cannot read rsync state file at: {}", state_path.display())
             })?;
@@ -166,13 +181,54 @@ impl RsyncDirState {
                     "Cannot deserialize json for current state from {}",
                     state_path.display()
                 )
-            })
+            })?
         } else {
-            Ok(RsyncDirState {
+            RsyncDirState {
                 current: None,
                 old: vec![],
-            })
+                incomplete: None,
+            }
+        };
+
+        // If we were interrupted after the 'current' symlink was changed, but
+        // before the state could be saved, then the symlink is right.
+        let current_path = config.rsync_dir_current();
+        match std::fs::read_link(&current_path) {
+            Ok(target) => {
+                let revision = target.to_str().and_then(RsyncRevision::from_dir_name);
+                if let Some(revision) = revision {
+                    state.update_current(revision);
+                }
+            }
+            Err(e) if e.kind() == ErrorKind::NotFound => {}
+            Err(e) if e.kind() == ErrorKind::InvalidInput => {} // not a symlink
+            Err(e) => {
+                return Err(e)
+                    .with_context(|| format!("Could not read link {}", current_path.display()))
+            }
+        }
+
+        Ok(state)
+    }
+
+    /// Returns true if there is a completely written directory for the revision.
+    fn is_complete(&self, revision: &RsyncRevision, config: &Config) -> Result<bool> {
+        let known = self.current.as_ref() == Some(revision)
+            || self.old.iter().any(|old| &old.revision == revision);
+
+        Ok(known && revision.path(config).try_exists()?)
+    }
+
+    /// Prepares for writing the directory for a new revision. Removes what an
+    /// interrupted update may have left behind.
+    fn start_new(&mut self, revision: &RsyncRevision, config: &Config) -> Result<()> {
+        if let Some(incomplete) = self.incomplete.take() {
+            remove_dir(&incomplete.path(config))?;
         }
+        remove_dir(&revision.path(config))?;
+
+        self.incomplete = Some(revision.clone());
+        self.persist(config)
     }
 
     /// Persists the state to disk
@@ -186,6 +242,9 @@ impl RsyncDirState {
     /// Updates the current revision for this state, moves a possible
     /// existing, different, current revision to old.
     fn update_current(&mut self, current: RsyncRevision) {
+        if self.incomplete.as_ref() == Some(&current) {
+            self.incomplete = None;
+        }
         if self.current.as_ref() == Some(&current) {
             return;
         }
@@ -213,19 +272,24 @@ impl RsyncDirState {
             .filter(|deprecated| deprecated.since <= clean_before)
         {
             let path = old.revision.path(config);
-            if path.exists() {
+            // A directory with the name of a revision is always complete, so
+            // give it another name first.
+            let removed_path = file_ops::path_with_extension(&path, config::OLD_FILE_EXT);
+            remove_dir(&removed_path)?;
+
+            if path.try_exists()? {
                 info!(
                     "Removing rsync directory: {}, deprecated since: {}",
                     path.display(),
                     old.since
                 );
-                // Try to remove the old directory if it still exists
-                std::fs::remove_dir_all(&path).with_context(|| {
+                std::fs::rename(&path, &removed_path).with_context(|| {
                     format!(
-                        "Could not remove rsync dir for old revision at: {}",
+                        "Could not rename rsync dir for old revision at: {}",
                         path.display()
                     )
                 })?;
+                remove_dir(&removed_path)?;
             }
         }
 
@@ -236,17 +300,49 @@ impl RsyncDirState {
     }
 }
 
+/// Removes a directory and all its content, if it exists.
+fn remove_dir(path: &Path) -> Result<()> {
+    match std::fs::remove_dir_all(path) {
+        Err(e) if e.kind() != ErrorKind::NotFound => Err(e)
+            .with_context(|| format!("Could not remove old rsync dir at: {}", path.display())),
+        _ => Ok(()),
+    }
+}
+
 #[derive(Clone, Debug, Deserialize, Eq, PartialEq, Serialize)]
 
 struct RsyncRevision {
     #[serde(deserialize_with = "util::de_uuid", serialize_with = "util::ser_uuid")]
     session_id: Uuid,
     serial: u64,
+
+    /// Whether the directory includes the host and module. The same revision
+    /// may be needed both ways if this setting is changed.
+    #[serde(default)]
+    include_host: bool,
 }
 
 impl RsyncRevision {
     fn dir_name(&self) -> String {
-        format!("session_{}_serial_{}", self.session_id, self.serial)
+        let suffix = if self.include_host { "_host" } else { "" };
+        format!(
+            "session_{}_serial_{}{}",
+            self.session_id, self.serial, suffix
+        )
+    }
+
+    fn from_dir_name(name: &str) -> Option<Self> {
+        let (name, include_host) = match name.strip_suffix("_host") {
+            Some(name) => (name, true),
+            None => (name, false),
+        };
+        let (session_id, serial) = name.strip_prefix("session_")?.split_once("_serial_")?;
+
+        Some(RsyncRevision {
+            session_id: session_id.parse().ok()?,
+            serial: serial.parse().ok()?,
+            include_host,
+        })
     }
 
     fn path(&self, config: &Config) -> PathBuf {
-- 
2.43.0


From e5884556c12a81ad704d473935f65306ef9910ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:46 +0000
Subject: [PATCH 17/34] fix: never validate cached data instead of the staged
 snapshot

---
 src/validation/validator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 27ceafe..af1e4de 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -66,8 +66,10 @@ impl Validator {
     }
 
     /// Ensure that the staged data is updated even if we are
-    /// running in offline mode.
+    /// running in offline mode. Any data kept from a previous run is not
+    /// what is staged now, so this always reads the staged snapshot.
     pub fn initialise_staging_data(&mut self, notify_uri: &uri::Https) -> Result<()> {
+        self.repositories.data.remove(&UriString::from(notify_uri));
         self.repositories
             .get_latest(notify_uri, false, Time::now())?;
         Ok(())
-- 
2.43.0


From 87b2126a41e78610c6530485e2ddaa7f6f7917b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:28 +0000
Subject: [PATCH 18/34] fix: report a failure to remove an empty parent
 directory

---
 src/file_ops.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/file_ops.rs b/src/file_ops.rs
index cb337bf..eb07028 100644
--- a/src/file_ops.rs
+++ b/src/file_ops.rs
@@ -117,11 +117,14 @@ pub fn remove_file_and_empty_parent_dirs(path: &Path) -> Result<()> {
         _ => {}
     }
 
-    // Do a 'best effort' removal of the parents. This will fail in case of a
-    // non empty directory. That is fine and expected, it means that we are done.
+    // Removing the parents will fail in case of a non empty directory. That
+    // is fine and expected, it means that we are done.
     for parent in path.ancestors().skip(1) {
         match std::fs::remove_dir(parent) {
-            Err(e) if e.kind() != ErrorKind::NotFound => break,
+            Err(e) if e.kind() == ErrorKind::DirectoryNotEmpty => break,
+            Err(e) if e.kind() != ErrorKind::NotFound => {
+                return Err(e).with_context(|| format!("Cannot remove dir {}", parent.display()));
+            }
             _ => {}
         }
     }
-- 
2.43.0


From c729dbc21e1e5b340b8e6349b805a108ffd3bcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:30 +0000
Subject: [PATCH 19/34] fix: publish again if the published notification is not
 for our state

---
 src/process.rs |  3 +++
 src/rrdp.rs    | 20 +++++++++++++++++---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 4dd7159..ed41df4 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -147,7 +147,10 @@ pub fn process(config: &Config) -> Result<()> {
     // it is only now that they become deprecated. We clean up any files and
     // empty parent directories if they had been deprecated for more than
     // the configured 'cleanup_after' time.
+    //
+    // Our state must not refer to files that are removed.
     rrdp_state.deprecate_superseded();
+    rrdp_state.persist(&config.rrdp_state_path())?;
     rrdp_state.clean(config)?;
 
     // ===================================================================
diff --git a/src/rrdp.rs b/src/rrdp.rs
index 94102b8..e30aae2 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -146,6 +146,17 @@ impl RrdpState {
         let limit = config.rrdp_max_deltas;
         let fetcher = config.fetcher();
 
+        // The published notification file is for another revision than our state
+        // if an update was interrupted after that file was written.
+        let published = self.published_notification()?;
+        let is_published = match (&self.snapshot, &published) {
+            (Some(snapshot), Some(published)) => {
+                snapshot.session_id() == published.session_id()
+                    && snapshot.serial() == published.serial()
+            }
+            _ => false,
+        };
+
         match self.notification_source.fetch(&fetcher)? {
             None => {
                 debug!("Notification file at source to sync was not changed, no updated needed.");
@@ -190,6 +201,11 @@ impl RrdpState {
                                     notification_file.serial()
                                 )
                             }
+                            std::cmp::Ordering::Equal if !is_published => {
+                                debug!(
+                                    "Notification file unchanged, but it is not what we published."
+                                )
+                            }
                             std::cmp::Ordering::Equal => {
                                 // no change, session and serial unchanged
                                 debug!("Notification file unchanged (etag not supported?), no update needed.");
@@ -207,9 +223,7 @@ impl RrdpState {
                     }
                 }
 
-                // The published notification file is newer than our state if the
-                // update was interrupted after it was written.
-                if let Some(published) = self.published_notification()? {
+                if let Some(published) = &published {
                     if published.session_id() == notification_file.session_id()
                         && published.serial() > notification_file.serial()
                     {
-- 
2.43.0


From 9e71025fec435f6c7408095f245b8e2a6fd07910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:53 +0000
Subject: [PATCH 20/34] fix: do not use the rsync state of another rsync
 directory

---
 src/rsync.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/rsync.rs b/src/rsync.rs
index 7678bd2..6cb2a71 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -157,7 +157,7 @@ fn rename_new_revision_dir_to_current(
     Ok(())
 }
 
-#[derive(Clone, Debug, Deserialize, Eq, PartialEq, Serialize)]
+#[derive(Clone, Debug, Default, Deserialize, Eq, PartialEq, Serialize)]
 struct RsyncDirState {
     current: Option<RsyncRevision>,
     old: Vec<DeprecatedRsyncRevision>,
@@ -165,6 +165,10 @@ struct RsyncDirState {
     /// The revision for which a directory was being written.
     #[serde(default)]
     incomplete: Option<RsyncRevision>,
+
+    /// The rsync directory that all this is about.
+    #[serde(default)]
+    rsync_dir: Option<PathBuf>,
 }
 
 impl RsyncDirState {
@@ -183,13 +187,17 @@ impl RsyncDirState {
                 )
             })?
         } else {
-            RsyncDirState {
-                current: None,
-                old: vec![],
-                incomplete: None,
-            }
+            RsyncDirState::default()
         };
 
+        if state.rsync_dir.as_ref() != Some(&config.rsync_dir) {
+            if state.rsync_dir.is_some() {
+                info!("The rsync directory was changed.");
+                state = RsyncDirState::default();
+            }
+            state.rsync_dir = Some(config.rsync_dir.clone());
+        }
+
         // If we were interrupted after the 'current' symlink was changed, but
         // before the state could be saved, then the symlink is right.
         let current_path = config.rsync_dir_current();
-- 
2.43.0


From 99743ca24ea09a176c2d65ac6b239816452673f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:01 +0000
Subject: [PATCH 21/34] fix: restart the clean up time of files that were
 superseded in an interrupted run

---
 src/rrdp.rs | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index e30aae2..29cd3e8 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -43,8 +43,9 @@ pub struct RrdpState {
     /// Deprecated files - which may be cleaned up after some time
     deprecated_files: Vec<DeprecatedFile>,
 
-    /// Files which will be deprecated when the new notification file is written
-    #[serde(skip)]
+    /// Files which will be deprecated when the new notification file is written,
+    /// kept on disk because we may get interrupted right after writing that file
+    #[serde(default)]
     superseded_files: BTreeSet<PathBuf>,
 
     /// Embedded validator
@@ -117,7 +118,7 @@ impl RrdpState {
         if self.mappings.rrdp_dir == mappings.rrdp_dir {
             let old_path = self.mappings.path(self.notification_source.name());
             let new_path = mappings.path(notification_source.name());
-            self.superseded_files = self.current_paths();
+            self.superseded_files.append(&mut self.current_paths());
 
             let old_files = std::iter::once(&old_path).chain(&self.superseded_files);
             for path in old_files.cloned() {
@@ -126,6 +127,7 @@ impl RrdpState {
             self.deprecated_files.retain(|d| d.path != new_path);
         } else {
             self.deprecated_files.clear();
+            self.superseded_files.clear();
         }
 
         self.notification_source = notification_source;
@@ -427,6 +429,20 @@ impl RrdpState {
         mut staged: StagedChanges,
         config: &Config,
     ) -> Result<()> {
+        // Old files stay in use until the new notification file is written.
+        // If the previous update was interrupted after it had written that file
+        // then it may refer to other files than our state.
+        let mut old_paths = self.current_paths();
+        if let Some(published) = self.published_notification()? {
+            let deltas = published.deltas().iter().map(|delta| delta.uri());
+            for uri in deltas.chain(std::iter::once(published.snapshot().uri())) {
+                if let Ok(path) = self.mappings.path_for_uri(uri) {
+                    old_paths.insert(path);
+                }
+            }
+        }
+        self.superseded_files.append(&mut old_paths);
+
         // Keep track of the files we are about to add, so that they will be
         // cleaned up if we get interrupted and they are never used.
         self.expect_new_files(&staged)?;
@@ -453,20 +469,6 @@ impl RrdpState {
             )?;
         }
 
-        // Old files stay in use until the new notification file is written.
-        // If the previous update was interrupted after it had written that file
-        // then it may refer to other files than our state.
-        let mut old_paths = self.current_paths();
-        if let Some(published) = self.published_notification()? {
-            let deltas = published.deltas().iter().map(|delta| delta.uri());
-            for uri in deltas.chain(std::iter::once(published.snapshot().uri())) {
-                if let Ok(path) = self.mappings.path_for_uri(uri) {
-                    old_paths.insert(path);
-                }
-            }
-        }
-        self.superseded_files.append(&mut old_paths);
-
         // remove old deltas
         let cutoff = staged.cutoff;
         if staged.session_reset {
-- 
2.43.0


From b74f48b9220833682f270c0664b7d02e4e30dce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:23 +0000
Subject: [PATCH 22/34] fix: clean up the temporary notification file if the
 notification URI changes

---
 src/rrdp.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index 29cd3e8..dc592f0 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -117,11 +117,12 @@ impl RrdpState {
 
         if self.mappings.rrdp_dir == mappings.rrdp_dir {
             let old_path = self.mappings.path(self.notification_source.name());
+            let old_tmp_path = self.mappings.path(&self.notification_source.tmp_name());
             let new_path = mappings.path(notification_source.name());
             self.superseded_files.append(&mut self.current_paths());
 
-            let old_files = std::iter::once(&old_path).chain(&self.superseded_files);
-            for path in old_files.cloned() {
+            let old_files = [old_path, old_tmp_path];
+            for path in old_files.iter().chain(&self.superseded_files).cloned() {
                 self.deprecated_files.push(DeprecatedFile::new(path));
             }
             self.deprecated_files.retain(|d| d.path != new_path);
-- 
2.43.0


From d4b1f21ead00cd0eaab34d0279dc0f8528d6e06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:55 +0000
Subject: [PATCH 23/34] fix: stop validation at certificate loops

---
 src/validation/validator.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index af1e4de..9126e25 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -6,6 +6,7 @@ use bytes::Bytes;
 use chrono::Duration;
 use log::{debug, info, trace, warn};
 use rpki::{
+    crypto::KeyIdentifier,
     repository::{
         aspa::Aspa, error::VerificationError, x509::Time, Cert, Crl, Manifest, ResourceCert, Roa,
     },
@@ -22,6 +23,9 @@ use super::{
     ValidatedChild, ValidatedRoa, ValidatedRouterCert, ValidationIssue, ValidationReport,
 };
 
+/// The maximum number of CA certificates between a TA and an object.
+const MAX_CA_DEPTH: usize = 32;
+
 #[derive(Debug, Deserialize, Serialize)]
 pub struct Validator {
     tals: Vec<Tal>,
@@ -101,13 +105,14 @@ impl Validator {
         let info = ValidatedCaCertInfo::try_from(&ta_cert)
             .map_err(|e| anyhow!(format!("Invalid TA certificate: {e}")))?;
 
-        Ok(self.validate_tree_at(&ta_cert, &info, offline, when))
+        Ok(self.validate_tree_at(&ta_cert, &info, &[], offline, when))
     }
 
     fn validate_tree_at(
         &mut self,
         resource_cert: &ResourceCert,
         ca_cert_info: &ValidatedCaCertInfo,
+        parent_keys: &[KeyIdentifier],
         offline: bool,
         when: Time,
     ) -> ValidationReport {
@@ -128,6 +133,11 @@ impl Validator {
 
         let mut child_certificates = vec![];
 
+        // The keys from the TA down to this CA. A child that uses one of these
+        // keys would make us go round in circles.
+        let mut ca_keys = parent_keys.to_vec();
+        ca_keys.push(resource_cert.subject_key_identifier());
+
         {
             let mft_uri = &ca_cert_info.sia_mft;
             let sia_ca = &ca_cert_info.sia_ca;
@@ -349,6 +359,18 @@ impl Validator {
                                             uri,
                                             "certificate was revoked",
                                         ));
+                                    } else if ca_keys
+                                        .contains(&child_cert.subject_key_identifier())
+                                    {
+                                        ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
+                                            uri,
+                                            "certificate loop: issued to the key of a parent CA",
+                                        ));
+                                    } else if ca_keys.len() >= MAX_CA_DEPTH {
+                                        ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
+                                            uri,
+                                            "too many levels of CA certificates",
+                                        ));
                                     } else {
                                         match child_cert.validate_ca_at(resource_cert, strict, when)
                                         {
@@ -457,7 +479,7 @@ impl Validator {
 
         // recurse child certificates
         for (cert, info) in child_certificates {
-            report.add_other(self.validate_tree_at(&cert, &info, offline, when));
+            report.add_other(self.validate_tree_at(&cert, &info, &ca_keys, offline, when));
         }
 
         report
-- 
2.43.0


From ca45795ccdee15ed994bd9d56ea90b02bdfdef11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:55 +0000
Subject: [PATCH 24/34] fix: check whether router certificates were revoked

---
 src/validation/validator.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 9126e25..fcba632 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -410,6 +410,14 @@ impl Validator {
                                     }
                                 } else {
                                     // This should be a BGPSec router (EE) certificate
+                                    if crl.contains(child_cert.serial_number()) {
+                                        ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
+                                            uri,
+                                            "router certificate was revoked",
+                                        ));
+                                        continue;
+                                    }
+
                                     match child_cert.validate_router_at(resource_cert, strict, when)
                                     {
                                         Ok(_) => {
-- 
2.43.0


From 6bf69b4951a1b2f84ea6f8ffba1d86caf2dd5791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:55 +0000
Subject: [PATCH 25/34] fix: report stale manifests

---
 src/validation/validator.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index fcba632..59d016f 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -203,6 +203,15 @@ impl Validator {
                 }
             };
 
+            if content.next_update() < when {
+                ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
+                    mft_uri_string,
+                    "Manifest is stale",
+                ));
+                report.add_cert(ca_cert);
+                return report;
+            }
+
             #[allow(clippy::mutable_key_type)]
             let mut mft_entries: HashMap<_, _> = content
                 .iter_uris(sia_ca)
-- 
2.43.0


From 41f22b2d397b2a3cfd0c9f0f03ddc3551307baac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:12 +0000
Subject: [PATCH 26/34] fix: report file names on manifests that cannot be used
 in a URI

---
 src/validation/validator.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/validation/validator.rs b/src/validation/validator.rs
index 59d016f..8cd6406 100644
--- a/src/validation/validator.rs
+++ b/src/validation/validator.rs
@@ -8,7 +8,8 @@ use log::{debug, info, trace, warn};
 use rpki::{
     crypto::KeyIdentifier,
     repository::{
-        aspa::Aspa, error::VerificationError, x509::Time, Cert, Crl, Manifest, ResourceCert, Roa,
+        aspa::Aspa, error::VerificationError, manifest::ManifestHash, x509::Time, Cert, Crl,
+        Manifest, ResourceCert, Roa,
     },
     rrdp::{self, Delta, DeltaElement, NotificationFile, Snapshot},
     uri,
@@ -213,10 +214,22 @@ impl Validator {
             }
 
             #[allow(clippy::mutable_key_type)]
-            let mut mft_entries: HashMap<_, _> = content
-                .iter_uris(sia_ca)
-                .map(|(k, v)| (UriString::from(k), v))
-                .collect();
+            let mut mft_entries: HashMap<_, _> = HashMap::new();
+            for entry in content.iter() {
+                let (file, hash) = entry.into_pair();
+                match sia_ca.join(file.as_ref()) {
+                    Ok(uri) => {
+                        let hash = ManifestHash::new(hash, content.file_hash_alg());
+                        mft_entries.insert(UriString::from(uri), hash);
+                    }
+                    Err(e) => {
+                        ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
+                            mft_uri_string.clone(),
+                            format!("Invalid file name on manifest: {e}"),
+                        ));
+                    }
+                }
+            }
 
             let crl_uri = match mft_cert.crl_uri() {
                 Some(uri) => UriString::from(uri),
-- 
2.43.0


From 29ad7dfc7e570af5f27aa490573a5055b5ee369c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:34 +0000
Subject: [PATCH 27/34] fix: flush files and directories before they are relied
 upon

Nothing that was written was ever flushed to stable storage, so that a loss
of power could leave empty or truncated files behind under their final names:
a published notification or the files it lists, the objects in the current
rsync directory, or the state files. In the latter case no update succeeded
until those files were removed by hand. And because the state may live on
another file system it could be ahead of what was really published.
---
 src/file_ops.rs | 47 ++++++++++++++++++++++++++++++++++++++++++++++-
 src/rrdp.rs     | 18 ++++--------------
 src/rsync.rs    |  5 +++++
 3 files changed, 55 insertions(+), 15 deletions(-)

diff --git a/src/file_ops.rs b/src/file_ops.rs
index eb07028..83b1407 100644
--- a/src/file_ops.rs
+++ b/src/file_ops.rs
@@ -30,13 +30,49 @@ pub fn replace_file(file_path: &Path, buf: &[u8]) -> Result<()> {
 /// must be on the same file system.
 pub fn replace_file_using(file_path: &Path, tmp_path: &Path, buf: &[u8]) -> Result<()> {
     write_buf(tmp_path, buf)?;
+    sync(tmp_path)?;
     std::fs::rename(tmp_path, file_path).with_context(|| {
         format!(
             "Cannot rename {} to {}",
             tmp_path.display(),
             file_path.display()
         )
-    })
+    })?;
+    sync_parent_dir(file_path)
+}
+
+/// Flushes a file, or the entries of a directory, to stable storage so that it
+/// will be there after a loss of power.
+pub fn sync(path: &Path) -> Result<()> {
+    File::open(path)
+        .and_then(|file| file.sync_all())
+        .with_context(|| format!("Cannot sync {}", path.display()))
+}
+
+/// Flushes a directory and all that is in it to stable storage.
+pub fn sync_dir_all(dir: &Path) -> Result<()> {
+    let entries =
+        std::fs::read_dir(dir).with_context(|| format!("Cannot read dir {}", dir.display()))?;
+
+    for entry in entries {
+        let path = entry
+            .with_context(|| format!("Cannot read dir {}", dir.display()))?
+            .path();
+        if path.is_dir() {
+            sync_dir_all(&path)?;
+        } else {
+            sync(&path)?;
+        }
+    }
+
+    sync(dir)
+}
+
+fn sync_parent_dir(path: &Path) -> Result<()> {
+    match path.parent() {
+        Some(dir) => sync(dir),
+        None => Ok(()),
+    }
 }
 
 /// Create an empty file for a path
@@ -83,6 +119,9 @@ pub fn move_file(
         ));
     }
 
+    // The moved file is used when this is done, even if power is lost then.
+    sync(&original_file)?;
+
     if std::fs::rename(&original_file, &target_file).is_err() {
         // Move failed. Try to copy and delete instead. Replace the target
         // in one step, because it may be a file that is being served.
@@ -105,6 +144,12 @@ pub fn move_file(
         })?;
     }
 
+    // This includes the entries for directories we just created.
+    let dirs = target_file.ancestors().skip(1);
+    for dir in dirs.take_while(|dir| dir.starts_with(target_base_dir)) {
+        sync(dir)?;
+    }
+
     Ok(())
 }
 
diff --git a/src/rrdp.rs b/src/rrdp.rs
index dc592f0..d1150bf 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -1,6 +1,6 @@
 use std::{
     collections::BTreeSet,
-    fs::{self, File},
+    fs::File,
     io::{self, BufReader},
     path::{Path, PathBuf},
 };
@@ -586,22 +586,12 @@ impl RrdpState {
         let mut bytes: Vec<u8> = vec![];
         notification.write_xml(&mut bytes)?;
 
-        file_ops::write_buf(&path_tmp, &bytes).with_context(|| {
+        file_ops::replace_file_using(&path_final, &path_tmp, &bytes).with_context(|| {
             format!(
-                "Could not write temporary notification file to: {}",
-                path_tmp.display()
-            )
-        })?;
-
-        fs::rename(&path_tmp, &path_final).with_context(|| {
-            format!(
-                "Could not rename {} to {}",
-                path_tmp.display(),
+                "Could not write notification file to: {}",
                 path_final.display()
             )
-        })?;
-
-        Ok(())
+        })
     }
 
     /// Reads the notification file that is currently published. Returns None if
diff --git a/src/rsync.rs b/src/rsync.rs
index 6cb2a71..9e13c57 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -54,6 +54,10 @@ pub fn update_from_rrdp_state(rrdp_state: &RrdpState, config: &Config) -> Result
         };
         writer.create_out_path_if_missing()?;
         writer.for_snapshot_path(&snapshot_path)?;
+
+        // Make sure that 'current' never refers to files that are lost.
+        file_ops::sync_dir_all(&new_revision.path(config))?;
+        file_ops::sync(&config.rsync_dir)?;
     }
 
     if config.rsync_dir_use_symlinks() {
@@ -61,6 +65,7 @@ pub fn update_from_rrdp_state(rrdp_state: &RrdpState, config: &Config) -> Result
     } else {
         rename_new_revision_dir_to_current(&new_revision, &rsync_state, config)?;
     }
+    file_ops::sync(&config.rsync_dir)?;
 
     rsync_state.update_current(new_revision);
 
-- 
2.43.0


From 8cc243e3553984cee9593faf0fb017aff11c069a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:56 +0000
Subject: [PATCH 28/34] fix: never publish another snapshot for the published
 serial

If an update was interrupted between writing the notification file and saving
the state, and the source then served another snapshot for that same serial,
then this was accepted as an update from the older serial in the state.
---
 src/rrdp.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index d1150bf..39d4344 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -236,6 +236,17 @@ impl RrdpState {
                             published.serial()
                         ));
                     }
+
+                    // We may get here if the update to this serial was interrupted.
+                    if published.session_id() == notification_file.session_id()
+                        && published.serial() == notification_file.serial()
+                        && published.snapshot().hash() != notification_file.snapshot().hash()
+                    {
+                        return Err(anyhow!(
+                            "The notification file has another snapshot for the published serial '{}'. Server session reset recommended.",
+                            published.serial()
+                        ));
+                    }
                 }
 
                 // Save the notification file to the staging area so that it can
-- 
2.43.0


From a5263e2b7d0610472dc99bfa8abf6e839e0984bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:09 +0000
Subject: [PATCH 29/34] fix: allow the RRDP directory to be a symlink

Removing empty parent directories of old files stopped with an error when it
got to a symlink.
---
 src/file_ops.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/file_ops.rs b/src/file_ops.rs
index 83b1407..b978e92 100644
--- a/src/file_ops.rs
+++ b/src/file_ops.rs
@@ -162,11 +162,12 @@ pub fn remove_file_and_empty_parent_dirs(path: &Path) -> Result<()> {
         _ => {}
     }
 
-    // Removing the parents will fail in case of a non empty directory. That
-    // is fine and expected, it means that we are done.
+    // Removing the parents will fail in case of a non empty directory, or a
+    // symlink to one. That is fine and expected, it means that we are done.
     for parent in path.ancestors().skip(1) {
         match std::fs::remove_dir(parent) {
             Err(e) if e.kind() == ErrorKind::DirectoryNotEmpty => break,
+            Err(e) if e.kind() == ErrorKind::NotADirectory => break, // symlink to a directory
             Err(e) if e.kind() != ErrorKind::NotFound => {
                 return Err(e).with_context(|| format!("Cannot remove dir {}", parent.display()));
             }
-- 
2.43.0


From 4aafdff72088a5fb9c9b3876f235bb5896ad6216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:47 +0000
Subject: [PATCH 30/34] fix: do not skip directories that cannot be examined
 when flushing

---
 src/file_ops.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/file_ops.rs b/src/file_ops.rs
index b978e92..c91ef88 100644
--- a/src/file_ops.rs
+++ b/src/file_ops.rs
@@ -55,10 +55,12 @@ pub fn sync_dir_all(dir: &Path) -> Result<()> {
         std::fs::read_dir(dir).with_context(|| format!("Cannot read dir {}", dir.display()))?;
 
     for entry in entries {
-        let path = entry
-            .with_context(|| format!("Cannot read dir {}", dir.display()))?
-            .path();
-        if path.is_dir() {
+        let entry = entry.with_context(|| format!("Cannot read dir {}", dir.display()))?;
+        let path = entry.path();
+        let file_type = entry
+            .file_type()
+            .with_context(|| format!("Cannot determine type of {}", path.display()))?;
+        if file_type.is_dir() {
             sync_dir_all(&path)?;
         } else {
             sync(&path)?;
-- 
2.43.0


From 790e454adf26003a79f84a5e7d06200d82147bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:24 +0000
Subject: [PATCH 31/34] fix: clean up an incomplete rsync directory if the next
 update does not write one

---
 src/rsync.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rsync.rs b/src/rsync.rs
index 9e13c57..97d0df6 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -277,6 +277,11 @@ impl RsyncDirState {
     /// an old dir fails, but will simply skip removing old dirs if they had
     /// already been removed.
     fn clean_old(&mut self, config: &Config) -> Result<()> {
+        if let Some(incomplete) = &self.incomplete {
+            remove_dir(&incomplete.path(config))?;
+            self.incomplete = None;
+        }
+
         let clean_before = Time::seconds_ago(config.cleanup_after);
 
         for old in self
-- 
2.43.0


From d04759bc114264b4c65031f6b867c4133dfaba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:59 +0000
Subject: [PATCH 32/34] fix: accept sources whose ETag is not plain ASCII

Such an ETag is allowed in HTTP, but the run failed for it. It is only
needed to avoid fetching an unchanged notification file.
---
 src/fetch.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/fetch.rs b/src/fetch.rs
index d35d121..3d57bdd 100644
--- a/src/fetch.rs
+++ b/src/fetch.rs
@@ -124,15 +124,13 @@ impl FetchSource {
 
                 match response.status() {
                     StatusCode::OK => {
-                        let etag = match response.headers().get(ETAG) {
-                            None => None,
-                            Some(header_value) => Some(
-                                header_value
-                                    .to_str()
-                                    .with_context(|| "invalid ETag in response header")?
-                                    .to_owned(),
-                            ),
-                        };
+                        // An ETag may contain other bytes than ASCII. We do not need
+                        // it, so simply do without if we cannot handle it.
+                        let etag = response
+                            .headers()
+                            .get(ETAG)
+                            .and_then(|header_value| header_value.to_str().ok())
+                            .map(|etag| etag.to_owned());
 
                         let bytes = response.bytes().with_context(|| {
                             format!("Got no response from '{uri}' even though the status was OK")
-- 
2.43.0


From e44cd92d8186be7f308400c6cbe3ab6f1c20a1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:40 +0000
Subject: [PATCH 33/34] fix: remove what is left of an rsync directory when its
 revision becomes current again

---
 src/rsync.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rsync.rs b/src/rsync.rs
index 97d0df6..294d83c 100644
--- a/src/rsync.rs
+++ b/src/rsync.rs
@@ -238,7 +238,13 @@ impl RsyncDirState {
         if let Some(incomplete) = self.incomplete.take() {
             remove_dir(&incomplete.path(config))?;
         }
-        remove_dir(&revision.path(config))?;
+        let path = revision.path(config);
+        remove_dir(&path)?;
+        // Or what is left if it was current before and could not be removed.
+        remove_dir(&file_ops::path_with_extension(
+            &path,
+            config::OLD_FILE_EXT,
+        ))?;
 
         self.incomplete = Some(revision.clone());
         self.persist(config)
-- 
2.43.0


From cd90c37e1a41a30f78386456f317efe7f8d58a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:54 +0000
Subject: [PATCH 34/34] fix: remove files which were staged for a revision that
 was never published

If a run fails after files were staged, and the next run finds a newer
notification file, then nothing ever removed the files that only the older
one refers to. Now they are removed before the new notification file is
staged. That file is replaced in one step, so that it always lists what is
in the staging directory.
---
 src/rrdp.rs | 62 +++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 60 insertions(+), 2 deletions(-)

diff --git a/src/rrdp.rs b/src/rrdp.rs
index 39d4344..5e1e912 100644
--- a/src/rrdp.rs
+++ b/src/rrdp.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::BTreeSet,
+    collections::{BTreeSet, HashSet},
     fs::File,
     io::{self, BufReader},
     path::{Path, PathBuf},
@@ -256,7 +256,8 @@ impl RrdpState {
                     let mut bytes: Vec<u8> = vec![];
                     notification_file.write_xml(&mut bytes)?;
 
-                    file_ops::write_buf(&path, &bytes).with_context(|| {
+                    self.remove_obsolete_staged(&path, &notification_file, config)?;
+                    file_ops::replace_file(&path, &bytes).with_context(|| {
                         format!(
                             "Could not write staging notification file to: {}",
                             path.display()
@@ -679,6 +680,63 @@ impl RrdpState {
         ))
     }
 
+    /// Removes the files that were staged for an earlier notification file, but
+    /// never moved out of the staging directory, unless they are still needed.
+    fn remove_obsolete_staged(
+        &self,
+        staged_notification: &Path,
+        notification: &NotificationFile,
+        config: &Config,
+    ) -> Result<()> {
+        if !staged_notification.try_exists()? {
+            return Ok(());
+        }
+
+        let bytes = file_ops::read_file(staged_notification)?;
+        let staged = match NotificationFile::parse(bytes.as_ref()) {
+            Ok(staged) => staged,
+            Err(e) => {
+                warn!("Cannot parse staged notification file: {e}");
+                return Ok(());
+            }
+        };
+
+        let needed: HashSet<String> = self.staged_rel_paths(notification).collect();
+        for rel_path in self.staged_rel_paths(&staged) {
+            if needed.contains(&rel_path) {
+                continue;
+            }
+
+            let path = config.staging_path(&rel_path);
+            match path.symlink_metadata() {
+                Ok(metadata) if metadata.is_file() => {
+                    debug!("Removing staged file: {}", path.display());
+                    file_ops::remove_file_and_empty_parent_dirs(&path)?;
+                }
+                Err(e)
+                    if e.kind() != io::ErrorKind::NotFound
+                        && e.kind() != io::ErrorKind::NotADirectory =>
+                {
+                    return Err(e).with_context(|| format!("Cannot access {}", path.display()));
+                }
+                _ => {} // was moved, or never staged
+            }
+        }
+
+        Ok(())
+    }
+
+    /// The relative paths of the files that may be staged for a notification file.
+    fn staged_rel_paths<'a>(
+        &'a self,
+        notification: &'a NotificationFile,
+    ) -> impl Iterator<Item = String> + 'a {
+        let deltas = notification.deltas().iter().map(|delta| delta.uri());
+        deltas
+            .chain(std::iter::once(notification.snapshot().uri()))
+            .filter_map(move |uri| self.rel_path_for_new(uri).ok())
+    }
+
     /// Derives the relative path for a new snapshot or delta. Returns an error
     /// if that path is needed for the notification file itself.
     fn rel_path_for_new(&self, uri: &Https) -> Result<String> {
-- 
2.43.0

