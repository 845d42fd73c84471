From 6a8abdb7c9054ffaab953a5330edcb08caa8ced3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:30 +0000
Subject: [PATCH 01/10] fix: prevent two processes from owning the lockfile

Releasing the lock before removing the lockfile allowed another process to
lock a file that was about to be removed, while a third process could create
and lock a new one. Remove the lockfile while it is still locked, and do not
use a lockfile that was removed before it got locked.
---
 src/repository.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/repository.c b/src/repository.c
index 693f94b..c6cacdd 100644
--- a/src/repository.c
+++ b/src/repository.c
@@ -7,6 +7,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <sys/stat.h>
 #include <unistd.h>
 
 #include "CRegion/alloc-growable.h"
@@ -403,9 +404,11 @@ static void cleanupLockfile(void *lockfile_info_ptr)
   const int old_errno = errno;
   if(info->is_locked)
   {
+    /* Remove the lockfile before releasing it. Otherwise it may already be
+       owned by another process. */
+    (void)remove(info->file_path);
     (void)lockf(info->file_descriptor, F_ULOCK, 0);
     (void)close(info->file_descriptor);
-    (void)remove(info->file_path);
   }
   else
   {
@@ -414,6 +417,19 @@ static void cleanupLockfile(void *lockfile_info_ptr)
   errno = old_errno;
 }
 
+/** Returns true if the path of the given lockfile still refers to the opened
+  file. Another process may have removed it before it got locked. */
+static bool lockfileExists(const LockfileInfo *info)
+{
+  struct stat fd_stats;
+  struct stat path_stats;
+
+  return fstat(info->file_descriptor, &fd_stats) == 0 &&
+    stat(info->file_path, &path_stats) == 0 &&
+    fd_stats.st_dev == path_stats.st_dev &&
+    fd_stats.st_ino == path_stats.st_ino;
+}
+
 /** Lock the specified repository until the given region gets released. If
   the repository is already locked by another process, the program will be
   terminated with an error message. Calling this function twice from the
@@ -448,6 +464,10 @@ void repoLock(CR_Region *r, StringView repo_path,
 
   if(lockf(lockfile_info->file_descriptor, F_TLOCK, 0) == 0)
   {
+    if(!lockfileExists(lockfile_info))
+    {
+      die("repository is already being used by another process");
+    }
     lockfile_info->is_locked = true;
   }
   else if(errno == EACCES || errno == EAGAIN)
-- 
2.43.0


From 705b67b18bf63d6aac8be0b3eb358b6c472ceb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:20 +0000
Subject: [PATCH 02/10] fix: reject symlink targets with null-bytes when
 loading metadata

---
 src/metadata.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/metadata.c b/src/metadata.c
index 6cde6cf..ea6fd0e 100644
--- a/src/metadata.c
+++ b/src/metadata.c
@@ -253,6 +253,12 @@ static PathHistory *readPathHistory(Allocator *region_wrapper,
 
     buffer[target_length] = '\0';
 
+    if(memchr(buffer, '\0', target_length) != NULL)
+    {
+      die("contains symlink target with null-bytes: \"" PRI_STR "\"",
+          STR_FMT(metadata_path));
+    }
+
     strSet(&point->state.metadata.symlink_target, str(buffer));
   }
   else if(point->state.type == PST_directory)
-- 
2.43.0


From fc1a2bb2455ef1526872cc83661a2746190940f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:20 +0000
Subject: [PATCH 03/10] fix: reject invalid policies when loading metadata

---
 src/metadata.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/metadata.c b/src/metadata.c
index ea6fd0e..0a92cc6 100644
--- a/src/metadata.c
+++ b/src/metadata.c
@@ -447,6 +447,12 @@ readPathSubnodes(Allocator *region_wrapper, const FileContent content,
 
     node->hint = BH_none;
     node->policy = read8(content, reader_position, metadata_path);
+    if(node->policy > BPOL_track)
+    {
+      die("contains invalid policy: \"" PRI_STR "\"",
+          STR_FMT(metadata_path));
+    }
+
     node->history = readFullPathHistory(
       region_wrapper, content, reader_position, metadata_path, metadata);
 
-- 
2.43.0


From 61368dfe946a319dce8b238bf32dea9da8ccd5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:20 +0000
Subject: [PATCH 04/10] fix: reject paths without history when loading metadata

---
 src/metadata.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/metadata.c b/src/metadata.c
index 0a92cc6..ddfda77 100644
--- a/src/metadata.c
+++ b/src/metadata.c
@@ -455,6 +455,11 @@ readPathSubnodes(Allocator *region_wrapper, const FileContent content,
 
     node->history = readFullPathHistory(
       region_wrapper, content, reader_position, metadata_path, metadata);
+    if(node->history == NULL)
+    {
+      die("contains path without history: \"" PRI_STR "\"",
+          STR_FMT(metadata_path));
+    }
 
     node->subnodes =
       readPathSubnodes(region_wrapper, content, reader_position,
-- 
2.43.0


From 1a7da64405d575557565a8e7b214b9446775e41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 05/10] fix: match and record paths directly below the root
 directory

Listing "/" returned paths starting with two slashes, whose last component
kept a slash. Regular expressions for the first path level never matched,
and backing up the entire root directory wrote filenames with slashes,
which made the metadata unreadable.
---
 src/safe-wrappers.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/safe-wrappers.c b/src/safe-wrappers.c
index f03495a..4fc52d3 100644
--- a/src/safe-wrappers.c
+++ b/src/safe-wrappers.c
@@ -279,7 +279,8 @@ DirIterator *sDirOpen(StringView path)
   DirIterator *dir = CR_RegionAlloc(r, sizeof *dir);
 
   dir->r = r;
-  strSet(&dir->directory_path, strCopy(path, allocatorWrapRegion(r)));
+  strSet(&dir->directory_path, strCopy(strStripTrailingSlashes(path),
+                                       allocatorWrapRegion(r)));
   dir->returned_result_buffer = allocatorWrapOneSingleGrowableBuffer(r);
   dir->handle = opendir(nullTerminate(path));
 
-- 
2.43.0


From 98b1502dfc8ddcbf01b264a40771b2bcdf11c3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:46 +0000
Subject: [PATCH 06/10] fix: restore permissions after content and owner

Changing the owner clears the setuid and setgid bits, which were not
restored afterwards if the owner was the only difference.
---
 src/restore.c | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/restore.c b/src/restore.c
index 44f138d..d6c9dfe 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -382,6 +382,16 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
   }
   else if(node->policy != BPOL_none)
   {
+    /* Changing the content or the owner can clear the setuid and setgid
+       bits. Permissions must be restored after that. */
+    const bool restore_content =
+      (node->hint & BH_content_changed) && state->type == PST_regular_file;
+
+    if(restore_content)
+    {
+      restoreFile(node->path, &state->metadata.file_info, repo_path);
+    }
+
     if(node->hint & BH_owner_changed)
     {
       if(state->type == PST_symlink)
@@ -393,7 +403,8 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
         sChown(node->path, state->uid, state->gid);
       }
     }
-    if(node->hint & BH_permissions_changed)
+    if(restore_content ||
+       (node->hint & (BH_owner_changed | BH_permissions_changed)))
     {
       if(state->type == PST_regular_file)
       {
@@ -405,21 +416,13 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
       }
     }
 
-    if(node->hint & BH_content_changed)
+    if((node->hint & BH_content_changed) && state->type == PST_symlink)
     {
-      if(state->type == PST_regular_file)
-      {
-        restoreFile(node->path, &state->metadata.file_info, repo_path);
-        sUtime(node->path, state->metadata.file_info.modification_time);
-      }
-      else if(state->type == PST_symlink)
-      {
-        sRemove(node->path);
-        restorePath(node, state, repo_path);
-        affects_parent_timestamp = true;
-      }
+      sRemove(node->path);
+      restorePath(node, state, repo_path);
+      affects_parent_timestamp = true;
     }
-    else if(node->hint & BH_timestamp_changed)
+    else if(restore_content || (node->hint & BH_timestamp_changed))
     {
       if(state->type == PST_regular_file)
       {
-- 
2.43.0


From 358d7422d062d148781034b3dfc4aa8bbba9b77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:46 +0000
Subject: [PATCH 07/10] fix: restore timestamps of recreated implicit parent
 directories

Their timestamp was set before their content was restored, which
overwrote it again.
---
 src/restore.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/restore.c b/src/restore.c
index d6c9dfe..01c242b 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -447,7 +447,8 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
         finishRestoreRecursively(subnode, id, repo_path);
     }
 
-    if(subnode_changes_timestamp && node->policy != BPOL_none)
+    if(subnode_changes_timestamp &&
+       (affects_parent_timestamp || node->policy != BPOL_none))
     {
       sUtime(node->path, state->metadata.directory_info.modification_time);
     }
-- 
2.43.0


From f442179a7e71c1a529975e1b6443b36844f93101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:50 +0000
Subject: [PATCH 08/10] fix: keep referenced files if the repository path ends
 with a slash

---
 src/garbage-collector.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/garbage-collector.c b/src/garbage-collector.c
index 7b2d8b9..c046949 100644
--- a/src/garbage-collector.c
+++ b/src/garbage-collector.c
@@ -50,6 +50,8 @@ static void populateTableRecursively(Allocator *a, StringTable *table,
 /** Used during a garbage collection run. */
 typedef struct
 {
+  /** Must not end with a slash, like the prefix of the paths returned by
+    sDirGetNext(). */
   StringView repo_path;
 
   /** All file paths inside this table are relative to repo_path. */
@@ -113,7 +115,7 @@ GCStatistics collectGarbageProgress(const Metadata *metadata,
   CR_Region *r = CR_RegionNew();
 
   GCContext ctx = {
-    .repo_path = repo_path,
+    .repo_path = strStripTrailingSlashes(repo_path),
     .paths_to_preserve = strTableNew(r),
     .progress_callback = progress_callback,
     .callback_user_data = callback_user_data,
-- 
2.43.0


From 244e704413fa2e91029d74b52e9eff55d2412492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 09/10] fix: report attribute changes of implicit parent
 directories consistently

---
 src/informations.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/informations.c b/src/informations.c
index eeb7101..aef5092 100644
--- a/src/informations.c
+++ b/src/informations.c
@@ -148,6 +148,16 @@ static void incrementExtraChangedAttributes(ChangeSummary *changes,
   }
 }
 
+/** Returns true if nothing but the owner, permissions or timestamp has
+  changed. At least one of them must have changed. */
+static bool containsOnlyAttributeChanges(const BackupHint hint)
+{
+  const BackupHint attributes =
+    BH_owner_changed | BH_permissions_changed | BH_timestamp_changed;
+
+  return (hint & attributes) != 0 && (hint & ~attributes) == 0;
+}
+
 /** Adds statistics about the given nodes current change type to the
   specified change structure.
 
@@ -195,8 +205,7 @@ static void addNode(const PathNode *node, ChangeSummary *changes,
   }
   else if(node->hint > BH_unchanged &&
           (node->policy != BPOL_none ||
-           (node->hint < BH_owner_changed ||
-            node->hint > BH_timestamp_changed)))
+           !containsOnlyAttributeChanges(node->hint)))
   {
     changes->other_changes_exist = true;
     changes->affects_parent_timestamp |=
@@ -546,8 +555,7 @@ static ChangeSummary recursePrintOverTree(const Metadata *metadata,
     else if(print && node->hint > BH_unchanged &&
             !(node->policy == BPOL_none &&
               (node->hint == BH_added ||
-               (node->hint >= BH_owner_changed &&
-                node->hint <= BH_timestamp_changed))))
+               containsOnlyAttributeChanges(node->hint))))
     {
       const bool print_subnodes =
         backupHintNoPol(node->hint) > BH_other_to_directory;
-- 
2.43.0


From 97909dbc5f9326504150c13ec19eaa65659c91a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:51 +0000
Subject: [PATCH 10/10] fix: add found paths again which were wiped with their
 parent's history

When a tracked path which was a directory once and something else later is
found as a directory with another policy, all its subnodes were wiped before
being found. They were missing from the backup and their reference counts
were decremented twice.
---
 src/backup.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/backup.c b/src/backup.c
index 898f544..ad167f4 100644
--- a/src/backup.c
+++ b/src/backup.c
@@ -519,6 +519,17 @@ static SearchResultType initiateMetadataRecursively(
 
     metadata->total_path_count = sSizeAdd(metadata->total_path_count, 1);
   }
+  else if(backupHintNoPol(node->hint) == BH_not_part_of_repository)
+  {
+    /* The path was wiped together with the history of its parent directory
+       and must be added to the backup again. */
+    node->hint = BH_added;
+    node->policy = result.policy;
+    node->history =
+      buildPathHistoryPoint(allocator_pair->a, metadata, result);
+
+    metadata->total_path_count = sSizeAdd(metadata->total_path_count, 1);
+  }
   else
   {
     handleFoundNode(allocator_pair, metadata, node, result);
-- 
2.43.0

