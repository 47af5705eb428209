From 232cccef22ccd8f8780f35b5a912893dfeda6925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:14 +0000
Subject: [PATCH 01/11] fix: reject metadata containing path nodes without
 history

---
 src/metadata.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/metadata.c b/src/metadata.c
index 6cde6cf..b24f7f3 100644
--- a/src/metadata.c
+++ b/src/metadata.c
@@ -443,6 +443,11 @@ readPathSubnodes(Allocator *region_wrapper, const FileContent content,
     node->policy = read8(content, reader_position, metadata_path);
     node->history = readFullPathHistory(
       region_wrapper, content, reader_position, metadata_path, metadata);
+    if(node->history == NULL)
+    {
+      die("contains path without history: \"" PRI_STR "\"",
+          STR_FMT(metadata_path));
+    }
 
     node->subnodes =
       readPathSubnodes(region_wrapper, content, reader_position,
-- 
2.43.0


From 1c4675fa95cf212c7f920274eeaf75eff3025d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:20 +0000
Subject: [PATCH 02/11] fix: reject metadata containing invalid backup policies

---
 src/metadata.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/metadata.c b/src/metadata.c
index b24f7f3..cd955d9 100644
--- a/src/metadata.c
+++ b/src/metadata.c
@@ -441,6 +441,11 @@ readPathSubnodes(Allocator *region_wrapper, const FileContent content,
 
     node->hint = BH_none;
     node->policy = read8(content, reader_position, metadata_path);
+    if(node->policy > BPOL_track)
+    {
+      die("invalid policy in \"" PRI_STR "\"", STR_FMT(metadata_path));
+    }
+
     node->history = readFullPathHistory(
       region_wrapper, content, reader_position, metadata_path, metadata);
     if(node->history == NULL)
-- 
2.43.0


From 852986b2c0aa8c489abaf40508d4d7d330c87fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:44 +0000
Subject: [PATCH 03/11] fix: record unspecified parents as directories after
 filetype changes

---
 src/backup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backup.c b/src/backup.c
index 898f544..d32fca1 100644
--- a/src/backup.c
+++ b/src/backup.c
@@ -376,7 +376,7 @@ static void handleNodeChanges(AllocatorPair *allocator_pair,
   {
     applyNodeChanges(allocator_pair, node, state, result.stats);
   }
-  else if(result.policy != BPOL_none)
+  else if(result.policy != BPOL_none || result.type == SRT_directory)
   {
     setPathHistoryState(allocator_pair->a, state, result);
   }
-- 
2.43.0


From d0e15dac742712bc88d2f9aa9aac93b8391ae1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:07 +0000
Subject: [PATCH 04/11] fix: never restore regular files through symlinks

---
 src/restore.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/restore.c b/src/restore.c
index 44f138d..0b11c94 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -131,8 +131,9 @@ static void checkAndHandleChanges(AllocatorPair *allocator_pair,
 {
   if(could_exist && sPathExists(node->path))
   {
-    const struct stat stats =
-      state->type == PST_symlink ? sLStat(node->path) : sStat(node->path);
+    const struct stat stats = state->type == PST_directory
+      ? sStat(node->path)
+      : sLStat(node->path);
 
     handleFiletypeChanges(node, state, stats);
     if(backupHintNoPol(node->hint) == BH_none)
-- 
2.43.0


From c0c451c8fa83519b3124e5f17802c215b2443620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:41 +0000
Subject: [PATCH 05/11] fix: reapply permissions after restoring owner or
 content

---
 src/restore.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/restore.c b/src/restore.c
index 0b11c94..fe878e2 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -394,7 +394,8 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
         sChown(node->path, state->uid, state->gid);
       }
     }
-    if(node->hint & BH_permissions_changed)
+    /* Changing the owner can clear the setuid and setgid bits. */
+    if(node->hint & (BH_owner_changed | BH_permissions_changed))
     {
       if(state->type == PST_regular_file)
       {
@@ -411,6 +412,9 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
       if(state->type == PST_regular_file)
       {
         restoreFile(node->path, &state->metadata.file_info, repo_path);
+
+        /* Writing to a file can clear its setuid and setgid bits. */
+        sChmod(node->path, state->metadata.file_info.permission_bits);
         sUtime(node->path, state->metadata.file_info.modification_time);
       }
       else if(state->type == PST_symlink)
-- 
2.43.0


From e179b047b6a97361f9cf2581fa7a859c2bef69c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:09 +0000
Subject: [PATCH 06/11] fix: never remove or keep a lockfile claimed by another
 process

---
 src/repository.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/repository.c b/src/repository.c
index 693f94b..591a283 100644
--- a/src/repository.c
+++ b/src/repository.c
@@ -7,6 +7,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <sys/stat.h>
 #include <unistd.h>
 
 #include "CRegion/alloc-growable.h"
@@ -403,9 +404,11 @@ static void cleanupLockfile(void *lockfile_info_ptr)
   const int old_errno = errno;
   if(info->is_locked)
   {
+    /* Must be removed while still being locked. Otherwise this could remove
+       a lockfile which was already claimed by another process. */
+    (void)remove(info->file_path);
     (void)lockf(info->file_descriptor, F_ULOCK, 0);
     (void)close(info->file_descriptor);
-    (void)remove(info->file_path);
   }
   else
   {
@@ -448,6 +451,18 @@ void repoLock(CR_Region *r, StringView repo_path,
 
   if(lockf(lockfile_info->file_descriptor, F_TLOCK, 0) == 0)
   {
+    /* The lockfile may have been removed by its previous owner between
+       opening and locking it. */
+    struct stat stats;
+    if(fstat(lockfile_info->file_descriptor, &stats) != 0)
+    {
+      dieErrno("failed to access lockfile: \"%s\"",
+               lockfile_info->file_path);
+    }
+    if(stats.st_nlink == 0)
+    {
+      die("repository is already being used by another process");
+    }
     lockfile_info->is_locked = true;
   }
   else if(errno == EACCES || errno == EAGAIN)
-- 
2.43.0


From 0fe3597bf878dfc24ca5d6718fe3f47c49436cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:12 +0000
Subject: [PATCH 07/11] fix: keep timestamps of restored directories without
 policy

---
 src/restore.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/restore.c b/src/restore.c
index fe878e2..a44f04b 100644
--- a/src/restore.c
+++ b/src/restore.c
@@ -449,7 +449,10 @@ static bool finishRestoreRecursively(const PathNode *node, const size_t id,
         finishRestoreRecursively(subnode, id, repo_path);
     }
 
-    if(subnode_changes_timestamp && node->policy != BPOL_none)
+    /* A directory which was created above must get its timestamp back,
+       even if it has no policy. */
+    if(subnode_changes_timestamp &&
+       (node->policy != BPOL_none || affects_parent_timestamp))
     {
       sUtime(node->path, state->metadata.directory_info.modification_time);
     }
-- 
2.43.0


From c9713af196203ab5f4bc14145f0948a314813cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:00 +0000
Subject: [PATCH 08/11] fix: record existing paths below a path whose policy
 change discarded them

If a tracked path was a directory once, then a file, and is found as a
directory again after its policy was changed, its entries got discarded
before they were found. Found entries remained discarded: they were
silently left out of the backup and their reference counts were
decremented twice.
---
 src/backup.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/backup.c b/src/backup.c
index d32fca1..0cc3477 100644
--- a/src/backup.c
+++ b/src/backup.c
@@ -519,6 +519,17 @@ static SearchResultType initiateMetadataRecursively(
 
     metadata->total_path_count = sSizeAdd(metadata->total_path_count, 1);
   }
+  else if(backupHintNoPol(node->hint) == BH_not_part_of_repository)
+  {
+    /* The node was discarded by a policy change of its parent, but its path
+       exists again. */
+    node->hint = BH_added;
+    node->policy = result.policy;
+    node->history =
+      buildPathHistoryPoint(allocator_pair->a, metadata, result);
+
+    metadata->total_path_count = sSizeAdd(metadata->total_path_count, 1);
+  }
   else
   {
     handleFoundNode(allocator_pair, metadata, node, result);
-- 
2.43.0


From 7a060039c6b362c5e678f0ee1d2fd94f74c9ac35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 09/11] fix: don't recurse for every skipped file during a
 search

Every ignored or unmatched directory entry consumed stack space, which
crashed the backup of directories containing many such files.
---
 src/search.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/search.c b/src/search.c
index 0675775..3f6de11 100644
--- a/src/search.c
+++ b/src/search.c
@@ -248,7 +248,8 @@ static bool nodeMatches(const SearchNode *node, StringView string)
   @param iterator A valid iterator which current state represents a
   directory search. It will be destroyed if the search reaches its end
   trough this search step. In this case the returned SearchResult will have
-  the type SRT_end_of_search.
+  the type SRT_end_of_search. If the queried file was skipped, the type
+  will be SRT_none.
 */
 static SearchResult finishSearchStep(SearchIterator *iterator)
 {
@@ -292,7 +293,7 @@ static SearchResult finishSearchStep(SearchIterator *iterator)
   /* Skip current path, if no fallback policy was defined. */
   if(iterator->state.access.search.fallback_policy == BPOL_none)
   {
-    return finishSearchStep(iterator);
+    return (SearchResult){ .type = SRT_none };
   }
 
   /* Match against ignore expressions. */
@@ -302,7 +303,7 @@ static SearchResult finishSearchStep(SearchIterator *iterator)
     if(sRegexIsMatching(element->regex, iterator->current_path))
     {
       element->has_matched = true;
-      return finishSearchStep(iterator);
+      return (SearchResult){ .type = SRT_none };
     }
   }
 
@@ -316,6 +317,7 @@ static SearchResult finishSearchStep(SearchIterator *iterator)
   @param iterator A valid iterator which current state represents direct
   access. It will be destroyed, if this search step is the last step. In
   this case the returned SearchResult will have the type SRT_end_of_search.
+  If the node doesn't exist, the type will be SRT_none.
 */
 static SearchResult finishCurrentNode(SearchIterator *iterator)
 {
@@ -334,7 +336,7 @@ static SearchResult finishCurrentNode(SearchIterator *iterator)
     return finishNodeStep(iterator, node, node->policy);
   }
 
-  return finishCurrentNode(iterator);
+  return (SearchResult){ .type = SRT_none };
 }
 
 /** Creates a new SearchIterator for searching the filesystem.
@@ -393,10 +395,15 @@ SearchIterator *searchNew(SearchNode *root_node)
 */
 SearchResult searchGetNext(SearchIterator *iterator)
 {
-  if(iterator->state.is_dir_search)
+  while(true)
   {
-    return finishSearchStep(iterator);
-  }
+    const SearchResult result = iterator->state.is_dir_search
+      ? finishSearchStep(iterator)
+      : finishCurrentNode(iterator);
 
-  return finishCurrentNode(iterator);
+    if(result.type != SRT_none)
+    {
+      return result;
+    }
+  }
 }
-- 
2.43.0


From 4dd844fe05374e465568225018cabd2a09bae1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 10/11] fix: search the root directory without producing paths
 with two slashes

Files found by listing the root directory had paths like "//home", which
didn't match any configured path, regular expression or ignore pattern.
---
 src/safe-wrappers.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/safe-wrappers.c b/src/safe-wrappers.c
index f03495a..1141c88 100644
--- a/src/safe-wrappers.c
+++ b/src/safe-wrappers.c
@@ -321,7 +321,9 @@ StringView sDirGetNext(DirIterator *dir)
     return str("");
   }
 
-  return strAppendPath(dir->directory_path, str(dir_entry->d_name),
+  /* Prevent paths in the root directory from starting with two slashes. */
+  return strAppendPath(strStripTrailingSlashes(dir->directory_path),
+                       str(dir_entry->d_name),
                        dir->returned_result_buffer);
 }
 
-- 
2.43.0


From 525cfcbe1d2552d0c821cd382db482359b41abab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:42 +0000
Subject: [PATCH 11/11] fix: don't skip a restore silently if printing to
 stdout fails

---
 src/nb.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nb.c b/src/nb.c
index 41240d4..3211459 100644
--- a/src/nb.c
+++ b/src/nb.c
@@ -350,8 +350,10 @@ static void restore(CR_Region *r, StringView repo_arg, const size_t id,
   initiateRestore(metadata, id, full_path);
 
   const ChangeSummary changes = printMetadataChanges(metadata, NULL);
-  if(containsChanges(&changes) && printf("\n") == 1)
+  if(containsChanges(&changes))
   {
+    printf("\n");
+
     ensureUserConsent("restore?", allocatorWrapOneSingleGrowableBuffer(r));
     finishRestore(metadata, id, repo_arg);
   }
-- 
2.43.0

