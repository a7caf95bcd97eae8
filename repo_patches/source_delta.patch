From f15ea75a13fcd5ded3d524424054407fd16aa7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:32 +0000
Subject: [PATCH 01/40] fix: keep logged relation when the same relation id is
 unlogged in the prior path

The manifest build remembered whether the last relation was unlogged by relation id only. When the last relation of one database path
was unlogged and the first relation of the next database path had the same id, the second relation was also removed from the backup
even though it was logged.
---
 src/info/manifest/manifest.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/info/manifest/manifest.c b/src/info/manifest/manifest.c
index d3759f5..6dcbf46 100644
--- a/src/info/manifest/manifest.c
+++ b/src/info/manifest/manifest.c
@@ -234,6 +234,7 @@ manifestNewBuild(
             unsigned int fileIdx = 0;
             char lastRelationFileId[21] = "";                   // Large enough for a 64-bit unsigned integer
             bool lastRelationFileIdUnlogged = false;
+            String *const lastRelationPath = strNew();          // Path of last relation since ids are only unique within a path
 
 #ifdef DEBUG_MEM
             // Record the temp context size before the loop begins
@@ -269,16 +270,22 @@ manifestNewBuild(
                     ASSERT(relationFileId[0] != '\0');
 
                     // Store the last relation so it does not need to be found every time
-                    if (strcmp(lastRelationFileId, relationFileId) != 0)
+                    const size_t pathSize = strSize(filePathName) - fileNameSize;
+
+                    if (strcmp(lastRelationFileId, relationFileId) != 0 || strSize(lastRelationPath) != pathSize ||
+                        strncmp(strZ(lastRelationPath), strZ(filePathName), pathSize) != 0)
                     {
                         // Determine if the relation is unlogged
                         String *const relationInit = strNewFmt(
-                            "%.*s%s_init", (int)(strSize(filePathName) - fileNameSize), strZ(filePathName), relationFileId);
+                            "%.*s%s_init", (int)pathSize, strZ(filePathName), relationFileId);
                         lastRelationFileIdUnlogged = manifestFileExists(this, relationInit);
                         strFree(relationInit);
 
                         // Save the file id so we don't need to do the lookup next time if it doesn't change
                         memcpy(lastRelationFileId, relationFileId, nameIdx + 1);
+
+                        // Save the path
+                        strCatZN(strTrunc(lastRelationPath), strZ(filePathName), pathSize);
                     }
 
                     // If relation is unlogged then remove it
-- 
2.43.0


From 62e9be0e69ba66bdd0f44d1ec5d86adfbcffbe21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:55 +0000
Subject: [PATCH 02/40] fix: verify that the locked file is still the lock file

A process could open the lock file, then the holder of the lock removes the file and releases the lock, then the process locks the
removed file. A third process would then create and lock a new file, so two processes held the same lock.
---
 src/common/lock.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/common/lock.c b/src/common/lock.c
index bc5d83e..761be8e 100644
--- a/src/common/lock.c
+++ b/src/common/lock.c
@@ -7,6 +7,7 @@ Lock Handler
 #include <fcntl.h>
 #include <string.h>
 #include <sys/file.h>
+#include <sys/stat.h>
 #include <unistd.h>
 
 #include "common/debug.h"
@@ -238,6 +239,21 @@ lockAcquire(const String *const lockFileName, const LockAcquireParam param)
                     else
                         fd = -1;
                 }
+                // Else make sure the locked file is still the lock file. The prior holder of the lock may have removed the file after it
+                // was opened above but before it was locked, in which case another process can create and lock a new file.
+                else
+                {
+                    struct stat fileStat;
+                    struct stat pathStat;
+
+                    if (fstat(fd, &fileStat) == -1 || stat(strZ(lockFilePath), &pathStat) == -1 ||
+                        fileStat.st_ino != pathStat.st_ino || fileStat.st_dev != pathStat.st_dev)
+                    {
+                        close(fd);
+                        fd = -1;
+                        retry = true;
+                    }
+                }
             }
         }
         while (fd == -1 && retry);
-- 
2.43.0


From 2181095d8f9f16304f0690ba57f0e85763b7373c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:24 +0000
Subject: [PATCH 03/40] fix: do not resume backup files that will be stored in
 another way

When bundling is enabled (or the bundle limit is raised) or block incremental is disabled after an interrupted full backup, the
resumed backup looked for the already copied files under their new location and failed on every retry.
---
 src/command/backup/resume.c.inc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/command/backup/resume.c.inc b/src/command/backup/resume.c.inc
index 520d870..a30d588 100644
--- a/src/command/backup/resume.c.inc
+++ b/src/command/backup/resume.c.inc
@@ -85,6 +85,9 @@ backupResumeClean(
 
                     if (fileCompressType != compressType && !blockIncr)
                         removeReason = "mismatched compression type";
+                    // The file will not be stored as block incremental (i.e. block incremental was disabled since)
+                    else if (blockIncr && !cfgOptionBool(cfgOptRepoBlock))
+                        removeReason = "block incremental disabled";
                     else if (!manifestFileExists(manifest, manifestName))
                         removeReason = "missing in manifest";
                     else
@@ -108,6 +111,9 @@ backupResumeClean(
                             else if (file.size == 0)
                                 // ??? don't resume zero size files because Perl wouldn't -- can be removed after the migration)
                                 removeReason = "zero size";
+                            // The file will be stored in a bundle so it cannot be resumed (e.g. bundling was enabled since)
+                            else if (cfgOptionBool(cfgOptRepoBundle) && file.size <= cfgOptionUInt64(cfgOptRepoBundleLimit))
+                                removeReason = "file will be bundled";
                             else
                             {
                                 ASSERT(file.copy);
-- 
2.43.0


From c6beaa22f087d469518db757e3517ead1e1489e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:10 +0000
Subject: [PATCH 04/40] fix: expire backup history of the repository being
 processed

The backup history was always listed from the default repository, so expired history manifests in other repositories were never
removed unless a file or path with the same name existed in the default repository.
---
 src/command/expire/expire.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/command/expire/expire.c b/src/command/expire/expire.c
index eb78104..e6232e5 100644
--- a/src/command/expire/expire.c
+++ b/src/command/expire/expire.c
@@ -957,7 +957,8 @@ removeExpiredHistory(const InfoBackup *const infoBackup, const unsigned int repo
             // Get all history years
             const StringList *const historyYearList = strLstSort(
                 storageListP(
-                    storageRepo(), STRDEF(STORAGE_REPO_BACKUP "/" BACKUP_PATH_HISTORY), .expression = STRDEF("^2[0-9]{3}$")),
+                    storageRepoIdx(repoIdx), STRDEF(STORAGE_REPO_BACKUP "/" BACKUP_PATH_HISTORY),
+                    .expression = STRDEF("^2[0-9]{3}$")),
                 sortOrderAsc);
 
             for (unsigned int historyYearIdx = 0; historyYearIdx < strLstSize(historyYearList); historyYearIdx++)
@@ -984,7 +985,8 @@ removeExpiredHistory(const InfoBackup *const infoBackup, const unsigned int repo
                 {
                     const StringList *const historyList = strLstSort(
                         storageListP(
-                            storageRepo(), strNewFmt(STORAGE_REPO_BACKUP "/" BACKUP_PATH_HISTORY "/%s", strZ(historyYear)),
+                            storageRepoIdx(repoIdx),
+                            strNewFmt(STORAGE_REPO_BACKUP "/" BACKUP_PATH_HISTORY "/%s", strZ(historyYear)),
                             .expression = strNewFmt(
                                 "%s\\.manifest\\.%s$",
                                 strZ(backupRegExpP(.full = true, .differential = true, .incremental = true, .noAnchorEnd = true)),
-- 
2.43.0


From 299a4ea8730908b3460cb75d924f1f49858681c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:43 +0000
Subject: [PATCH 05/40] fix: keep backup history of unexpired backups from
 prior years

The history path of a year before the retention limit was removed completely even when backups from that year were unexpired.
---
 src/command/expire/expire.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/command/expire/expire.c b/src/command/expire/expire.c
index e6232e5..c27c4d8 100644
--- a/src/command/expire/expire.c
+++ b/src/command/expire/expire.c
@@ -966,8 +966,14 @@ removeExpiredHistory(const InfoBackup *const infoBackup, const unsigned int repo
                 // Get all the backup history manifests
                 const String *const historyYear = strLstGet(historyYearList, historyYearIdx);
 
-                // If the entire year is less than the year of the minimum backup to retain, then remove completely the directory
-                if (strCmp(historyYear, strSubN(minBackupLabel, 0, 4)) < 0)
+                // If the entire year is less than the year of the minimum backup to retain and there are no unexpired backups for the
+                // year, then remove completely the directory
+                bool removeYear = strCmp(historyYear, strSubN(minBackupLabel, 0, 4)) < 0;
+
+                for (unsigned int currentIdx = 0; removeYear && currentIdx < strLstSize(currentBackupList); currentIdx++)
+                    removeYear = !strBeginsWith(strLstGet(currentBackupList, currentIdx), historyYear);
+
+                if (removeYear)
                 {
                     LOG_INFO_FMT(
                         "%s: remove expired backup history path %s", cfgOptionGroupName(cfgOptGrpRepo, repoIdx), strZ(historyYear));
@@ -981,7 +987,7 @@ removeExpiredHistory(const InfoBackup *const infoBackup, const unsigned int repo
                     }
                 }
                 // Else find and remove individual files
-                else if (strEq(historyYear, strSubN(minBackupLabel, 0, 4)))
+                else if (strCmp(historyYear, strSubN(minBackupLabel, 0, 4)) <= 0)
                 {
                     const StringList *const historyList = strLstSort(
                         storageListP(
-- 
2.43.0


From eb4fd5aa68513fa531b0158d66666906c2fa2ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:35 +0000
Subject: [PATCH 06/40] fix: verify bundled files of a damaged prior backup in
 dependent backups

The invalid file list of a backup contains the bundle rather than the bundled file, so a damaged bundled file was never found
there and every backup that references it was reported as valid.
---
 src/command/verify/verify.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/command/verify/verify.c b/src/command/verify/verify.c
index c4faf44..07d4b03 100644
--- a/src/command/verify/verify.c
+++ b/src/command/verify/verify.c
@@ -1034,8 +1034,11 @@ verifyBackup(VerifyJobData *const jobData)
                                 const VerifyBackupResult *const backupResultPrior = lstGet(
                                     jobData->backupResultList, backupPriorIdx);
 
-                                // If the verify-state of the backup is not complete then verify the file
-                                if (!backupResultPrior->fileVerifyComplete)
+                                // If the verify-state of the backup is not complete then verify the file. Also verify the file when
+                                // the prior backup has invalid files and the file is bundled, since the invalid file list contains
+                                // the bundle rather than the file.
+                                if (!backupResultPrior->fileVerifyComplete ||
+                                    (fileData.bundleId != 0 && !lstEmpty(backupResultPrior->invalidFileList)))
                                 {
                                     fileBackupLabel = fileData.reference;
                                 }
-- 
2.43.0


From 197dff97a542752c60d4e03b4ba38ec9da7171de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:05 +0000
Subject: [PATCH 07/40] fix: Return data decoded with end of file in
 ioReadSmall().

When the last data was produced by filters in the same pass that reached end of file, ioReadSmall() returned without the data that was
left in the internal buffer. A pack read through filters, e.g. an encrypted block map, could then fail with an unexpected end of file.
---
 src/common/io/read.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/io/read.c b/src/common/io/read.c
index bf3a0cd..f640705 100644
--- a/src/common/io/read.c
+++ b/src/common/io/read.c
@@ -257,7 +257,7 @@ ioReadSmall(IoRead *const this, Buffer *const buffer)
             }
         }
     }
-    while (!bufFull(buffer) && !ioReadEof(this));
+    while (!bufFull(buffer) && (!ioReadEof(this) || bufUsed(this->output) > this->outputPos));
 
     FUNCTION_TEST_RETURN(SIZE, outputRemains - bufRemains(buffer));
 }
-- 
2.43.0


From 03049447a8e20eddb6fd17bf4e5eebc68e76312c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:14 +0000
Subject: [PATCH 08/40] fix: Reject bytes above 127 when decoding base64 and
 hex.

The lookup tables were indexed with a signed character so such bytes read memory in front of the table and could be accepted.
---
 src/common/encode.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/common/encode.c b/src/common/encode.c
index 69a3a61..5800fa3 100644
--- a/src/common/encode.c
+++ b/src/common/encode.c
@@ -141,7 +141,7 @@ decodeToBinValidateBase64(const char *const source)
         else
         {
             // Error on any invalid characters
-            if (decodeBase64Lookup[(int)source[sourceIdx]] == -1)
+            if (decodeBase64Lookup[(uint8_t)source[sourceIdx]] == -1)
                 THROW_FMT(FormatError, "base64 invalid character found at position %u", sourceIdx);
         }
     }
@@ -168,14 +168,14 @@ decodeToBinBase64(const char *const source, uint8_t *const destination)
     {
         // Always decode the first character
         destination[destinationIdx++] =
-            (uint8_t)(decodeBase64Lookup[(int)source[sourceIdx]] << 2 | decodeBase64Lookup[(int)source[sourceIdx + 1]] >> 4);
+            (uint8_t)(decodeBase64Lookup[(uint8_t)source[sourceIdx]] << 2 | decodeBase64Lookup[(uint8_t)source[sourceIdx + 1]] >> 4);
 
         // Second character is optional
         if (source[sourceIdx + 2] != 0x3d)
         {
             destination[destinationIdx++] =
                 (uint8_t)
-                ((decodeBase64Lookup[(int)source[sourceIdx + 1]] << 4) | (decodeBase64Lookup[(int)source[sourceIdx + 2]] >> 2));
+                ((decodeBase64Lookup[(uint8_t)source[sourceIdx + 1]] << 4) | (decodeBase64Lookup[(uint8_t)source[sourceIdx + 2]] >> 2));
         }
 
         // Third character is optional
@@ -183,7 +183,7 @@ decodeToBinBase64(const char *const source, uint8_t *const destination)
         {
             destination[destinationIdx++] =
                 (uint8_t)
-                (((decodeBase64Lookup[(int)source[sourceIdx + 2]] << 6) & 0xc0) | decodeBase64Lookup[(int)source[sourceIdx + 3]]);
+                (((decodeBase64Lookup[(uint8_t)source[sourceIdx + 2]] << 6) & 0xc0) | decodeBase64Lookup[(uint8_t)source[sourceIdx + 3]]);
         }
     }
 
@@ -376,7 +376,7 @@ decodeToBinValidateHex(const char *const source)
     // Check all characters
     for (unsigned int sourceIdx = 0; sourceIdx < sourceSize; sourceIdx++)
     {
-        if (decodeHexLookup[(int)source[sourceIdx]] == -1)
+        if (decodeHexLookup[(uint8_t)source[sourceIdx]] == -1)
             THROW_FMT(FormatError, "hex invalid character found at position %u", sourceIdx);
     }
 
@@ -401,7 +401,7 @@ decodeToBinHex(const char *const source, uint8_t *const destination)
     for (unsigned int sourceIdx = 0; sourceIdx < strlen(source); sourceIdx += 2)
     {
         destination[destinationIdx++] =
-            (uint8_t)(decodeHexLookup[(int)source[sourceIdx]] << 4 | decodeHexLookup[(int)source[sourceIdx + 1]]);
+            (uint8_t)(decodeHexLookup[(uint8_t)source[sourceIdx]] << 4 | decodeHexLookup[(uint8_t)source[sourceIdx + 1]]);
     }
 
     FUNCTION_TEST_RETURN_VOID();
-- 
2.43.0


From 6ed812503997448eae6cf6c965e49db7b02cc717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:24 +0000
Subject: [PATCH 09/40] fix: Refuse JSON keys that require an escape instead of
 writing unreadable JSON.

An annotation key containing e.g. a quote or backslash was written unescaped, which made backup.info (both copies) unreadable.
---
 src/common/type/json.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/type/json.c b/src/common/type/json.c
index d82cedc..1f5f946 100644
--- a/src/common/type/json.c
+++ b/src/common/type/json.c
@@ -1566,10 +1566,10 @@ jsonWriteKey(JsonWrite *const this, const String *const key)
 
     ASSERT(this != NULL);
     ASSERT(key != NULL);
-    ASSERT(
-        strchr(strZ(key), '\f') == NULL && strchr(strZ(key), '\\') == NULL && strchr(strZ(key), '\n') == NULL &&
-        strchr(strZ(key), '\r') == NULL && strchr(strZ(key), '\t') == NULL && strchr(strZ(key), '\b') == NULL &&
-        strchr(strZ(key), '"') == NULL);
+
+    // Characters that would require an escape are not allowed in a key, see jsonReadKeyZN()
+    if (strpbrk(strZ(key), "\"\\\b\f\n\r\t") != NULL)
+        THROW_FMT(JsonFormatError, "character that requires escape not allowed in key '%s'", strZ(key));
 
     jsonWritePush(this, jsonTypeString, key);
 
-- 
2.43.0


From e6a5061f0e00f8f2c37b8922f369052a862e7713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:24 +0000
Subject: [PATCH 10/40] fix: Refuse to save info keys containing a linefeed.

A file (or database) name containing a linefeed was saved in the manifest such that the manifest could not be read, i.e. the backup
completed but could not be restored.
---
 src/info/info.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/info/info.c b/src/info/info.c
index ad13505..c86f432 100644
--- a/src/info/info.c
+++ b/src/info/info.c
@@ -305,6 +305,10 @@ infoSaveValue(InfoSave *const infoSaveData, const char *const section, const cha
     // The JSON value must not be an array because this may be confused with a section in the ini file
     ASSERT(strZ(jsonValue)[0] != '[');
 
+    // The key must not contain a linefeed because the key/value would not be readable
+    if (strchr(key, '\n') != NULL)
+        THROW_FMT(FormatError, "linefeed not allowed in key '%s' of section '%s'", key, section);
+
     // Save section
     if (infoSaveData->sectionLast == NULL || !strEqZ(infoSaveData->sectionLast, section))
     {
-- 
2.43.0


From 7505366407a3c753a7f4124cf997288d0eca7b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:40 +0000
Subject: [PATCH 11/40] fix: error when a directory cannot be read to the end

A failure of readdir() was taken as the end of the directory, so files were silently missing from the list: archive-get reported a
segment as not found and a backup omitted files, both without any error.
---
 src/storage/posix/storage.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/storage/posix/storage.c b/src/storage/posix/storage.c
index b9a535c..761b723 100644
--- a/src/storage/posix/storage.c
+++ b/src/storage/posix/storage.c
@@ -223,7 +223,9 @@ storagePosixList(THIS_VOID, const String *const path, const StorageInfoLevel lev
         {
             MEM_CONTEXT_TEMP_RESET_BEGIN()
             {
-                // Read the directory entries
+                // Read the directory entries. Clear errno before each read because it is the only way to tell an error from the end of
+                // the directory.
+                errno = 0;
                 const struct dirent *dirEntry = readdir(dir);
 
                 while (dirEntry != NULL)
@@ -249,12 +251,17 @@ storagePosixList(THIS_VOID, const String *const path, const StorageInfoLevel lev
                             storagePosixListEntry(this, result, path, dirEntry->d_name, level);
                     }
 
-                    // Get next entry
-                    dirEntry = readdir(dir);
-
                     // Reset the memory context occasionally so we don't use too much memory or slow down processing
                     MEM_CONTEXT_TEMP_RESET(1000);
+
+                    // Get next entry
+                    errno = 0;
+                    dirEntry = readdir(dir);
                 }
+
+                // Error if the directory could not be read to the end, otherwise files would be missing from the list
+                if (errno != 0)
+                    THROW_SYS_ERROR_FMT(PathOpenError, STORAGE_ERROR_LIST_INFO, strZ(path));                        // {vm_covered}
             }
             MEM_CONTEXT_TEMP_END();
         }
-- 
2.43.0


From f0ce7a02f883887aedb3b8bcee629027bb322a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:51 +0000
Subject: [PATCH 12/40] fix: stop --force terminates only processes of the
 requested stanza

The lock files were selected by the prefix '<stanza>-' so processes of another stanza were terminated as well when its name begins with
the same prefix, e.g. stop --force --stanza=db terminated a running backup of stanza db-test.
---
 src/command/control/stop.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/command/control/stop.c b/src/command/control/stop.c
index e720d9b..9d70c84 100644
--- a/src/command/control/stop.c
+++ b/src/command/control/stop.c
@@ -14,6 +14,7 @@ Stop Command
 #include "command/control/stop.h"
 #include "common/debug.h"
 #include "common/lock.h"
+#include "common/regExp.h"
 #include "common/type/convert.h"
 #include "config/config.h"
 #include "storage/helper.h"
@@ -57,9 +58,17 @@ cmdStop(void)
                 {
                     const String *const lockFile = strLstGet(lockPathFileList, lockPathFileIdx);
 
-                    // Skip any file that is not a lock file. Skip lock files for other stanzas if a stanza is provided.
-                    if (!strEndsWithZ(lockFile, LOCK_FILE_EXT) || (stanzaPrefix != NULL && !strBeginsWith(lockFile, stanzaPrefix)))
+                    // Skip any file that is not a lock file. Skip lock files for other stanzas if a stanza is provided. It is not
+                    // enough to check the prefix since the name of another stanza may begin with the same prefix, e.g. db and db-test.
+                    if (!strEndsWithZ(lockFile, LOCK_FILE_EXT) ||
+                        (stanzaPrefix != NULL &&
+                         (!strBeginsWith(lockFile, stanzaPrefix) ||
+                          !regExpMatchOne(
+                              STRDEF("^(archive|backup|restore)(-[0-9]+)?\\" LOCK_FILE_EXT "$"),
+                              strSub(lockFile, strSize(stanzaPrefix))))))
+                    {
                         continue;
+                    }
 
                     // Read the lock file
                     const LockReadResult lockResult = lockReadP(lockFile, .remove = true);
-- 
2.43.0


From e1c66c4fa9362a57c4cc13b3497ce9fdbce47c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:32 +0000
Subject: [PATCH 13/40] fix: check for stop in the remote after acquiring the
 lock

The remote checked for a stop file and then acquired the lock, so a forced stop completing in between neither found the lock nor was
noticed, and the command went on although stop --force had completed. Check after acquiring the lock as local commands do.
---
 src/command/remote/remote.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/command/remote/remote.c b/src/command/remote/remote.c
index 5a8ab64..21f83b8 100644
--- a/src/command/remote/remote.c
+++ b/src/command/remote/remote.c
@@ -79,11 +79,12 @@ cmdRemote(ProtocolServer *const server)
                 // Acquire a lock if this command requires a lock
                 if (cfgLockRemoteRequired())
                 {
-                    // Make sure the local host is not stopped
-                    lockStopTest();
-
                     // Acquire the lock
                     cmdLockAcquireP();
+
+                    // Make sure the local host is not stopped. This must be done after the lock has been acquired (as it is for a local
+                    // command), otherwise a forced stop completing in between would not find the lock and the command would continue.
+                    lockStopTest();
                 }
             }
 
-- 
2.43.0


From 941cd1e4ef4a4c76bcec372d04caee11ba11e3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:00 +0000
Subject: [PATCH 14/40] fix: do not fail the backup when a file with an invalid
 page is removed before the page is read again

The page checksum filter reads an invalid page again to check if it is being updated. If the file was removed in the meantime (e.g. the
relation was dropped) the read failed and the backup with it, although missing files are otherwise skipped. Consider the page changed.
---
 src/command/backup/pageChecksum.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/command/backup/pageChecksum.c b/src/command/backup/pageChecksum.c
index 653bf16..d0b7bc4 100644
--- a/src/command/backup/pageChecksum.c
+++ b/src/command/backup/pageChecksum.c
@@ -137,15 +137,15 @@ pageChecksumProcess(THIS_VOID, const Buffer *const input)
 
                 MEM_CONTEXT_TEMP_BEGIN()
                 {
-                    // Reload the page
+                    // Reload the page. The file may have been removed, e.g. the relation was dropped, since the page was last read.
                     const Buffer *const pageRetry = storageGetP(
                         storageNewReadP(
-                            storagePosixNewP(FSLASH_STR), this->fileName,
+                            storagePosixNewP(FSLASH_STR), this->fileName, .ignoreMissing = true,
                             .offset = (uint64_t)(blockNo % this->segmentPageTotal) * this->pageSize,
                             .limit = VARUINT64(this->pageSize)));
 
                     // Check if the page has changed since it was last read
-                    changed = !bufEq(pageRetry, BUF(pageHeader, this->pageSize));
+                    changed = pageRetry == NULL || !bufEq(pageRetry, BUF(pageHeader, this->pageSize));
                 }
                 MEM_CONTEXT_TEMP_END();
 
-- 
2.43.0


From e9ea3374da8c764ccac3b3c9848b0eeba62705a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:00 +0000
Subject: [PATCH 15/40] fix: allow a database to be included more than once for
 selective restore

Included databases were removed from the list used to look up the following ones, so including a database by id and name failed with an
error that it does not exist, or included another database with a name equal to the id.
---
 src/command/restore/select.c.inc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/command/restore/select.c.inc b/src/command/restore/select.c.inc
index 0acbae5..e71ad2f 100644
--- a/src/command/restore/select.c.inc
+++ b/src/command/restore/select.c.inc
@@ -323,7 +323,9 @@ restoreSelectiveExpression(const Manifest *const manifest)
                 strLstAdd(excludeDbIdList, excludeDb);
             }
 
-            // Remove included databases from the list
+            // Remove included databases from the list. Lookups are done in a copy of the list since a database that has already been
+            // included may be specified again, e.g. by id and by name.
+            const StringList *const dbFoundList = strLstDup(dbList);
             const StringList *const includeList = strLstNewVarLst(cfgOptionLst(cfgOptDbInclude));
 
             for (unsigned int includeIdx = 0; includeIdx < strLstSize(includeList); includeIdx++)
@@ -331,11 +333,11 @@ restoreSelectiveExpression(const Manifest *const manifest)
                 const String *includeDb = strLstGet(includeList, includeIdx);
 
                 // If the db to include is not in the list as an id then search by name
-                if (!strLstExists(dbList, includeDb))
+                if (!strLstExists(dbFoundList, includeDb))
                 {
                     const ManifestDb *const db = manifestDbFindDefault(manifest, includeDb, NULL);
 
-                    if (db == NULL || !strLstExists(dbList, varStrForce(VARUINT(db->id))))
+                    if (db == NULL || !strLstExists(dbFoundList, varStrForce(VARUINT(db->id))))
                         THROW_FMT(DbMissingError, "database to include '%s' does not exist", strZ(includeDb));
 
                     // Set the include db to the id if the name mapping was successful
-- 
2.43.0


From 2adc6c900483ed6e14e110f39f207529480d0c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:00 +0000
Subject: [PATCH 16/40] fix: detect link destinations below a destination with
 a trailing slash

The check for nested link destinations appended a slash to each destination, so a destination given with a trailing slash was not
recognized as the parent of (or the same as) another destination.
---
 src/info/manifest/link.c.inc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/info/manifest/link.c.inc b/src/info/manifest/link.c.inc
index e82d833..a1e1b7f 100644
--- a/src/info/manifest/link.c.inc
+++ b/src/info/manifest/link.c.inc
@@ -58,7 +58,10 @@ manifestLinkCheckOne(const Manifest *const this, ManifestLinkCheck *const linkCh
 
             MEM_CONTEXT_BEGIN(lstMemContext(linkCheck->linkList))
             {
-                path = strNewFmt("%s/", strZ(manifestTargetPath(this, target1)));
+                path = manifestTargetPath(this, target1);
+
+                if (!strEndsWithZ(path, "/"))
+                    path = strNewFmt("%s/", strZ(path));
 
                 // Get base bath
                 if (linkCheck->basePath == NULL)
-- 
2.43.0


From fbedec3b9ae8ea827e3d749cdd501451160f78b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:52 +0000
Subject: [PATCH 17/40] fix: validate page checksums when the buffer size is
 smaller than the page size

With 32KiB pages and a buffer size of 16KiB a backup validating page checksums failed with an assertion since the page checksum filter
expects complete pages in each buffer.
---
 src/command/backup/file.c.inc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/command/backup/file.c.inc b/src/command/backup/file.c.inc
index 7a2caf4..d9c98b4 100644
--- a/src/command/backup/file.c.inc
+++ b/src/command/backup/file.c.inc
@@ -170,6 +170,10 @@ backupFile(
     ASSERT(fileList != NULL && !lstEmpty(fileList));
     ASSERT(pgPageSizeValid(pageSize));
 
+    // Buffers must hold at least one page since page checksums are validated in the buffer
+    if (ioBufferSize() < pageSize)
+        ioBufferSizeSet(pageSize);
+
     // Backup file results
     List *const result = lstNewP(sizeof(BackupFileResult));
 
-- 
2.43.0


From 37a9cea689ff418460c9a269ba0c4374a6cadbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:12 +0000
Subject: [PATCH 18/40] fix: create missing tablespace directory with the mode
 recorded in the backup

The version directory of a tablespace was created with the mode of pg_tblspc rather than its own.
---
 src/command/restore/clean.c.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/command/restore/clean.c.inc b/src/command/restore/clean.c.inc
index 645bd41..ee781c3 100644
--- a/src/command/restore/clean.c.inc
+++ b/src/command/restore/clean.c.inc
@@ -553,7 +553,7 @@ restoreCleanBuild(const Manifest *const manifest, const String *const rootReplac
                 }
                 // Else grab the info for the path that matches the link name
                 else
-                    path = manifestPathFind(manifest, cleanData->target->name);
+                    path = manifestPathFind(manifest, cleanData->targetName);
 
                 storagePathCreateP(storageLocalWrite(), cleanData->targetPath, .mode = path->mode);
                 restoreCleanOwnership(
-- 
2.43.0


From 950a446cf785ba342a20c212424edf14b2fc24ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:21 +0000
Subject: [PATCH 19/40] fix: save annotation to the repository the backup was
 found in

---
 src/command/annotate/annotate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/command/annotate/annotate.c b/src/command/annotate/annotate.c
index 08ef356..795bc01 100644
--- a/src/command/annotate/annotate.c
+++ b/src/command/annotate/annotate.c
@@ -72,7 +72,8 @@ cmdAnnotate(void)
                     infoBackupDataAnnotationSet(infoBackup, backupLabel, cfgOptionKv(cfgOptAnnotation));
 
                     // Write the updated backup info
-                    infoBackupSaveFile(infoBackup, storageRepoWrite(), INFO_BACKUP_PATH_FILE_STR, cfgCipherSpecMainIdx(repoIdx));
+                    infoBackupSaveFile(
+                        infoBackup, storageRepoIdxWrite(repoIdx), INFO_BACKUP_PATH_FILE_STR, cfgCipherSpecMainIdx(repoIdx));
                 }
             }
             CATCH_ANY()
-- 
2.43.0


From 7dafa937a744a3285d6646cba257aeb64843e29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:21 +0000
Subject: [PATCH 20/40] fix: show the requested backup for every database in
 info text output

---
 src/command/info/info.c | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/command/info/info.c b/src/command/info/info.c
index 50be72e..7a0222a 100644
--- a/src/command/info/info.c
+++ b/src/command/info/info.c
@@ -1328,9 +1328,6 @@ formatTextDb(
         }
     }
 
-    unsigned int backupDbGrpIdxMin = 0;
-    unsigned int backupDbGrpIdxMax = lstSize(dbGroupList);
-
     // For every backup (oldest to newest) for the stanza, add it to the database group based on system-id and version
     for (unsigned int backupIdx = 0; backupIdx < varLstSize(backupSection); backupIdx++)
     {
@@ -1357,13 +1354,6 @@ formatTextDb(
                     {
                         varLstAdd(dbGroupInfo->backupList, varLstGet(backupSection, backupIdx));
 
-                        // If we're only looking for one backup, then narrow the db group iterators
-                        if (backupLabel != NULL)
-                        {
-                            backupDbGrpIdxMin = dbGrpIdx;
-                            backupDbGrpIdxMax = dbGrpIdx + 1;
-                        }
-
                         dbGrpIdx = lstSize(dbGroupList);
                     }
                 }
@@ -1376,10 +1366,15 @@ formatTextDb(
     String *const resultCurrent = strCatZ(strNew(), "\n    db (current)");
     bool displayCurrent = false;
 
-    for (unsigned int dbGrpIdx = backupDbGrpIdxMin; dbGrpIdx < backupDbGrpIdxMax; dbGrpIdx++)
+    for (unsigned int dbGrpIdx = 0; dbGrpIdx < lstSize(dbGroupList); dbGrpIdx++)
     {
         const DbGroup *const dbGroupInfo = lstGet(dbGroupList, dbGrpIdx);
 
+        // If we're only looking for one backup, then skip db groups that do not contain it. The same label may exist on more than
+        // one repo and belong to a different db group on each of them.
+        if (backupLabel != NULL && !varLstEmpty(backupSection) && varLstEmpty(dbGroupInfo->backupList))
+            continue;
+
         // Sort the results based on current or prior and only show the prior if it has archives or backups
         if (dbGroupInfo->current)
         {
-- 
2.43.0


From 64fea5ada09cfe26366c610650894767086b23b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:24 +0000
Subject: [PATCH 21/40] fix: compare diff/incr label with the history of its
 own full backup set

---
 src/command/backup/label.c.inc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/command/backup/label.c.inc b/src/command/backup/label.c.inc
index 0d4b4c0..308fcb8 100644
--- a/src/command/backup/label.c.inc
+++ b/src/command/backup/label.c.inc
@@ -38,9 +38,12 @@ backupLabelCreate(const BackupType type, const String *const backupLabelPrior, c
         if (!strLstEmpty(backupList))
             backupLabelLatest = strLstGet(backupList, 0);
 
-        // Get the newest history
+        // Get the newest history. History is stored by the year of the full backup so for other backup types only the year of the
+        // full backup set can contain labels to compare against, no matter if there are newer full backup sets.
         const StringList *const historyYearList = strLstSort(
-            storageListP(storageRepo(), STRDEF(STORAGE_REPO_BACKUP "/" BACKUP_PATH_HISTORY), .expression = STRDEF("^2[0-9]{3}$")),
+            storageListP(
+                storageRepo(), STRDEF(STORAGE_REPO_BACKUP "/" BACKUP_PATH_HISTORY),
+                .expression = type == backupTypeFull ? STRDEF("^2[0-9]{3}$") : strNewFmt("^%.4s$", strZ(backupLabelPrior))),
             sortOrderDesc);
 
         if (!strLstEmpty(historyYearList))
-- 
2.43.0


From 90cc7562567809bf0da5b087c5101e26f128cb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:01 +0000
Subject: [PATCH 22/40] fix: compare only the checksum when looking for
 duplicate WAL segments

---
 src/command/archive/get/get.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/command/archive/get/get.c b/src/command/archive/get/get.c
index 8357ae4..d94596d 100644
--- a/src/command/archive/get/get.c
+++ b/src/command/archive/get/get.c
@@ -280,7 +280,7 @@ archiveGetFind(
                 StringList *const hashList = strLstNew();
 
                 for (unsigned int matchIdx = 0; matchIdx < lstSize(matchList); matchIdx++)
-                    strLstAddIfMissing(hashList, strSubN(((ArchiveGetFile *)lstGet(matchList, matchIdx))->file, 25, 40));
+                    strLstAddIfMissing(hashList, strSubN(strBase(((ArchiveGetFile *)lstGet(matchList, matchIdx))->file), 25, 40));
 
                 // If there is more than one unique hash then there are duplicates
                 if (strLstSize(hashList) > 1)
-- 
2.43.0


From d9c5eec03aac5e1d4c6ecb983b13fbeb995d75ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:58 +0000
Subject: [PATCH 23/40] fix: keep the key of the only configured group index
 when unused indexes before it are removed

---
 src/config/parse.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/config/parse.c b/src/config/parse.c
index 9d23773..4f345c5 100644
--- a/src/config/parse.c
+++ b/src/config/parse.c
@@ -2861,6 +2861,11 @@ cfgParse(const Storage *const storage, const unsigned int argListSize, const cha
                     // Remove the value if it is not last
                     if (keyIdx < optionGroup->indexTotal - 1)
                     {
+                        // Remove index keep flag so flags continue to match the remaining indexes
+                        memmove(
+                            optionGroupIndexKeep[optionGroupIdx] + keyIdx, optionGroupIndexKeep[optionGroupIdx] + (keyIdx + 1),
+                            sizeof(bool) * (optionGroup->indexTotal - keyIdx - 1));
+
                         // Remove index key
                         memmove(
                             optionGroup->indexMap + keyIdx, optionGroup->indexMap + (keyIdx + 1),
-- 
2.43.0


From b06ce21124de2ca1e5d3d1d26e057ac9c6f34856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:58 +0000
Subject: [PATCH 24/40] fix: refuse negative time values that overflow when
 converted to milliseconds

---
 src/config/common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config/common.c b/src/config/common.c
index bcc1af0..451053a 100644
--- a/src/config/common.c
+++ b/src/config/common.c
@@ -176,7 +176,7 @@ cfgParseTime(const String *const value)
         // Convert string to time
         const int64_t valueInt = cvtZSubNToInt64Base(valuePtr, 0, size - qualifierSize, 10);
 
-        if (valueInt <= INT64_MAX / multiplier)
+        if (valueInt <= INT64_MAX / multiplier && valueInt >= INT64_MIN / multiplier)
             FUNCTION_TEST_RETURN(INT64, valueInt * multiplier);
     }
 
-- 
2.43.0


From 7ec71f4a91f8ebd7867dabfe0426bcf9d6fbfd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:58 +0000
Subject: [PATCH 25/40] fix: allow only one unit in size options

---
 src/config/common.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config/common.c b/src/config/common.c
index 451053a..dfe3ffc 100644
--- a/src/config/common.c
+++ b/src/config/common.c
@@ -67,7 +67,7 @@ cfgParseSize(const String *const value)
     String *const valueLower = strLower(strDup(value));
 
     // Match the value against possible values
-    if (regExpMatchOne(STRDEF("^[0-9]+(kib|kb|k|mib|mb|m|gib|gb|g|tib|tb|t|pib|pb|p|b)*$"), valueLower))
+    if (regExpMatchOne(STRDEF("^[0-9]+(kib|kb|k|mib|mb|m|gib|gb|g|tib|tb|t|pib|pb|p|b)?$"), valueLower))
     {
         // Get the character array and size
         const char *const strArray = strZ(valueLower);
-- 
2.43.0


From d66a47fb1bf03266099c5ffa4bffd7aa1ace2ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:16 +0000
Subject: [PATCH 26/40] fix: redact secure options when string option values
 are logged at trace level

---
 src/config/config.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/config/config.c b/src/config/config.c
index de49e46..f3ca6eb 100644
--- a/src/config/config.c
+++ b/src/config/config.c
@@ -823,6 +823,13 @@ cfgOptionIdxLst(const ConfigOption optionId, const unsigned int optionIdx)
     FUNCTION_LOG_RETURN_CONST(VARIANT_LIST, optionValue);
 }
 
+// Never log the value of a secure option
+#define FUNCTION_LOG_CONFIG_OPTION_STR_TYPE                                                                                        \
+    String *
+#define FUNCTION_LOG_CONFIG_OPTION_STR_FORMAT(value, buffer, bufferSize)                                                           \
+    FUNCTION_LOG_STRING_FORMAT(                                                                                                    \
+        value != NULL && cfgParseOptionSecure(optionId) ? STRDEF("<redacted>") : value, buffer, bufferSize)
+
 FN_EXTERN const String *
 cfgOptionIdxStr(const ConfigOption optionId, const unsigned int optionIdx)
 {
@@ -831,7 +838,8 @@ cfgOptionIdxStr(const ConfigOption optionId, const unsigned int optionIdx)
         FUNCTION_LOG_PARAM(UINT, optionIdx);
     FUNCTION_LOG_END();
 
-    FUNCTION_LOG_RETURN_CONST(STRING, cfgOptionIdxInternal(optionId, optionIdx, cfgOptDataTypeString, false)->value.string);
+    FUNCTION_LOG_RETURN_CONST(
+        CONFIG_OPTION_STR, cfgOptionIdxInternal(optionId, optionIdx, cfgOptDataTypeString, false)->value.string);
 }
 
 FN_EXTERN const String *
@@ -842,7 +850,8 @@ cfgOptionIdxStrNull(const ConfigOption optionId, const unsigned int optionIdx)
         FUNCTION_LOG_PARAM(UINT, optionIdx);
     FUNCTION_LOG_END();
 
-    FUNCTION_LOG_RETURN_CONST(STRING, cfgOptionIdxInternal(optionId, optionIdx, cfgOptDataTypeString, true)->value.string);
+    FUNCTION_LOG_RETURN_CONST(
+        CONFIG_OPTION_STR, cfgOptionIdxInternal(optionId, optionIdx, cfgOptDataTypeString, true)->value.string);
 }
 
 FN_EXTERN StringId
-- 
2.43.0


From 8f6264da8f4049bb91c165a47bc5fe37a1ce64c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:16 +0000
Subject: [PATCH 27/40] fix: do not log the content of lines read, which may
 hold the keys of an encrypted repository

---
 src/common/io/read.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/common/io/read.c b/src/common/io/read.c
index f640705..2e2afed 100644
--- a/src/common/io/read.c
+++ b/src/common/io/read.c
@@ -265,6 +265,12 @@ ioReadSmall(IoRead *const this, Buffer *const buffer)
 /***********************************************************************************************************************************
 The entire string to search for must fit within a single buffer.
 ***********************************************************************************************************************************/
+// A line may hold secrets, e.g. the keys stored in encrypted info files, so do not log the contents
+#define FUNCTION_LOG_READ_LINE_TYPE                                                                                                \
+    String *
+#define FUNCTION_LOG_READ_LINE_FORMAT(value, buffer, bufferSize)                                                                   \
+    objNameToLog(value, "String", buffer, bufferSize)
+
 FN_EXTERN String *
 ioReadLineParam(IoRead *const this, const bool allowEof)
 {
@@ -347,7 +353,7 @@ ioReadLineParam(IoRead *const this, const bool allowEof)
     }
     while (result == NULL);
 
-    FUNCTION_LOG_RETURN(STRING, result);
+    FUNCTION_LOG_RETURN(READ_LINE, result);
 }
 
 /**********************************************************************************************************************************/
-- 
2.43.0


From 0c3a064d2551f64de203721a7f2b345bddc7cc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:56 +0000
Subject: [PATCH 28/40] fix: freeing a session with a stored response used the
 response again

When an asynchronous session was freed after its response had been stored by another session, the stored response was freed but the
session kept pointing at it and read it again as the answer to the cancel request.
---
 src/protocol/client.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/protocol/client.c b/src/protocol/client.c
index 23e9d13..9185357 100644
--- a/src/protocol/client.c
+++ b/src/protocol/client.c
@@ -482,6 +482,12 @@ protocolClientSessionFreeResource(THIS_VOID)
         if (this->stored)
         {
             pckReadFree(this->packRead);
+            this->stored = false;
+            this->pub.queued = false;
+
+            // The stored result may have closed the session
+            if (this->close)
+                this->pub.open = false;
         }
         // Else read and free result
         else
-- 
2.43.0


From abcb668a00a3cc59a0621cb21f16ef7a34ecd674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:47 +0000
Subject: [PATCH 29/40] fix: session freed after an error stayed in the session
 list of its client

When freeing a protocol session failed (e.g. because the worker process died) the session memory was released but the client still
referred to it, which corrupted the heap when the client was freed at the end of the command.
---
 src/protocol/client.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/protocol/client.c b/src/protocol/client.c
index 9185357..93b9634 100644
--- a/src/protocol/client.c
+++ b/src/protocol/client.c
@@ -475,6 +475,9 @@ protocolClientSessionFreeResource(THIS_VOID)
 
     ASSERT(this != NULL);
 
+    // Remove from session list. Do this first since the session will be freed even if there is an error below.
+    lstRemoveIdx(this->client->sessionList, protocolClientSessionFindIdx(this->client, this->sessionId));
+
     // If a result is queued then read it before sending cancel
     if (protocolClientSessionQueued(this))
     {
@@ -502,9 +505,6 @@ protocolClientSessionFreeResource(THIS_VOID)
         ASSERT(!this->pub.open);
     }
 
-    // Remove from session list
-    lstRemoveIdx(this->client->sessionList, protocolClientSessionFindIdx(this->client, this->sessionId));
-
     FUNCTION_LOG_RETURN_VOID();
 }
 
-- 
2.43.0


From d13a63de4512e6ce2adfca6e39eab9f9813c3379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:53 +0000
Subject: [PATCH 30/40] fix: child exit during list update crashed the server,
 lost exits left processes in its list

The SIGCHLD handler changed the process list while the main loop could be adding to it, which corrupted memory so the server crashed
after some short connections. A child that exited before it was added, or at the same time as another (one signal may stand for
several), stayed in the list forever and its process id, which may belong to another process by then, was signalled on SIGTERM.
---
 src/command/server/server.c | 42 +++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/command/server/server.c b/src/command/server/server.c
index d48d85b..8f1ec18 100644
--- a/src/command/server/server.c
+++ b/src/command/server/server.c
@@ -3,6 +3,7 @@ Server Command
 ***********************************************************************************************************************************/
 #include <build.h>
 
+#include <errno.h>
 #include <sys/wait.h>
 #ifdef HAVE_LIBSYSTEMD
 #include <systemd/sd-daemon.h>
@@ -93,23 +94,31 @@ cmdServerSigTerm(const int signalType)
 }
 
 /***********************************************************************************************************************************
-Handler to reap child processes
+Handler to reap child processes. SIGCHLD must be blocked while the main process uses the list.
 ***********************************************************************************************************************************/
 static void
-cmdServerSigChild(const int signalType, siginfo_t *const signalInfo, void *const context)
+cmdServerSigChild(const int signalType)
 {
     (void)signalType;
-    (void)context;
 
-    // Find the process and remove it
-    for (unsigned int processIdx = 0; processIdx < lstSize(serverLocal.processList); processIdx++)
+    const int errNoSaved = errno;
+    pid_t pid;
+
+    // One signal may be delivered for several processes so reap all the processes that have exited
+    while ((pid = waitpid(-1, NULL, WNOHANG)) > 0)
     {
-        if (*(int *)lstGet(serverLocal.processList, processIdx) == signalInfo->si_pid)
+        // Find the process and remove it
+        for (unsigned int processIdx = 0; processIdx < lstSize(serverLocal.processList); processIdx++)
         {
-            ASSERT(signalInfo->si_code == CLD_EXITED);
-            lstRemoveIdx(serverLocal.processList, processIdx);
+            if (*(pid_t *)lstGet(serverLocal.processList, processIdx) == pid)
+            {
+                lstRemoveIdx(serverLocal.processList, processIdx);
+                break;
+            }
         }
     }
+
+    errno = errNoSaved;
 }
 
 /**********************************************************************************************************************************/
@@ -133,9 +142,14 @@ cmdServer(const unsigned int argListSize, const char *argList[])
         // Set signal handlers
         sigaction(SIGHUP, &(struct sigaction){.sa_handler = cmdServerSigHup}, NULL);
         sigaction(SIGTERM, &(struct sigaction){.sa_handler = cmdServerSigTerm}, NULL);
-        sigaction(
-            SIGCHLD, &(struct sigaction){.sa_sigaction = cmdServerSigChild, .sa_flags = SA_NOCLDSTOP | SA_NOCLDWAIT | SA_SIGINFO},
-            NULL);
+        sigaction(SIGCHLD, &(struct sigaction){.sa_handler = cmdServerSigChild, .sa_flags = SA_NOCLDSTOP}, NULL);
+
+        // Signals to block while a child is created and added to the list
+        sigset_t sigChildSet;
+        sigset_t sigOldSet;
+
+        sigemptyset(&sigChildSet);
+        sigaddset(&sigChildSet, SIGCHLD);
 
         // Notify systemd that we are ready to accept connections
 #ifdef HAVE_LIBSYSTEMD
@@ -150,6 +164,9 @@ cmdServer(const unsigned int argListSize, const char *argList[])
 
             if (socketSession != NULL)
             {
+                // Block SIGCHLD so the handler is not called while the list is being modified, or before the child is in the list
+                sigprocmask(SIG_BLOCK, &sigChildSet, &sigOldSet);
+
                 // Fork off the child process
                 pid_t pid = forkSafe();
 
@@ -157,6 +174,7 @@ cmdServer(const unsigned int argListSize, const char *argList[])
                 {
                     // Reset SIGCHLD to default
                     sigaction(SIGCHLD, &(struct sigaction){.sa_handler = SIG_DFL}, NULL);
+                    sigprocmask(SIG_SETMASK, &sigOldSet, NULL);
 
                     // Set standard signal handlers
                     exitInit();
@@ -179,6 +197,8 @@ cmdServer(const unsigned int argListSize, const char *argList[])
                 else
                     lstAdd(serverLocal.processList, &pid);
 
+                sigprocmask(SIG_SETMASK, &sigOldSet, NULL);
+
                 // Free the socket since the child is now using it
                 ioSessionFree(socketSession);
             }
-- 
2.43.0


From b40ebc1174f331c72c4859e1e4aa7a785de0f121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:53 +0000
Subject: [PATCH 31/40] fix: reload the server configuration before a
 connection is served, do not lose a reload requested during a reload

A connection accepted after SIGHUP could be served with the prior authorizations when the signal arrived just before the server waited
for the next connection. SIGHUP during the reload was cleared at the end of the reload.
---
 src/command/server/server.c | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/command/server/server.c b/src/command/server/server.c
index 8f1ec18..3dadc54 100644
--- a/src/command/server/server.c
+++ b/src/command/server/server.c
@@ -162,6 +162,23 @@ cmdServer(const unsigned int argListSize, const char *argList[])
             // Accept a new connection
             IoSession *const socketSession = ioServerAccept(serverLocal.socketServer, NULL);
 
+            // Reload configuration. Do this before the new connection is served so that it is subject to the new configuration.
+            if (serverLocal.sigHup)
+            {
+                LOG_DETAIL("configuration reload begin");
+
+                // Reset flag first so a signal received during the reload is not lost
+                serverLocal.sigHup = false;
+
+                // Reload configuration
+                cfgLoad(serverLocal.argListSize, serverLocal.argList);
+
+                // Reinitialize server
+                cmdServerInit();
+
+                LOG_DETAIL("configuration reload end");
+            }
+
             if (socketSession != NULL)
             {
                 // Block SIGCHLD so the handler is not called while the list is being modified, or before the child is in the list
@@ -202,23 +219,6 @@ cmdServer(const unsigned int argListSize, const char *argList[])
                 // Free the socket since the child is now using it
                 ioSessionFree(socketSession);
             }
-
-            // Reload configuration
-            if (serverLocal.sigHup)
-            {
-                LOG_DETAIL("configuration reload begin");
-
-                // Reload configuration
-                cfgLoad(serverLocal.argListSize, serverLocal.argList);
-
-                // Reinitialize server
-                cmdServerInit();
-
-                LOG_DETAIL("configuration reload end");
-
-                // Reset flag
-                serverLocal.sigHup = false;
-            }
         }
         while (!serverLocal.sigTerm);
     }
-- 
2.43.0


From 24318ee80ffb69c26e41ac4644f51d42070a8155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:11 +0000
Subject: [PATCH 32/40] fix: memory context freed twice when its destructor
 failed during error cleanup

When a destructor threw an error while contexts were freed after an earlier error (e.g. sending a cancel request to a remote that had
died) the context stayed on the stack and was freed again, so the command died with a segmentation fault instead of reporting the error.
---
 src/common/memContext.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/common/memContext.c b/src/common/memContext.c
index ced6045..ffe61b6 100644
--- a/src/common/memContext.c
+++ b/src/common/memContext.c
@@ -1254,8 +1254,9 @@ memContextDiscard(void)
     }
 #endif
 
-    memContextFree(memContextStack[memContextMaxStackIdx].memContext);
+    // Remove from the stack first so the context is not freed again when a destructor errors
     memContextMaxStackIdx--;
+    memContextFree(memContextStack[memContextMaxStackIdx + 1].memContext);
 
     FUNCTION_TEST_RETURN_VOID();
 }
@@ -1394,12 +1395,17 @@ memContextClean(const unsigned int tryDepth, const bool fatal)
     // Iterate through everything pushed to the stack since the last try
     while (memContextStack[memContextMaxStackIdx].tryDepth >= tryDepth)
     {
+        // Remove from the stack first so a context is not freed again when a destructor errors
+        memContextMaxStackIdx--;
+
+        const struct MemContextStack stackItem = memContextStack[memContextMaxStackIdx + 1];
+
         // Free memory contexts that were not kept. Skip this for fatal errors to avoid calling destructors that could error and
         // mask the original error.
-        if (memContextStack[memContextMaxStackIdx].type == memContextStackTypeNew)
+        if (stackItem.type == memContextStackTypeNew)
         {
             if (!fatal)
-                memContextFree(memContextStack[memContextMaxStackIdx].memContext);
+                memContextFree(stackItem.memContext);
         }
         // Else find the prior context and make it the current context
         else
@@ -1409,8 +1415,6 @@ memContextClean(const unsigned int tryDepth, const bool fatal)
             while (memContextStack[memContextCurrentStackIdx].type == memContextStackTypeNew)
                 memContextCurrentStackIdx--;
         }
-
-        memContextMaxStackIdx--;
     }
 
     FUNCTION_TEST_RETURN_VOID();
-- 
2.43.0


From e90f40ef0f1a9571673807a606b0af1d9346cb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:14 +0000
Subject: [PATCH 33/40] fix: recursive list of an object store with repo-path=/
 found nothing below the first level

The iterator joined the root path and the sub path with a separator, giving a prefix beginning with / which no object has.
---
 src/storage/iterator.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/storage/iterator.c b/src/storage/iterator.c
index ed8b861..31ef04b 100644
--- a/src/storage/iterator.c
+++ b/src/storage/iterator.c
@@ -63,10 +63,12 @@ storageItrPathAdd(StorageIterator *const this, const String *const pathSub)
 
     MEM_CONTEXT_TEMP_BEGIN()
     {
-        // Get path content
+        // Get path content. Do not add a separator to the root path since an object store would look for a prefix beginning with /.
         StorageList *const list = storageInterfaceListP(
-            this->driver, pathSub == NULL ? this->path : strNewFmt("%s/%s", strZ(this->path), strZ(pathSub)), this->level,
-            .expression = this->expression, .targetTime = this->targetTime);
+            this->driver,
+            pathSub == NULL ?
+                this->path : strNewFmt("%s/%s", strEq(this->path, FSLASH_STR) ? "" : strZ(this->path), strZ(pathSub)),
+            this->level, .expression = this->expression, .targetTime = this->targetTime);
 
         // If path exists
         if (list != NULL)
-- 
2.43.0


From 1b0a5a5818991ff0b42fa6668310ee83ac989e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:14 +0000
Subject: [PATCH 34/40] fix: crash when the reply to an S3 part upload has no
 etag

The check was an assertion only compiled into debug builds.
---
 src/storage/s3/write.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/storage/s3/write.c b/src/storage/s3/write.c
index ec180dd..4fc683b 100644
--- a/src/storage/s3/write.c
+++ b/src/storage/s3/write.c
@@ -65,8 +65,10 @@ storageWriteS3Part(StorageWriteS3 *const this)
     {
         HttpResponse *const response = storageS3ResponseP(this->request);
 
-        strLstAdd(this->uploadPartList, httpHeaderGet(httpResponseHeader(response), HTTP_HEADER_ETAG_STR));
-        ASSERT(strLstGet(this->uploadPartList, strLstSize(this->uploadPartList) - 1) != NULL);
+        const String *const etag = httpHeaderGet(httpResponseHeader(response), HTTP_HEADER_ETAG_STR);
+        CHECK(FormatError, etag != NULL, "etag missing");
+
+        strLstAdd(this->uploadPartList, etag);
 
         httpResponseFree(response);
         httpRequestFree(this->request);
-- 
2.43.0


From d2a75119443dc1436f79a054b0507949979651d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:08 +0000
Subject: [PATCH 35/40] fix: listing of a versioned S3 repository at a time
 showed times of other versions

With repo-target-time the modification time was set for each version examined, so the time reported for the selected version was
that of the last (i.e. oldest) version of the file.
---
 src/storage/s3/storage.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/storage/s3/storage.c b/src/storage/s3/storage.c
index ef7737f..87024bb 100644
--- a/src/storage/s3/storage.c
+++ b/src/storage/s3/storage.c
@@ -911,13 +911,15 @@ storageS3ListInternal(
                     }
 
                     // If targeting by time
+                    time_t timeModified = 0;
+
                     if (targetTime != 0)
                     {
                         // Skip later versions
-                        infoLast.timeModified = storageS3CvtTime(
+                        timeModified = storageS3CvtTime(
                             xmlNodeContent(xmlNodeChild(fileNode, S3_XML_TAG_LAST_MODIFIED_STR, true)));
 
-                        if (infoLast.timeModified > targetTime)
+                        if (timeModified > targetTime)
                             continue;
 
                         // If a version has already been returned (or delete marker found) then skip this version
@@ -944,6 +946,8 @@ storageS3ListInternal(
                     {
                         if (targetTime != 0)
                         {
+                            infoLast.timeModified = timeModified;
+
                             strCat(
                                 strTrunc(versionIdLast), xmlNodeContent(xmlNodeChild(fileNode, S3_XML_TAG_VERSION_ID_STR, true)));
                         }
-- 
2.43.0


From 95e2447240b5f818e6d53fd6d863979b19f5ec46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:08 +0000
Subject: [PATCH 36/40] fix: list of versions on S3 failed when it had more
 than one page

ListObjectVersions is continued with NextKeyMarker and NextVersionIdMarker rather than with a continuation token, so with
repo-target-time reading a path with more than 1000 versions failed because NextContinuationToken was not found.
---
 src/storage/s3/storage.c | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/storage/s3/storage.c b/src/storage/s3/storage.c
index 87024bb..2f1e200 100644
--- a/src/storage/s3/storage.c
+++ b/src/storage/s3/storage.c
@@ -49,8 +49,10 @@ S3 query tokens
 STRING_STATIC(S3_QUERY_CONTINUATION_TOKEN_STR,                      "continuation-token");
 STRING_STATIC(S3_QUERY_DELETE_STR,                                  "delete");
 STRING_STATIC(S3_QUERY_DELIMITER_STR,                               "delimiter");
+STRING_STATIC(S3_QUERY_KEY_MARKER_STR,                              "key-marker");
 STRING_STATIC(S3_QUERY_LIST_TYPE_STR,                               "list-type");
 STRING_STATIC(S3_QUERY_PREFIX_STR,                                  "prefix");
+STRING_STATIC(S3_QUERY_VERSION_ID_MARKER_STR,                       "version-id-marker");
 STRING_STATIC(S3_QUERY_VERSIONS_STR,                                "versions");
 
 STRING_STATIC(S3_QUERY_VALUE_LIST_TYPE_2_STR,                       "2");
@@ -68,6 +70,8 @@ STRING_STATIC(S3_XML_TAG_KEY_STR,                                   "Key");
 STRING_STATIC(S3_XML_TAG_LAST_MODIFIED_STR,                         "LastModified");
 #define S3_XML_TAG_NEXT_CONTINUATION_TOKEN                          "NextContinuationToken"
 STRING_STATIC(S3_XML_TAG_NEXT_CONTINUATION_TOKEN_STR,               S3_XML_TAG_NEXT_CONTINUATION_TOKEN);
+STRING_STATIC(S3_XML_TAG_NEXT_KEY_MARKER_STR,                       "NextKeyMarker");
+STRING_STATIC(S3_XML_TAG_NEXT_VERSION_ID_MARKER_STR,                "NextVersionIdMarker");
 STRING_STATIC(S3_XML_TAG_OBJECT_STR,                                "Object");
 STRING_STATIC(S3_XML_TAG_PREFIX_STR,                                "Prefix");
 STRING_STATIC(S3_XML_TAG_QUIET_STR,                                 "Quiet");
@@ -839,16 +843,38 @@ storageS3ListInternal(
                 // If list is truncated then send an async request to get more data
                 if (strEq(xmlNodeContent(xmlNodeChild(xmlRoot, S3_XML_TAG_IS_TRUNCATED_STR, true)), TRUE_STR))
                 {
-                    const String *const nextContinuationToken = xmlNodeContent(
-                        xmlNodeChild(xmlRoot, S3_XML_TAG_NEXT_CONTINUATION_TOKEN_STR, true));
-                    CHECK(FormatError, !strEmpty(nextContinuationToken), S3_XML_TAG_NEXT_CONTINUATION_TOKEN " may not be empty");
+                    HttpQuery *const queryNext = httpQueryDupP(query);
 
-                    httpQueryPut(query, S3_QUERY_CONTINUATION_TOKEN_STR, nextContinuationToken);
+                    // A list of versions is continued with markers rather than a token
+                    const XmlNode *const nextKeyMarker =
+                        targetTime != 0 ? xmlNodeChild(xmlRoot, S3_XML_TAG_NEXT_KEY_MARKER_STR, false) : NULL;
+
+                    if (nextKeyMarker != NULL)
+                    {
+                        httpQueryAdd(queryNext, S3_QUERY_KEY_MARKER_STR, xmlNodeContent(nextKeyMarker));
+
+                        // There is no version when the last entry is a path
+                        const XmlNode *const nextVersionIdMarker = xmlNodeChild(
+                            xmlRoot, S3_XML_TAG_NEXT_VERSION_ID_MARKER_STR, false);
+
+                        if (nextVersionIdMarker != NULL)
+                            httpQueryAdd(queryNext, S3_QUERY_VERSION_ID_MARKER_STR, xmlNodeContent(nextVersionIdMarker));
+                    }
+                    else
+                    {
+                        const String *const nextContinuationToken = xmlNodeContent(
+                            xmlNodeChild(xmlRoot, S3_XML_TAG_NEXT_CONTINUATION_TOKEN_STR, true));
+                        CHECK(
+                            FormatError, !strEmpty(nextContinuationToken),
+                            S3_XML_TAG_NEXT_CONTINUATION_TOKEN " may not be empty");
+
+                        httpQueryAdd(queryNext, S3_QUERY_CONTINUATION_TOKEN_STR, nextContinuationToken);
+                    }
 
                     // Store request in the outer temp context
                     MEM_CONTEXT_PRIOR_BEGIN()
                     {
-                        request = storageS3RequestAsyncP(this, HTTP_VERB_GET_STR, FSLASH_STR, .query = query);
+                        request = storageS3RequestAsyncP(this, HTTP_VERB_GET_STR, FSLASH_STR, .query = queryNext);
                     }
                     MEM_CONTEXT_PRIOR_END();
                 }
-- 
2.43.0


From fb469f865294dac6daac5e018778c914613452c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:56 +0000
Subject: [PATCH 37/40] fix: encode the paths of Azure batch delete requests

The paths of the requests in a batch were sent unencoded, so the store decoded escapes which are part of the name, e.g. %41, and removed another or no object. Since a missing object is not an error the object remained while the removal was reported as successful.
---
 src/storage/azure/storage.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/azure/storage.c b/src/storage/azure/storage.c
index d5be449..39ed1bc 100644
--- a/src/storage/azure/storage.c
+++ b/src/storage/azure/storage.c
@@ -334,7 +334,7 @@ storageAzureRequestAsync(StorageAzure *const this, const String *const verb, Sto
                 const StorageAzureRequestPart *const requestPart = lstGet(param.contentList, contentIdx);
                 HttpHeader *const partHeader = httpHeaderNew(this->headerRedactList);
                 HttpQuery *const partQuery = this->sasKey != NULL ? httpQueryNewP(.redactList = this->queryRedactList) : NULL;
-                const String *const path = strNewFmt("%s%s", strZ(this->pathPrefix), strZ(requestPart->path));
+                const String *const path = httpUriEncode(strNewFmt("%s%s", strZ(this->pathPrefix), strZ(requestPart->path)), true);
 
                 httpHeaderAdd(partHeader, HTTP_HEADER_CONTENT_LENGTH_STR, ZERO_STR);
                 storageAzureAuth(this, requestPart->verb, path, partQuery, date, partHeader, true);
-- 
2.43.0


From 12df32fbcd061748bc1171a2ac269024919fa2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:45 +0000
Subject: [PATCH 38/40] fix: do not limit the content of sub-paths by the
 beginning of the expression on object stores

Storage iterators passed the expression to the driver for each sub-path. The expression applies to the entire relative name, but object
store drivers use the beginning of the expression as a prefix of the names in the path being listed so, e.g. repo-ls --recurse
--filter='^b' did not list b/x.
---
 src/storage/iterator.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage/iterator.c b/src/storage/iterator.c
index 31ef04b..f6351ec 100644
--- a/src/storage/iterator.c
+++ b/src/storage/iterator.c
@@ -64,11 +64,12 @@ storageItrPathAdd(StorageIterator *const this, const String *const pathSub)
     MEM_CONTEXT_TEMP_BEGIN()
     {
         // Get path content. Do not add a separator to the root path since an object store would look for a prefix beginning with /.
+        // The expression is matched against the entire name so it can only be used to limit the content of the root path.
         StorageList *const list = storageInterfaceListP(
             this->driver,
             pathSub == NULL ?
                 this->path : strNewFmt("%s/%s", strEq(this->path, FSLASH_STR) ? "" : strZ(this->path), strZ(pathSub)),
-            this->level, .expression = this->expression, .targetTime = this->targetTime);
+            this->level, .expression = pathSub == NULL ? this->expression : NULL, .targetTime = this->targetTime);
 
         // If path exists
         if (list != NULL)
-- 
2.43.0


From f34960ccdd35a8dc7cae390e193b789aa622eac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:58 +0000
Subject: [PATCH 39/40] fix: stop the prefix of an expression at a path
 separator

The prefix limits the names listed in a path, so with a separator in the prefix object stores returned names from sub-paths even when
not recursing, e.g. repo-ls --filter='^a/b'.
---
 src/common/regExp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/regExp.c b/src/common/regExp.c
index a0d8668..dffe671 100644
--- a/src/common/regExp.c
+++ b/src/common/regExp.c
@@ -158,7 +158,7 @@ regExpPrefix(const String *const expression)
             if (expressionChr == '.' || expressionChr == '^' || expressionChr == '$' || expressionChr == '*' ||
                 expressionChr == '+' || expressionChr == '-' || expressionChr == '?' || expressionChr == '(' ||
                 expressionChr == '[' || expressionChr == '{' || expressionChr == ' ' || expressionChr == '|' ||
-                expressionChr == '\\')
+                expressionChr == '\\' || expressionChr == '/')
             {
                 break;
             }
-- 
2.43.0


From fc8722bddd9cf802cc933c60c4ccc8cd89a4768d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:41 +0000
Subject: [PATCH 40/40] fix: use the repository path when it is given as the
 path of a repo command

The empty relative path added a trailing slash to the repository path so repo-ls listed nothing and repo-rm removed nothing on object stores.
---
 src/command/repo/common.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/command/repo/common.c b/src/command/repo/common.c
index aa3b402..4a31553 100644
--- a/src/command/repo/common.c
+++ b/src/command/repo/common.c
@@ -36,12 +36,13 @@ repoPathIsValid(const String *path)
             // Get the repo path using repo storage in case it is remotely configured
             const String *const repoPath = storagePathP(storageRepo(), NULL);
 
-            // If the path is exactly equal to the repo path then the relative path is empty
+            // If the path is exactly equal to the repo path then there is no relative path. Return the repo path since an empty relative
+            // path would add a trailing slash to the repo path and not match anything on object stores.
             if (strEq(path, repoPath))
             {
                 MEM_CONTEXT_PRIOR_BEGIN()
                 {
-                    result = strNew();
+                    result = strDup(repoPath);
                 }
                 MEM_CONTEXT_PRIOR_END();
             }
-- 
2.43.0

