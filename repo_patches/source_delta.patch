From 6226c25671c9caf2bd746fd38c98af8400a730e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:00 +0000
Subject: [PATCH 01/20] fix: do not transfer a field that is larger than its
 chunk

chunkSize - fieldSize was computed in size_t and wrapped around for chunks
whose declared size is smaller than the field (or negative), so the field was
transferred beyond the end of the chunk.
---
 src/libiff/field.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libiff/field.c b/src/libiff/field.c
index 29ccfc8..4cbb137 100644
--- a/src/libiff/field.c
+++ b/src/libiff/field.c
@@ -30,7 +30,7 @@ IFF_Bool IFF_deriveSuccess(const IFF_FieldStatus status)
 
 static IFF_Bool fieldDoesNotFitInChunk(const size_t fieldSize, const IFF_Long chunkSize, const IFF_Long bytesProcessed)
 {
-    return bytesProcessed > chunkSize - fieldSize;
+    return chunkSize < 0 || (size_t)chunkSize < fieldSize || bytesProcessed > chunkSize - (IFF_Long)fieldSize;
 }
 
 static void increaseBytesProcessed(IFF_Long *bytesProcessed, const size_t fieldSize)
-- 
2.43.0


From ef2ba26b62ae8b4e56435f73b4c14ea65b91da8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:04 +0000
Subject: [PATCH 02/20] fix: make diagnostics agree with their arguments

The truncated group warnings passed the bytesProcessed pointer for a %d, and
the skip and filler diagnostics passed a long and a size_t for %d and %u.
---
 src/libiff/group.c | 2 +-
 src/libiff/io.c    | 4 ++--
 src/libiff/list.c  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libiff/group.c b/src/libiff/group.c
index c180a21..1424e9c 100644
--- a/src/libiff/group.c
+++ b/src/libiff/group.c
@@ -89,7 +89,7 @@ static IFF_Bool readGroupSubChunks(FILE *file, IFF_Group *group, const IFF_Chunk
     }
 
     if(*bytesProcessed > group->chunkSize)
-        IFF_error("WARNING: truncated group chunk! The size specifies: %d but the total amount of its sub chunks is: %d bytes. The parser may get confused!\n", group->chunkSize, bytesProcessed);
+        IFF_error("WARNING: truncated group chunk! The size specifies: %d but the total amount of its sub chunks is: %d bytes. The parser may get confused!\n", group->chunkSize, *bytesProcessed);
 
     return TRUE;
 }
diff --git a/src/libiff/io.c b/src/libiff/io.c
index 9d03487..f8f3146 100644
--- a/src/libiff/io.c
+++ b/src/libiff/io.c
@@ -214,7 +214,7 @@ IFF_Bool IFF_skipUnknownBytes(FILE *file, const IFF_ID chunkId, const IFF_Long c
 
         if(fseek(file, bytesToSkip, SEEK_CUR) == 0)
         {
-            IFF_error("Cannot skip: %d bytes in data chunk: '", bytesToSkip);
+            IFF_error("Cannot skip: %ld bytes in data chunk: '", bytesToSkip);
             IFF_errorId(chunkId);
             IFF_error("'\n");
             return TRUE;
@@ -236,7 +236,7 @@ IFF_Bool IFF_writeZeroFillerBytes(FILE *file, const IFF_ID chunkId, const IFF_Lo
 
         if(!status)
         {
-            IFF_error("Cannot write: %u zero bytes in data chunk: '", bytesToSkip);
+            IFF_error("Cannot write: %lu zero bytes in data chunk: '", (unsigned long)bytesToSkip);
             IFF_errorId(chunkId);
             IFF_error("'\n");
         }
diff --git a/src/libiff/list.c b/src/libiff/list.c
index bcc75dd..74f7369 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -102,7 +102,7 @@ static IFF_Bool readListSubChunks(FILE *file, IFF_List *list, const IFF_ChunkReg
     }
 
     if(*bytesProcessed > list->chunkSize)
-        IFF_error("WARNING: truncated LIST chunk! The size specifies: %d but the total amount of its sub chunks is: %d bytes. The parser may get confused!\n", list->chunkSize, bytesProcessed);
+        IFF_error("WARNING: truncated LIST chunk! The size specifies: %d but the total amount of its sub chunks is: %d bytes. The parser may get confused!\n", list->chunkSize, *bytesProcessed);
 
     return TRUE;
 }
-- 
2.43.0


From 821c6cea9111e332d9fac2e326ea9c1baa8374d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:07 +0000
Subject: [PATCH 03/20] fix: report a failing close or flush as a failed write

Data that is still buffered is only delivered when the file is closed or the
standard output flushed, so an error there means that the write has failed.
---
 src/libiff/iff.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/libiff/iff.c b/src/libiff/iff.c
index d2c3942..55b9544 100644
--- a/src/libiff/iff.c
+++ b/src/libiff/iff.c
@@ -107,14 +107,21 @@ IFF_Bool IFF_writeFile(const char *filename, const IFF_Chunk *chunk, const IFF_C
     }
 
     status = IFF_writeFd(file, chunk, chunkRegistry);
-    fclose(file);
+
+    /* Closing delivers the buffered data, which may fail as well */
+    if(fclose(file) != 0)
+    {
+        IFF_error("ERROR: cannot write file: %s\n", filename);
+        status = FALSE;
+    }
+
     return status;
 }
 
 IFF_Bool IFF_write(const char *filename, const IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry)
 {
     if(filename == NULL)
-        return IFF_writeFd(stdout, chunk, chunkRegistry);
+        return IFF_writeFd(stdout, chunk, chunkRegistry) && fflush(stdout) == 0;
     else
         return IFF_writeFile(filename, chunk, chunkRegistry);
 }
-- 
2.43.0


From 328c83b7a73ddb52859a04469820d3f2c643d0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:33 +0000
Subject: [PATCH 04/20] fix: free an input chunk of iffjoin that does not pass
 the check

---
 src/iffjoin/join.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iffjoin/join.c b/src/iffjoin/join.c
index 5b89281..47e4ca7 100644
--- a/src/iffjoin/join.c
+++ b/src/iffjoin/join.c
@@ -42,6 +42,9 @@ int IFF_join(char **inputFilenames, const unsigned int inputFilenamesLength, con
         /* Check whether the IFF file is valid */
         if(chunk == NULL || !IFF_check(chunk, NULL))
         {
+            if(chunk != NULL)
+                IFF_free(chunk, NULL);
+
             IFF_free((IFF_Chunk*)cat, NULL);
             return 1;
         }
-- 
2.43.0


From e41e155241b4fcaf982c12b29159f239ff7a2c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:37 +0000
Subject: [PATCH 05/20] fix: free the partial results of a form search

---
 src/libiff/group.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libiff/group.c b/src/libiff/group.c
index 1424e9c..4de8436 100644
--- a/src/libiff/group.c
+++ b/src/libiff/group.c
@@ -262,6 +262,7 @@ IFF_Form **IFF_searchFormsInGroup(IFF_Group *group, const IFF_ID *formTypes, con
         IFF_Form **result = IFF_searchFormsFromArray(group->chunk[i], formTypes, formTypesLength, &resultLength);
 
         forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);
+        free(result);
     }
 
     return forms;
-- 
2.43.0


From 12360a79b641bed665c31b2e5a687e36fe2166a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:40 +0000
Subject: [PATCH 06/20] fix: search the global chunk types for chunks a form
 type does not define

A chunk that is not among the chunk types of a form type was handled as a raw
chunk without consulting the global chunk types. As a result, group chunks that
are nested in such a form (or in a list or concatenation of them) were read as
raw chunks, while operations such as searching treat them as group chunks.
---
 src/libiff/chunkregistry.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/libiff/chunkregistry.c b/src/libiff/chunkregistry.c
index 7de22f7..4e5e65b 100644
--- a/src/libiff/chunkregistry.c
+++ b/src/libiff/chunkregistry.c
@@ -90,13 +90,14 @@ IFF_ChunkType *IFF_findChunkType(const IFF_ChunkRegistry *chunkRegistry, const I
     {
         /* Search for the requested FORM chunk types */
         const IFF_FormChunkTypes *formChunkTypes = getFormChunkTypes(formType, chunkRegistry);
-        IFF_ChunkType *result;
+        IFF_ChunkType *result = NULL;
 
-        if(formChunkTypes == NULL)
-            result = getChunkType(chunkId, chunkRegistry->globalChunkTypesNode); /* Search for the chunk type that handles the a chunk with the given chunk id */
-        else
+        if(formChunkTypes != NULL)
             result = getChunkType(chunkId, formChunkTypes->chunkTypesNode); /* Search for the chunk type that handles the a chunk with the given chunk id */
 
+        if(result == NULL)
+            result = getChunkType(chunkId, chunkRegistry->globalChunkTypesNode); /* Otherwise, search for a chunk type that applies to any form type */
+
         if(result == NULL)
             return chunkRegistry->defaultChunkType;
         else
-- 
2.43.0


From 8ee0af7fd9d2dc797b797d5f3605e0a191dde29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:43 +0000
Subject: [PATCH 07/20] fix: write shared property chunks in the context of the
 list

All other operations on the PROP chunks of a list use its contents type to look
up their chunk type.
---
 src/libiff/list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libiff/list.c b/src/libiff/list.c
index 74f7369..dba279b 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -133,7 +133,7 @@ static IFF_Bool writeListPropChunks(FILE *file, const IFF_List *list, const IFF_
 
     for(i = 0; i < list->propLength; i++)
     {
-        if(!IFF_writeChunk(file, (IFF_Chunk*)list->prop[i], 0, chunkRegistry))
+        if(!IFF_writeChunk(file, (IFF_Chunk*)list->prop[i], list->contentsType, chunkRegistry))
         {
             IFF_error("Error writing PROP!\n");
             return FALSE;
-- 
2.43.0


From 96761392a282ef5c439baf20e2bd85ea49f2a632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:46 +0000
Subject: [PATCH 08/20] fix: compare the sizes of shared property chunks

Comparing lists bypassed the generic chunk comparison for PROP chunks, so that
their IDs and declared sizes and the chunk registry were ignored.
---
 src/libiff/list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libiff/list.c b/src/libiff/list.c
index dba279b..c370863 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -256,7 +256,7 @@ static IFF_Bool compareListPropChunks(const IFF_List *list1, const IFF_List *lis
 
         for(i = 0; i < list1->propLength; i++)
         {
-            if(!IFF_compareProp((IFF_Chunk*)list1->prop[i], (IFF_Chunk*)list2->prop[i], chunkRegistry))
+            if(!IFF_compareChunk((IFF_Chunk*)list1->prop[i], (IFF_Chunk*)list2->prop[i], list1->contentsType, chunkRegistry))
                return FALSE;
         }
 
-- 
2.43.0


From 17d8aec72eb370738469098b970bb1042a1699b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 09/20] fix: reject IDs with spaces before a printing
 character, accept the filler ID

The IFF standard forbids spaces that precede printing characters at any
position, whereas the ID that consists of spaces only is legal (as chunk ID).
---
 src/libiff/form.c |  6 ++++--
 src/libiff/id.c   | 11 +++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/libiff/form.c b/src/libiff/form.c
index 788d609..b2e6eb1 100644
--- a/src/libiff/form.c
+++ b/src/libiff/form.c
@@ -30,6 +30,8 @@
 
 #define FORM_GROUPTYPENAME "formType"
 
+#define ID_EMPTY IFF_MAKEID(' ', ' ', ' ', ' ')
+
 #define ID_FOR1 IFF_MAKEID('F', 'O', 'R', '1')
 #define ID_FOR2 IFF_MAKEID('F', 'O', 'R', '2')
 #define ID_FOR3 IFF_MAKEID('F', 'O', 'R', '3')
@@ -95,8 +97,8 @@ IFF_Bool IFF_checkFormType(const IFF_ID formType)
     unsigned int i;
     IFF_ID2 formType2;
 
-    /* A form type must be a valid ID */
-    if(!IFF_checkId(formType))
+    /* A form type must be a valid ID, but not the filler ID that consists of spaces only */
+    if(!IFF_checkId(formType) || formType == ID_EMPTY)
         return FALSE;
 
     IFF_idToString(formType, formType2);
diff --git a/src/libiff/id.c b/src/libiff/id.c
index dbed976..d53315c 100644
--- a/src/libiff/id.c
+++ b/src/libiff/id.c
@@ -60,12 +60,15 @@ IFF_Bool IFF_checkId(const IFF_ID id)
         }
     }
 
-    /* Spaces may not precede an ID, trailing spaces are ok */
+    /* Spaces may not precede the printing characters of an ID, trailing spaces are ok */
 
-    if(id2[0] == ' ')
+    for(i = 0; i < IFF_ID_SIZE - 1; i++)
     {
-        IFF_error("Spaces may not precede an ID!\n");
-        return FALSE;
+        if(id2[i] == ' ' && id2[i + 1] != ' ')
+        {
+            IFF_error("Spaces may not precede an ID!\n");
+            return FALSE;
+        }
     }
 
     return TRUE;
-- 
2.43.0


From 5816e63dc9bd87811bbbf4e2344686251a88552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:05 +0000
Subject: [PATCH 10/20] fix: reject all punctuation marks in form types

Only the full stop was rejected, while the IFF standard (and the error message)
rule out punctuation marks in general.
---
 src/libiff/form.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libiff/form.c b/src/libiff/form.c
index b2e6eb1..7623a52 100644
--- a/src/libiff/form.c
+++ b/src/libiff/form.c
@@ -106,7 +106,7 @@ IFF_Bool IFF_checkFormType(const IFF_ID formType)
     /* A form type is not allowed to have lowercase or puntuaction marks */
     for(i = 0; i < IFF_ID_SIZE; i++)
     {
-        if((formType2[i] >= 0x61 && formType2[i] <= 0x7a) || formType2[i] == '.')
+        if(!(formType2[i] >= 'A' && formType2[i] <= 'Z') && !(formType2[i] >= '0' && formType2[i] <= '9') && formType2[i] != ' ')
         {
             IFF_error("No lowercase characters or punctuation marks allowed in a form type ID!\n");
             return FALSE;
-- 
2.43.0


From 56e377ecd1902b5bf2e3a097f2738d424dd75ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:08 +0000
Subject: [PATCH 11/20] fix: detect the end of the file when skipping unknown
 bytes

fseek() succeeds beyond the end of a file, so a truncated chunk was accepted,
and it fails on pipes. The diagnostic was also printed on success only.
---
 src/libiff/io.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/libiff/io.c b/src/libiff/io.c
index f8f3146..ead0d84 100644
--- a/src/libiff/io.c
+++ b/src/libiff/io.c
@@ -210,17 +210,22 @@ IFF_Bool IFF_skipUnknownBytes(FILE *file, const IFF_ID chunkId, const IFF_Long c
 {
     if(bytesProcessed < chunkSize)
     {
-        long bytesToSkip = chunkSize - bytesProcessed;
+        IFF_Long bytesToSkip = chunkSize - bytesProcessed;
+        IFF_Long i;
 
-        if(fseek(file, bytesToSkip, SEEK_CUR) == 0)
+        /* Read the bytes, because seeking does not notice the end of the file and does not work on pipes */
+        for(i = 0; i < bytesToSkip; i++)
         {
-            IFF_error("Cannot skip: %ld bytes in data chunk: '", bytesToSkip);
-            IFF_errorId(chunkId);
-            IFF_error("'\n");
-            return TRUE;
+            if(fgetc(file) == EOF)
+            {
+                IFF_error("Cannot skip: %d bytes in data chunk: '", bytesToSkip);
+                IFF_errorId(chunkId);
+                IFF_error("'\n");
+                return FALSE;
+            }
         }
-        else
-            return FALSE;
+
+        return TRUE;
     }
     else
         return TRUE;
-- 
2.43.0


From a155d0a8cfbcb174fbb42b07209eee2d6880e32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:30 +0000
Subject: [PATCH 12/20] fix: check the memory allocations of searches, lookups
 and iffjoin

They were dereferenced without checking, also by the zero filler writer.
---
 src/iffjoin/join.c |  3 +++
 src/iffjoin/main.c |  6 ++++++
 src/libiff/form.c  | 34 ++++++++++++++++++++++++++++------
 src/libiff/io.c    |  2 +-
 4 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/iffjoin/join.c b/src/iffjoin/join.c
index 47e4ca7..964fa86 100644
--- a/src/iffjoin/join.c
+++ b/src/iffjoin/join.c
@@ -34,6 +34,9 @@ int IFF_join(char **inputFilenames, const unsigned int inputFilenamesLength, con
     unsigned int i;
     int status = 0;
 
+    if(cat == NULL)
+        return 1;
+
     for(i = 0; i < inputFilenamesLength; i++)
     {
         /* Open each input IFF file */
diff --git a/src/iffjoin/main.c b/src/iffjoin/main.c
index 63f44ae..cb02d6a 100644
--- a/src/iffjoin/main.c
+++ b/src/iffjoin/main.c
@@ -138,6 +138,12 @@ int main(int argc, char *argv[])
         unsigned int i;
         int status;
 
+        if(inputFilenames == NULL)
+        {
+            fprintf(stderr, "ERROR: Cannot allocate memory for the input file names!\n");
+            return 1;
+        }
+
         /* Create an array of input file names */
         for(i = 0; i < inputFilenamesLength; i++)
             inputFilenames[i] = argv[optind + i];
diff --git a/src/libiff/form.c b/src/libiff/form.c
index 7623a52..0a2689f 100644
--- a/src/libiff/form.c
+++ b/src/libiff/form.c
@@ -197,15 +197,22 @@ IFF_Form **IFF_mergeFormArray(IFF_Form **target, unsigned int *targetLength, IFF
 {
     unsigned int i;
     unsigned int newLength = *targetLength + sourceLength;
+    IFF_Form **result;
 
-    target = (IFF_Form**)realloc(target, newLength * sizeof(IFF_Form*));
+    if(sourceLength == 0)
+        return target;
+
+    result = (IFF_Form**)realloc(target, newLength * sizeof(IFF_Form*));
+
+    if(result == NULL)
+        return target;
 
     for(i = 0; i < sourceLength; i++)
-        target[i + *targetLength] = source[i];
+        result[i + *targetLength] = source[i];
 
     *targetLength = newLength;
 
-    return target;
+    return result;
 }
 
 IFF_Form **IFF_searchFormsInForm(IFF_Form *form, const IFF_ID *formTypes, const unsigned int formTypesLength, unsigned int *formsLength)
@@ -220,8 +227,14 @@ IFF_Form **IFF_searchFormsInForm(IFF_Form *form, const IFF_ID *formTypes, const
         if(form->formType == formType)
         {
             IFF_Form **forms = (IFF_Form**)malloc(sizeof(IFF_Form*));
-            forms[0] = form;
-            *formsLength = 1;
+
+            if(forms == NULL)
+                *formsLength = 0;
+            else
+            {
+                forms[0] = form;
+                *formsLength = 1;
+            }
 
             return forms;
         }
@@ -326,7 +339,16 @@ IFF_Chunk **IFF_getChunksFromForm(const IFF_Form *form, const IFF_ID chunkId, un
     {
         if(form->chunk[i]->chunkId == chunkId)
         {
-            result = (IFF_Chunk**)realloc(result, (*chunksLength + 1) * sizeof(IFF_Chunk*));
+            IFF_Chunk **newResult = (IFF_Chunk**)realloc(result, (*chunksLength + 1) * sizeof(IFF_Chunk*));
+
+            if(newResult == NULL)
+            {
+                free(result);
+                *chunksLength = 0;
+                return NULL;
+            }
+
+            result = newResult;
             result[*chunksLength] = form->chunk[i];
             *chunksLength = *chunksLength + 1;
         }
diff --git a/src/libiff/io.c b/src/libiff/io.c
index ead0d84..39b0575 100644
--- a/src/libiff/io.c
+++ b/src/libiff/io.c
@@ -237,7 +237,7 @@ IFF_Bool IFF_writeZeroFillerBytes(FILE *file, const IFF_ID chunkId, const IFF_Lo
     {
         size_t bytesToSkip = chunkSize - bytesProcessed;
         IFF_UByte *emptyData = (IFF_UByte*)calloc(bytesToSkip, sizeof(IFF_UByte));
-        IFF_Bool status = fwrite(emptyData, sizeof(IFF_UByte), bytesToSkip, file) == bytesToSkip;
+        IFF_Bool status = emptyData != NULL && fwrite(emptyData, sizeof(IFF_UByte), bytesToSkip, file) == bytesToSkip;
 
         if(!status)
         {
-- 
2.43.0


From e3e922addec00d10d1c425cf49b29653cf33e7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:16 +0000
Subject: [PATCH 13/20] fix: report failing memory allocations when adding
 chunks to groups

The result of realloc() was dereferenced without a check, both when composing
groups and when reading them. The functions that add a chunk now return whether
they have succeeded; reading a group fails if a sub chunk can't be added.
---
 src/iffjoin/join.c |  5 ++---
 src/libiff/cat.c   |  8 ++++----
 src/libiff/cat.h   |  6 ++++--
 src/libiff/form.c  |  4 ++--
 src/libiff/form.h  |  3 ++-
 src/libiff/group.c | 24 +++++++++++++++++++-----
 src/libiff/group.h |  6 ++++--
 src/libiff/list.c  | 38 ++++++++++++++++++++++++++++----------
 src/libiff/list.h  |  9 ++++++---
 src/libiff/prop.c  |  4 ++--
 src/libiff/prop.h  |  3 ++-
 11 files changed, 75 insertions(+), 35 deletions(-)

diff --git a/src/iffjoin/join.c b/src/iffjoin/join.c
index 964fa86..b4cb228 100644
--- a/src/iffjoin/join.c
+++ b/src/iffjoin/join.c
@@ -43,7 +43,8 @@ int IFF_join(char **inputFilenames, const unsigned int inputFilenamesLength, con
         IFF_Chunk *chunk = IFF_readFile(inputFilenames[i], NULL);
 
         /* Check whether the IFF file is valid */
-        if(chunk == NULL || !IFF_check(chunk, NULL))
+        if(chunk == NULL || !IFF_check(chunk, NULL)
+            || !IFF_addToCATAndUpdateContentsType(cat, chunk)) /* Add the input IFF chunk to the concatenation */
         {
             if(chunk != NULL)
                 IFF_free(chunk, NULL);
@@ -51,8 +52,6 @@ int IFF_join(char **inputFilenames, const unsigned int inputFilenamesLength, con
             IFF_free((IFF_Chunk*)cat, NULL);
             return 1;
         }
-        else
-            IFF_addToCATAndUpdateContentsType(cat, chunk); /* Add the input IFF chunk to the concatenation */
     }
 
     /* Write the resulting CAT to the output file or standard output */
diff --git a/src/libiff/cat.c b/src/libiff/cat.c
index bb8db66..f373cfc 100644
--- a/src/libiff/cat.c
+++ b/src/libiff/cat.c
@@ -65,15 +65,15 @@ static void updateContentsType(IFF_CAT *cat, IFF_Chunk *chunk)
     }
 }
 
-void IFF_addToCAT(IFF_CAT *cat, IFF_Chunk *chunk)
+IFF_Bool IFF_addToCAT(IFF_CAT *cat, IFF_Chunk *chunk)
 {
-    IFF_addToGroup((IFF_Group*)cat, chunk);
+    return IFF_addToGroup((IFF_Group*)cat, chunk);
 }
 
-void IFF_addToCATAndUpdateContentsType(IFF_CAT *cat, IFF_Chunk *chunk)
+IFF_Bool IFF_addToCATAndUpdateContentsType(IFF_CAT *cat, IFF_Chunk *chunk)
 {
     updateContentsType(cat, chunk);
-    IFF_addToCAT(cat, chunk);
+    return IFF_addToCAT(cat, chunk);
 }
 
 IFF_Bool IFF_readCAT(FILE *file, IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)
diff --git a/src/libiff/cat.h b/src/libiff/cat.h
index 9113b3e..e807373 100644
--- a/src/libiff/cat.h
+++ b/src/libiff/cat.h
@@ -110,8 +110,9 @@ IFF_Chunk *IFF_createUnparsedCAT(const IFF_ID chunkId, const IFF_Long chunkSize)
  *
  * @param cat An instance of a CAT struct
  * @param chunk A FORM, CAT or LIST chunk
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory for it can't be allocated
  */
-void IFF_addToCAT(IFF_CAT *cat, IFF_Chunk *chunk);
+IFF_Bool IFF_addToCAT(IFF_CAT *cat, IFF_Chunk *chunk);
 
 /**
  * Adds a chunk to the body of the given CAT and updates the contents type.
@@ -121,8 +122,9 @@ void IFF_addToCAT(IFF_CAT *cat, IFF_Chunk *chunk);
  *
  * @param cat An instance of a CAT struct
  * @param chunk A FORM, CAT or LIST chunk
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory for it can't be allocated
  */
-void IFF_addToCATAndUpdateContentsType(IFF_CAT *cat, IFF_Chunk *chunk);
+IFF_Bool IFF_addToCATAndUpdateContentsType(IFF_CAT *cat, IFF_Chunk *chunk);
 
 /**
  * Reads a concatenation chunk and its sub chunks from a file.
diff --git a/src/libiff/form.c b/src/libiff/form.c
index 0a2689f..3b33e5a 100644
--- a/src/libiff/form.c
+++ b/src/libiff/form.c
@@ -77,9 +77,9 @@ IFF_Chunk *IFF_createUnparsedForm(const IFF_ID chunkId, const IFF_Long chunkSize
     return IFF_createUnparsedGroup(chunkId, chunkSize);
 }
 
-void IFF_addToForm(IFF_Form *form, IFF_Chunk *chunk)
+IFF_Bool IFF_addToForm(IFF_Form *form, IFF_Chunk *chunk)
 {
-    IFF_addToGroup((IFF_Group*)form, chunk);
+    return IFF_addToGroup((IFF_Group*)form, chunk);
 }
 
 IFF_Bool IFF_readForm(FILE *file, IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)
diff --git a/src/libiff/form.h b/src/libiff/form.h
index 74ee595..eb92bd8 100644
--- a/src/libiff/form.h
+++ b/src/libiff/form.h
@@ -98,8 +98,9 @@ IFF_Chunk *IFF_createUnparsedForm(const IFF_ID chunkId, const IFF_Long chunkSize
  *
  * @param form An instance of a FORM chunk
  * @param chunk An arbitrary group or data chunk
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory for it can't be allocated
  */
-void IFF_addToForm(IFF_Form *form, IFF_Chunk *chunk);
+IFF_Bool IFF_addToForm(IFF_Form *form, IFF_Chunk *chunk);
 
 /**
  * Reads a form chunk and its sub chunks from a file.
diff --git a/src/libiff/group.c b/src/libiff/group.c
index 4de8436..3915ef3 100644
--- a/src/libiff/group.c
+++ b/src/libiff/group.c
@@ -57,18 +57,28 @@ IFF_Chunk *IFF_createUnparsedGroup(const IFF_ID chunkId, const IFF_Long chunkSiz
     return (IFF_Chunk*)IFF_createGroup(chunkId, chunkSize, 0);
 }
 
-void IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk)
+IFF_Bool IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk)
 {
-    group->chunk = (IFF_Chunk**)realloc(group->chunk, (group->chunkLength + 1) * sizeof(IFF_Chunk*));
+    IFF_Chunk **newChunk = (IFF_Chunk**)realloc(group->chunk, (group->chunkLength + 1) * sizeof(IFF_Chunk*));
+
+    if(newChunk == NULL)
+        return FALSE;
+
+    group->chunk = newChunk;
     group->chunk[group->chunkLength] = chunk;
     group->chunkLength++;
     chunk->parent = group;
+
+    return TRUE;
 }
 
-void IFF_addToGroup(IFF_Group *group, IFF_Chunk *chunk)
+IFF_Bool IFF_addToGroup(IFF_Group *group, IFF_Chunk *chunk)
 {
-    IFF_attachToGroup(group, chunk);
+    if(!IFF_attachToGroup(group, chunk))
+        return FALSE;
+
     group->chunkSize = IFF_incrementChunkSize(group->chunkSize, chunk);
+    return TRUE;
 }
 
 static IFF_Bool readGroupSubChunks(FILE *file, IFF_Group *group, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)
@@ -82,7 +92,11 @@ static IFF_Bool readGroupSubChunks(FILE *file, IFF_Group *group, const IFF_Chunk
             return FALSE;
 
         /* Attach chunk to the group */
-        IFF_attachToGroup(group, chunk);
+        if(!IFF_attachToGroup(group, chunk))
+        {
+            IFF_freeChunk(chunk, group->groupType, chunkRegistry);
+            return FALSE;
+        }
 
         /* Increase the bytes processed counter */
         *bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, chunk);
diff --git a/src/libiff/group.h b/src/libiff/group.h
index 6490c74..2e1d276 100644
--- a/src/libiff/group.h
+++ b/src/libiff/group.h
@@ -103,8 +103,9 @@ IFF_Chunk *IFF_createUnparsedGroup(const IFF_ID chunkId, const IFF_Long chunkSiz
  *
  * @param group An instance of a group chunk
  * @param chunk An arbitrary group or data chunk
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory for it can't be allocated
  */
-void IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk);
+IFF_Bool IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk);
 
 /**
  * Adds a chunk to the body of the given group. This function also increments the
@@ -112,8 +113,9 @@ void IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk);
  *
  * @param group An instance of a group chunk
  * @param chunk An arbitrary group or data chunk
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory for it can't be allocated
  */
-void IFF_addToGroup(IFF_Group *group, IFF_Chunk *chunk);
+IFF_Bool IFF_addToGroup(IFF_Group *group, IFF_Chunk *chunk);
 
 /**
  * Reads a group chunk and its sub chunks from a file.
diff --git a/src/libiff/list.c b/src/libiff/list.c
index c370863..2d2b215 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -57,34 +57,46 @@ IFF_Chunk *IFF_createUnparsedList(const IFF_ID chunkId, const IFF_Long chunkSize
     return (IFF_Chunk*)IFF_createList(chunkSize, 0);
 }
 
-static void addPropToList(IFF_List *list, IFF_Prop *prop)
+static IFF_Bool addPropToList(IFF_List *list, IFF_Prop *prop)
 {
-    list->prop = (IFF_Prop**)realloc(list->prop, (list->propLength + 1) * sizeof(IFF_Prop*));
+    IFF_Prop **newProp = (IFF_Prop**)realloc(list->prop, (list->propLength + 1) * sizeof(IFF_Prop*));
+
+    if(newProp == NULL)
+        return FALSE;
+
+    list->prop = newProp;
     list->prop[list->propLength] = prop;
     list->propLength++;
     prop->parent = (IFF_Group*)list;
+
+    return TRUE;
 }
 
-void IFF_addPropToList(IFF_List *list, IFF_Prop *prop)
+IFF_Bool IFF_addPropToList(IFF_List *list, IFF_Prop *prop)
 {
-    addPropToList(list, prop);
+    if(!addPropToList(list, prop))
+        return FALSE;
+
     list->chunkSize = IFF_incrementChunkSize(list->chunkSize, (IFF_Chunk*)prop);
+    return TRUE;
 }
 
-void IFF_addToList(IFF_List *list, IFF_Chunk *chunk)
+IFF_Bool IFF_addToList(IFF_List *list, IFF_Chunk *chunk)
 {
-    IFF_addToCAT((IFF_CAT*)list, chunk);
+    return IFF_addToCAT((IFF_CAT*)list, chunk);
 }
 
-void IFF_addToListAndUpdateContentsType(IFF_List *list, IFF_Chunk *chunk)
+IFF_Bool IFF_addToListAndUpdateContentsType(IFF_List *list, IFF_Chunk *chunk)
 {
-    IFF_addToCATAndUpdateContentsType((IFF_CAT*)list, chunk);
+    return IFF_addToCATAndUpdateContentsType((IFF_CAT*)list, chunk);
 }
 
 static IFF_Bool readListSubChunks(FILE *file, IFF_List *list, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)
 {
     while(*bytesProcessed < list->chunkSize)
     {
+        IFF_Bool status;
+
         /* Read sub chunk */
         IFF_Chunk *chunk = IFF_readChunk(file, list->contentsType, chunkRegistry);
 
@@ -93,9 +105,15 @@ static IFF_Bool readListSubChunks(FILE *file, IFF_List *list, const IFF_ChunkReg
 
         /* Add the PROP chunk or arbitrary sub chunk */
         if(chunk->chunkId == IFF_ID_PROP)
-            addPropToList(list, (IFF_Prop*)chunk);
+            status = addPropToList(list, (IFF_Prop*)chunk);
         else
-            IFF_attachToGroup((IFF_Group*)list, chunk);
+            status = IFF_attachToGroup((IFF_Group*)list, chunk);
+
+        if(!status)
+        {
+            IFF_freeChunk(chunk, list->contentsType, chunkRegistry);
+            return FALSE;
+        }
 
         /* Increase the bytes processed counter */
         *bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, chunk);
diff --git a/src/libiff/list.h b/src/libiff/list.h
index 0ed5b02..67c644b 100644
--- a/src/libiff/list.h
+++ b/src/libiff/list.h
@@ -116,8 +116,9 @@ IFF_Chunk *IFF_createUnparsedList(const IFF_ID chunkId, const IFF_Long chunkSize
  *
  * @param list An instance of a list struct
  * @param prop A PROP chunk
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory for it can't be allocated
  */
-void IFF_addPropToList(IFF_List *list, IFF_Prop *prop);
+IFF_Bool IFF_addPropToList(IFF_List *list, IFF_Prop *prop);
 
 /**
  * Adds a chunk to the body of the given list. This function also increments the
@@ -125,8 +126,9 @@ void IFF_addPropToList(IFF_List *list, IFF_Prop *prop);
  *
  * @param list An instance of a list struct
  * @param chunk A FORM, CAT or LIST chunk
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory for it can't be allocated
  */
-void IFF_addToList(IFF_List *list, IFF_Chunk *chunk);
+IFF_Bool IFF_addToList(IFF_List *list, IFF_Chunk *chunk);
 
 /**
  * Adds a chunk to the body of the given list.
@@ -136,8 +138,9 @@ void IFF_addToList(IFF_List *list, IFF_Chunk *chunk);
  *
  * @param list An instance of a list struct
  * @param chunk A FORM, CAT or LIST chunk
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory for it can't be allocated
  */
-void IFF_addToListAndUpdateContentsType(IFF_List *list, IFF_Chunk *chunk);
+IFF_Bool IFF_addToListAndUpdateContentsType(IFF_List *list, IFF_Chunk *chunk);
 
 /**
  * Reads a list chunk and its sub chunks from a file.
diff --git a/src/libiff/prop.c b/src/libiff/prop.c
index 87f56d2..ba964e8 100644
--- a/src/libiff/prop.c
+++ b/src/libiff/prop.c
@@ -46,9 +46,9 @@ IFF_Chunk *IFF_createUnparsedProp(const IFF_ID chunkId, const IFF_Long chunkSize
     return IFF_createUnparsedGroup(chunkId, chunkSize);
 }
 
-void IFF_addToProp(IFF_Prop *prop, IFF_Chunk *chunk)
+IFF_Bool IFF_addToProp(IFF_Prop *prop, IFF_Chunk *chunk)
 {
-    IFF_addToForm((IFF_Form*)prop, chunk);
+    return IFF_addToForm((IFF_Form*)prop, chunk);
 }
 
 IFF_Bool IFF_readProp(FILE *file, IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)
diff --git a/src/libiff/prop.h b/src/libiff/prop.h
index bfd152c..d3b233d 100644
--- a/src/libiff/prop.h
+++ b/src/libiff/prop.h
@@ -72,8 +72,9 @@ IFF_Chunk *IFF_createUnparsedProp(const IFF_ID chunkId, const IFF_Long chunkSize
  *
  * @param prop An instance of a PROP chunk
  * @param chunk A data chunk
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory for it can't be allocated
  */
-void IFF_addToProp(IFF_Prop *prop, IFF_Chunk *chunk);
+IFF_Bool IFF_addToProp(IFF_Prop *prop, IFF_Chunk *chunk);
 
 /**
  * Reads a PROP chunk and its sub chunks from a file.
-- 
2.43.0


From dcc76a62c4212ea4a93d483bbbb52c751942ca19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:19 +0000
Subject: [PATCH 14/20] fix: check the memory allocation of IFF_setTextData()

---
 src/libiff/rawchunk.c | 6 +++++-
 src/libiff/rawchunk.h | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libiff/rawchunk.c b/src/libiff/rawchunk.c
index b3d281a..2048d70 100644
--- a/src/libiff/rawchunk.c
+++ b/src/libiff/rawchunk.c
@@ -56,13 +56,17 @@ void IFF_setRawChunkData(IFF_RawChunk *rawChunk, IFF_UByte *chunkData, IFF_Long
     rawChunk->chunkSize = chunkSize;
 }
 
-void IFF_setTextData(IFF_RawChunk *rawChunk, const char *text)
+IFF_Bool IFF_setTextData(IFF_RawChunk *rawChunk, const char *text)
 {
     size_t textLength = strlen(text);
     IFF_UByte *chunkData = (IFF_UByte*)malloc(textLength * sizeof(IFF_UByte));
 
+    if(chunkData == NULL)
+        return FALSE;
+
     memcpy(chunkData, text, textLength);
     IFF_setRawChunkData(rawChunk, chunkData, textLength);
+    return TRUE;
 }
 
 IFF_Bool IFF_readRawChunk(FILE *file, IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)
diff --git a/src/libiff/rawchunk.h b/src/libiff/rawchunk.h
index 9e9b8ab..d026c3c 100644
--- a/src/libiff/rawchunk.h
+++ b/src/libiff/rawchunk.h
@@ -84,8 +84,9 @@ void IFF_setRawChunkData(IFF_RawChunk *rawChunk, IFF_UByte *chunkData, IFF_Long
  *
  * @param rawChunk A raw chunk
  * @param text Text to store in the body
+ * @return TRUE if the data has been set, or FALSE if the memory for it can't be allocated
  */
-void IFF_setTextData(IFF_RawChunk *rawChunk, const char *text);
+IFF_Bool IFF_setTextData(IFF_RawChunk *rawChunk, const char *text);
 
 /**
  * Reads a raw chunk with the given chunk id and chunk size from a file.
-- 
2.43.0


From 86befa3134e0c17edad72d6cf7759ac9ee34a567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:53 +0000
Subject: [PATCH 15/20] fix: report why a form type of spaces only is rejected

---
 src/libiff/form.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libiff/form.c b/src/libiff/form.c
index 3b33e5a..db4f92b 100644
--- a/src/libiff/form.c
+++ b/src/libiff/form.c
@@ -98,9 +98,15 @@ IFF_Bool IFF_checkFormType(const IFF_ID formType)
     IFF_ID2 formType2;
 
     /* A form type must be a valid ID, but not the filler ID that consists of spaces only */
-    if(!IFF_checkId(formType) || formType == ID_EMPTY)
+    if(!IFF_checkId(formType))
         return FALSE;
 
+    if(formType == ID_EMPTY)
+    {
+        IFF_error("A form type ID may not consist of spaces only!\n");
+        return FALSE;
+    }
+
     IFF_idToString(formType, formType2);
 
     /* A form type is not allowed to have lowercase or puntuaction marks */
-- 
2.43.0


From 0209170faecec1a0ce79504b8d9413b0b0291018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:53 +0000
Subject: [PATCH 16/20] fix: report a failing flush of the standard output

---
 src/libiff/iff.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/libiff/iff.c b/src/libiff/iff.c
index 55b9544..c2cbab3 100644
--- a/src/libiff/iff.c
+++ b/src/libiff/iff.c
@@ -121,7 +121,19 @@ IFF_Bool IFF_writeFile(const char *filename, const IFF_Chunk *chunk, const IFF_C
 IFF_Bool IFF_write(const char *filename, const IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry)
 {
     if(filename == NULL)
-        return IFF_writeFd(stdout, chunk, chunkRegistry) && fflush(stdout) == 0;
+    {
+        if(!IFF_writeFd(stdout, chunk, chunkRegistry))
+            return FALSE;
+
+        /* Flushing delivers the buffered data, which may fail as well */
+        if(fflush(stdout) != 0)
+        {
+            IFF_error("ERROR: cannot write to the standard output!\n");
+            return FALSE;
+        }
+
+        return TRUE;
+    }
     else
         return IFF_writeFile(filename, chunk, chunkRegistry);
 }
-- 
2.43.0


From 63507a0b784dbc77e1d8dfaa8732b52e3e72f4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:33 +0000
Subject: [PATCH 17/20] fix: update the contents type of a CAT only after the
 chunk has been added

---
 src/libiff/cat.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libiff/cat.c b/src/libiff/cat.c
index f373cfc..0d6aa49 100644
--- a/src/libiff/cat.c
+++ b/src/libiff/cat.c
@@ -58,7 +58,7 @@ static void updateContentsType(IFF_CAT *cat, IFF_Chunk *chunk)
     {
         IFF_Group *group = (IFF_Group*)chunk;
 
-        if(cat->chunkLength == 0)
+        if(cat->chunkLength == 1)
             cat->contentsType = group->groupType;
         else if(cat->contentsType != IFF_ID_JJJJ && cat->contentsType != group->groupType)
             cat->contentsType = IFF_ID_JJJJ;
@@ -72,8 +72,12 @@ IFF_Bool IFF_addToCAT(IFF_CAT *cat, IFF_Chunk *chunk)
 
 IFF_Bool IFF_addToCATAndUpdateContentsType(IFF_CAT *cat, IFF_Chunk *chunk)
 {
+    if(!IFF_addToCAT(cat, chunk))
+        return FALSE;
+
+    /* Only an added chunk may influence the contents type */
     updateContentsType(cat, chunk);
-    return IFF_addToCAT(cat, chunk);
+    return TRUE;
 }
 
 IFF_Bool IFF_readCAT(FILE *file, IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)
-- 
2.43.0


From 8621ed8bc22eb528f6f6df9529bd8c22f4816028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:46 +0000
Subject: [PATCH 18/20] fix: report a failing output of iffpp

---
 src/iffpp/pp.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/iffpp/pp.c b/src/iffpp/pp.c
index 643d28a..b10ba6d 100644
--- a/src/iffpp/pp.c
+++ b/src/iffpp/pp.c
@@ -42,7 +42,14 @@ int IFF_prettyPrint(const char *filename, const int options)
             /* Print the file */
             IFF_print(chunk, 0, NULL);
 
-            status = 0;
+            /* Flushing delivers the buffered output, which may fail as well as anything printed before */
+            if(fflush(stdout) != 0 || ferror(stdout))
+            {
+                fprintf(stderr, "Cannot write to the standard output!\n");
+                status = 1;
+            }
+            else
+                status = 0;
         }
         else
             status = 1;
-- 
2.43.0


From 577fe8fa28398768715970cb891648c691be7019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:57 +0000
Subject: [PATCH 19/20] fix: reject chunks with a negative size

---
 src/libiff/chunk.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libiff/chunk.c b/src/libiff/chunk.c
index 18d6a48..e0f615b 100644
--- a/src/libiff/chunk.c
+++ b/src/libiff/chunk.c
@@ -74,6 +74,15 @@ IFF_Chunk *IFF_readChunk(FILE *file, const IFF_ID formType, const IFF_ChunkRegis
         || !IFF_readLong(file, &chunkSize, chunkId, "chunkSize"))
         return NULL;
 
+    /* The sub chunks and bytes of a chunk are counted up to its size, which therefore cannot be negative */
+    if(chunkSize < 0)
+    {
+        IFF_error("Illegal chunk size: %d of chunk: '", chunkSize);
+        IFF_errorId(chunkId);
+        IFF_error("'\n");
+        return NULL;
+    }
+
     return readChunkBody(file, chunkId, chunkSize, formType, chunkRegistry);
 }
 
-- 
2.43.0


From d1d7f5f6ad512888ca00fc5e2bcbb6db610830d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:57 +0000
Subject: [PATCH 20/20] fix: refuse chunks that make the size of a group too
 large

---
 src/libiff/group.c | 11 ++++++++++-
 src/libiff/group.h |  2 +-
 src/libiff/list.c  | 11 ++++++++++-
 src/libiff/list.h  |  2 +-
 4 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/libiff/group.c b/src/libiff/group.c
index 3915ef3..7fef8e0 100644
--- a/src/libiff/group.c
+++ b/src/libiff/group.c
@@ -74,10 +74,19 @@ IFF_Bool IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk)
 
 IFF_Bool IFF_addToGroup(IFF_Group *group, IFF_Chunk *chunk)
 {
+    IFF_Long chunkSize = IFF_incrementChunkSize(group->chunkSize, chunk);
+
+    /* The size of the group must remain a valid chunk size */
+    if(chunkSize < group->chunkSize)
+    {
+        IFF_error("The chunk does not fit in the group: the size of the group would become too large!\n");
+        return FALSE;
+    }
+
     if(!IFF_attachToGroup(group, chunk))
         return FALSE;
 
-    group->chunkSize = IFF_incrementChunkSize(group->chunkSize, chunk);
+    group->chunkSize = chunkSize;
     return TRUE;
 }
 
diff --git a/src/libiff/group.h b/src/libiff/group.h
index 2e1d276..51c407f 100644
--- a/src/libiff/group.h
+++ b/src/libiff/group.h
@@ -113,7 +113,7 @@ IFF_Bool IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk);
  *
  * @param group An instance of a group chunk
  * @param chunk An arbitrary group or data chunk
- * @return TRUE if the chunk has been successfully added, or FALSE if the memory for it can't be allocated
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory for it can't be allocated or the group would become too large
  */
 IFF_Bool IFF_addToGroup(IFF_Group *group, IFF_Chunk *chunk);
 
diff --git a/src/libiff/list.c b/src/libiff/list.c
index 2d2b215..f337eeb 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -74,10 +74,19 @@ static IFF_Bool addPropToList(IFF_List *list, IFF_Prop *prop)
 
 IFF_Bool IFF_addPropToList(IFF_List *list, IFF_Prop *prop)
 {
+    IFF_Long chunkSize = IFF_incrementChunkSize(list->chunkSize, (IFF_Chunk*)prop);
+
+    /* The size of the list must remain a valid chunk size */
+    if(chunkSize < list->chunkSize)
+    {
+        IFF_error("The PROP does not fit in the list: the size of the list would become too large!\n");
+        return FALSE;
+    }
+
     if(!addPropToList(list, prop))
         return FALSE;
 
-    list->chunkSize = IFF_incrementChunkSize(list->chunkSize, (IFF_Chunk*)prop);
+    list->chunkSize = chunkSize;
     return TRUE;
 }
 
diff --git a/src/libiff/list.h b/src/libiff/list.h
index 67c644b..5a4ecc1 100644
--- a/src/libiff/list.h
+++ b/src/libiff/list.h
@@ -116,7 +116,7 @@ IFF_Chunk *IFF_createUnparsedList(const IFF_ID chunkId, const IFF_Long chunkSize
  *
  * @param list An instance of a list struct
  * @param prop A PROP chunk
- * @return TRUE if the chunk has been successfully added, or FALSE if the memory for it can't be allocated
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory for it can't be allocated or the group would become too large
  */
 IFF_Bool IFF_addPropToList(IFF_List *list, IFF_Prop *prop);
 
-- 
2.43.0

