From a352893e3808d23ba41dd259238336eba995fd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:43 +0000
Subject: [PATCH 01/42] fix: reject messages whose data part is missing, short
 or over-long in the LVE

extract_data copied everything after the newline into a buffer of the
declared size (heap overflow), searched an unterminated buffer for the
newline and left the tail uninitialised when data was missing; a missing
data part crashed FEATURE and FILE. LIB with an empty path got no reply
at all and still advanced the session.
---
 src/common/mlle_utils.c | 10 ++++++++--
 src/lve/mlle_lve.c      | 19 ++++++++++++++++++-
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/common/mlle_utils.c b/src/common/mlle_utils.c
index 9b39e26..a0cc89d 100644
--- a/src/common/mlle_utils.c
+++ b/src/common/mlle_utils.c
@@ -52,7 +52,7 @@ size_t extract_data(struct mlle_command **command, char *buffer, size_t buffer_l
 
     // Get pointer to data part
     // Everything after the first new line character is the data part.
-    data_part = strstr(buffer, "\n");
+    data_part = memchr(buffer, '\n', buffer_len);
     if (data_part == NULL)
     {
         return 0;
@@ -60,8 +60,14 @@ size_t extract_data(struct mlle_command **command, char *buffer, size_t buffer_l
     data_part++;
     data_len = buffer_len - (data_part - buffer);
 
+    // Never take more data than the message declares.
+    if (data_len > (*command)->length)
+    {
+        data_len = (*command)->length;
+    }
+
     // Allocate memory for total length of data to read.
-    (*command)->data = malloc((*command)->length + 1);
+    (*command)->data = calloc((*command)->length + 1, 1);
     if ((*command)->data == NULL)
     {
         return 0;
diff --git a/src/lve/mlle_lve.c b/src/lve/mlle_lve.c
index 71b83c2..580668a 100644
--- a/src/lve/mlle_lve.c
+++ b/src/lve/mlle_lve.c
@@ -83,7 +83,24 @@ mlle_lve_handle_command(struct mlle_lve_ctx *lve_ctx,
     if (mlle_command_info[command->id].msg_form == MLLE_PROTOCOL_LENGTH_MSG_FORM)
     {
         // Extract data from message.
-        extract_data(&command, buffer, buffer_len);
+        size_t data_len = extract_data(&command, buffer, buffer_len);
+
+        if (command->data == NULL || data_len < command->length)
+        {
+            mlle_send_error(lve_ctx->ssl, MLLE_PROTOCOL_COMMAND_NOT_UNDERSTOOD_ERROR,
+                    "The data part of the message is missing or too short.");
+            free(command->data);
+            command->data = NULL;
+            return current_state;
+        }
+        if (command->id == MLLE_PROTOCOL_LIB_CMD && command->length == 0)
+        {
+            mlle_send_error(lve_ctx->ssl, MLLE_PROTOCOL_FILE_NOT_FOUND_ERROR,
+                    "Path to library is missing.");
+            free(command->data);
+            command->data = NULL;
+            return current_state;
+        }
     }
 
     switch (current_state) {
-- 
2.43.0


From 1621bd278cc2543d829d0d3443bc3c74b8e28425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:14 +0000
Subject: [PATCH 02/42] fix: decrypt files in directories without a package
 file

mlle_demask_key returned the 'store the mask' flag of the missing
package.moc for the file itself, so the last 32 bytes of the file were
cut off and taken for a key mask (and mlle_store_keymask ran off its
buffer).
---
 src/decryptors/default/src/mlle_cr_decrypt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index 2e24f34..628a37f 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -150,7 +150,7 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
     file_buffer = mlle_io_read_file(fullpath, &file_size, &error);
     if (error) {
         /* assume that no file exists; read mask from parent */
-        ret = mlle_demask_key(context, path, key);
+        ret = (mlle_demask_key(context, path, key) < 0) ? -1 : 0;
     }
     else {
         out_buffer = malloc(file_size);
-- 
2.43.0


From bb09e7a887a2dda044a88c00b12a02d722eebbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:14 +0000
Subject: [PATCH 03/42] fix: an empty package.mo also provides the key mask of
 its directory

Files below a zero-length package.mo could be encrypted but never
decrypted.
---
 src/decryptors/default/src/mlle_cr_decrypt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index 628a37f..51ac142 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -156,7 +156,7 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
         out_buffer = malloc(file_size);
         if (file_buffer && out_buffer) {
             int ret_code = mlle_cr_decrypt(context, path, file_buffer, file_size, out_buffer);
-            if (ret_code > 0) {
+            if (ret_code >= 0) {
                 /* key mask is now in the hash but it's also the tail in the outbuffer */
                 for (i = 0; i < MLLE_CR_KEY_LEN; ++i) {
                     key[i] = key[i] ^ out_buffer[ret_code + i];
-- 
2.43.0


From 498387ce39961870e82e285fe3e349b5cc7c4fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:39 +0000
Subject: [PATCH 04/42] fix: refuse to decrypt truncated files and files whose
 key mask is unavailable

A file shorter than IV and HMAC made mlle_cr_decrypt read outside its
input; a package file shorter than a key mask produced a negative length;
a failure to find the key mask was ignored (and taken for 'package file')
and the call without input, which encrypt_file uses to fetch the masks,
always reported success.
---
 src/decryptors/default/src/mlle_cr_decrypt.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index 51ac142..50df8d0 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -19,6 +19,7 @@
 #define _XOPEN_SOURCE 700
 
 #include <stddef.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include <openssl/evp.h>
@@ -280,6 +281,9 @@ int mlle_cr_decrypt(
     /* Split incoming data. */
     iv_in   = (unsigned char*) in;
     if (in) {
+        /* There must at least be room for the IV and the HMAC. */
+        if (in_len < (size_t) iv_len + mac_len || in_len > INT_MAX)
+            goto error;
         enc_in = iv_in + iv_len;
         mac_in = iv_in + in_len - mac_len;
         enc_len = (int)(in_len - iv_len - mac_len);
@@ -290,9 +294,14 @@ int mlle_cr_decrypt(
 #ifndef DISABLE_DEMASK_KEY
     if (context && rel_file_path) {
         restore_mask_flag = mlle_demask_key(context, rel_file_path, MLLE_CR_KEY);
+        if (restore_mask_flag < 0)
+            goto error;
     }
 #endif
-    if (!in) return 0;
+    if (!in) {
+        res = 0;
+        goto error;
+    }
 
     if (!EVP_DecryptInit_ex(c_ctx, cipher, NULL, MLLE_CR_KEY, iv_in))
         goto error;
@@ -323,6 +332,8 @@ int mlle_cr_decrypt(
 #ifndef DISABLE_DEMASK_KEY
     /* check if this is a package.moc file and save the key into cache */
     if (restore_mask_flag) {
+        if (out_len < MLLE_CR_KEY_LEN)
+            goto error;
         out_len -= MLLE_CR_KEY_LEN; /* take out key length from the data sent back*/
         if (mlle_store_keymask(context, rel_file_path, out + out_len) < 0)
             goto error;
-- 
2.43.0


From 9b764f9366d158f4c999da1494b86560e77b9470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:01 +0000
Subject: [PATCH 05/42] fix: handle long relative paths when looking up key
 masks

The directory path and '/package.moc' were combined in a fixed buffer that
a file name close to the path limit overran, and two such buffers per
recursion level exhausted the stack for paths with many elements.
---
 src/decryptors/default/src/mlle_cr_decrypt.c | 34 ++++++++++++++------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index 50df8d0..2dbea16 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -69,9 +69,10 @@ void mlle_debug_log_key(const unsigned char* key) { }
 
 
 int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigned char* key) {
-    char path[MLLE_LONG_FILE_NAME_MAX];
-    char fullpath[MLLE_LONG_FILE_NAME_MAX];
-    size_t rel_path_len;
+    /* on the heap: this function recurses once per path element */
+    char *path = NULL;
+    char *fullpath = NULL;
+    size_t fullpath_size;
     int last_slash_index = 0;
     int i = 0;
     char ch;
@@ -88,7 +89,11 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
         mlle_debug_log_key(key);
     }
 
-    while (rel_file_path[i] && (i < MLLE_LONG_FILE_NAME_MAX)) {
+    path = malloc(strlen(rel_file_path) + sizeof("/package.moc"));
+    if (path == NULL) {
+        return -1;
+    }
+    while (rel_file_path[i]) {
         ch = rel_file_path[i];
         path[i] = ch;
         if ((ch == '/') || (ch == '\\')) {
@@ -96,7 +101,6 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
         }
         i++;
     }
-    rel_path_len = i;
     path[last_slash_index] = 0;
     
     if (last_slash_index) {
@@ -110,17 +114,18 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
     if (is_package_mo_file) {
         if (last_slash_index == 0) {
             /* top level does not have any mask */
-            return 1; /* request storing the key after decryption */
+            ret = 1; /* request storing the key after decryption */
         }
         else {
             /* Get a mask from parent dir */
             if (mlle_demask_key(context, path, key) < 0) {
-                return -1;
+                ret = -1;
             }
             else {
-                return 1;
+                ret = 1;
             }
         }
+        goto cleanup;
     }
 
     /* check if we have a key in cache */
@@ -138,7 +143,8 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
            mlle_debug_log_key(key);
        }
 
-       return 0;
+       ret = 0;
+       goto cleanup;
     }  
 
     /* if there is package.moc in this directory read key from it; otherwize return parent */
@@ -147,7 +153,13 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
     else
         memcpy(path + last_slash_index, "package.moc", 12); /* strlen("package.moc") + 1 = 12 */
 
-    snprintf(fullpath, sizeof(fullpath), "%s/%s", context->basedir, path);
+    fullpath_size = strlen(context->basedir) + strlen(path) + 2;
+    fullpath = malloc(fullpath_size);
+    if (fullpath == NULL) {
+        ret = -1;
+        goto cleanup;
+    }
+    snprintf(fullpath, fullpath_size, "%s/%s", context->basedir, path);
     file_buffer = mlle_io_read_file(fullpath, &file_size, &error);
     if (error) {
         /* assume that no file exists; read mask from parent */
@@ -180,6 +192,8 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
     }
 
   cleanup:
+    free(path);
+    free(fullpath);
     free(file_buffer);
     free(out_buffer);
     mlle_error_free(&error);
-- 
2.43.0


From 48afb93dab1ed9015dc99b4126e543bafc493522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:03 +0000
Subject: [PATCH 06/42] fix: do not serve files outside the library

A FILE request with a '..' element was joined to the library path as it
is and read any file the LVE can read.
---
 src/lve/mlle_lve_file.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/lve/mlle_lve_file.c b/src/lve/mlle_lve_file.c
index 76067ee..e77adf8 100644
--- a/src/lve/mlle_lve_file.c
+++ b/src/lve/mlle_lve_file.c
@@ -24,6 +24,27 @@
 #include "mlle_lve_file.h"
 #include "mlle_cr_decrypt.h"
 
+/*
+ * Does the path contain a ".." element, that is, could it lead out of the library?
+ */
+static int
+leaves_library(const char *path)
+{
+    while (*path != '\0') {
+        size_t len = strcspn(path, "/\\");
+
+        if (len == 2 && path[0] == '.' && path[1] == '.') {
+            return 1;
+        }
+        path += len;
+        if (*path != '\0') {
+            path++;
+        }
+    }
+
+    return 0;
+}
+
 int
 mlle_lve_file(struct mlle_lve_ctx *lve_ctx,
               const struct mlle_command *command)
@@ -55,6 +76,11 @@ mlle_lve_file(struct mlle_lve_ctx *lve_ctx,
         goto CLEANUP;
     }
     rel_file_path = command->data;
+    if (leaves_library(rel_file_path)) {
+        error_code = MLLE_PROTOCOL_FILE_NOT_FOUND_ERROR;
+        error_msg = "File path is outside the library.";
+        goto CLEANUP;
+    }
     snprintf(file_path, path_size, "%s/%s", lve_ctx->libpath, rel_file_path);
 
     file_buffer = mlle_io_read_file(file_path, &file_size, &error);
-- 
2.43.0


From 66cdaafbfb4fbb7bdc9b905e8afaa489011baae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:05 +0000
Subject: [PATCH 07/42] fix: treat a tool without a certificate as not trusted

The client certificate is optional in the handshake; without one the key
to compare was NULL and the LVE crashed.
---
 src/lve/mlle_lve_pubkey.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lve/mlle_lve_pubkey.c b/src/lve/mlle_lve_pubkey.c
index 31300b7..421d729 100644
--- a/src/lve/mlle_lve_pubkey.c
+++ b/src/lve/mlle_lve_pubkey.c
@@ -74,7 +74,9 @@ int validate()
     // global_tool_pub_key is the public key received in
     // the LVE:s callback method during TLS handshake.
     for (i = 0; i < PUBLIC_KEY_TOOL_NUM; i++){
-        if (strcmp(global_tool_pub_key, PUBLIC_KEY_TOOL[i]) == 0)
+        // It is NULL when the tool didn't present a certificate.
+        if (global_tool_pub_key != NULL
+            && strcmp(global_tool_pub_key, PUBLIC_KEY_TOOL[i]) == 0)
         {
             /* Found matching key. */
             break;            
-- 
2.43.0


From 1c23f41454b8702b08826849d7c9c19b061ac4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:32 +0000
Subject: [PATCH 08/42] fix: keep the parent's key mask entry when a
 subdirectory is encrypted first

The recursive call that registers the parent directory created the hash
table, but the caller then overwrote it with a table of its own. The
parent's package.mo could afterwards be encrypted without complaint, which
made the files already encrypted below it impossible to decrypt.
---
 src/decryptors/default/src/mlle_cr_encrypt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decryptors/default/src/mlle_cr_encrypt.c b/src/decryptors/default/src/mlle_cr_encrypt.c
index a91c6c3..1fb0cca 100644
--- a/src/decryptors/default/src/mlle_cr_encrypt.c
+++ b/src/decryptors/default/src/mlle_cr_encrypt.c
@@ -128,6 +128,8 @@ int mlle_mask_key(mlle_cr_context* context, const char* rel_file_path, unsigned
                 fprintf(stderr, "Unexpected key mask output when processing %s\n", path);
                 return -1;
             }
+            /* the call above may have created the table */
+            key_mask_map = context->keymask_map;
         }
 
         /* Create and store key mask for this directory */
@@ -169,6 +171,8 @@ int mlle_mask_key(mlle_cr_context* context, const char* rel_file_path, unsigned
                 free(map_item);
                 return -1;
             }
+            /* the call above may have created the table */
+            key_mask_map = context->keymask_map;
         }
         if (mlle_log) {
             fprintf(mlle_log, "mlle_mask_key: storing mask based on parent for %s \n", map_item->relpath);
-- 
2.43.0


From 0a1774666de083cb131411af7cc27f1d1b53184c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:30 +0000
Subject: [PATCH 09/42] fix: report a command line option without value instead
 of crashing

--checkout-feature or --libpath as the last argument dereferenced the
NULL that ends argv.
---
 src/lve/lve.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lve/lve.c b/src/lve/lve.c
index 6d5e7a1..8daa373 100644
--- a/src/lve/lve.c
+++ b/src/lve/lve.c
@@ -233,6 +233,11 @@ int main(int argc, char **argv)
                 goto error;
             }
             i++;
+            if (i >= argc) {
+                fprintf(stderr,
+                        "Error: Option --checkout-feature requires a value.\n");
+                goto error;
+            }
             checkout_feature_sz =
                 (strlen(argv[i]) + 1) * sizeof(*checkout_feature);
             checkout_feature = malloc(checkout_feature_sz);
@@ -250,6 +255,10 @@ int main(int argc, char **argv)
                 goto error;
             }
             i++;
+            if (i >= argc) {
+                fprintf(stderr, "Error: Option --libpath requires a value.\n");
+                goto error;
+            }
             libpath_sz = (strlen(argv[i]) + 1) * sizeof(*libpath);
             libpath = malloc(libpath_sz);
             if (libpath == NULL) {
-- 
2.43.0


From 430a7c2686be1ff945ab1279459311f8648fdcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:32 +0000
Subject: [PATCH 10/42] fix: do not crash when the licence manager fails in
 --checkout-feature mode

The failure was sent over the TLS connection, which does not exist when
the LVE is run from the command line.
---
 src/lve/mlle_lve_feature.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lve/mlle_lve_feature.c b/src/lve/mlle_lve_feature.c
index 68a7c9d..8e6a04c 100644
--- a/src/lve/mlle_lve_feature.c
+++ b/src/lve/mlle_lve_feature.c
@@ -59,7 +59,13 @@ mlle_lve_feature(struct mlle_lve_ctx *lve_ctx,
     struct mlle_error *error = NULL;
     int success = 0;
 
-    if (!mlle_lve_setup_licensing_check_error(lve_ctx)) {
+    if (is_in_checkout_feature_without_tool_mode) {
+        /* There is no tool to send an error to. */
+        if (!mlle_lve_setup_licensing(lve_ctx, &error)) {
+            mlle_error_free(&error);
+            return 0;
+        }
+    } else if (!mlle_lve_setup_licensing_check_error(lve_ctx)) {
         return 0;
     }
 
-- 
2.43.0


From fab0d10b823a7fc92b7831d5cfb967e5f8fee1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:28 +0000
Subject: [PATCH 11/42] fix: handle split, truncated and over-long replies in
 the tool

Reading a reply crashed on a connection lost in the middle of it, overran
the data buffer when more data than declared arrived, and failed when the
command line was split over records.
---
 src/common/mlle_utils.c | 97 +++++++++++++++++++++++++++++++----------
 1 file changed, 73 insertions(+), 24 deletions(-)

diff --git a/src/common/mlle_utils.c b/src/common/mlle_utils.c
index a0cc89d..854fd34 100644
--- a/src/common/mlle_utils.c
+++ b/src/common/mlle_utils.c
@@ -92,41 +92,60 @@ int mlle_read_command(SSL *ssl,
                   struct mlle_error **error)
 {
     int bytesRead = 0;
+    size_t headerBytesRead = 0;
     size_t totalBytesRead = 0;
     char *token_buffer = NULL;
+    char *tmp_buffer = NULL;
+    char *header_end = NULL;
     enum mlle_grammar_error_t grammar_error = LE_UNKNOWN_ERROR;
     char error_msg[ERROR_SIZE] = { '\0' };
     int errorCode = 0;
+    int result = 0;
     char *messageBuffer = NULL;
 
-    // The SSL buffer can hold at most 16 kb of data.
-    messageBuffer = calloc(SSL_RECORD_SIZE, 1);
-    if (messageBuffer == NULL) 
+    // Read data from SSL until the command line is complete.
+    // The reply may be split into any number of SSL records.
+    while (header_end == NULL)
     {
-        mlle_error_set_literal(error, 1, 1, "Failed to allocate memory for the message buffer");
-        return 0;
-    }
+        char *recordBuffer = NULL;
 
-    // Read data from SSL.
-    bytesRead = ssl_read_message(ssl, &messageBuffer, &errorCode);
+        bytesRead = ssl_read_message(ssl, &recordBuffer, &errorCode);
 
-    // Check for error.
-    if (bytesRead < 0 || bytesRead > SSL_RECORD_SIZE) 
-    {
-        ssl_get_error_string(errorCode, error_msg, ERROR_SIZE);
-        mlle_error_set_literal(error, 1, 1, error_msg);
-        return 0;
+        // Check for error.
+        if (bytesRead <= 0)
+        {
+            ssl_get_error_string(errorCode, error_msg, ERROR_SIZE);
+            mlle_error_set_literal(error, 1, 1, error_msg);
+            goto cleanup;
+        }
+        tmp_buffer = realloc(messageBuffer, headerBytesRead + bytesRead);
+        if (tmp_buffer == NULL)
+        {
+            mlle_error_set_literal(error, 1, 1, "Failed to allocate memory for the message buffer");
+            free(recordBuffer);
+            goto cleanup;
+        }
+        messageBuffer = tmp_buffer;
+        memcpy(messageBuffer + headerBytesRead, recordBuffer, bytesRead);
+        headerBytesRead += bytesRead;
+        free(recordBuffer);
+
+        header_end = memchr(messageBuffer, '\n', headerBytesRead);
+        if (header_end == NULL && headerBytesRead > MLLE_PROTOCOL_MAX_COMMAND_LINE_SIZE)
+        {
+            mlle_error_set_literal(error, 1, 1, "Input error. Message row too long.");
+            goto cleanup;
+        }
     }
 
     // Create a temporary array.
-    token_buffer = calloc(bytesRead + 1, 1);
+    token_buffer = calloc(header_end - messageBuffer + 1, 1);
     if (token_buffer == NULL) 
     {
         mlle_error_set_literal(error, 1, 1, "Failed to allocate memory for the token buffer");
-        return 0;
+        goto cleanup;
     }
-    memcpy(token_buffer, messageBuffer, bytesRead);
-    token_buffer[bytesRead - 1] = 0;
+    memcpy(token_buffer, messageBuffer, header_end - messageBuffer);
 
     // Parse command.
     grammar_error = mlle_parse_command(token_buffer, command, error_msg, ERROR_SIZE);
@@ -144,20 +163,28 @@ int mlle_read_command(SSL *ssl,
         {
             mlle_error_set_literal(error, 1, 1, error_msg);
         }
-        return 0;
+        goto cleanup;
     }
     assert(command->id != MLLE_PROTOCOL_UNDEFINED_CMD);
 
+    // The message must not be longer than it declares.
+    if (headerBytesRead - (header_end + 1 - messageBuffer) > command->length)
+    {
+        mlle_error_set_literal(error, 1, 1, "Message is longer than declared.");
+        goto cleanup;
+    }
+
     // Does messages contain a data part.
     if (mlle_command_info[command->id].msg_form == MLLE_PROTOCOL_LENGTH_MSG_FORM
         || mlle_command_info[command->id].msg_form == MLLE_PROTOCOL_NUMBER_AND_LENGTH_MSG_FORM)
     {
         // Extract data and add to command buffer.
-        totalBytesRead = extract_data(&command, messageBuffer, bytesRead);
+        totalBytesRead = extract_data(&command, messageBuffer, headerBytesRead);
 
         if (command->data == NULL)
         {
-            mlle_error_set_literal(error, 1, 1, "End Of File.");
+            mlle_error_set_literal(error, 1, 1, "Failed to allocate memory for the message data");
+            goto cleanup;
         }
     }
 
@@ -166,13 +193,35 @@ int mlle_read_command(SSL *ssl,
     // -----------------------------
     while (totalBytesRead < command->length)
     {
+        char *recordBuffer = NULL;
+
         // Read more data.
-        bytesRead = ssl_read_message(ssl, &messageBuffer, &errorCode);
+        bytesRead = ssl_read_message(ssl, &recordBuffer, &errorCode);
+        if (bytesRead <= 0 || (size_t) bytesRead > command->length - totalBytesRead)
+        {
+            if (bytesRead > 0)
+            {
+                mlle_error_set_literal(error, 1, 1, "Message is longer than declared.");
+                free(recordBuffer);
+            }
+            else
+            {
+                ssl_get_error_string(errorCode, error_msg, ERROR_SIZE);
+                mlle_error_set_literal(error, 1, 1, error_msg);
+            }
+            free(command->data);
+            command->data = NULL;
+            goto cleanup;
+        }
 
         // Add data to command buffer.
-        memcpy(command->data + totalBytesRead, messageBuffer, bytesRead);
+        memcpy(command->data + totalBytesRead, recordBuffer, bytesRead);
         totalBytesRead += bytesRead;
+        free(recordBuffer);
     }
+    result = 1;
 
-    return 1;
+cleanup:
+    free(messageBuffer);
+    return result;
 }
-- 
2.43.0


From dea8a67752c97704b785a705e8a6e3d97a5aff7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:29 +0000
Subject: [PATCH 12/42] fix: report the death of the LVE to the tool instead of
 hanging or dying

The tool kept the write end of the LVE's output pipe open, so it never saw
the end of a dead LVE's output, and writing to a dead LVE raised SIGPIPE.
---
 src/tool/mlle_spawn_posix.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/tool/mlle_spawn_posix.c b/src/tool/mlle_spawn_posix.c
index 3046735..d1cd18f 100644
--- a/src/tool/mlle_spawn_posix.c
+++ b/src/tool/mlle_spawn_posix.c
@@ -21,6 +21,7 @@
 #include <sys/types.h>
 #include <unistd.h>
 #include <errno.h>
+#include <signal.h>
 #include <string.h>
 #include "mlle_types.h"
 #include "mlle_error.h"
@@ -45,6 +46,8 @@ mlle_spawn(const char *exec_name,
     int child_to_parent_pipe_fd[2] = { -1, -1 };
     int status = 0;
     struct mlle_connections *connections = NULL;
+    struct sigaction pipe_action;
+    int ignore_pipe = 0;
 
     status = access(exec_name, F_OK);
     if (status == -1) {
@@ -66,16 +69,33 @@ mlle_spawn(const char *exec_name,
     status = pipe(child_to_parent_pipe_fd);
     if (status == -1) {
         mlle_error_set_literal(error, 1, 1, "pipe() failed.");
+        close(parent_to_child_pipe_fd[PIPE_READ_INDEX]);
+        close(parent_to_child_pipe_fd[PIPE_WRITE_INDEX]);
         return NULL;
     }
 
+    // Writing to an LVE that has died must be reported as an error instead
+    // of terminating the tool, unless the tool has its own signal handling.
+    if (sigaction(SIGPIPE, NULL, &pipe_action) == 0 && !(pipe_action.sa_flags & SA_SIGINFO)
+        && pipe_action.sa_handler == SIG_DFL) {
+        ignore_pipe = 1;
+        signal(SIGPIPE, SIG_IGN);
+    }
+
     child_pid = fork();
     switch (child_pid) {
     case -1:
         mlle_error_set_literal(error, 1, 1, "fork() failed.");
+        close(parent_to_child_pipe_fd[PIPE_READ_INDEX]);
+        close(parent_to_child_pipe_fd[PIPE_WRITE_INDEX]);
+        close(child_to_parent_pipe_fd[PIPE_READ_INDEX]);
+        close(child_to_parent_pipe_fd[PIPE_WRITE_INDEX]);
         return NULL;
 
     case 0:
+        if (ignore_pipe) {
+            signal(SIGPIPE, SIG_DFL);
+        }
         close(parent_to_child_pipe_fd[PIPE_WRITE_INDEX]);
         close(STDIN_FILENO);
         if (dup2(parent_to_child_pipe_fd[PIPE_READ_INDEX], STDIN_FILENO) == -1) {
@@ -99,11 +119,15 @@ mlle_spawn(const char *exec_name,
 
     default:
         close(parent_to_child_pipe_fd[PIPE_READ_INDEX]);
+        // Otherwise the end of the LVE could not be detected.
+        close(child_to_parent_pipe_fd[PIPE_WRITE_INDEX]);
         connections = calloc(1, sizeof(*connections));
         if (connections != NULL) {
             connections->fd_to_child = parent_to_child_pipe_fd[PIPE_WRITE_INDEX];
             connections->fd_from_child = child_to_parent_pipe_fd[PIPE_READ_INDEX];
         } else {
+            close(parent_to_child_pipe_fd[PIPE_WRITE_INDEX]);
+            close(child_to_parent_pipe_fd[PIPE_READ_INDEX]);
             mlle_error_set_literal(error, 1, 1, "Out of memory.");
         }
     }
-- 
2.43.0


From 27b44e2de05d870e3c75c3958f1e864c692fc8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:31 +0000
Subject: [PATCH 13/42] fix: set the SSL error text also when OpenSSL gives no
 reason

---
 src/common/mlle_ssl.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/common/mlle_ssl.c b/src/common/mlle_ssl.c
index a7de6d3..558efdf 100644
--- a/src/common/mlle_ssl.c
+++ b/src/common/mlle_ssl.c
@@ -441,8 +441,13 @@ void ssl_get_error_string(int error_code, char *error, size_t error_len)
         case SSL_ERROR_SSL:
             err_str = "SSL_ERROR_SSL";
             break;
+        case SSL_ERROR_ZERO_RETURN:
+            err_str = "SSL_ERROR_ZERO_RETURN";
+            break;
     }
 
+    // There may be no further reason in the error queue.
+    snprintf(error, error_len, "%s", err_str);
     while ((error_value = ERR_get_error()) > 0)
     {
         snprintf(error, error_len, "%s. reason: %s", err_str, (char*) ERR_reason_error_string(error_value));
-- 
2.43.0


From d2da0de70211fa4f1521e07e5cf099dda812e02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:33 +0000
Subject: [PATCH 14/42] fix: set an error when the protocol version cannot be
 sent

---
 src/tool/mlle_licensing.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tool/mlle_licensing.c b/src/tool/mlle_licensing.c
index b2648b3..b6b3cf7 100644
--- a/src/tool/mlle_licensing.c
+++ b/src/tool/mlle_licensing.c
@@ -214,6 +214,8 @@ int mlle_tool_version(const struct mlle_connections *connections,
 
     if (mlle_send_number_form(connections->ssl, MLLE_PROTOCOL_VERSION_CMD, 
         max_protocol_version) < 0) {
+        mlle_error_set(error, MLLE_ERROR_DOMAIN_TOOL, 1,
+                "Failed to send the protocol version to the LVE.");
         return 0;
     }
     if (!mlle_expect_command(connections->ssl, MLLE_PROTOCOL_VERSION_CMD, &command, error)) {
-- 
2.43.0


From a11a8cd63f7764562ed9c2e6ff103c8515370d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:21 +0000
Subject: [PATCH 15/42] fix: do not encrypt under the parent's key when
 package.moc cannot be read

---
 src/decryptors/default/src/mlle_cr_decrypt.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index 2dbea16..44a9ee4 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -22,6 +22,7 @@
 #include <limits.h>
 #include <stdlib.h>
 #include <string.h>
+#include <sys/stat.h>
 #include <openssl/evp.h>
 #include <openssl/hmac.h>
 #include "mlle_cr_crypt.h"
@@ -162,7 +163,13 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
     snprintf(fullpath, fullpath_size, "%s/%s", context->basedir, path);
     file_buffer = mlle_io_read_file(fullpath, &file_size, &error);
     if (error) {
-        /* assume that no file exists; read mask from parent */
+        struct stat fileinfo;
+        if (stat(fullpath, &fileinfo) == 0) {
+            /* the file exists, but its key mask cannot be read */
+            ret = -1;
+            goto cleanup;
+        }
+        /* no file exists; read mask from parent */
         ret = (mlle_demask_key(context, path, key) < 0) ? -1 : 0;
     }
     else {
-- 
2.43.0


From 65254cac1b7673b9a2b028ca5707cec9f564f7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:21 +0000
Subject: [PATCH 16/42] fix: report write errors and unusable names in
 decrypt_file

---
 src/encrypt_decrypt/decrypt_file.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/encrypt_decrypt/decrypt_file.c b/src/encrypt_decrypt/decrypt_file.c
index 0d09cf4..eb6ea24 100644
--- a/src/encrypt_decrypt/decrypt_file.c
+++ b/src/encrypt_decrypt/decrypt_file.c
@@ -58,6 +58,7 @@ int main(int argc, char** argv)
     c = mlle_cr_create(argv[1]);
     if (NULL == c) {
         fprintf(stderr, "Could not create decryption context object\n");
+        return 1;
     }
 
     /* OpenSSL initialization stuff. */
@@ -66,6 +67,10 @@ int main(int argc, char** argv)
     OPENSSL_config(NULL);
 
     /* Open input and output files. */
+    if (strlen(argv[1]) + 1 + strlen(argv[2]) >= sizeof(path)) {
+        fprintf(stderr, "The name of the encrypted file is too long\n");
+        return 1;
+    }
     snprintf(path, sizeof(path), "%s/%s", argv[1], argv[2]);
     in = fopen(path, "rb");
     if (in == NULL)
@@ -91,8 +96,10 @@ int main(int argc, char** argv)
     /* Close files. */
     if (in != NULL)
         fclose(in);
-    if (out != NULL)
-        fclose(out);
+    if (out != NULL && fclose(out) != 0) {
+        fprintf(stderr, "Could not write file %s. Error message was: %s\n", argv[3], strerror(errno));
+        res = 1;
+    }
     if (out != NULL && res != 0)
         remove(argv[3]);
 
-- 
2.43.0


From f525a5972facbdcfad094457fbfdcd568ffbc036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:21 +0000
Subject: [PATCH 17/42] fix: keep the cleartext file, report write errors and
 unusable names in encrypt_file

---
 src/encrypt_decrypt/encrypt_file.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/encrypt_decrypt/encrypt_file.c b/src/encrypt_decrypt/encrypt_file.c
index a55e112..a47e4ec 100644
--- a/src/encrypt_decrypt/encrypt_file.c
+++ b/src/encrypt_decrypt/encrypt_file.c
@@ -69,10 +69,19 @@ int main(int argc, char** argv)
         fprintf(stderr, "Could not open file %s for reading. Error message was: %s\n", argv[1], strerror(errno));
         exit(1);
     }
+    if (argv[2][0] == '\0' || strlen(argv[2]) >= sizeof(encrypted)
+        || (argc == 4 && strlen(argv[3]) + 1 + strlen(argv[2]) >= sizeof(pathdest))) {
+        fprintf(stderr, "The name of the encrypted file is empty or too long\n");
+        exit(2);
+    }
     strcpy(encrypted, argv[2]);
     if (argc == 4) {
         destdir = argv[3];
         c = mlle_cr_create(destdir);
+        if (c == NULL) {
+            fprintf(stderr, "Could not create encryption context object\n");
+            exit(2);
+        }
         snprintf(pathdest, 4096, "%s/%s", destdir, encrypted);
         /* find out what keymask to use by decrypting
         all package.moc recursively if present.
@@ -85,18 +94,22 @@ int main(int argc, char** argv)
     }    
     else {
         char* fname = encrypted + strlen(encrypted);
+        snprintf(pathdest, 4096, "%s", encrypted);
         fname--;
         if (*fname == 'c') {
             *fname = '\0';
         }
         c = mlle_cr_create("");
-        snprintf(pathdest, 4096, "%s", encrypted);
+        if (c == NULL) {
+            fprintf(stderr, "Could not create encryption context object\n");
+            exit(2);
+        }
         while (fname != encrypted) {
             char ch = *(fname - 1);
             if (ch == '/' || ch == '\\') break;
             fname--;
         }
-        strcpy(encrypted, fname);
+        memmove(encrypted, fname, strlen(fname) + 1);
     }
     
     out = fopen(pathdest, "wb");
@@ -116,8 +129,10 @@ int main(int argc, char** argv)
     /* Close files. */
     if (in != NULL)
         fclose(in);
-    if (out != NULL)
-        fclose(out);
+    if (out != NULL && fclose(out) != 0) {
+        fprintf(stderr, "Could not write file %s. Error message was: %s\n", pathdest, strerror(errno));
+        res = 1;
+    }
     if (out != NULL && res != 0)
         remove(pathdest);
 
-- 
2.43.0


From 230d661706245f3a32db6e29b5b412f3e21fe49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:29 +0000
Subject: [PATCH 18/42] fix: fail when no random numbers are available for
 encryption

---
 src/decryptors/default/src/mlle_cr_encrypt.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/decryptors/default/src/mlle_cr_encrypt.c b/src/decryptors/default/src/mlle_cr_encrypt.c
index 1fb0cca..7af53c9 100644
--- a/src/decryptors/default/src/mlle_cr_encrypt.c
+++ b/src/decryptors/default/src/mlle_cr_encrypt.c
@@ -133,7 +133,10 @@ int mlle_mask_key(mlle_cr_context* context, const char* rel_file_path, unsigned
         }
 
         /* Create and store key mask for this directory */
-        RAND_bytes(store_mask, MLLE_CR_KEY_LEN);
+        if (RAND_bytes(store_mask, MLLE_CR_KEY_LEN) != 1) {
+            fprintf(stderr, "Could not generate a key mask when processing %s\n", path);
+            return -1;
+        }
         map_item = (struct mlle_key_mask_map*)calloc(1, sizeof(struct mlle_key_mask_map) + rel_path_len + 1);
         if (map_item == NULL) {
             return -1;
@@ -239,7 +242,8 @@ int mlle_cr_encrypt(mlle_cr_context* context,
 
     /* Create IV and write it to file. */
     iv = (unsigned char*) malloc(iv_len);
-    RAND_bytes(iv, iv_len);
+    if (iv == NULL || RAND_bytes(iv, iv_len) != 1)
+        goto error;
     if (fwrite(iv, iv_len, 1, out) < 1)
         goto error;
 
-- 
2.43.0


From 098f9d509e674075e9fbb4298cd6934226e39474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:28 +0000
Subject: [PATCH 19/42] fix: report files the packaging tool could not copy

---
 src/packagetool/utils.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index e26cbdc..364dddc 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -2008,10 +2008,15 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
                     if (mkdir(searchPathTo, 0777) == -1) {
                         printf("Error: Failed to create folder %s.\n",
                                searchPathTo);
+                        result = 0;
+                        break;
                     }
 
                     // Use recursive to check the folder we found.
-                    copyDirectoryLinux(searchPath, searchPathTo);
+                    if (!copyDirectoryLinux(searchPath, searchPathTo)) {
+                        result = 0;
+                        break;
+                    }
                 }
                 // Or a file?
                 else if (dir->d_type == DT_REG) {
@@ -2019,8 +2024,10 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
 
                     // file in new location.
                     snprintf(folderName, MAX_PATH_LENGTH, "%s/%s", toPath, dir->d_name);
-                    copyFile(searchPath, folderName);
-
+                    if (!copyFile(searchPath, folderName)) {
+                        result = 0;
+                        break;
+                    }
                 }
             }
         }
@@ -2076,6 +2083,7 @@ int copyFile(char *fromPath, char *toPath)
         printf("Error: When copying file: Failed to read from file "
                "\"%s\".\n",
                fromPath);
+        goto error;
     }
 
     fdWrite = fopen(toPath, "wb");
@@ -2085,11 +2093,16 @@ int copyFile(char *fromPath, char *toPath)
             toPath, strerror(errno));
         goto error;
     }
-    fwrite(data, sizeof(char), buffSize, fdWrite);
+    bytes = fwrite(data, sizeof(char), buffSize, fdWrite);
+    if (fclose(fdWrite) != 0) {
+        bytes = -1;
+    }
+    fdWrite = NULL;
     if (bytes != buffSize) {
         printf("Error: When copying file: Failed to write to file "
                "\"%s\".\n",
                toPath);
+        goto error;
     }
 
 #ifndef WIN32
-- 
2.43.0


From 27943f14d314b70ec09b3c186ca5dec271e86d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:28 +0000
Subject: [PATCH 20/42] fix: report files the packaging tool could not open or
 write when encrypting

---
 src/packagetool/utils.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 364dddc..3828bbe 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -1273,7 +1273,7 @@ int isEncryptedFile(char *filename)
 int encryptFile(mlle_cr_context *context, const char *basedir,
                 const char *rel_file_path)
 {
-    FILE *in, *out;
+    FILE *in = NULL, *out = NULL;
     int result = 1;
     char file[LONG_FILE_NAME_MAX];
     char newFile[LONG_FILE_NAME_MAX];
@@ -1300,8 +1300,13 @@ int encryptFile(mlle_cr_context *context, const char *basedir,
         result = 0;
     }
 
-    fclose(in);
-    fclose(out);
+    if (in != NULL) {
+        fclose(in);
+    }
+    if (out != NULL && fclose(out) != 0) {
+        printf("Error: Failed to write to file %s.\n", newFile);
+        result = 0;
+    }
 
     return result;
 }
-- 
2.43.0


From 3403dcee9553efa51aab4fdacfc88df4fdc4ffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:28 +0000
Subject: [PATCH 21/42] fix: do not crash when the temporary folder cannot be
 created

---
 src/packagetool/utils.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 3828bbe..cec02d2 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -167,7 +167,10 @@ static char *getTempDirLinux()
     char TEMP_DIR_TEMPLATE[] = "/tmp/TemporaryFolderXXXXXX";
 
     if (tempStagingFolder == NULL) {
-        tempStagingFolder = strdup(mkdtemp(TEMP_DIR_TEMPLATE));
+        if (mkdtemp(TEMP_DIR_TEMPLATE) == NULL) {
+            return NULL;
+        }
+        tempStagingFolder = strdup(TEMP_DIR_TEMPLATE);
         DEBUG_PRINT("%s, tempStagingFolder = %s\n", __func__,
                     tempStagingFolder);
     }
-- 
2.43.0


From 4e533468eb88f8bb3baa2f0d25705cece50ae189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:28 +0000
Subject: [PATCH 22/42] fix: do not drop package files that are unreadable or
 spelled in other letter case

---
 src/packagetool/utils.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index cec02d2..6482c08 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -1021,7 +1021,7 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
     char searchPath[MAX_PATH_LENGTH + 1];
     size_t path_len = 0;
     mlle_cr_context *context = context_in;
-    FILE *in;
+    int packageEncrypted = 0;
 
     // Find all.
     if (NULL == context) {
@@ -1036,9 +1036,8 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
     }
     // Find all.
     snprintf(searchPath, MAX_PATH_LENGTH + 1, "%s/package.mo", fullPath);
-    in = fopen(searchPath, "rb");
-    if (in) {
-        fclose(in);
+    if (fileExists(searchPath)) {
+        packageEncrypted = 1;
         if (relPath) {
             snprintf(searchPath, MAX_PATH_LENGTH + 1,
                      "%s/package.mo"
@@ -1055,7 +1054,14 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
             // The first two directories are always "." and "..".
             if (strcmp(dir->d_name, ".") != 0 &&
                 strcmp(dir->d_name, "..") != 0 &&
-                strcasecmp(dir->d_name, "package.mo") != 0) {
+                !(packageEncrypted && strcmp(dir->d_name, "package.mo") == 0)) {
+                if (strcasecmp(dir->d_name, "package.mo") == 0) {
+                    printf("Error: Failed to encrypt %s/%s: a package file must "
+                           "be named package.mo.\n",
+                           fullPath, dir->d_name);
+                    result = 0;
+                    break;
+                }
                 if (relPath) {
                     snprintf(searchPath, MAX_PATH_LENGTH + 1, "%s/%s", relPath,
                              dir->d_name);
-- 
2.43.0


From 865ab945d3032792a307d45403b11d009d7f8278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:05 +0000
Subject: [PATCH 23/42] fix: find icons in subdirectories and write their path
 relative to the library

---
 src/packagetool/utils.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 6482c08..9858940 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -1137,7 +1137,10 @@ int findFileLinux(const char *filename, const char *path)
                 // Have we found a folder?
                 if (dir->d_type == DT_DIR) {
                     // Use recursive to check the folder we found.
-                    findFileLinux(filename, searchPath);
+                    if (findFileLinux(filename, searchPath)) {
+                        result = 1;
+                        break;
+                    }
                 }
                 // Or a file?
                 else if (dir->d_type == DT_REG) {
@@ -1614,15 +1617,8 @@ int cleanUpIconPath()
 
     tmpBuf = pathToIcon;
 
-// Get the tmp path.
-#ifdef WIN32
-    tmpDir = getenv("TEMP");
-#else
-    tmpDir = getenv("TMPDIR");
-    if (tmpDir == NULL) {
-        tmpDir = "/tmp";
-    }
-#endif
+    // Get the tmp path.
+    tmpDir = getTempStagingDirectory();
 
     // Point to icon path.
     ptr1 = tmpBuf;
-- 
2.43.0


From f8141316b3fd50268d2699d1a68f13d58aa5ced5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:40 +0000
Subject: [PATCH 24/42] fix: report directories the packaging tool could not
 read completely

---
 src/packagetool/utils.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 9858940..dbc8163 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -1050,7 +1050,7 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
     }
 
     if (result && (d = opendir(fullPath))) {
-        while ((dir = readdir(d)) != NULL && (result == 1)) {
+        while (result == 1 && (errno = 0, dir = readdir(d)) != NULL) {
             // The first two directories are always "." and "..".
             if (strcmp(dir->d_name, ".") != 0 &&
                 strcmp(dir->d_name, "..") != 0 &&
@@ -1088,6 +1088,11 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
                 }
             }
         }
+        if (result && errno != 0) {
+            printf("Failed to read directory %s: %s\n", fullPath,
+                   strerror(errno));
+            result = 0;
+        }
         closedir(d);
     } else {
         printf("Failed to open directory %s\n", searchPath);
@@ -1535,7 +1540,7 @@ int zipDirectoryLinux(struct zip_t *zip, char *path, char *archiveName,
 
     if ((d = opendir(searchPath))) {
         result = 1; // return 'success' for empty directory
-        while ((dir = readdir(d)) != NULL) {
+        while ((errno = 0, dir = readdir(d)) != NULL) {
             // The first two directories are always "." and "..".
             if (strcmp(dir->d_name, ".") != 0 &&
                 strcmp(dir->d_name, "..") != 0) {
@@ -1589,6 +1594,10 @@ int zipDirectoryLinux(struct zip_t *zip, char *path, char *archiveName,
                 }
             }
         }
+        if (dir == NULL && errno != 0) {
+            printf("Failed to read directory %s: %s\n", path, strerror(errno));
+            result = 0;
+        }
         closedir(d);
     } else {
         printf("Failed to open directory %s\n", searchPath);
@@ -1993,7 +2002,7 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
     // printf("searchPath: %s\n", searchPath);
 
     if ((d = opendir(searchPath))) {
-        while ((dir = readdir(d)) != NULL) {
+        while ((errno = 0, dir = readdir(d)) != NULL) {
             // The first two directories are always "." and "..".
             if (strcmp(dir->d_name, ".") != 0 &&
                 strcmp(dir->d_name, "..") != 0 &&
@@ -2041,6 +2050,11 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
                 }
             }
         }
+        if (dir == NULL && errno != 0) {
+            printf("Failed to read directory %s: %s\n", fromPath,
+                   strerror(errno));
+            result = 0;
+        }
         closedir(d);
     } else {
         printf("Failed to open directory %s\n", searchPath);
-- 
2.43.0


From b9c5f0ac5edff864fcaf0514972a81f2151658db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:40 +0000
Subject: [PATCH 25/42] fix: report paths that are too long for the packaging
 tool

---
 src/packagetool/utils.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index dbc8163..25bf658 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -1362,7 +1362,11 @@ int createZipArchive()
 
     // Get last folder name in library path. This will
     // be the name of the archive.
-    snprintf(archiveName, MAX_STRING, "%s.mol", getLibraryName());
+    if (snprintf(archiveName, MAX_STRING, "%s.mol", getLibraryName()) >=
+        MAX_STRING) {
+        printf("Error: The library name %s is too long.\n", getLibraryName());
+        return 0;
+    }
 
     // Is library encrypted. If so, don't put the .mo-files in the archive.
     if (usingEncryption()) {
@@ -1997,7 +2001,11 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
     char folderName[MAX_PATH_LENGTH];
 
     // Find all.
-    snprintf(searchPath, MAX_PATH_LENGTH, "%s", fromPath);
+    if (snprintf(searchPath, MAX_PATH_LENGTH, "%s", fromPath) >=
+        MAX_PATH_LENGTH) {
+        printf("Error: The path %s is too long.\n", fromPath);
+        return 0;
+    }
 
     // printf("searchPath: %s\n", searchPath);
 
@@ -2017,6 +2025,16 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
                              dir->d_name);
                 }
 
+                if (strlen(fromPath) + strlen(dir->d_name) + 2 >
+                        MAX_PATH_LENGTH ||
+                    strlen(toPath) + strlen(dir->d_name) + 2 >
+                        MAX_PATH_LENGTH) {
+                    printf("Error: The path of %s in %s is too long.\n",
+                           dir->d_name, fromPath);
+                    result = 0;
+                    break;
+                }
+
                 // Have we found a folder?
                 if (dir->d_type == DT_DIR) {
 
-- 
2.43.0


From 8191fb2f3f6deccc25acfce28c26faa0999ae9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:02 +0000
Subject: [PATCH 26/42] fix: package libraries on file systems that do not give
 the type of directory entries

---
 src/packagetool/utils.c | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 25bf658..d43827f 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -442,6 +442,26 @@ int createLibraryFolder()
     return 1;
 }
 
+#if defined linux || defined DARWIN
+/*****************************************************
+ * Get the type of a directory entry. Asks for it if the
+ * file system does not give it with the entry.
+ ****************************************************/
+static int entryType(const char *path, const struct dirent *dir)
+{
+    struct stat info;
+
+    if (dir->d_type != DT_UNKNOWN) {
+        return dir->d_type;
+    }
+    if (lstat(path, &info) != 0) {
+        return DT_UNKNOWN;
+    }
+    return S_ISDIR(info.st_mode) ? DT_DIR
+                                 : (S_ISREG(info.st_mode) ? DT_REG : DT_UNKNOWN);
+}
+#endif
+
 #ifndef WIN32
 /*****************************************
  * Copy file permissions from file.
@@ -1019,6 +1039,7 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
     struct dirent *dir;
     char fullPath[MAX_PATH_LENGTH + 1];
     char searchPath[MAX_PATH_LENGTH + 1];
+    char entryPath[2 * MAX_PATH_LENGTH + 2];
     size_t path_len = 0;
     mlle_cr_context *context = context_in;
     int packageEncrypted = 0;
@@ -1070,8 +1091,11 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
                              dir->d_name);
                 }
 
+                snprintf(entryPath, sizeof(entryPath), "%s/%s", topLevelPath,
+                         searchPath);
+
                 // Have we found a folder?
-                if (dir->d_type == DT_DIR) {
+                if (entryType(entryPath, dir) == DT_DIR) {
                     // Use recursive to check the folder we found.
                     if (!encryptDirectoryLinux(topLevelPath, searchPath,
                                                context)) {
@@ -1080,7 +1104,7 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
                     }
                 }
                 // Or a file?
-                else if (dir->d_type == DT_REG) {
+                else if (entryType(entryPath, dir) == DT_REG) {
                     // Encrypt Modelica files.
                     if (isModelicaFile(dir->d_name)) {
                         result = encryptFile(context, topLevelPath, searchPath);
@@ -1140,7 +1164,7 @@ int findFileLinux(const char *filename, const char *path)
                 }
 
                 // Have we found a folder?
-                if (dir->d_type == DT_DIR) {
+                if (entryType(searchPath, dir) == DT_DIR) {
                     // Use recursive to check the folder we found.
                     if (findFileLinux(filename, searchPath)) {
                         result = 1;
@@ -1148,7 +1172,7 @@ int findFileLinux(const char *filename, const char *path)
                     }
                 }
                 // Or a file?
-                else if (dir->d_type == DT_REG) {
+                else if (entryType(searchPath, dir) == DT_REG) {
                     // Find a specific file.
                     if (strcmp(dir->d_name, filename) == 0) {
                         if (pathToIcon == NULL) {
@@ -1561,7 +1585,7 @@ int zipDirectoryLinux(struct zip_t *zip, char *path, char *archiveName,
                 // printf("zip: searchpath: %s\n", searchPath);
 
                 // Have we found a folder?
-                if (dir->d_type == DT_DIR) {
+                if (entryType(searchPath, dir) == DT_DIR) {
                     // Use recursive to check the folder we found.
                     result = zipDirectoryLinux(zip, searchPath, archiveName,
                                                encrypted);
@@ -1570,7 +1594,7 @@ int zipDirectoryLinux(struct zip_t *zip, char *path, char *archiveName,
                     }
                 }
                 // Or a file?
-                else if (dir->d_type == DT_REG) {
+                else if (entryType(searchPath, dir) == DT_REG) {
                     // -----------------------------------------------------------------
                     // Only add file to archive when:
                     // 1. Files are not encrypted.
@@ -2036,7 +2060,7 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
                 }
 
                 // Have we found a folder?
-                if (dir->d_type == DT_DIR) {
+                if (entryType(searchPath, dir) == DT_DIR) {
 
                     snprintf(searchPathTo, MAX_PATH_LENGTH, "%s/%s", toPath,
                              dir->d_name);
@@ -2056,7 +2080,7 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
                     }
                 }
                 // Or a file?
-                else if (dir->d_type == DT_REG) {
+                else if (entryType(searchPath, dir) == DT_REG) {
                     // printf("Filnamn: %s\n", dir->d_name);
 
                     // file in new location.
-- 
2.43.0


From 06872f86b4fbedbb3112f475c3adff7c7c495182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:02 +0000
Subject: [PATCH 27/42] fix: report a manifest that could not be written

---
 src/packagetool/manifest.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/packagetool/manifest.c b/src/packagetool/manifest.c
index 5b652b9..048acc8 100644
--- a/src/packagetool/manifest.c
+++ b/src/packagetool/manifest.c
@@ -183,12 +183,18 @@ int createManifestFile()
 {
     char *path = NULL;
     char pathAndFile[MAX_PATH_LENGTH + 1];
+    int failed = 0;
 
     // Add filename to path to .library.
     path = getDotLibraryPath();
     snprintf(pathAndFile, MAX_PATH_LENGTH + 1, "%s/manifest.xml", path);
 
     fd = fopen(pathAndFile, "w");
+    if (fd == NULL)
+    {
+        printf("Error: Failed to create file %s.\n", pathAndFile);
+        return 0;
+    }
 
     // Add data to file.
     xml_init();
@@ -200,7 +206,12 @@ int createManifestFile()
     addDependencies();
     addFooter();
 
-    fclose(fd);
+    failed = ferror(fd);
+    if (fclose(fd) != 0 || failed)
+    {
+        printf("Error: Failed to write file %s.\n", pathAndFile);
+        return 0;
+    }
     return 1;
 }
 
-- 
2.43.0


From 50a5989ec2a09d8484f46767f2d76f2dc7d19519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:17 +0000
Subject: [PATCH 28/42] fix: copy the tool and dependency lists completely to
 the manifest

---
 src/packagetool/manifest.c | 60 +++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/src/packagetool/manifest.c b/src/packagetool/manifest.c
index 048acc8..074c0e8 100644
--- a/src/packagetool/manifest.c
+++ b/src/packagetool/manifest.c
@@ -39,6 +39,8 @@ static int xml_indent;
 static int xml_in_attributes;
 /* Current XML generation state, true means we are have just printed a newline. */
 static int xml_on_new_line;
+/* True means that a file could not be copied to the output file. */
+static int copyFailed;
 
 #define XML_INDENT_STR "\t"
 
@@ -197,6 +199,7 @@ int createManifestFile()
     }
 
     // Add data to file.
+    copyFailed = 0;
     xml_init();
     addHeader();
     addLibraryHeader();
@@ -206,7 +209,7 @@ int createManifestFile()
     addDependencies();
     addFooter();
 
-    failed = ferror(fd);
+    failed = copyFailed || ferror(fd);
     if (fclose(fd) != 0 || failed)
     {
         printf("Error: Failed to write file %s.\n", pathAndFile);
@@ -453,38 +456,43 @@ char *extractPlatform(char *fileName)
 void copyFileInformation(char *path)
 {
     FILE *xmlfile;
-    char ch;
-    int index = 0;
+    int ch;
+    int last = '\n';
     int firstLine = 1;
-    char lineBuffer[200] = {'\0'};
 
-    if ( (xmlfile = fopen(path, "r")))
+    if ( (xmlfile = fopen(path, "r")) == NULL)
     {
-        ch = getc(xmlfile);
+        printf("Error: Failed to open file %s.\n", path);
+        copyFailed = 1;
+        return;
+    }
 
-        while (ch != EOF)
+    while ((ch = getc(xmlfile)) != EOF)
+    {
+        // Skip first line in the file.
+        if (!firstLine)
         {
-            if (ch != '\n')
-            {
-                lineBuffer[index] = ch;
-                ++index;
-            }
-            else
-            {
-                // Skip first line in the file.
-                if (!firstLine)
-                {
-                    add_xml_indent();
-                    fprintf(fd, "%s\n", lineBuffer);
-                }
-
-                memset(&lineBuffer[0], 0, sizeof(lineBuffer));
-                index = 0;
-                firstLine = 0;
-            }
-            ch = getc(xmlfile);
+            add_xml_indent();
+            putc(ch, fd);
+            last = ch;
+        }
+        else if (ch == '\n')
+        {
+            firstLine = 0;
         }
     }
+
+    if (ferror(xmlfile))
+    {
+        printf("Error: Failed to read file %s.\n", path);
+        copyFailed = 1;
+    }
     fclose(xmlfile);
+
+    // End the last line, if that is missing in the file.
+    if (last != '\n')
+    {
+        putc('\n', fd);
+    }
     xml_on_new_line = 1;
 }
-- 
2.43.0


From 2d0be5d72aaf438aaaf3638e4fd58dc97d5b7108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:17 +0000
Subject: [PATCH 29/42] fix: accept only packaging tool options that start with
 a dash

---
 src/packagetool/arguments.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/packagetool/arguments.c b/src/packagetool/arguments.c
index 1bca204..2421b42 100644
--- a/src/packagetool/arguments.c
+++ b/src/packagetool/arguments.c
@@ -213,10 +213,9 @@ int validateArguments(int noOfArguments, char **arguments)
     for (i = 1; i < noOfArguments; i++)
     {
         ptr = arguments[i];
-        ++ptr;
 
         // Is the argument valid.
-        if (ptr && *ptr && lookupArgument(ptr))
+        if (*ptr == '-' && lookupArgument(++ptr))
         {
             // Safety check. If user trying to add an argument twice.
             if (containsKey(ptr))
-- 
2.43.0


From 0deeb2ec40dbb2dd720f3ef3016c0a5a87be2ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:10 +0000
Subject: [PATCH 30/42] fix: embed random keys with carriage return bytes and
 text keys without stale bytes

---
 src/embedfile/obfuscate_utils.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/embedfile/obfuscate_utils.c b/src/embedfile/obfuscate_utils.c
index 32046bd..053c07d 100644
--- a/src/embedfile/obfuscate_utils.c
+++ b/src/embedfile/obfuscate_utils.c
@@ -70,16 +70,15 @@ void create_header_file(char* name, key_type type, unsigned char *data, size_t l
     size_t i = 0, j = 0;
     FILE *out = NULL;
 
-    /* Remove \r from the string to support windows generated pem files */
+    /* Remove \r from the string to support windows generated pem files, but keep random keys as they are */
     for (; i < len; ++i) {
-        if (data[i] == '\r')
+        if (data[i] == '\r' && type != ENCRYPT)
             continue;
         if (i != j)
             data[j] = data[i];
         ++j;
     }
-    if (j < len)
-        data[j] = 0;
+    len = j;
 
     out = open_or_exit(filename, "wb");
 
-- 
2.43.0


From ce9685f823b827f7926046f2611bdb7cc4a638ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:10 +0000
Subject: [PATCH 31/42] fix: report unreadable key files and unwritable headers
 instead of crashing or ignoring them

---
 src/embedfile/obfuscate.c       | 2 +-
 src/embedfile/obfuscate_utils.c | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/embedfile/obfuscate.c b/src/embedfile/obfuscate.c
index ca397fe..82fd421 100644
--- a/src/embedfile/obfuscate.c
+++ b/src/embedfile/obfuscate.c
@@ -131,7 +131,7 @@ void read_file(char* file, char** buf, size_t* len) {
     // Get size of file.
     staterr = stat(file, &fileInfo);
     if (staterr != 0) {
-        fprintf(stderr, "Could not get info on %s\n", *file);
+        fprintf(stderr, "Could not get info on %s\n", file);
         fprintf(stderr, "ERROR [%d] %s", staterr, strerror(staterr));
         exit(1);
     }
diff --git a/src/embedfile/obfuscate_utils.c b/src/embedfile/obfuscate_utils.c
index 053c07d..2085274 100644
--- a/src/embedfile/obfuscate_utils.c
+++ b/src/embedfile/obfuscate_utils.c
@@ -94,5 +94,10 @@ void create_header_file(char* name, key_type type, unsigned char *data, size_t l
 
     write_header_extra(out, type);
 
-    fclose(out);
+    i = ferror(out);
+    if (fclose(out) != 0 || i)
+    {
+        fprintf(stderr, "Could not write file '%s'.", filename);
+        exit(1);
+    }
 }
-- 
2.43.0


From 300424bb1695dfc636858498eb2a83700b676e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:23 +0000
Subject: [PATCH 32/42] fix: release the licenses when the tool ends without
 closing the connection

---
 src/lve/mlle_lve.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lve/mlle_lve.c b/src/lve/mlle_lve.c
index 580668a..b7f72c2 100644
--- a/src/lve/mlle_lve.c
+++ b/src/lve/mlle_lve.c
@@ -19,6 +19,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <errno.h>
+#include <signal.h>
 /* libcrypto-compat.h must be first */
 #include "libcrypto-compat.h"
 
@@ -287,6 +288,10 @@ void mlle_lve_init(struct mlle_lve_ctx *lve_ctx)
 #ifdef _WIN32
     _setmode(_fileno(lve_ctx->in_stream), _O_BINARY);
     _setmode(_fileno(lve_ctx->out_stream), _O_BINARY);
+#else
+    // Writing to a tool that has ended must not terminate the LVE before it
+    // has released its licenses.
+    signal(SIGPIPE, SIG_IGN);
 #endif
 }
 
-- 
2.43.0


From edaf0e311b9f1e94e05e78d48e9adf514c4322bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:23 +0000
Subject: [PATCH 33/42] fix: do not let LVEs inherit the connections to other
 LVEs

---
 src/tool/mlle_spawn_posix.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tool/mlle_spawn_posix.c b/src/tool/mlle_spawn_posix.c
index d1cd18f..40c9ec8 100644
--- a/src/tool/mlle_spawn_posix.c
+++ b/src/tool/mlle_spawn_posix.c
@@ -21,6 +21,7 @@
 #include <sys/types.h>
 #include <unistd.h>
 #include <errno.h>
+#include <fcntl.h>
 #include <signal.h>
 #include <string.h>
 #include "mlle_types.h"
@@ -74,6 +75,11 @@ mlle_spawn(const char *exec_name,
         return NULL;
     }
 
+    // Otherwise LVEs that are started later would keep the connection open
+    // after the tool has closed it.
+    fcntl(parent_to_child_pipe_fd[PIPE_WRITE_INDEX], F_SETFD, FD_CLOEXEC);
+    fcntl(child_to_parent_pipe_fd[PIPE_READ_INDEX], F_SETFD, FD_CLOEXEC);
+
     // Writing to an LVE that has died must be reported as an error instead
     // of terminating the tool, unless the tool has its own signal handling.
     if (sigaction(SIGPIPE, NULL, &pipe_action) == 0 && !(pipe_action.sa_flags & SA_SIGINFO)
-- 
2.43.0


From 1efce143c46074db74346384386af6e6f61ff419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:04 +0000
Subject: [PATCH 34/42] fix: measure the library file that was opened, not one
 that replaced it

---
 src/common/mlle_io.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/mlle_io.c b/src/common/mlle_io.c
index 905234c..183eb96 100644
--- a/src/common/mlle_io.c
+++ b/src/common/mlle_io.c
@@ -124,8 +124,11 @@ char *mlle_io_read_file(const char *file_path, size_t *file_size,
 #endif
     }
 
+#ifndef _WIN32
+    /* The size of the file that was opened, even if it has been replaced. */
+    status = fstat(fileno(file), &stat_info);
+#else
     status = stat(file_path, &stat_info);
-#ifdef _WIN32
     // stat cannot handle \\?\ prefix on Windows
     if ((status == -1) && (fseek(file, 0, SEEK_END) == 0)) {
         long int pos = ftell(file);
-- 
2.43.0


From 3676ef816fc8e1598589a5b0eff98ba69210a756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:05 +0000
Subject: [PATCH 35/42] fix: close library files that cannot be measured or
 held

---
 src/common/mlle_io.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/mlle_io.c b/src/common/mlle_io.c
index 183eb96..2c032dc 100644
--- a/src/common/mlle_io.c
+++ b/src/common/mlle_io.c
@@ -145,6 +145,7 @@ char *mlle_io_read_file(const char *file_path, size_t *file_size,
             error, 1, 1,
             "Couldn't find file size for %s. The error message was: %s",
             file_path, strerror(errno));
+        fclose(file);
         return NULL;
     }
     size = stat_info.st_size;
@@ -153,6 +154,7 @@ char *mlle_io_read_file(const char *file_path, size_t *file_size,
     if (file_buffer == NULL) {
         mlle_error_set(error, 1, 1, "Couldn't allocate memory to read file: %s",
                        file_path);
+        fclose(file);
         return NULL;
     }
 
-- 
2.43.0


From 87f29c898deffe1b177ab8646c908187ff731ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:08 +0000
Subject: [PATCH 36/42] fix: answer a request for a file that is too large to
 be sent with an error

---
 src/common/mlle_io.c    | 12 +++++++-----
 src/common/mlle_io.h    |  4 ++--
 src/common/mlle_ssl.c   |  6 ++++++
 src/lve/mlle_lve_file.c | 16 ++++++++++------
 4 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/common/mlle_io.c b/src/common/mlle_io.c
index 2c032dc..0b9cac8 100644
--- a/src/common/mlle_io.c
+++ b/src/common/mlle_io.c
@@ -211,11 +211,12 @@ int mlle_send_number_form(SSL *ssl, enum mlle_protocol_command_id command_id,
     return result;
 }
 
-void mlle_send_length_form(SSL *ssl, enum mlle_protocol_command_id command_id,
-                           size_t length, // Length of data.
-                           const char *data)
+int mlle_send_length_form(SSL *ssl, enum mlle_protocol_command_id command_id,
+                          size_t length, // Length of data.
+                          const char *data)
 {
     int print_result = 0;
+    int result = -1;
     size_t message_length = 0;
     char *output = NULL;
     size_t output_length;
@@ -224,7 +225,7 @@ void mlle_send_length_form(SSL *ssl, enum mlle_protocol_command_id command_id,
     output_length = NUMBER_FORM_BUFFER_SIZE + length + 1;
     output = malloc(output_length);
     if (output == NULL) {
-        return;
+        return -1;
     }
 
     // Add command and length to array.
@@ -237,11 +238,12 @@ void mlle_send_length_form(SSL *ssl, enum mlle_protocol_command_id command_id,
         message_length = length + print_result;
 
         // Send array
-        ssl_write_message(ssl, output, message_length);
+        result = ssl_write_message(ssl, output, message_length);
     }
 
     memset(output, 0, message_length);
     free(output);
+    return result;
 }
 
 void mlle_send_string(SSL *ssl, enum mlle_protocol_command_id command_id,
diff --git a/src/common/mlle_io.h b/src/common/mlle_io.h
index c47d45b..bc278d9 100644
--- a/src/common/mlle_io.h
+++ b/src/common/mlle_io.h
@@ -64,8 +64,8 @@ void mlle_send_simple_form(SSL *ssl, enum mlle_protocol_command_id command_id);
 int mlle_send_number_form(SSL *ssl, enum mlle_protocol_command_id command_id,
                           long number);
 
-void mlle_send_length_form(SSL *ssl, enum mlle_protocol_command_id command_id,
-                           size_t length, const char *data);
+int mlle_send_length_form(SSL *ssl, enum mlle_protocol_command_id command_id,
+                          size_t length, const char *data);
 
 void mlle_send_string(SSL *ssl, enum mlle_protocol_command_id command,
                       const char *string);
diff --git a/src/common/mlle_ssl.c b/src/common/mlle_ssl.c
index 558efdf..02e2918 100644
--- a/src/common/mlle_ssl.c
+++ b/src/common/mlle_ssl.c
@@ -23,6 +23,7 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <limits.h>
 #include <string.h>
 /* libcrypto-compat.h must be first */
 #include "libcrypto-compat.h"
@@ -267,6 +268,11 @@ int ssl_write_message(SSL *ssl, char *message, size_t len)
     int errorCode = 0;
     char error[SSL_ERROR_BUF_LEN];
 
+    // SSL_write takes an int; longer messages cannot be sent.
+    if (len > INT_MAX) {
+        return -1;
+    }
+
     while ((bytes = SSL_write(ssl, message, (int)len)) < 0)
     {
         errorCode = SSL_get_error(ssl, bytes);        
diff --git a/src/lve/mlle_lve_file.c b/src/lve/mlle_lve_file.c
index e77adf8..a3cff1f 100644
--- a/src/lve/mlle_lve_file.c
+++ b/src/lve/mlle_lve_file.c
@@ -59,6 +59,7 @@ mlle_lve_file(struct mlle_lve_ctx *lve_ctx,
     char *file_out_buffer = NULL;
     struct mlle_error *error = NULL;
     char *file_extension;
+    const char *data = NULL;
     int decrypted_size = 0;
 
     if (!lve_ctx->tool_approved) {
@@ -119,14 +120,17 @@ mlle_lve_file(struct mlle_lve_ctx *lve_ctx,
             goto CLEANUP;
         }
         file_size = decrypted_size;
-        /* Send file data. */
-        mlle_send_length_form(lve_ctx->ssl, MLLE_PROTOCOL_FILECONT_CMD,
-            file_size, file_out_buffer);
+        data = file_out_buffer;
     }
     else {
-        /* Send file data. */
-        mlle_send_length_form(lve_ctx->ssl, MLLE_PROTOCOL_FILECONT_CMD,
-            file_size, file_buffer);
+        data = file_buffer;
+    }
+
+    /* Send file data. */
+    if (mlle_send_length_form(lve_ctx->ssl, MLLE_PROTOCOL_FILECONT_CMD,
+            file_size, data) < 0) {
+        error_code = MLLE_PROTOCOL_OTHER_ERROR;
+        error_msg = "Could not send the file.";
     }
 
 
-- 
2.43.0


From 2215057d9b6220388d52332fbbaedfb200517bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:09 +0000
Subject: [PATCH 37/42] fix: release the error message of a file that is too
 large to be decrypted

---
 src/lve/mlle_lve_file.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lve/mlle_lve_file.c b/src/lve/mlle_lve_file.c
index a3cff1f..41aef8a 100644
--- a/src/lve/mlle_lve_file.c
+++ b/src/lve/mlle_lve_file.c
@@ -102,6 +102,7 @@ mlle_lve_file(struct mlle_lve_ctx *lve_ctx,
         file_out_buffer = malloc(file_size + 1);
         if (file_out_buffer == NULL) {
             error_code = MLLE_PROTOCOL_OTHER_ERROR;
+            decrypted_size = -1;
             error_msg = malloc(100 + path_size);
             if (error_msg != NULL) {
                 snprintf(error_msg, 100 + path_size, "Could not allocate memory to decrypt file %s.", file_path);
-- 
2.43.0


From 269d25ae26df3313c7f67e59acec9b971e2e5fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:11 +0000
Subject: [PATCH 38/42] fix: release the data of refused and unexpected replies
 in the tool

---
 src/tool/mlle_licensing.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tool/mlle_licensing.c b/src/tool/mlle_licensing.c
index b6b3cf7..c7f86b2 100644
--- a/src/tool/mlle_licensing.c
+++ b/src/tool/mlle_licensing.c
@@ -126,6 +126,8 @@ mlle_expect_command(SSL *ssl,
                 "Unexpected command. Expected command %s, but got command %s.",
                 mlle_command_info[expected_command_id].name,
                 mlle_command_info[command->id].name);
+        free(command->data);
+        command->data = NULL;
         return 0;
     }
 
@@ -183,6 +185,8 @@ mlle_expect_commands(SSL *ssl,
         }
         mlle_error_set_literal(error, MLLE_ERROR_DOMAIN_TOOL, 1, err_msg);
         free(err_msg);
+        free(command->data);
+        command->data = NULL;
         return 0;
     }
 
@@ -308,6 +312,7 @@ int mlle_tool_feature(const struct mlle_connections *connections,
     } else if (command.id == MLLE_PROTOCOL_NO_CMD) {
         mlle_error_set(error, MLLE_ERROR_DOMAIN_TOOL, MLLE_TOOL_ERROR_NO_LICENSE,
                 "%s", command.data);
+        free(command.data);
         return 0;
     } else {
         /* Internal error. */
@@ -367,6 +372,7 @@ mlle_tool_license(const struct mlle_connections *connections,
     } else if (command.id == MLLE_PROTOCOL_NO_CMD) {
         mlle_error_set(error, MLLE_ERROR_DOMAIN_TOOL, MLLE_TOOL_ERROR_NO_LICENSE,
                 "%s", command.data);
+        free(command.data);
         return 0;
     } else {
         /* Internal error. */
@@ -414,6 +420,7 @@ mlle_tool_file(const struct mlle_connections *connections,
     file_contents = calloc(1, sizeof(*file_contents));
     if (file_contents == NULL) {
         mlle_error_set_literal(error, 1, 1, "Out of memory.");
+        free(command.data);
         return NULL;
     }
     file_contents->file_size = command.length;
-- 
2.43.0


From a8ca7d4cd95b8416e0b4dccbc6585c1127f89d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:15 +0000
Subject: [PATCH 39/42] fix: release the keys, certificate and context of a
 session in the tool

---
 src/common/mlle_ssl.c    |  8 ++++++--
 src/tool/mlle_ssl_tool.c | 10 +++++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/common/mlle_ssl.c b/src/common/mlle_ssl.c
index 02e2918..599a5c3 100644
--- a/src/common/mlle_ssl.c
+++ b/src/common/mlle_ssl.c
@@ -113,8 +113,10 @@ SSL_CTX* create_CTX(char *private_key, int mode)
     // Connect private key to CTX.
     if (SSL_CTX_use_RSAPrivateKey(ctx, rsa) == 0)
     {
+        RSA_free(rsa);
         return 0;
     }
+    RSA_free(rsa);
 
     return ctx;
 }
@@ -218,7 +220,7 @@ X509 *generate_X509(RSA *rsa)
 
     // Copy RSA to EVP_KEY.
     pkey = EVP_PKEY_new();
-    EVP_PKEY_assign_RSA(pkey, rsa);
+    EVP_PKEY_set1_RSA(pkey, rsa);
 
     x509 = X509_new();
 
@@ -244,9 +246,11 @@ X509 *generate_X509(RSA *rsa)
     // Sign the certificate with our key.
     if ( !X509_sign(x509, pkey, EVP_sha1()) )
     {
-        return NULL;
+        X509_free(x509);
+        x509 = NULL;
     }
 
+    EVP_PKEY_free(pkey);
     return x509;
 }
 
diff --git a/src/tool/mlle_ssl_tool.c b/src/tool/mlle_ssl_tool.c
index 9599e7d..58d6833 100644
--- a/src/tool/mlle_ssl_tool.c
+++ b/src/tool/mlle_ssl_tool.c
@@ -49,7 +49,7 @@ int ssl_setup_tool(struct mlle_connections **lve, struct mlle_error **error)
     BIO *bioWrite = NULL;
     BIO *bioRead = NULL;
     RSA *rsa = NULL;
-    X509 *x509;
+    X509 *x509 = NULL;
     int result = 0;
     DECLARE_PRIVATE_KEY_TOOL();
 
@@ -116,6 +116,14 @@ int ssl_setup_tool(struct mlle_connections **lve, struct mlle_error **error)
 cleanup:
     CLEAR_PRIVATE_KEY_TOOL();
 
+    // The SSL structure holds its own references.
+    X509_free(x509);
+    RSA_free(rsa);
+    SSL_CTX_free(ctx);
+    if (!result) {
+        SSL_free(ssl);
+    }
+
     return result;
 }
 
-- 
2.43.0


From c4f19deb6f7a83f629acabda2590c52c3ddeb057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:56 +0000
Subject: [PATCH 40/42] fix: remove the staging folder when packaging fails

---
 src/packagetool/packagetool.c | 5 +++++
 src/packagetool/utils.c       | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/packagetool/packagetool.c b/src/packagetool/packagetool.c
index ad10914..98ec68e 100644
--- a/src/packagetool/packagetool.c
+++ b/src/packagetool/packagetool.c
@@ -163,6 +163,11 @@ int main(int argc, char **argv)
 
     ret = doWork(argc, argv);
 
+    // Don't leave the copied source files behind when packaging failed.
+    if (ret > 1 && !deleteTemporaryStagingFolder()) {
+        printf("Failed to remove temporary files.\n");
+    }
+
     /* OpenSSL cleanup stuff. */
     EVP_cleanup();
     CRYPTO_cleanup_all_ex_data();
diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index d43827f..fadf31c 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -863,11 +863,11 @@ int removeFolder(const char *path)
 int deleteTemporaryStagingFolder()
 {
     // Don't do anyting if directory doesn't exist,
-    if (!fileExists(getTempStagingDirectory())) {
+    if (tempStagingFolder == NULL || !fileExists(tempStagingFolder)) {
         return 1;
     }
 
-    return !removeFolder(getTempStagingDirectory());
+    return !removeFolder(tempStagingFolder);
 }
 
 /******************************************************
-- 
2.43.0


From f5d389ec7a57d41c054dc015d26b1e5487d0eac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:44 +0000
Subject: [PATCH 41/42] fix: packagetool fails when the type of a directory
 entry cannot be told

---
 src/packagetool/utils.c | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index fadf31c..60d92a1 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -446,6 +446,7 @@ int createLibraryFolder()
 /*****************************************************
  * Get the type of a directory entry. Asks for it if the
  * file system does not give it with the entry.
+ * Returns -1 if it cannot be told.
  ****************************************************/
 static int entryType(const char *path, const struct dirent *dir)
 {
@@ -455,7 +456,9 @@ static int entryType(const char *path, const struct dirent *dir)
         return dir->d_type;
     }
     if (lstat(path, &info) != 0) {
-        return DT_UNKNOWN;
+        printf("Error: Failed to get the type of %s: %s\n", path,
+               strerror(errno));
+        return -1;
     }
     return S_ISDIR(info.st_mode) ? DT_DIR
                                  : (S_ISREG(info.st_mode) ? DT_REG : DT_UNKNOWN);
@@ -1037,6 +1040,7 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
 #if defined linux || defined DARWIN
     DIR *d;
     struct dirent *dir;
+    int type = 0;
     char fullPath[MAX_PATH_LENGTH + 1];
     char searchPath[MAX_PATH_LENGTH + 1];
     char entryPath[2 * MAX_PATH_LENGTH + 2];
@@ -1094,8 +1098,14 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
                 snprintf(entryPath, sizeof(entryPath), "%s/%s", topLevelPath,
                          searchPath);
 
+                type = entryType(entryPath, dir);
+                if (type < 0) {
+                    result = 0;
+                    break;
+                }
+
                 // Have we found a folder?
-                if (entryType(entryPath, dir) == DT_DIR) {
+                if (type == DT_DIR) {
                     // Use recursive to check the folder we found.
                     if (!encryptDirectoryLinux(topLevelPath, searchPath,
                                                context)) {
@@ -1104,7 +1114,7 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
                     }
                 }
                 // Or a file?
-                else if (entryType(entryPath, dir) == DT_REG) {
+                else if (type == DT_REG) {
                     // Encrypt Modelica files.
                     if (isModelicaFile(dir->d_name)) {
                         result = encryptFile(context, topLevelPath, searchPath);
@@ -1559,6 +1569,7 @@ int zipDirectoryLinux(struct zip_t *zip, char *path, char *archiveName,
 #if defined linux || defined DARWIN
     DIR *d;
     struct dirent *dir;
+    int type = 0;
     char searchPath[MAX_PATH_LENGTH + 1];
     char zipPath[MAX_PATH_LENGTH + 1] = {'\0'};
 
@@ -1584,8 +1595,14 @@ int zipDirectoryLinux(struct zip_t *zip, char *path, char *archiveName,
 
                 // printf("zip: searchpath: %s\n", searchPath);
 
+                type = entryType(searchPath, dir);
+                if (type < 0) {
+                    result = 0;
+                    break;
+                }
+
                 // Have we found a folder?
-                if (entryType(searchPath, dir) == DT_DIR) {
+                if (type == DT_DIR) {
                     // Use recursive to check the folder we found.
                     result = zipDirectoryLinux(zip, searchPath, archiveName,
                                                encrypted);
@@ -1594,7 +1611,7 @@ int zipDirectoryLinux(struct zip_t *zip, char *path, char *archiveName,
                     }
                 }
                 // Or a file?
-                else if (entryType(searchPath, dir) == DT_REG) {
+                else if (type == DT_REG) {
                     // -----------------------------------------------------------------
                     // Only add file to archive when:
                     // 1. Files are not encrypted.
@@ -2015,6 +2032,7 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
     DIR *d;
     struct stat info;
     struct dirent *dir;
+    int type = 0;
     char *data = NULL;
     int bytes = 0;
     long buffSize = 0;
@@ -2059,8 +2077,14 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
                     break;
                 }
 
+                type = entryType(searchPath, dir);
+                if (type < 0) {
+                    result = 0;
+                    break;
+                }
+
                 // Have we found a folder?
-                if (entryType(searchPath, dir) == DT_DIR) {
+                if (type == DT_DIR) {
 
                     snprintf(searchPathTo, MAX_PATH_LENGTH, "%s/%s", toPath,
                              dir->d_name);
@@ -2080,7 +2104,7 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
                     }
                 }
                 // Or a file?
-                else if (entryType(searchPath, dir) == DT_REG) {
+                else if (type == DT_REG) {
                     // printf("Filnamn: %s\n", dir->d_name);
 
                     // file in new location.
-- 
2.43.0


From 5892498f03d77d75eb8939d6d0a71b9d61329cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:45 +0000
Subject: [PATCH 42/42] fix: packagetool names the icon file that was given,
 not another of the same name

---
 src/packagetool/utils.c | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 60d92a1..8137a7a 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -682,6 +682,44 @@ int prepareIconFile()
     return 1;
 }
 
+#ifndef WIN32
+/*****************************************************
+ * Use the icon file that the given path names, if it is
+ * in the library: other files there may have its name.
+ * Returns 1 if it is, 0 otherwise.
+ ****************************************************/
+static int useGivenIconFile(const char *value)
+{
+    char libraryPath[PATH_MAX];
+    char iconPath[PATH_MAX];
+    struct stat info;
+    size_t len = 0;
+    size_t size = 0;
+
+    if (realpath(getValueOf("librarypath"), libraryPath) == NULL ||
+        realpath(value, iconPath) == NULL) {
+        return 0;
+    }
+    len = strlen(libraryPath);
+    if (strncmp(iconPath, libraryPath, len) != 0 || iconPath[len] != '/') {
+        return 0;
+    }
+
+    size = strlen(getCopiedSourcePath()) + strlen(iconPath + len) + 1;
+    pathToIcon = malloc(size);
+    if (pathToIcon == NULL) {
+        return 0;
+    }
+    snprintf(pathToIcon, size, "%s%s", getCopiedSourcePath(), iconPath + len);
+    if (lstat(pathToIcon, &info) == 0 && S_ISREG(info.st_mode)) {
+        return 1;
+    }
+    free(pathToIcon);
+    pathToIcon = NULL;
+    return 0;
+}
+#endif
+
 /*************************************************
  * Locate the icon file in the source directory.
  *************************************************/
@@ -708,7 +746,8 @@ int locateIconFile()
     // Result is always 1.
     result = findFileWin32(filename, getCopiedSourcePath());
 #else
-    result = findFileLinux(filename, getCopiedSourcePath());
+    result = useGivenIconFile(value) ||
+             findFileLinux(filename, getCopiedSourcePath());
 #endif
 
     // Abort if we didn't find the file.
-- 
2.43.0

